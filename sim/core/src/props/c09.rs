//! C09: a run resumed from a checkpoint equals one never interrupted.
//!
//! One to three contexts run programs over registers of every value type. At
//! chosen places a context exports its registers through one of the export
//! forms and writes them, word by word, to one of two slots of a simulated
//! disk. Power fails at a chosen scheduling point: the process really ends,
//! and only the disk survives. The next incarnation imports the newest
//! complete slot through import forms chosen independently and goes on. The
//! final registers must equal those of a run that neither stopped nor
//! exported. Unfinished slots, and slots damaged by the simulated disk, are
//! offered to the import forms first: they must be refused.

use crate::wl::*;
use micromath::num_traits::Num;
use micromath::statistics::{Mean, Variance};
use micromath::vector::{Component, F32x2, F32x3, Vector, Vector2d, Vector3d};
use micromath::{Quaternion, F32};
use mmrt::engine::{self, PropDef, Tuning};
use mmrt::rng::{mix, Rng};
use mmrt::scen::{Op, Scenario};
use mmrt::{rt, sys};

pub static DEF: PropDef = PropDef {
    id: "C09",
    gen,
    run,
    runs: (24_000, 700_000),
    counters: &[
        "mid_call_preemptions",
        "contexts_stopped_for_ever_in_mid_call",
        "shared_state_accesses",
        "blocked_futex_waits",
        "power_failures",
        "incarnations",
        "checkpoints_committed",
        "checkpoints_torn_by_a_power_failure",
        "registers_exported",
        "registers_restored",
        "restarts_from_a_checkpoint",
        "restarts_from_scratch",
        "stored_records_truncated",
        "stored_records_extended",
        "stored_texts_bit_flipped_or_cut",
        "damaged_records_refused",
        "damaged_texts_that_still_parse",
        "exact_widenings_checked",
    ],
    rule: "a case is one seeded run: 1 to 3 contexts run programs of up to 24 steps over 21 registers of all value types with checkpoints, power failing up to 3 times at any scheduling point, and disk damage; non-trivial when at least one context resumed from a checkpoint or was handed a damaged record; distinct by hash of switch points, crash points and values",
    describe,
    var_from: var_none,
};

const SET: u32 = 0;
const COMPUTE: u32 = 1;
const CHECKPOINT: u32 = 2;
/// A peer hands over its record of a register, damaged on the way.
const PEER: u32 = 4;
const NREGS: usize = 21;
const NCOMP: u64 = 34;

fn gen(r: &mut Rng, _t: Tuning) -> Scenario {
    let mut s = Scenario::default();
    let n = 1 + r.below(3) as usize;
    // cfg: crash points of the incarnations.
    for _ in 0..if r.chance(1, 6) { 0 } else { 1 + r.below(3) } {
        // After so many committed checkpoints (of any context), so many points.
        let c = if r.chance(1, 3) { 0 } else { 1 + r.below(4) };
        let m = *r.pick(&[800u64, 4000, 20_000]);
        s.cfg.push(c << 32 | if r.chance(1, 2) { 1 + r.below(m) } else { r.logu(m) });
    }
    // table: disk damage (incarnation, task, register, kind, where).
    if r.chance(1, 2) {
        for _ in 0..1 + r.below(3) {
            s.table.push(Op { code: 0, a: vec![1 + r.below(3), r.below(n as u64), if r.chance(1, 2) { r.below(4) } else { r.below(NREGS as u64) }, r.below(KINDS), r.u64() >> 16] });
        }
    }
    let text = r.chance(1, 2);
    for _ in 0..n {
        let mut v = vec![];
        let (m, first) = (2 + r.below(23), if r.chance(1, 2) { 1 + r.below(4) } else { 99 });
        for i in 0..m {
            if i == first {
                v.push(Op { code: CHECKPOINT, a: vec![r.u64() >> 8, r.u64() >> 8, text as u64] });
            }
            if r.chance(1, 16) {
                v.push(Op { code: PEER, a: vec![if r.chance(2, 3) { r.below(4) } else { r.below(NREGS as u64) }, r.below(KINDS), r.u64() >> 16, r.below(12)] });
            }
            match r.below(8) {
                0 | 1 | 2 => {
                    let k = r.below(NREGS as u64);
                    let mut a = vec![k];
                    for _ in 0..4 {
                        a.push(if k < 9 { fbits(r) } else { ibits(r) } as u64);
                    }
                    if (4..9).contains(&k) && r.chance(1, 3) {
                        // A direction or attitude: of unit length, exactly or nearly.
                        let u: Vec<f64> = (0..4).map(|_| r.unit() * 2.0 - 1.0).collect();
                        let m = [2, 3, 2, 3, 4][k as usize - 4];
                        let l = u[..m].iter().map(|x| x * x).sum::<f64>().sqrt().max(1e-3) * *r.pick(&[1.0, 1.0, 1.0 + 1e-6, 1.0 - 1e-4, 1.01]);
                        for i in 0..m {
                            a[1 + i] = ((u[i] / l) as f32).to_bits() as u64;
                        }
                    }
                    v.push(Op { code: SET, a });
                }
                3 => v.push(Op { code: CHECKPOINT, a: vec![r.u64() >> 8, r.u64() >> 8, text as u64] }),
                _ => v.push(Op { code: COMPUTE, a: vec![r.below(NCOMP), r.below(4), r.below(4), r.below(4)] }),
            }
        }
        s.tasks.push(v);
    }
    if n > 1 {
        s.sched = schedule(r, n, 60, false);
    }
    s
}

trait K: Component {
    fn of(w: u64) -> Self;
    fn w(self) -> u64;
}
macro_rules! ik { ($($t:ty),*) => { $( impl K for $t {
    fn of(w: u64) -> Self { w as $t }
    fn w(self) -> u64 { self as i64 as u64 }
} )* } }
ik!(i8, i16, i32, u8, u16, u32);
impl K for f32 {
    fn of(w: u64) -> Self {
        f32::from_bits(w as u32)
    }
    fn w(self) -> u64 {
        self.to_bits() as u64
    }
}
impl K for F32 {
    fn of(w: u64) -> Self {
        F32(f32::from_bits(w as u32))
    }
    fn w(self) -> u64 {
        self.0.to_bits() as u64
    }
}

/// A register type: its own words, and every way out and in.
trait Val: Copy {
    const N: usize;
    fn words(&self) -> [u64; 4];
    fn literal(w: &[u64]) -> Self;
    fn export(&self, e: u64) -> Vec<u64>;
    fn import(w: &[u64], e: u64, d: u64) -> Self;
    /// Import of a stored record whose number of words is wrong; None when
    /// the type has no import that sees the number.
    fn import_any(w: &[u64], d: u64) -> Option<Self>;
}
macro_rules! vval {
    ($v:ident, $n:expr, $tup:ty, $($f:ident $i:tt),*) => {
        impl<C: K> Val for $v<C> {
            const N: usize = $n;
            fn words(&self) -> [u64; 4] {
                let mut w = [0; 4];
                $( w[$i] = self.$f.w(); )*
                w
            }
            fn literal(w: &[u64]) -> Self { $v { $($f: C::of(w[$i])),* } }
            fn export(&self, e: u64) -> Vec<u64> {
                match e % 6 {
                    0 => self.to_array().iter().map(|c| c.w()).collect(),
                    1 => { let a: [C; $n] = (*self).into(); a.iter().map(|c| c.w()).collect() }
                    2 => { let t: $tup = (*self).into(); vec![$(t.$i.w()),*] }
                    3 => self.iter().map(|c| c.w()).collect(),
                    4 => vec![$(self.get($i).expect("an axis").w()),*],
                    _ => vec![$(self[$i].w()),*],
                }
            }
            fn import(w: &[u64], _e: u64, d: u64) -> Self {
                match d % 5 {
                    0 => Self::from([$(C::of(w[$i])),*]),
                    1 => { let t: $tup = ($(C::of(w[$i])),*); t.into() }
                    2 => w.iter().map(|x| C::of(*x)).collect(),
                    3 => { let v: Vec<C> = w.iter().map(|x| C::of(*x)).collect(); Self::from_slice(&v) }
                    _ => Self::literal(w),
                }
            }
            fn import_any(w: &[u64], d: u64) -> Option<Self> {
                let v: Vec<C> = w.iter().map(|x| C::of(*x)).collect();
                Some(if d % 2 == 0 { v.into_iter().collect() } else { Self::from_slice(&v) })
            }
        }
    };
}
vval!(Vector2d, 2, (C, C), x 0, y 1);
vval!(Vector3d, 3, (C, C, C), x 0, y 1, z 2);
impl Val for Quaternion {
    const N: usize = 4;
    fn words(&self) -> [u64; 4] {
        [self.w().w(), self.x().w(), self.y().w(), self.z().w()]
    }
    fn literal(w: &[u64]) -> Self {
        Quaternion::new(f32::of(w[0]), f32::of(w[1]), f32::of(w[2]), f32::of(w[3]))
    }
    fn export(&self, e: u64) -> Vec<u64> {
        match e % 4 {
            0 => self.to_array().iter().map(|c| c.w()).collect(),
            1 => <[f32; 4]>::from(*self).iter().map(|c| c.w()).collect(),
            2 => {
                let t: (f32, f32, f32, f32) = (*self).into();
                vec![t.0.w(), t.1.w(), t.2.w(), t.3.w()]
            }
            _ => self.words().to_vec(),
        }
    }
    fn import(w: &[u64], _e: u64, d: u64) -> Self {
        let f = [f32::of(w[0]), f32::of(w[1]), f32::of(w[2]), f32::of(w[3])];
        match d % 3 {
            0 => f.into(),
            1 => (f[0], f[1], f[2], f[3]).into(),
            _ => Self::literal(w),
        }
    }
    fn import_any(_w: &[u64], _d: u64) -> Option<Self> {
        None
    }
}
/// Text is stored as its length and its bytes.
const TEXT: u64 = 3;
fn text_of(w: &[u64]) -> String {
    String::from_utf8_lossy(&w.iter().map(|b| *b as u8).collect::<Vec<u8>>()).into_owned()
}
impl Val for F32 {
    const N: usize = 1;
    fn words(&self) -> [u64; 4] {
        [self.w(), 0, 0, 0]
    }
    fn literal(w: &[u64]) -> Self {
        F32::of(w[0])
    }
    fn export(&self, e: u64) -> Vec<u64> {
        let t = match e % 6 {
            0 => return vec![self.to_bits() as u64],
            1 => return vec![f32::from(*self).w()],
            2 => return vec![self.0.w()],
            3 => format!("{}", self),
            4 => format!("{:e}", self),
            _ => format!("{:E}", self),
        };
        t.bytes().map(|b| b as u64).collect()
    }
    fn import(w: &[u64], e: u64, d: u64) -> Self {
        if e % 6 >= TEXT {
            return text_of(w).parse().expect("a number");
        }
        match d % 3 {
            0 => F32::from_bits(w[0] as u32),
            1 => F32::from(f32::of(w[0])),
            _ => Self::literal(w),
        }
    }
    fn import_any(_w: &[u64], _d: u64) -> Option<Self> {
        None
    }
}

#[derive(Clone, Copy)]
struct Regs {
    f: [F32; 4],
    v2: Vector2d<f32>,
    v3: Vector3d<f32>,
    h2: Vector2d<F32>,
    h3: Vector3d<F32>,
    q: Quaternion,
    a8: Vector2d<i8>,
    a16: Vector2d<i16>,
    a32: Vector2d<i32>,
    b8: Vector2d<u8>,
    b16: Vector2d<u16>,
    b32: Vector2d<u32>,
    c8: Vector3d<i8>,
    c16: Vector3d<i16>,
    c32: Vector3d<i32>,
    d8: Vector3d<u8>,
    d16: Vector3d<u16>,
    d32: Vector3d<u32>,
}
impl Regs {
    fn new() -> Self {
        Regs {
            f: [F32(1.0); 4],
            v2: Default::default(),
            v3: Default::default(),
            h2: Default::default(),
            h3: Default::default(),
            q: Quaternion::default(),
            a8: Default::default(),
            a16: Default::default(),
            a32: Default::default(),
            b8: Default::default(),
            b16: Default::default(),
            b32: Default::default(),
            c8: Default::default(),
            c16: Default::default(),
            c32: Default::default(),
            d8: Default::default(),
            d16: Default::default(),
            d32: Default::default(),
        }
    }
}
const REG: [&str; NREGS] = [
    "F32 a", "F32 b", "F32 c", "F32 d", "F32x2", "F32x3", "Vector2d<F32>", "Vector3d<F32>", "Quaternion", "I8x2", "I16x2",
    "I32x2", "U8x2", "U16x2", "U32x2", "I8x3", "I16x3", "I32x3", "U8x3", "U16x3", "U32x3",
];
macro_rules! with_reg {
    ($r:expr, $k:expr, |$x:ident| $e:expr) => {
        match $k {
            0..=3 => { let $x = &mut $r.f[$k as usize]; $e }
            4 => { let $x = &mut $r.v2; $e }
            5 => { let $x = &mut $r.v3; $e }
            6 => { let $x = &mut $r.h2; $e }
            7 => { let $x = &mut $r.h3; $e }
            8 => { let $x = &mut $r.q; $e }
            9 => { let $x = &mut $r.a8; $e }
            10 => { let $x = &mut $r.a16; $e }
            11 => { let $x = &mut $r.a32; $e }
            12 => { let $x = &mut $r.b8; $e }
            13 => { let $x = &mut $r.b16; $e }
            14 => { let $x = &mut $r.b32; $e }
            15 => { let $x = &mut $r.c8; $e }
            16 => { let $x = &mut $r.c16; $e }
            17 => { let $x = &mut $r.c32; $e }
            18 => { let $x = &mut $r.d8; $e }
            19 => { let $x = &mut $r.d16; $e }
            _ => { let $x = &mut $r.d32; $e }
        }
    };
}
fn words_of(r: &mut Regs, k: usize) -> [u64; 4] {
    with_reg!(r, k, |x| x.words())
}
/// A float word with all NaNs made equal (k < 9: float registers).
fn canon_word(k: usize, w: u64) -> u64 {
    if k < 9 {
        canon(f32::of(w)) as u64
    } else {
        w
    }
}
fn state(r: &mut Regs) -> [[u64; 4]; NREGS] {
    let mut o = [[0; 4]; NREGS];
    for k in 0..NREGS {
        o[k] = words_of(r, k).map(|w| canon_word(k, w));
        if k >= 9 {
            continue;
        }
        let n = with_reg!(r, k, |x| nof(x));
        for w in o[k][n..].iter_mut() {
            *w = 0;
        }
    }
    o
}
fn nof<V: Val>(_: &V) -> usize {
    V::N
}

/// What survives a power failure.
const SLOT: usize = 1000;
#[repr(C)]
struct Slot {
    /// Words really stored.
    used: u64,
    w: [u64; SLOT],
    /// Program position, valid when committed.
    pos: u64,
    /// Sequence number, written last; 0: not committed.
    seq: u64,
    begun: u64,
}
#[repr(C)]
struct Disk {
    slot: [Slot; 2],
    done: u64,
    fin: [[u64; 4]; NREGS],
    twin: [[u64; 4]; NREGS],
}
#[repr(C)]
struct World {
    disk: [Disk; 4],
    hash: u64,
    steps: u64,
    shared: u64,
    switches: u64,
    crashed: u64,
}
static mut W: *mut World = std::ptr::null_mut();
static mut SCN: *const Scenario = std::ptr::null();
static mut INC: u64 = 0;
static mut TWIN: bool = false;
static mut TEXTUAL: bool = false;
static mut CRASH: u64 = 0;
static mut COMMITS: u64 = 0;

fn world() -> &'static mut World {
    unsafe { &mut *W }
}
fn inc() -> u64 {
    unsafe { INC }
}

fn widen_check(t: usize, what: &str, got: &[f32], want: &[f32]) {
    engine::count(17, 1);
    if got.iter().zip(want).any(|(a, b)| a.to_bits() != b.to_bits()) {
        engine::fail("C09.widening", &format!("task {}: {} of {:?} gave {:?}", t, what, want, got));
    }
}

fn compute(t: usize, r: &mut Regs, o: &Op) {
    let mut m = *r;
    let g = |i: usize| o.a.get(i).copied().unwrap_or(0) as usize & 3;
    let (a, b, c) = (g(1), g(2), g(3));
    let j = o.a.first().copied().unwrap_or(0) % NCOMP;
    let s = *r;
    let got = lib(LOOSE, || match j {
        0 => m.f[a] = s.f[b] + s.f[c],
        1 => m.f[a] = s.f[b] * s.f[c] - s.f[a],
        2 => m.f[a] = s.f[b].sin(),
        3 => m.f[a] = s.f[b].abs().sqrt(),
        4 => m.f[a] = s.f[b].atan2(s.f[c]),
        5 => m.f[a] = s.f[b].copysign(s.f[c]),
        6 => m.f[a] = s.f[b].fract() + s.f[c].floor(),
        7 => m.f[a] /= s.f[b],
        8 => m.f[a] = s.f[b].div_euclid(s.f[c]),
        9 => m.v3 += F32x3::from(s.h3),
        10 => m.v3 = s.v3 * Vector3d::from(s.v2),
        11 => m.v2 = F32x2::from(s.a8),
        12 => m.v2 = F32x2::from(s.a16),
        13 => m.v2 = F32x2::from(s.b8),
        14 => m.v2 = F32x2::from(s.b16),
        15 => m.v3 = F32x3::from(s.c8),
        16 => m.v3 = F32x3::from(s.c16),
        17 => m.v3 = F32x3::from(s.d8),
        18 => m.v3 = F32x3::from(s.d16),
        19 => m.q = s.q * Quaternion::new(s.f[0].0, s.f[1].0, s.f[2].0, s.f[3].0),
        20 => m.q = s.q.normalize(),
        21 => m.v3 = s.q.rotate(s.v3),
        22 => m.q = Quaternion::from_two_vectors(s.v3, F32x3::from(s.h3)),
        23 => m.q = Quaternion::from(s.c16),
        24 => m.h3 = s.v3.iter().map(F32).collect(),
        25 => m.f[a] = F32(s.v3.magnitude()) + s.v2.distance(F32x2::from(s.a16)),
        26 => m.c32 = Vector3d::from(s.a32),
        27 => m.f[a] = F32::from([s.a8.x, s.a8.y][b & 1]),
        28 => m.f[a] = F32::from([s.b16.x, s.b16.y][b & 1]),
        29 => m.v2 = s.v2.normalized(),
        30 => m.f[a] = F32([s.f[0].0, s.f[1].0, s.v2.x, s.v3.z].iter().copied().mean()),
        31 => m.f[a] = F32([s.f[2].0, s.f[3].0, s.v2.y].as_ref().variance()),
        32 => {
            m.f[a] = F32::from([s.a16.x, s.a16.y][b & 1]);
            m.f[(a + 1) & 3] = F32::from([s.b8.x, s.b8.y][b & 1]);
        }
        _ => m.q = Quaternion::axis_angle(s.v3, s.f[a].0),
    });
    if let Got::Panic(_) = got {
        // A failed computation leaves the registers alone.
        rt::note(0xfa11);
        return;
    }
    *r = m;
    match j {
        11 => widen_check(t, "I8x2 to F32x2", &[m.v2.x, m.v2.y], &[s.a8.x as f32, s.a8.y as f32]),
        12 => widen_check(t, "I16x2 to F32x2", &[m.v2.x, m.v2.y], &[s.a16.x as f32, s.a16.y as f32]),
        13 => widen_check(t, "U8x2 to F32x2", &[m.v2.x, m.v2.y], &[s.b8.x as f32, s.b8.y as f32]),
        14 => widen_check(t, "U16x2 to F32x2", &[m.v2.x, m.v2.y], &[s.b16.x as f32, s.b16.y as f32]),
        15 => widen_check(t, "I8x3 to F32x3", &[m.v3.x, m.v3.y, m.v3.z], &[s.c8.x as f32, s.c8.y as f32, s.c8.z as f32]),
        16 => widen_check(t, "I16x3 to F32x3", &[m.v3.x, m.v3.y, m.v3.z], &[s.c16.x as f32, s.c16.y as f32, s.c16.z as f32]),
        17 => widen_check(t, "U8x3 to F32x3", &[m.v3.x, m.v3.y, m.v3.z], &[s.d8.x as f32, s.d8.y as f32, s.d8.z as f32]),
        18 => widen_check(t, "U16x3 to F32x3", &[m.v3.x, m.v3.y, m.v3.z], &[s.d16.x as f32, s.d16.y as f32, s.d16.z as f32]),
        23 => widen_check(t, "I16x3 to Quaternion", &m.q.to_array(), &[0.0, s.c16.x as f32, s.c16.y as f32, s.c16.z as f32]),
        26 => widen_check(t, "I32x2 to I32x3", &[m.c32.x as f32, m.c32.y as f32, m.c32.z as f32], &[s.a32.x as f32, s.a32.y as f32, 0.0]),
        27 => widen_check(t, "i8 to F32", &[m.f[a].0], &[[s.a8.x, s.a8.y][b & 1] as f32]),
        28 => widen_check(t, "u16 to F32", &[m.f[a].0], &[[s.b16.x, s.b16.y][b & 1] as f32]),
        32 => widen_check(t, "i16 and u8 to F32", &[m.f[a].0, m.f[(a + 1) & 3].0], &[[s.a16.x, s.a16.y][b & 1] as f32, [s.b8.x, s.b8.y][b & 1] as f32]),
        _ => {}
    }
}

fn same_words(k: usize, text: bool, a: &[u64], b: &[u64]) -> bool {
    // Text does not carry a NaN's payload.
    a.iter().zip(b).all(|(x, y)| x == y || (k < 9 && text && canon_word(k, *x) == canon_word(k, *y)))
}

/// How register k is exported by selector e.
fn form(k: usize, e: u64, text: bool) -> u64 {
    let h = mix(e ^ k as u64);
    if k < 4 {
        if text {
            3 + h % 3
        } else {
            h % 3
        }
    } else {
        h % 12
    }
}
fn is_text(k: usize, f: u64) -> bool {
    k < 4 && f % 6 >= TEXT
}

/// Writes one word to the disk; power may fail here.
fn put(s: &mut Slot, w: u64) {
    rt::seam();
    let u = s.used as usize;
    if u < SLOT {
        s.w[u] = w;
        s.used = u as u64 + 1;
    } else {
        engine::harness_error("checkpoint slot too small");
    }
}

fn checkpoint(t: usize, r: &mut Regs, o: &Op, pos: usize) {
    let d = &mut world().disk[t];
    let i = if d.slot[0].seq <= d.slot[1].seq { 0 } else { 1 };
    let newest = d.slot[0].seq.max(d.slot[1].seq);
    let s = &mut d.slot[i];
    s.seq = 0;
    s.used = 0;
    s.begun = 1;
    for k in 0..NREGS {
        let f = form(k, o.a[0], o.a[2] != 0);
        let rec = match lib(LOOSE, || with_reg!(r, k, |x| x.export(f))) {
            Got::Val(v) => v,
            Got::Panic(_) => engine::fail("C09.export", &format!("task {}: exporting {} by form {} failed: {}", t, REG[k], f, engine::last_panic())),
        };
        engine::count(8, 1);
        let own = words_of(r, k);
        if !is_text(k, f) {
            let n = with_reg!(r, k, |x| nof(x));
            if rec.len() != n || !same_words(k, false, &rec, &own[..n]) {
                engine::fail("C09.export", &format!("task {}: {} holding {:x?} was exported by form {} as {:x?}", t, REG[k], &own[..n], f, rec));
            }
        }
        rt::op_begin(u64::MAX);
        put(s, (k as u64) << 32 | f);
        put(s, rec.len() as u64);
        for w in &rec {
            put(s, *w);
        }
        rt::op_end();
        // What the record means, for the check at restoration only.
        for w in own {
            put(s, w);
        }
    }
    rt::op_begin(u64::MAX);
    rt::seam();
    s.pos = pos as u64 + 1;
    rt::seam();
    s.seq = newest + 1;
    rt::op_end();
    engine::count(6, 1);
    unsafe {
        COMMITS += 1;
        if COMMITS == CRASH >> 32 {
            rt::set_crash(CRASH & 0xffff_ffff, power_fails);
        }
    }
}

/// Walks the records of a slot: (register, form, words, meaning, complete).
fn records(s: &Slot) -> Vec<(usize, u64, Vec<u64>, Vec<u64>, bool)> {
    let mut v = vec![];
    let mut i = 0;
    let n = s.used as usize;
    while i + 2 <= n {
        let (k, f, len) = ((s.w[i] >> 32) as usize, s.w[i] & 0xffff_ffff, s.w[i + 1] as usize);
        let e = (i + 2 + len).min(n);
        let m = (e + 4).min(n);
        v.push((k, f, s.w[i + 2..e].to_vec(), s.w[e..m].to_vec(), e == i + 2 + len));
        i = m;
    }
    v
}

/// Texts a number's record can turn into when another record, an older and
/// longer one, or another program's text is found in its place.
const FOUND: [&str; 40] = [
    "", " ", "\0", "inf", "+inf", "-INFINITY", "infinit", "nan", "-NaN", "NaNs", "nan(1)", "1e400", "-1e400", "1e-400", "1_000", "0x1p3", ".5", "5.", ".", "1e",
    "1e+", "+-1", "--1", "+1", "1.5f32", "1,5", "1.5 ", " 1.5", "1.5\n", "\t1.5", "1.5\0", "1..5", "1.5.5", "e5", "1E5", "1e5.0", "16777217", "0.1e1e1", "\u{ff11}", "F32(1.5)",
];
const KINDS: u64 = 10;
/// Damages a stored text in one of several ways.
fn damage_text(w: &mut Vec<u64>, kind: u64, x: u64) {
    let at = x as usize % w.len().max(1);
    let y = (x >> 8) as usize;
    const ODD: [u8; 20] = *b"\0\0 \t\n\r_fF,;%\"x0.e-+i";
    match kind % KINDS {
        0 => w.truncate(at),
        1 => w.push(b"0.e-+ iN"[at & 7] as u64),
        2 => w.insert(at.min(w.len()), b"0.e-+ xf"[y & 7] as u64),
        3 if !w.is_empty() => w[at] ^= 1 << (y % 7),
        4 => w.iter_mut().skip(at).for_each(|b| *b = 0),
        5 => {
            for i in 0..1 + y % 3 {
                w.push(ODD[(y >> (4 + 3 * i)) % 20] as u64)
            }
        }
        6 => {
            for i in 0..1 + y % 2 {
                w.insert(0, ODD[(y >> (4 + 3 * i)) % 20] as u64)
            }
        }
        7 => *w = FOUND[y % 40].bytes().map(|b| b as u64).collect(),
        8 => {
            // The tail of an older, longer record.
            let old = format!("{}", f32::from_bits(y as u32 ^ 0x3f00_0000));
            let n = w.len();
            w.extend(old.bytes().skip(n).map(|b| b as u64));
        }
        _ => w.iter_mut().for_each(|b| {
            *b = match (*b as u8, y % 3) {
                (b'.', 0) => b',' as u64,
                (b'a'..=b'z', 1) => *b - 32,
                (b'-', 2) => b'_' as u64,
                _ => *b,
            }
        }),
    }
}
/// Another context's record of one register arrives damaged.
fn peer(t: usize, r: &mut Regs, o: &Op) {
    let (k, f) = (o.a[0] as usize % NREGS, if o.a[0] < 4 { o.a[3] % 6 } else { o.a[3] });
    let Got::Val(mut w) = lib(LOOSE, || with_reg!(r, k, |x| x.export(f))) else { return };
    if is_text(k, f) {
        engine::count(14, 1);
        damage_text(&mut w, o.a[1], o.a[2]);
    } else {
        damage_words(&mut w, o.a[1], o.a[2]);
    }
    offer_damaged(t, k, f, &w, o.a[2]);
    engine::nontrivial();
}
fn damage_words(w: &mut Vec<u64>, kind: u64, x: u64) {
    if kind % 2 == 0 {
        engine::count(12, 1);
        let at = x as usize % w.len().max(1);
        w.truncate(at);
    } else {
        engine::count(13, 1);
        for _ in 0..1 + x % 2 {
            w.push(x & 0x7f);
        }
    }
}

/// A stored record with the wrong number of words, or damaged text.
fn offer_damaged(t: usize, k: usize, f: u64, w: &[u64], d: u64) {
    let mut r = Regs::new();
    if is_text(k, f) {
        let s = text_of(w);
        let got = lib(LOOSE, || s.parse::<F32>());
        let want = s.parse::<f32>();
        let radix = 2 + (d % 15) as u32;
        let got2 = lib(LOOSE, || F32::from_str_radix(&s, radix).ok().map(|x| canon(x.0)));
        let want2 = <f32 as Num>::from_str_radix(&s, radix).ok().map(canon);
        let g = match got {
            Got::Val(Ok(x)) => format!("{:?}", Some(canon(x.0))),
            Got::Val(Err(_)) => {
                engine::count(15, 1);
                "None".into()
            }
            Got::Panic(_) => "a panic".into(),
        };
        let wv = format!("{:?}", want.ok().map(canon));
        if g != wv {
            engine::fail("C09.parse", &format!("task {}: stored text {:?} was read as {} where f32 reads {} (bits)", t, s, g, wv));
        }
        if g != "None" {
            engine::count(16, 1);
        }
        let g2 = match got2 {
            Got::Val(x) => format!("{:?}", x),
            Got::Panic(_) => "a panic".into(),
        };
        if g2 != format!("{:?}", want2) {
            engine::fail("C09.parse", &format!("task {}: stored text {:?} in radix {} was read as {} where f32 reads {:?} (bits)", t, s, radix, g2, want2));
        }
        return;
    }
    let n = with_reg!(r, k, |x| nof(x));
    if w.len() == n {
        return;
    }
    fn any<V: Val>(_: &V, w: &[u64], d: u64) -> Option<Got<Option<[u64; 4]>>> {
        match lib(LOOSE, || V::import_any(w, d)) {
            Got::Val(None) => None,
            Got::Val(Some(v)) => Some(Got::Val(Some(v.words()))),
            Got::Panic(p) => Some(Got::Panic(p)),
        }
    }
    match with_reg!(r, k, |x| any(x, w, d)) {
        None => {}
        Some(Got::Panic(_)) => engine::count(15, 1),
        Some(Got::Val(v)) => engine::fail("C09.padded", &format!("task {}: a stored {} of {} words {:x?} was restored as {:x?}", t, REG[k], w.len(), w, v)),
    }
}

/// Recovery: returns the program position to go on from.
fn recover(t: usize, r: &mut Regs) -> usize {
    let d = &mut world().disk[t];
    let s = unsafe { &*SCN };
    let n = inc();
    // Torn slots.
    for i in 0..2 {
        let sl = &d.slot[i];
        if sl.begun != 0 && sl.seq == 0 {
            engine::count(7, 1);
            if let Some((k, f, w, _, false)) = records(sl).pop() {
                offer_damaged(t, k, f, &w, n);
            }
        }
    }
    let mut order = [0usize, 1];
    if d.slot[1].seq > d.slot[0].seq {
        order = [1, 0];
    }
    for i in order {
        if d.slot[i].seq == 0 {
            continue;
        }
        let rec = records(&d.slot[i]);
        let mut bad = false;
        for o in &s.table {
            let a = &o.a;
            if a.len() < 5 || a[0] != n || a[1] as usize != t {
                continue;
            }
            let Some((k, f, w, _, _)) = rec.iter().find(|x| x.0 == a[2] as usize) else { continue };
            let mut w = w.clone();
            if is_text(*k, *f) {
                engine::count(14, 1);
                damage_text(&mut w, a[3], a[4]);
            } else {
                damage_words(&mut w, a[3], a[4]);
            }
            offer_damaged(t, *k, *f, &w, a[4]);
            bad = true;
        }
        if bad {
            // The disk reports the slot as damaged: fall back to the other.
            d.slot[i].seq = 0;
            d.slot[i].begun = 0;
            continue;
        }
        for (k, f, w, own, _) in rec {
            let o = s.tasks[t].get(d.slot[i].pos as usize - 1).map(|o| o.a[1]).unwrap_or(0);
            let dsel = mix(o ^ k as u64 ^ n << 8) % 60;
            let got = lib(LOOSE, || with_reg!(r, k, |x| put_val(x, &w, f, dsel)));
            engine::count(9, 1);
            let txt = is_text(k, f);
            let show = if txt { format!("{:?}", text_of(&w)) } else { format!("{:x?}", w) };
            if let Got::Panic(_) = got {
                engine::fail("C09.rejected", &format!("task {}: {} stored as {} could not be restored by form {}: {}", t, REG[k], show, dsel, engine::last_panic()));
            }
            let nn = with_reg!(r, k, |x| nof(x));
            let now = words_of(r, k);
            if !same_words(k, txt, &now[..nn], &own[..nn]) {
                engine::fail("C09.restored", &format!("task {}: {} holding {:x?} was stored as {} (form {}) and restored as {:x?} (form {})", t, REG[k], &own[..nn], show, f, &now[..nn], dsel));
            }
        }
        engine::count(10, 1);
        engine::nontrivial();
        return d.slot[i].pos as usize;
    }
    engine::count(11, 1);
    0
}
fn put_val<V: Val>(x: &mut V, w: &[u64], e: u64, d: u64) {
    *x = V::import(w, e, d);
}

fn task(t: usize) {
    let s = unsafe { &*SCN };
    let twin = unsafe { TWIN };
    let mut r = Regs::new();
    if !twin && world().disk[t].done != 0 {
        return;
    }
    let mut pos = if twin || inc() == 0 { 0 } else { recover(t, &mut r) };
    while pos < s.tasks[t].len() {
        let o = &s.tasks[t][pos];
        match o.code {
            SET => {
                let mut a = o.a.clone();
                a.resize(5, 0);
                let k = a[0] as usize % NREGS;
                let got = lib(LOOSE, || with_reg!(r, k, |x| lit(x, &a[1..])));
                let n = with_reg!(r, k, |x| nof(x));
                if let Got::Val(()) = got {
                    if k == 8 {
                        let now = words_of(&mut r, k);
                        if now[..n] != a[1..1 + n] {
                            engine::fail("C09.export", &format!("task {}: Quaternion::new of {:x?} has components {:x?}", t, &a[1..1 + n], now));
                        }
                    }
                }
            }
            CHECKPOINT => {
                if !twin {
                    checkpoint(t, &mut r, o, pos)
                }
            }
            PEER => {
                if !twin {
                    peer(t, &mut r, o)
                }
            }
            _ => compute(t, &mut r, o),
        }
        if unsafe { TEXTUAL } {
            // Text does not carry a NaN's sign and payload.
            for k in 0..9 {
                let w = words_of(&mut r, k).map(|w| canon_word(k, w));
                with_reg!(r, k, |x| lit(x, &w));
            }
        }
        pos += 1;
    }
    let fin = state(&mut r);
    for k in fin {
        rt::note(k[0] ^ k[1] << 7 ^ k[2] << 19);
    }
    let d = &mut world().disk[t];
    if twin {
        d.twin = fin;
    } else {
        d.fin = fin;
        d.done = 1;
    }
}
fn lit<V: Val>(x: &mut V, w: &[u64]) {
    *x = V::literal(w);
}

fn account() {
    let w = world();
    w.hash = mix(w.hash ^ rt::hash());
    w.steps += rt::steps();
    w.shared += rt::shared_accesses();
    w.switches += rt::switches();
}
fn power_fails() {
    account();
    world().crashed = 1;
    engine::count(4, 1);
    unsafe { sys::_exit(0) }
}

fn incarnation(s: &Scenario, crash: u64) {
    world().crashed = 0;
    let ok = engine::in_fork(|| {
        for t in 0..s.tasks.len().min(4) {
            rt::spawn(Box::new(move || task(t)));
        }
        unsafe { CRASH = crash };
        if crash > 0 && crash >> 32 == 0 {
            rt::set_crash(crash, power_fails);
        }
        rt::run(if unsafe { TWIN } { &[] } else { &s.sched });
        account();
    });
    if engine::failed() {
        engine::exit_failed();
    }
    if !ok {
        engine::fail("C09.crash", "a program over the value types killed its process");
    }
}

fn run(s: &Scenario) {
    rt::set_on_limit(|_| engine::fail("C09.no-progress", "a library call did not end"));
    unsafe {
        W = sys::shared::<World>(1);
        SCN = s;
        TWIN = true;
        TEXTUAL = s.tasks.iter().flatten().any(|o| o.code == CHECKPOINT && o.a.get(2).copied().unwrap_or(0) != 0);
    }
    incarnation(s, 0);
    unsafe { TWIN = false }
    for i in 0..=s.cfg.len() {
        unsafe { INC = i as u64 }
        engine::count(5, 1);
        incarnation(s, s.cfg.get(i).copied().unwrap_or(0));
        if world().crashed == 0 {
            break;
        }
    }
    let w = world();
    rt::absorb(w.steps, w.shared, w.switches, w.hash);
    engine::count(0, w.switches);
    engine::count(2, w.shared);
    for t in 0..s.tasks.len().min(4) {
        let d = &w.disk[t];
        if d.done == 0 {
            engine::fail("C09.progress", &format!("task {} did not finish although power no longer fails", t));
        }
        for k in 0..NREGS {
            if d.fin[k] != d.twin[k] {
                engine::fail("C09.diverged", &format!("task {}: after the restarts {} ends as {:x?}; without interruption as {:x?}", t, REG[k], d.fin[k], d.twin[k]));
            }
        }
    }
}

fn describe(s: &Scenario) -> Vec<String> {
    let mut l = vec![];
    if !s.cfg.is_empty() {
        l.push(format!("power fails in the successive incarnations {}", s.cfg.iter().map(|c| format!("{} points after checkpoint {}", c & 0xffff_ffff, c >> 32)).collect::<Vec<_>>().join(", ")));
    }
    for o in &s.table {
        l.push(format!("disk damage before incarnation {}: task {}, register {}, kind {}, at {:x}", o.a[0], o.a[1], REG[o.a[2] as usize % NREGS], o.a[3], o.a[4]));
    }
    for (t, ops) in s.tasks.iter().enumerate() {
        for o in ops {
            l.push(match o.code {
                SET => format!("task {}: set {} to words {:x?}", t, REG[o.a[0] as usize % NREGS], &o.a[1..]),
                CHECKPOINT => format!("task {}: checkpoint (export forms {:x}, import forms {:x}, text {})", t, o.a[0], o.a[1], o.a[2]),
                PEER => format!("task {}: a peer's record of {} (form {}) arrives damaged (kind {}, at {:x})", t, REG[o.a[0] as usize % NREGS], o.a[3], o.a[1], o.a[2]),
                _ => format!("task {}: compute {} over {:?}", t, o.a[0], &o.a[1..]),
            });
        }
    }
    show_sched(s, &mut l);
    l
}
