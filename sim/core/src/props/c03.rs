//! C03: in-place updates are all-or-nothing when component arithmetic fails.
//!
//! Several contexts update shared accumulators (each update under a simulated
//! lock); a fault strikes at a chosen component operation, or the operands
//! make the component arithmetic itself fail. After every operator the target
//! is inspected and compared with a component-wise model.

use crate::cx::Cx;
use crate::wl::*;
use micromath::vector::{Component, Vector2d, Vector3d};
use micromath::{Quaternion, F32};
use mmrt::engine::{self, PropDef, Tuning};
use mmrt::rng::Rng;
use mmrt::rt;
use mmrt::scen::{Op, Scenario};

pub static DEF: PropDef = PropDef {
    id: "C03",
    gen,
    run,
    runs: (60_000, 1_500_000),
    counters: &[
        "mid_operator_preemptions",
        "contexts_stopped_for_ever_in_mid_operator",
        "shared_state_accesses",
        "blocked_futex_waits",
        "operators_applied",
        "operators_that_returned",
        "injected_component_faults_that_struck",
        "natural_component_failures",
        "failures_after_an_earlier_component_succeeded",
        "lock_waits",
    ],
    rule: "a case is one seeded run: 1 to 4 contexts apply up to 12 in-place operators each to 1 to 3 shared accumulators of one of 20 value types, with injected and natural component failures; non-trivial when at least one operator failed and at least one returned; distinct by hash of switch points, outcomes and values",
    describe,
    var_from: var_none,
};

pub const TYPES: [&str; 20] = [
    "Vector2d<Cx>", "Vector3d<Cx>", "Vector2d<i8>", "Vector3d<i8>", "Vector2d<i16>", "Vector3d<i16>", "Vector2d<i32>",
    "Vector3d<i32>", "Vector2d<u8>", "Vector3d<u8>", "Vector2d<u16>", "Vector3d<u16>", "Vector2d<u32>", "Vector3d<u32>",
    "Vector2d<f32>", "Vector3d<f32>", "Vector2d<F32>", "Vector3d<F32>", "Quaternion", "F32",
];
const OPS: [&str; 8] = ["+=", "-=", "*=", "/=", "%=", "+= (mixed)", "*= (mixed)", "/= (mixed)"];

fn gen(r: &mut Rng, _t: Tuning) -> Scenario {
    let mut s = Scenario::default();
    let ty = match r.below(5) {
        0 => r.below(2),
        1 => 6 + r.below(2),
        _ => r.below(TYPES.len() as u64),
    };
    let cells = 1 + r.below(3);
    s.cfg = vec![ty, cells];
    let n = 1 + r.below(4) as usize;
    let val = |r: &mut Rng| -> u64 {
        match ty {
            14..=19 => fbits(r) as u64,
            0 | 1 => r.range(-50, 50) as u64,
            _ => match r.below(5) {
                0 => *r.pick(&[0u64, 1, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff]),
                1 => r.u32() as u64,
                _ => r.range(-12, 12) as u32 as u64,
            },
        }
    };
    for _ in 0..cells {
        let a: Vec<u64> = match r.below(8) {
            // Zeros of either sign, or all one value.
            0 if ty >= 14 => (0..4).map(|_| r.below(2) << 31).collect(),
            1 => vec![val(r); 4],
            _ => (0..4).map(|_| val(r)).collect(),
        };
        s.table.push(Op { code: 0, a });
    }
    let rate = *r.pick(&[0u64, 2, 4, 8]);
    for _ in 0..n {
        let m = 1 + r.below(12);
        let mut v = vec![];
        for _ in 0..m {
            let nops = match ty {
                19 => 8,
                18 => 3,
                _ => 4,
            };
            let op = if r.chance(1, 4) { 3 % nops } else { r.below(nops) };
            let mut a = vec![r.below(cells)];
            // Fault point at which the injected failure strikes (0: none).
            let at = if rate > 0 && r.chance(1, 10 - rate) { 1 + r.below(7) } else { 0 };
            a.push(at);
            for _ in 0..4 {
                a.push(if op == 3 && r.chance(1, 3) { *r.pick(&[0u64, u32::MAX as u64, 1, 2]) } else { val(r) });
            }
            // Operands that look like nothing to do: all zero, all one, all
            // alike, zeros of either sign, the target's own first value.
            if r.chance(1, 5) {
                let float = ty >= 14;
                let one = if float { 0x3f80_0000u64 } else { 1 };
                let (style, x, own) = (r.below(6), val(r), s.table[a[0] as usize].a.clone());
                for i in 0..4 {
                    a[2 + i] = match style {
                        0 | 1 => 0,
                        2 => one,
                        3 => x,
                        4 if float => r.below(2) << 31,
                        4 => r.below(2) * one,
                        _ => own[i],
                    };
                }
            }
            v.push(Op { code: op as u32, a });
        }
        s.tasks.push(v);
    }
    if n > 1 {
        let st = r.chance(1, 2);
        s.sched = schedule(r, n, 20, st);
    }
    s
}

/// Component arithmetic of the model: None when it fails.
trait Num: Copy + std::fmt::Debug {
    fn of(w: u64) -> Self;
    fn bits(self) -> u64;
    fn op(self, o: Self, k: u32, checked: bool) -> Option<Self>;
}
macro_rules! num_int { ($($t:ty),*) => { $( impl Num for $t {
    fn of(w: u64) -> Self { w as $t }
    fn bits(self) -> u64 { self as i64 as u64 }
    fn op(self, o: Self, k: u32, checked: bool) -> Option<Self> {
        match (k, checked) {
            (0, true) => self.checked_add(o),
            (1, true) => self.checked_sub(o),
            (2, true) => self.checked_mul(o),
            (0, false) => Some(self.wrapping_add(o)),
            (1, false) => Some(self.wrapping_sub(o)),
            (2, false) => Some(self.wrapping_mul(o)),
            _ => self.checked_div(o),
        }
    }
} )* } }
num_int!(i8, i16, i32, u8, u16, u32);
impl Num for Cx {
    fn of(w: u64) -> Self {
        Cx(w as i64)
    }
    fn bits(self) -> u64 {
        self.0 as u64
    }
    fn op(self, o: Self, k: u32, _: bool) -> Option<Self> {
        Some(Cx(match k {
            0 => self.0.wrapping_add(o.0),
            1 => self.0.wrapping_sub(o.0),
            2 => self.0.wrapping_mul(o.0),
            _ => {
                if o.0 == 0 {
                    return None;
                }
                self.0.wrapping_div(o.0)
            }
        }))
    }
}
impl Num for f32 {
    fn of(w: u64) -> Self {
        f32::from_bits(w as u32)
    }
    fn bits(self) -> u64 {
        canon(self) as u64
    }
    fn op(self, o: Self, k: u32, _: bool) -> Option<Self> {
        Some(match k {
            0 => self + o,
            1 => self - o,
            2 => self * o,
            3 => self / o,
            _ => self % o,
        })
    }
}
impl Num for F32 {
    fn of(w: u64) -> Self {
        F32(f32::from_bits(w as u32))
    }
    fn bits(self) -> u64 {
        canon(self.0) as u64
    }
    fn op(self, o: Self, k: u32, c: bool) -> Option<Self> {
        self.0.op(o.0, k, c).map(F32)
    }
}

/// The shared accumulators and their simulated locks.
struct Shared<T> {
    cell: Vec<T>,
    lock: Vec<bool>,
}

fn checked() -> bool {
    let r = std::panic::catch_unwind(|| std::hint::black_box(127i8) + std::hint::black_box(1i8));
    r.is_err()
}

trait Acc: Copy {
    const N: usize;
    fn make(a: &[u64]) -> Self;
    fn words(&self) -> [u64; 4];
    fn apply(&mut self, k: u32, a: &[u64]);
    /// The component-wise model; None when some component fails.
    fn model(w: [u64; 4], k: u32, a: &[u64], checked: bool) -> Option<[u64; 4]>;
}

macro_rules! acc_vec {
    ($v:ident, $n:expr, $($f:ident $i:expr),*) => {
        impl<C: Component + Num> Acc for $v<C> {
            const N: usize = $n;
            fn make(a: &[u64]) -> Self { $v { $($f: C::of(a[$i])),* } }
            fn words(&self) -> [u64; 4] {
                let mut w = [0; 4];
                $( w[$i] = self.$f.bits(); )*
                w
            }
            fn apply(&mut self, k: u32, a: &[u64]) {
                match k {
                    0 => *self += Self::make(a),
                    1 => *self -= Self::make(a),
                    2 => *self *= C::of(a[0]),
                    _ => *self /= C::of(a[0]),
                }
            }
            fn model(w: [u64; 4], k: u32, a: &[u64], checked: bool) -> Option<[u64; 4]> {
                let mut o = [0; 4];
                for i in 0..$n {
                    let rhs = if k < 2 { C::of(a[i]) } else { C::of(a[0]) };
                    o[i] = C::of(w[i]).op(rhs, k, checked)?.bits();
                }
                Some(o)
            }
        }
    };
}
acc_vec!(Vector2d, 2, x 0, y 1);
acc_vec!(Vector3d, 3, x 0, y 1, z 2);

impl Acc for Quaternion {
    const N: usize = 4;
    fn make(a: &[u64]) -> Self {
        Quaternion::new(f32::of(a[0]), f32::of(a[1]), f32::of(a[2]), f32::of(a[3]))
    }
    fn words(&self) -> [u64; 4] {
        [self.w().bits(), self.x().bits(), self.y().bits(), self.z().bits()]
    }
    fn apply(&mut self, k: u32, a: &[u64]) {
        match k {
            0 => *self += Self::make(a),
            1 => *self -= Self::make(a),
            _ => *self *= f32::of(a[0]),
        }
    }
    fn model(w: [u64; 4], k: u32, a: &[u64], c: bool) -> Option<[u64; 4]> {
        let mut o = [0; 4];
        for i in 0..4 {
            let rhs = if k < 2 { f32::of(a[i]) } else { f32::of(a[0]) };
            o[i] = f32::of(w[i]).op(rhs, k.min(2), c)?.bits();
        }
        Some(o)
    }
}
impl Acc for F32 {
    const N: usize = 1;
    fn make(a: &[u64]) -> Self {
        <F32 as Num>::of(a[0])
    }
    fn words(&self) -> [u64; 4] {
        [self.bits(), 0, 0, 0]
    }
    fn apply(&mut self, k: u32, a: &[u64]) {
        let h = <F32 as Num>::of(a[0]);
        match (k, a[1] & 1) {
            (0, _) => *self += h,
            (1, _) => *self -= h,
            (2, _) => *self *= h,
            (3, _) => *self /= h,
            (4, 0) => *self %= h,
            (4, _) => *self %= h.0,
            (5, 0) => *self += h.0,
            (5, _) => self.0 += h,
            (6, 0) => *self *= h.0,
            (6, _) => self.0 *= h,
            (_, 0) => *self /= h.0,
            (_, _) => {
                *self -= h.0;
                self.0 -= h;
                self.0 /= h;
            }
        }
    }
    fn model(w: [u64; 4], k: u32, a: &[u64], _c: bool) -> Option<[u64; 4]> {
        let (s, h) = (f32::of(w[0]), f32::of(a[0]));
        let v = match (k, a[1] & 1) {
            (0, _) | (5, _) => s + h,
            (1, _) => s - h,
            (2, _) | (6, _) => s * h,
            (3, _) | (7, 0) => s / h,
            (4, _) => s % h,
            _ => (s - h - h) / h,
        };
        Some([v.bits(), 0, 0, 0])
    }
}

static mut SCN: *const Scenario = std::ptr::null();
static mut SH: *mut u8 = std::ptr::null_mut();
static mut CHECKED: bool = false;

fn go<T: Acc + 'static>(s: &Scenario, injectable: bool) {
    let sh: &'static mut Shared<T> = Box::leak(Box::new(Shared { cell: s.table.iter().map(|o| T::make(&pad(&o.a))).collect(), lock: vec![false; s.table.len()] }));
    unsafe {
        SH = sh as *mut _ as *mut u8;
        INJ = injectable;
    }
    run_tasks(s, 0, one::<T>);
    if engine::counter(5) > 0 && engine::counter(6) + engine::counter(7) > 0 {
        engine::nontrivial();
    }
}
static mut INJ: bool = false;

fn pad(a: &[u64]) -> Vec<u64> {
    let mut v = a.to_vec();
    v.resize(8, 1);
    v
}

fn one<T: Acc + 'static>(t: usize, o: &'static Op) {
    let (s, sh) = unsafe { (&*SCN, &mut *(SH as *mut Shared<T>)) };
    let a = pad(&o.a);
    let i = a[0] as usize % sh.cell.len();
    while sh.lock[i] {
        engine::count(9, 1);
        rt::wait(i + 1);
    }
    sh.lock[i] = true;
    let k = o.code;
    let at = if unsafe { INJ } { a[1] } else { 0 };
    let before = sh.cell[i].words();
    let want = T::model(before, k, &a[2..], unsafe { CHECKED });
    arm(at);
    let cell: &mut T = &mut sh.cell[i];
    let got = lib(LOOSE, || cell.apply(k, &a[2..]));
    let p = disarm();
    let after = sh.cell[i].words();
    engine::count(4, 1);
    let show = || {
        format!(
            "task {}: {} {} {} with operand words {:x?}{}",
            t, TYPES[s.cfg[0] as usize % TYPES.len()], hex(&before[..T::N]), OPS[k as usize % OPS.len()], &a[2..2 + T::N],
            if p.fired { format!(" and a fault injected at component operation {}", at) } else { String::new() }
        )
    };
    rt::note(after[0] ^ after[1].rotate_left(16) ^ after[2].rotate_left(32) ^ after[3].rotate_left(48));
    match got {
        Got::Val(()) => {
            engine::count(5, 1);
            if p.fired || want.is_none() {
                engine::fail("C03.swallowed", &format!("{} returned although a component operation failed; the target now holds {}", show(), hex(&after[..T::N])));
            }
            if after != want.unwrap() {
                engine::fail("C03.value", &format!("{} left {} instead of {}", show(), hex(&after[..T::N]), hex(&want.unwrap()[..T::N])));
            }
        }
        Got::Panic(inj) => {
            if p.fired {
                engine::count(6, 1);
                if at > 1 {
                    engine::count(8, 1);
                }
            } else {
                engine::count(7, 1);
            }
            if !p.fired && want.is_some() {
                engine::fail("C03.spurious", &format!("{} failed although no component operation fails: {}", show(), if inj { "".into() } else { engine::last_panic() }));
            }
            if after != before {
                engine::fail("C03.torn", &format!("{} failed and left the target at {} (a torn value)", show(), hex(&after[..T::N])));
            }
        }
    }
    sh.lock[i] = false;
    rt::wake(i + 1);
}

fn hex(w: &[u64]) -> String {
    let v: Vec<String> = w.iter().map(|x| format!("{:x}", x)).collect();
    format!("({})", v.join(", "))
}

fn run(s: &Scenario) {
    unsafe {
        SCN = s;
        CHECKED = checked();
    }
    rt::set_on_limit(|_| engine::fail("C03.no-progress", "an in-place operator did not end"));
    match s.cfg[0] % TYPES.len() as u64 {
        0 => go::<Vector2d<Cx>>(s, true),
        1 => go::<Vector3d<Cx>>(s, true),
        2 => go::<Vector2d<i8>>(s, false),
        3 => go::<Vector3d<i8>>(s, false),
        4 => go::<Vector2d<i16>>(s, false),
        5 => go::<Vector3d<i16>>(s, false),
        6 => go::<Vector2d<i32>>(s, false),
        7 => go::<Vector3d<i32>>(s, false),
        8 => go::<Vector2d<u8>>(s, false),
        9 => go::<Vector3d<u8>>(s, false),
        10 => go::<Vector2d<u16>>(s, false),
        11 => go::<Vector3d<u16>>(s, false),
        12 => go::<Vector2d<u32>>(s, false),
        13 => go::<Vector3d<u32>>(s, false),
        14 => go::<Vector2d<f32>>(s, false),
        15 => go::<Vector3d<f32>>(s, false),
        16 => go::<Vector2d<F32>>(s, false),
        17 => go::<Vector3d<F32>>(s, false),
        18 => go::<Quaternion>(s, false),
        _ => go::<F32>(s, false),
    }
}

fn describe(s: &Scenario) -> Vec<String> {
    let mut l = vec![format!("accumulators of type {}", TYPES[s.cfg[0] as usize % TYPES.len()])];
    for (i, o) in s.table.iter().enumerate() {
        l.push(format!("accumulator {} starts at words {:x?}", i, o.a));
    }
    for (t, ops) in s.tasks.iter().enumerate() {
        for o in ops {
            let a = pad(&o.a);
            l.push(format!("task {}: accumulator {} {} {:x?}{}", t, a[0] as usize % s.table.len().max(1), OPS[o.code as usize % OPS.len()], &a[2..6], if a[1] > 0 { format!(", fault at component operation {}", a[1]) } else { String::new() }));
        }
    }
    show_sched(s, &mut l);
    l
}
