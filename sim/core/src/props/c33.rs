//! C33: values in deferred logs reach the host exactly, however logging is
//! disturbed.
//!
//! Simulated: the device's logger (one channel per context), its ring buffer,
//! the link to the host and the clock. Real: the log statements, the format
//! implementations of the library's value types, and the deferred-logging
//! crate's serialisation. The host's decoder below is written from that
//! crate's wire format and reads the format strings from this program's own
//! symbol table, as host tools do.

use crate::src_script::reenter;
use crate::wl::*;
use defmt_parser::{Fragment, Parameter, ParserMode, Type};
use micromath::vector::{Component, Vector2d, Vector3d};
use micromath::{Quaternion, F32};
use mmrt::engine::{self, PropDef, Tuning};
use mmrt::rng::Rng;
use mmrt::rt;
use mmrt::scen::{Op, Scenario};
use std::collections::HashMap;
use std::ops::{Add, Div, Mul, Sub};

pub static DEF: PropDef = PropDef {
    id: "C33",
    gen,
    run,
    runs: (80_000, 3_000_000),
    counters: &[
        "mid_call_preemptions",
        "contexts_stopped_for_ever_in_mid_call",
        "shared_state_accesses",
        "blocked_futex_waits",
        "statements_logged",
        "frames_read_by_the_host",
        "numbers_compared",
        "frames_lost_on_the_link",
        "frames_duplicated",
        "frames_corrupted_and_dropped",
        "frames_cut_short_and_dropped",
        "frames_delayed",
        "frames_that_found_the_buffer_full",
        "frames_torn_by_a_failing_component",
        "re_entrant_components",
        "clock_jumps",
        "faults_while_a_value_was_being_written",
        "frames_stopped_for_ever_in_the_middle",
    ],
    rule: "a case is one seeded run: 1 to 4 contexts log up to 8 values each (every value type, alone, in slices, arrays, tuples, options and derived structures) over a link that loses, duplicates, corrupts, cuts or delays frames, out of a buffer that fills up, with components that fail or re-enter in the middle of a frame, and clock jumps; non-trivial when a fault struck or a context was preempted in the middle of a frame; distinct by hash of switch points and frames",
    describe,
    var_from: var_none,
};

const FORMS: [&str; 24] = [
    "F32", "Vector2d<f32>", "Vector2d<F32>", "Vector3d<f32>", "Vector3d<i16>", "Vector2d<i8>", "Vector3d<u32>", "Vector2d<i32>",
    "Quaternion", "slice of F32", "slice of Vector2d<i32>", "array of 2 Quaternion", "Vector2d<user component>",
    "slice of Vector3d<user component>", "Quaternion and Vector3d<F32>", "a derived structure", "(F32, Quaternion)",
    "Option<Vector3d<F32>>", "Vector3d<u8>", "Vector2d<u16>", "slice of Quaternion", "array of 3 Vector3d<i32>",
    "displayed F32", "Debug text of Quaternion",
];
const LINK: [&str; 6] = ["intact", "lost", "duplicated", "corrupted", "cut short", "delayed"];

fn gen(r: &mut Rng, _t: Tuning) -> Scenario {
    let mut s = Scenario::default();
    // Buffer of the device, in bytes; the host reads it every so many frames.
    s.cfg = vec![100 + r.logu(3000), 1 + r.below(6)];
    let n = 1 + r.below(4) as usize;
    let few = r.chance(1, 2);
    let mut pool: Vec<[u64; 12]> = vec![];
    let form0 = r.below(FORMS.len() as u64) as u32;
    for _ in 0..n {
        let m = 1 + r.below(8);
        let v = (0..m)
            .map(|_| {
                let form = if few && r.chance(2, 3) { form0 } else { r.below(FORMS.len() as u64) as u32 };
                let link = if r.chance(1, 3) { r.below(LINK.len() as u64) } else { 0 };
                // failing component, re-entrant component, clock jump
                let at = if r.chance(1, 3) { 1 + r.below(if form == 13 { 24 } else { 8 }) } else { 0 };
                let mut a = vec![link, r.u32() as u64, at, r.chance(1, 4) as u64, if r.chance(1, 6) { r.u32() as u64 } else { 0 }];
                let mut w = [0u64; 12];
                if !pool.is_empty() && r.chance(1, 2) {
                    w = *r.pick(&pool);
                    // The same value again, or one that shares some of it.
                    if r.chance(1, 2) {
                        let i = r.below(12) as usize;
                        w[i] = if r.chance(1, 2) { near(r, w[i] as u32) as u64 } else { fbits(r) as u64 };
                    }
                    if r.chance(1, 6) {
                        let (i, j) = (r.below(4) as usize, r.below(4) as usize);
                        w.swap(i, j);
                    }
                } else {
                    let ints = matches!(form, 4..=7 | 10 | 12 | 13 | 18 | 19 | 21);
                    for i in 0..12 {
                        w[i] = if i > 0 && r.chance(1, 6) {
                            if ints || r.chance(1, 2) { w[i - 1] } else { w[i - 1] ^ 0x8000_0000 }
                        } else if ints {
                            ibits(r) as u64
                        } else {
                            fbits(r) as u64
                        };
                    }
                }
                pool.push(w);
                a.extend(w);
                Op { code: form, a }
            })
            .collect();
        s.tasks.push(v);
    }
    if n > 1 {
        s.sched = schedule(r, n, 24, true);
    }
    s
}

// ------------------------------------------------------------- the device

struct Chan {
    buf: Vec<u8>,
    open: bool,
    seq: u32,
    link: u64,
    arg: u64,
    released: u32,
}
struct Logged {
    form: u32,
    want: Vec<Num>,
    /// The link did not lose it.
    due: bool,
    got: bool,
}
struct Frame {
    ctx: usize,
    bytes: Vec<u8>,
    sum: u64,
}
struct Dev {
    ch: Vec<Chan>,
    logs: Vec<Vec<Logged>>,
    ring: Vec<Frame>,
    late: Vec<Frame>,
    used: usize,
    size: usize,
    every: usize,
    frames: usize,
    clock: u64,
}
static mut DEV: Option<Dev> = None;
static mut REENTER: [u64; 17] = [0; 17];

fn dev() -> &'static mut Dev {
    unsafe { DEV.as_mut().unwrap() }
}
fn sum(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf2_9ce4_8422_2325 ^ b.len() as u64, |h, x| (h ^ *x as u64).wrapping_mul(0x100_0000_01b3))
}

#[no_mangle]
fn _defmt_acquire() {
    rt::seam();
    rt::quiet(|| {
        let c = &mut dev().ch[rt::cur()];
        if c.open {
            engine::fail("C33.nested", &format!("task {}: a log statement was started inside a log statement", rt::cur()));
        }
        c.open = true;
        c.buf.clear();
    });
    rt::seam();
}
#[no_mangle]
fn _defmt_write(b: &[u8]) {
    rt::seam();
    rt::quiet(|| {
        let c = &mut dev().ch[rt::cur()];
        if !c.open {
            engine::fail("C33.stray", &format!("task {}: {} bytes were written outside any log statement", rt::cur(), b.len()));
        }
        c.buf.extend_from_slice(b);
    });
    rt::seam();
}
#[no_mangle]
fn _defmt_release() {
    rt::seam();
    rt::quiet(commit);
    rt::seam();
}
#[no_mangle]
fn _defmt_flush() {}
#[no_mangle]
fn _defmt_timestamp(_f: defmt::Formatter<'_>) {
    let t = rt::quiet(|| dev().clock + rt::steps());
    defmt::export::u64(&t);
}
#[no_mangle]
fn _defmt_panic() -> ! {
    inject()
}

fn commit() {
    let t = rt::cur();
    let d = dev();
    let c = &mut d.ch[t];
    if !c.open {
        engine::fail("C33.stray", &format!("task {}: a log statement ended that never began", t));
    }
    c.open = false;
    c.released += 1;
    let bytes = std::mem::take(&mut c.buf);
    let (link, arg, seq) = (c.link, c.arg, c.seq);
    let mut f = Frame { ctx: t, sum: sum(&bytes), bytes };
    rt::note(f.bytes.len() as u64 | link << 32);
    engine::count(4, 1);
    if link != 0 {
        engine::nontrivial();
    }
    let l = &mut d.logs[t][seq as usize];
    l.due = matches!(link, 0 | 2 | 5);
    if d.used + f.bytes.len() > d.size {
        l.due = false;
        engine::count(12, 1);
        engine::nontrivial();
    } else {
        match link {
            1 => engine::count(7, 1),
            2 => {
                engine::count(8, 1);
                d.ring.push(Frame { ctx: t, bytes: f.bytes.clone(), sum: f.sum });
                d.used += f.bytes.len();
                d.ring.push(f);
            }
            3 => {
                engine::count(9, 1);
                let i = arg as usize % (f.bytes.len() * 8);
                f.bytes[i / 8] ^= 1 << (i % 8);
                d.used += f.bytes.len();
                d.ring.push(f);
            }
            4 => {
                engine::count(10, 1);
                f.bytes.truncate(arg as usize % f.bytes.len());
                d.used += f.bytes.len();
                d.ring.push(f);
            }
            5 => {
                engine::count(11, 1);
                d.late.push(f);
            }
            _ => {
                d.used += f.bytes.len();
                d.ring.push(f);
            }
        }
    }
    d.frames += 1;
    if d.frames % d.every == 0 {
        drain();
    }
}

// --------------------------------------------------------------- the host

/// A number as the host reads it.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Num {
    Int(i128),
    F(u64),
}
fn ff(w: u64) -> Num {
    Num::F((f32::from_bits(w as u32) as f64).to_bits())
}
fn fits(want: Num, got: Num) -> bool {
    let v = |n: Num| match n {
        Num::Int(i) => (i as f64, i as f64 as i128 == i),
        Num::F(b) => (f64::from_bits(b), true),
    };
    match (want, got) {
        (Num::Int(a), Num::Int(b)) => a == b,
        _ => {
            let ((a, p), (b, q)) = (v(want), v(got));
            p && q && (a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan())
        }
    }
}
fn show(v: &[Num]) -> String {
    let l: Vec<String> = v
        .iter()
        .map(|n| match n {
            Num::Int(i) => format!("{}", i),
            Num::F(b) => format!("{:e}", f64::from_bits(*b)),
        })
        .collect();
    format!("({})", l.join(", "))
}

/// Interned strings by their 16-bit address.
static mut TABLE: Option<HashMap<u16, (String, String)>> = None;

/// Reads the interned strings from this program's own symbol table.
pub fn load() {
    let e = std::fs::read("/proc/self/exe").unwrap_or_default();
    let n = |o: usize, k: usize| -> usize { (0..k).map(|i| (e[o + i] as usize) << (8 * i)).sum() };
    if e.len() < 64 || &e[..4] != b"\x7fELF" || e[4] != 2 {
        engine::harness_error("not an ELF64 program");
    }
    let (shoff, shsz, shn) = (n(0x28, 8), n(0x3a, 2), n(0x3c, 2));
    let mut syms: Vec<(&str, u64)> = vec![];
    for i in 0..shn {
        let h = shoff + i * shsz;
        if n(h + 4, 4) != 2 {
            continue;
        }
        let (off, size, link) = (n(h + 0x18, 8), n(h + 0x20, 8), n(h + 0x28, 4));
        let stro = n(shoff + link * shsz + 0x18, 8);
        for k in 0..size / 24 {
            let s = off + k * 24;
            let a = stro + n(s, 4);
            let z = a + e[a..].iter().position(|c| *c == 0).unwrap_or(0);
            if let Ok(name) = std::str::from_utf8(&e[a..z]) {
                if name.starts_with("{\"package\"") || name == "_defmt_acquire" {
                    syms.push((name, n(s + 8, 8) as u64));
                }
            }
        }
    }
    let Some(&(_, at)) = syms.iter().find(|s| s.0 == "_defmt_acquire") else { engine::harness_error("no symbol table") };
    let base = (_defmt_acquire as usize as u64).wrapping_sub(at);
    let mut t: HashMap<u16, (String, String)> = HashMap::new();
    for (name, v) in syms {
        let (Some(tag), Some(data)) = (field(name, "tag"), field(name, "data")) else { continue };
        let k = base.wrapping_add(v) as u16;
        if let Some(o) = t.insert(k, (tag, data)) {
            if t[&k] != o {
                engine::harness_error("two interned strings share an address");
            }
        }
    }
    unsafe { TABLE = Some(t) }
}
fn field(s: &str, k: &str) -> Option<String> {
    let i = s.find(&format!("\"{}\":\"", k))? + k.len() + 4;
    let mut o = String::new();
    let mut c = s[i..].chars();
    loop {
        match c.next()? {
            '"' => return Some(o),
            '\\' => match c.next()? {
                'n' => o.push('\n'),
                'u' => {
                    let h: String = (0..4).filter_map(|_| c.next()).collect();
                    o.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?)
                }
                x => o.push(x),
            },
            x => o.push(x),
        }
    }
}

struct Host<'a> {
    b: &'a [u8],
    at: usize,
}
type Res<T> = Result<T, String>;
impl<'a> Host<'a> {
    fn take(&mut self, n: usize) -> Res<&'a [u8]> {
        if n > self.b.len() - self.at {
            return Err(format!("the frame ends {} bytes early", n - (self.b.len() - self.at)));
        }
        self.at += n;
        Ok(&self.b[self.at - n..self.at])
    }
    fn u(&mut self, n: usize) -> Res<u128> {
        Ok(self.take(n)?.iter().rev().fold(0, |a, b| a << 8 | *b as u128))
    }
    fn i(&mut self, n: usize) -> Res<i128> {
        let s = 128 - 8 * n as u32;
        Ok((self.u(n)? as i128) << s >> s)
    }
    fn string(&mut self) -> Res<Option<&'static (String, String)>> {
        let k = self.u(2)? as u16;
        if k == 0 {
            return Ok(None);
        }
        unsafe { TABLE.as_ref().unwrap() }.get(&k).map(Some).ok_or(format!("the frame names a format string that does not exist (at byte {})", self.at))
    }
    /// A value of a type named by an interned string.
    fn tagged(&mut self, s: &(String, String), o: &mut Vec<Num>, deep: u32) -> Res<()> {
        let mut f = s.1.as_str();
        if (s.0 == "defmt_prim" || s.0 == "defmt_derived") && f.contains('|') {
            let k = self.u(1)? as usize;
            f = f.split('|').nth(k).ok_or("no such variant".to_string())?;
        }
        self.args(f, o, deep)
    }
    fn args(&mut self, f: &str, o: &mut Vec<Num>, deep: u32) -> Res<()> {
        if deep > 12 {
            return Err("formats nested without end".into());
        }
        let fr = defmt_parser::parse(f, ParserMode::ForwardsCompatible).map_err(|e| format!("{:?}: {}", f, e))?;
        let ps: Vec<&Parameter> = fr.iter().filter_map(|x| if let Fragment::Parameter(p) = x { Some(p) } else { None }).collect();
        let n = ps.iter().map(|p| p.index + 1).max().unwrap_or(0);
        let mut v: Vec<Vec<Num>> = vec![];
        for k in 0..n {
            let mut x = vec![];
            let p = ps.iter().find(|p| p.index == k).ok_or("an argument is missing".to_string())?;
            self.value(&p.ty, &mut x, deep + 1)?;
            v.push(x);
        }
        for p in ps {
            o.extend(v[p.index].iter());
        }
        Ok(())
    }
    fn value(&mut self, t: &Type, o: &mut Vec<Num>, deep: u32) -> Res<()> {
        match t {
            Type::Bool | Type::U8 => o.push(Num::Int(self.u(1)? as i128)),
            Type::U16 => o.push(Num::Int(self.u(2)? as i128)),
            Type::U32 | Type::Usize | Type::Char => o.push(Num::Int(self.u(4)? as i128)),
            Type::U64 => o.push(Num::Int(self.u(8)? as i128)),
            Type::U128 => o.push(Num::Int(self.u(16)? as i128)),
            Type::I8 => o.push(Num::Int(self.i(1)?)),
            Type::I16 => o.push(Num::Int(self.i(2)?)),
            Type::I32 | Type::Isize => o.push(Num::Int(self.i(4)?)),
            Type::I64 => o.push(Num::Int(self.i(8)?)),
            Type::I128 => o.push(Num::Int(self.u(16)? as i128)),
            Type::F32 => o.push(ff(self.u(4)? as u64)),
            Type::F64 => o.push(Num::F(self.u(8)? as u64)),
            Type::Str | Type::U8Slice => {
                let n = self.u(4)? as usize;
                self.take(n)?;
            }
            Type::IStr => {
                self.string()?;
            }
            Type::U8Array(n) => {
                for _ in 0..*n {
                    o.push(Num::Int(self.u(1)? as i128));
                }
            }
            Type::Debug | Type::Display => {
                let n = self.b[self.at..].iter().position(|c| *c == 0xff).ok_or("text without an end".to_string())?;
                let s = String::from_utf8_lossy(self.take(n)?).into_owned();
                self.take(1)?;
                text(&s, o);
            }
            Type::Format => {
                let s = self.string()?.ok_or("a value without a format".to_string())?;
                self.tagged(s, o, deep)?;
            }
            Type::FormatSequence => loop {
                match self.string()? {
                    None => break,
                    Some(s) => self.tagged(s, o, deep)?,
                }
            },
            Type::FormatSlice | Type::FormatArray(_) => {
                let n = if let Type::FormatArray(n) = t { *n } else { self.u(4)? as usize };
                let s = self.string()?.ok_or("a value without a format".to_string())?;
                for _ in 0..n {
                    self.tagged(s, o, deep)?;
                }
            }
            Type::BitField(_) => return Err("bit fields".into()),
        }
        Ok(())
    }
}
/// The numbers in a text, not those that are part of a name.
fn text(s: &str, o: &mut Vec<Num>) {
    for w in s.split(|c: char| !(c.is_ascii_alphanumeric() || "+-._".contains(c))) {
        let ok = w == "NaN" || w.ends_with("inf") || w.trim_start_matches(['+', '-', '.']).starts_with(|c: char| c.is_ascii_digit());
        if let (true, Ok(x)) = (ok, w.parse::<f32>()) {
            o.push(ff(x.to_bits() as u64));
        }
    }
}

fn drain() {
    let d = dev();
    d.used = 0;
    let fs = std::mem::take(&mut d.ring);
    for f in fs {
        read(&f);
    }
}
fn read(f: &Frame) {
    // Torn and corrupted frames do not pass the link's checksum.
    if sum(&f.bytes) != f.sum {
        return;
    }
    let d = dev();
    let mut h = Host { b: &f.bytes, at: 0 };
    let mut got = vec![];
    let r = (|| -> Res<()> {
        let s = h.string()?.ok_or("a frame without a format".to_string())?;
        h.u(8)?;
        h.args(&s.1, &mut got, 0)?;
        if h.at != f.bytes.len() {
            return Err(format!("{} bytes of the frame belong to nothing", f.bytes.len() - h.at));
        }
        Ok(())
    })();
    engine::count(5, 1);
    let seq = match got.first() {
        Some(Num::Int(i)) if (*i as usize) < d.logs[f.ctx].len() => *i as usize,
        _ => engine::fail("C33.unreadable", &format!("task {}: the host cannot make out a frame: {:?}", f.ctx, r.err())),
    };
    let l = &mut d.logs[f.ctx][seq];
    let what = format!("task {}, statement {}: {}", f.ctx, seq, FORMS[l.form as usize]);
    if let Err(e) = r {
        engine::fail("C33.unreadable", &format!("{} {}: the host cannot read the frame: {}", what, show(&l.want), e));
    }
    let got = &got[1..];
    engine::count(6, got.len() as u64);
    if got.len() != l.want.len() || got.iter().zip(&l.want).any(|(g, w)| !fits(*w, *g)) {
        engine::fail("C33.value", &format!("{} {} reached the host as {}", what, show(&l.want), show(got)));
    }
    l.got = true;
}

// ---------------------------------------------------------- what is logged

/// A user's component: two numbers, whose logging is a place for faults.
#[derive(Clone, Copy, Debug, Default, PartialEq, PartialOrd)]
struct Uc(i32, u16);
macro_rules! ucop {
    ($t:ident, $m:ident, $w:ident) => {
        impl $t for Uc {
            type Output = Uc;
            fn $m(self, o: Uc) -> Uc {
                Uc(self.0.$w(o.0), self.1 ^ o.1)
            }
        }
    };
}
ucop!(Add, add, wrapping_add);
ucop!(Sub, sub, wrapping_sub);
ucop!(Mul, mul, wrapping_mul);
impl Div for Uc {
    type Output = Uc;
    fn div(self, o: Uc) -> Uc {
        Uc(self.0.checked_div(o.0).unwrap_or(0), self.1 ^ o.1)
    }
}
impl Component for Uc {}
impl defmt::Format for Uc {
    fn format(&self, f: defmt::Formatter<'_>) {
        fault_point();
        defmt::write!(f, "{=i32}", self.0);
        fault_point();
        let k = rt::quiet(|| unsafe { REENTER[rt::cur()] });
        if k != 0 {
            reenter(k);
        }
        defmt::write!(f, "/{=u16}", self.1);
        fault_point();
    }
}

#[derive(Clone, Copy, defmt::Format)]
struct Pose {
    at: Vector2d<F32>,
    turn: Option<Quaternion>,
    scale: F32,
    grid: Vector3d<i8>,
}

fn one(t: usize, o: &'static Op) {
    let form = o.code as usize % FORMS.len();
    let (link, arg, at, re, jump) = (o.a[0], o.a[1], o.a[2], o.a[3], o.a[4]);
    let w = &o.a[5..];
    let seq = rt::quiet(|| {
        let d = dev();
        if jump != 0 {
            d.clock = d.clock.wrapping_add(jump << 20).wrapping_sub(1 << 44);
            engine::count(15, 1);
        }
        let seq = d.logs[t].len() as u32;
        d.logs[t].push(Logged { form: form as u32, want: want(form, w), due: false, got: false });
        let c = &mut d.ch[t];
        c.seq = seq;
        c.link = link % LINK.len() as u64;
        c.arg = arg;
        c.open = false;
        c.released = 0;
        seq
    });
    let user = matches!(form, 12 | 13);
    unsafe { REENTER[t] = if user && re != 0 { 1 + arg % 7 } else { 0 } }
    if user && re != 0 {
        engine::count(14, 1);
        engine::nontrivial();
    }
    arm(if user { at } else { 0 });
    let r = lib(LOOSE, || log(form, seq, w));
    let p = disarm();
    if p.fired {
        engine::count(16, 1);
        engine::nontrivial();
    }
    rt::quiet(|| {
        let c = &dev().ch[t];
        let what = || format!("task {}, statement {}: {}", t, seq, FORMS[form]);
        match r {
            Got::Val(same) => {
                if p.fired || c.released != 1 {
                    engine::fail("C33.frames", &format!("{}: {} frames ended", what(), c.released));
                }
                if !same {
                    engine::fail("C33.changed", &format!("{} {}: logging changed the value", what(), show(&dev().logs[t][seq as usize].want)));
                }
            }
            Got::Panic(inj) => {
                if !inj || !p.fired {
                    engine::fail("C33.panic", &format!("{} {}: logging failed: {}", what(), show(&dev().logs[t][seq as usize].want), engine::last_panic()));
                }
                engine::count(13, 1);
            }
        }
    });
}

fn h(w: u64) -> f32 {
    f32::from_bits(w as u32)
}
fn q(w: &[u64]) -> Quaternion {
    Quaternion::new(h(w[0]), h(w[1]), h(w[2]), h(w[3]))
}
fn v3(w: &[u64]) -> Vector3d<F32> {
    Vector3d { x: F32(h(w[0])), y: F32(h(w[1])), z: F32(h(w[2])) }
}
fn uc(a: u64, b: u64) -> Uc {
    Uc(a as i32, b as u16)
}
fn pose(w: &[u64]) -> Pose {
    Pose {
        at: Vector2d { x: F32(h(w[0])), y: F32(h(w[1])) },
        turn: if w[11] & 1 == 0 { Some(q(&w[2..])) } else { None },
        scale: F32(h(w[6])),
        grid: Vector3d { x: w[7] as i8, y: w[8] as i8, z: w[9] as i8 },
    }
}

fn want(form: usize, w: &[u64]) -> Vec<Num> {
    let f = |r: std::ops::Range<usize>| w[r].iter().map(|x| ff(*x)).collect::<Vec<_>>();
    let i = |n: usize, g: fn(u64) -> i128| w[..n].iter().map(|x| Num::Int(g(*x))).collect::<Vec<_>>();
    let u = |n: usize| (0..n).flat_map(|k| [Num::Int(w[2 * k % 12] as i32 as i128), Num::Int(w[(2 * k + 1) % 12] as u16 as i128)]).collect::<Vec<_>>();
    match form {
        0 | 22 => f(0..1),
        1 | 2 => f(0..2),
        3 => f(0..3),
        4 => i(3, |x| x as i16 as i128),
        5 => i(2, |x| x as i8 as i128),
        6 => i(3, |x| x as u32 as i128),
        7 => i(2, |x| x as i32 as i128),
        8 | 23 => f(0..4),
        9 => f(0..w[11] as usize % 12),
        10 => i(w[11] as usize % 4 * 2, |x| x as i32 as i128),
        11 => f(0..8),
        12 => u(2),
        13 => u(w[11] as usize % 5 * 3),
        14 => f(0..7),
        15 => {
            let mut v = f(0..2);
            if w[11] & 1 == 0 {
                v.extend(f(2..6));
            }
            v.extend(f(6..7));
            v.extend(w[7..10].iter().map(|x| Num::Int(*x as i8 as i128)));
            v
        }
        16 => f(0..5),
        17 => {
            if w[11] & 1 == 0 {
                f(0..3)
            } else {
                vec![]
            }
        }
        18 => i(3, |x| x as u8 as i128),
        19 => i(2, |x| x as u16 as i128),
        20 => f(0..w[11] as usize % 3 * 4),
        _ => i(9, |x| x as i32 as i128),
    }
}

/// One log statement; whether the value was the same afterwards.
fn log(form: usize, n: u32, w: &[u64]) -> bool {
    let s = |a: f32, b: f32| same(a, b);
    let s3 = |a: Vector3d<F32>, b: Vector3d<F32>| s(a.x.0, b.x.0) && s(a.y.0, b.y.0) && s(a.z.0, b.z.0);
    let sq = |a: Quaternion, b: Quaternion| s(a.w(), b.w()) && s(a.x(), b.x()) && s(a.y(), b.y()) && s(a.z(), b.z());
    macro_rules! ints {
        ($v:expr) => {{
            let v = $v;
            let k = v;
            defmt::println!("{=u32} {}", n, v);
            v == k
        }};
    }
    match form {
        0 => {
            let v = F32(h(w[0]));
            defmt::println!("{=u32} {}", n, v);
            s(v.0, h(w[0]))
        }
        1 => {
            let v = Vector2d { x: h(w[0]), y: h(w[1]) };
            defmt::println!("{=u32} {}", n, v);
            s(v.x, h(w[0])) && s(v.y, h(w[1]))
        }
        2 => {
            let v = Vector2d { x: F32(h(w[0])), y: F32(h(w[1])) };
            defmt::println!("{=u32} {}", n, &v);
            s(v.x.0, h(w[0])) && s(v.y.0, h(w[1]))
        }
        3 => {
            let v = Vector3d { x: h(w[0]), y: h(w[1]), z: h(w[2]) };
            defmt::println!("{=u32} at {}", n, v);
            s(v.x, h(w[0])) && s(v.y, h(w[1])) && s(v.z, h(w[2]))
        }
        4 => ints!(Vector3d { x: w[0] as i16, y: w[1] as i16, z: w[2] as i16 }),
        5 => ints!(Vector2d { x: w[0] as i8, y: w[1] as i8 }),
        6 => ints!(Vector3d { x: w[0] as u32, y: w[1] as u32, z: w[2] as u32 }),
        7 => ints!(Vector2d { x: w[0] as i32, y: w[1] as i32 }),
        8 => {
            let v = q(w);
            defmt::println!("{=u32} {}", n, v);
            sq(v, q(w))
        }
        9 => {
            let mut v = [F32(0.0); 12];
            for i in 0..12 {
                v[i] = F32(h(w[i]));
            }
            defmt::println!("{=u32} {=[?]}", n, v[..w[11] as usize % 12]);
            (0..12).all(|i| s(v[i].0, h(w[i])))
        }
        10 => {
            let mut v = [Vector2d { x: 0i32, y: 0 }; 4];
            for i in 0..4 {
                v[i] = Vector2d { x: w[2 * i] as i32, y: w[2 * i + 1] as i32 };
            }
            let k = v;
            defmt::println!("{=u32} {}", n, v[..w[11] as usize % 4]);
            v == k
        }
        11 => {
            let v = [q(w), q(&w[4..])];
            defmt::println!("{=u32} {=[?;2]}", n, v);
            sq(v[0], q(w)) && sq(v[1], q(&w[4..]))
        }
        12 => ints!(Vector2d { x: uc(w[0], w[1]), y: uc(w[2], w[3]) }),
        13 => {
            let mut v = [Vector3d { x: Uc(0, 0), y: Uc(0, 0), z: Uc(0, 0) }; 5];
            for i in 0..5 {
                let g = |k: usize| uc(w[(6 * i + 2 * k) % 12], w[(6 * i + 2 * k + 1) % 12]);
                v[i] = Vector3d { x: g(0), y: g(1), z: g(2) };
            }
            let k = v;
            defmt::println!("{=u32} {}", n, v[..w[11] as usize % 5]);
            v == k
        }
        14 => {
            let (a, b) = (q(w), v3(&w[4..]));
            defmt::println!("{=u32} {} then {}", n, a, b);
            sq(a, q(w)) && s3(b, v3(&w[4..]))
        }
        15 => {
            let v = pose(w);
            defmt::println!("{=u32} {}", n, v);
            s(v.scale.0, h(w[6]))
        }
        16 => {
            let v = (F32(h(w[0])), q(&w[1..]));
            defmt::println!("{=u32} {}", n, v);
            s(v.0 .0, h(w[0])) && sq(v.1, q(&w[1..]))
        }
        17 => {
            let v = if w[11] & 1 == 0 { Some(v3(w)) } else { None };
            defmt::println!("{=u32} {}", n, v);
            v.map_or(true, |v| s3(v, v3(w)))
        }
        18 => ints!(Vector3d { x: w[0] as u8, y: w[1] as u8, z: w[2] as u8 }),
        19 => ints!(Vector2d { x: w[0] as u16, y: w[1] as u16 }),
        20 => {
            let v = [q(w), q(&w[4..])];
            defmt::println!("{=u32} {=[?]}", n, v[..w[11] as usize % 3]);
            sq(v[0], q(w)) && sq(v[1], q(&w[4..]))
        }
        21 => {
            let g = |i: usize| Vector3d { x: w[i] as i32, y: w[i + 1] as i32, z: w[i + 2] as i32 };
            let v = [g(0), g(3), g(6)];
            let k = v;
            defmt::println!("{=u32} {}", n, v);
            v == k
        }
        22 => {
            let v = F32(h(w[0]));
            defmt::println!("{=u32} {}", n, defmt::Display2Format(&v));
            s(v.0, h(w[0]))
        }
        _ => {
            let v = q(w);
            defmt::println!("{=u32} {}", n, defmt::Debug2Format(&v));
            sq(v, q(w))
        }
    }
}

fn run(s: &Scenario) {
    let n = s.tasks.len();
    let ch = || Chan { buf: Vec::with_capacity(256), open: false, seq: 0, link: 0, arg: 0, released: 0 };
    unsafe {
        DEV = Some(Dev {
            ch: (0..17).map(|_| ch()).collect(),
            logs: (0..17).map(|_| vec![]).collect(),
            ring: vec![],
            late: vec![],
            used: 0,
            size: s.cfg[0].clamp(16, 1 << 20) as usize,
            every: s.cfg[1].clamp(1, 64) as usize,
            frames: 0,
            clock: 1 << 50,
        });
    }
    rt::set_on_limit(|_| engine::fail("C33.no-progress", "a log statement did not end"));
    run_tasks(s, 0, one);
    let d = dev();
    if rt::switches() > 0 {
        engine::nontrivial();
    }
    for t in 0..n {
        if d.ch[t].open {
            engine::count(17, 1);
        }
    }
    // The host reads what is left, delayed frames last.
    drain();
    for f in std::mem::take(&mut d.late) {
        read(&f);
    }
    for t in 0..n {
        for (i, l) in d.logs[t].iter().enumerate() {
            if l.due && !l.got {
                engine::fail("C33.missing", &format!("task {}, statement {}: {} {} never reached the host", t, i, FORMS[l.form as usize], show(&l.want)));
            }
        }
    }
}

fn describe(s: &Scenario) -> Vec<String> {
    let mut l = vec![format!("buffer of {} bytes, read every {} frames", s.cfg[0], s.cfg[1])];
    for (t, ops) in s.tasks.iter().enumerate() {
        for o in ops {
            let form = o.code as usize % FORMS.len();
            let mut x = format!("task {}: log {} {}, link {}", t, FORMS[form], show(&want(form, &o.a[5..])), LINK[o.a[0] as usize % 6]);
            if o.a[2] != 0 && matches!(form, 12 | 13) {
                x.push_str(&format!(", component fails at point {}", o.a[2]));
            }
            l.push(x);
        }
    }
    show_sched(s, &mut l);
    l
}
