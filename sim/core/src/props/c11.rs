//! C11: element-wise transforms call back once per axis and isolate failures.
//!
//! Up to four contexts map scripted closures (which fail, re-enter the
//! library, or are suspended, at chosen axes) over vectors of built-in and
//! caller-defined types, and measure and normalise vectors whose component
//! conversions fail at chosen points.

use crate::cx::{Cf, Cq, Cx, Vn, POISON};
use crate::src_script::reenter;
use crate::wl::*;
use micromath::vector::{Component, Vector, Vector2d, Vector3d};
use micromath::F32;
use mmrt::engine::{self, PropDef, Tuning};
use mmrt::rng::Rng;
use mmrt::rt;
use mmrt::scen::{Op, Scenario};

pub static DEF: PropDef = PropDef {
    id: "C11",
    gen,
    run,
    runs: (80_000, 2_000_000),
    counters: &[
        "mid_call_preemptions",
        "contexts_stopped_for_ever_in_mid_call",
        "shared_state_accesses",
        "blocked_futex_waits",
        "maps",
        "closure_calls",
        "closure_failures",
        "closures_that_re_entered",
        "suspensions_inside_closures",
        "magnitudes_and_distances",
        "normalisations",
        "conversion_failures_that_struck",
        "caller_defined_vectors",
    ],
    rule: "a case is one seeded run: 1 to 4 contexts make up to 10 transforms each over 22 vector types; non-trivial when at least one closure or conversion failed, re-entered or was preempted; distinct by hash of switch points and outcomes",
    describe,
    var_from: var_none,
};

const MAP: u32 = 0;
const MAG: u32 = 1;
const DIST: u32 = 2;
const NORM: u32 = 3;
const MAGSQ: u32 = 4;
const WHAT: [&str; 5] = ["map", "magnitude", "distance", "normalized", "magnitude_sq"];

const TYPES: [&str; 25] = [
    "Vector2d<Cf>", "Vector3d<Cf>", "Vn<Cf, 1>", "Vn<Cf, 5>", "Vector2d<f32>", "Vector3d<f32>", "Vector2d<F32>", "Vector3d<F32>",
    "Vector2d<i8>", "Vector3d<i8>", "Vector2d<i16>", "Vector3d<i16>", "Vector2d<u8>", "Vector3d<u8>", "Vector2d<u16>",
    "Vector3d<u16>", "Vector2d<Cx>", "Vector3d<Cx>", "Vn<Cx, 4>", "Vector2d<i32>", "Vector3d<i32>", "Vector3d<u32>",
    "Vector2d<Cq>", "Vector3d<Cq>", "Vn<Cq, 4>",
];

/// Components whose squares overflow, vanish or are not numbers.
const SPECIAL: u64 = 1 << 40;
const WILD: [f32; 13] = [
    f32::INFINITY, f32::NEG_INFINITY, f32::NAN, f32::MAX, -1e30, 1e-30, -0.0, f32::MIN_POSITIVE, 1e20, 1.0, 0.0, 1e-45,
    f32::from_bits(POISON),
];
fn float(w: u64) -> f32 {
    if w >= SPECIAL && w - SPECIAL < WILD.len() as u64 {
        WILD[(w - SPECIAL) as usize]
    } else {
        w as i64 as f32
    }
}

// Closure behaviours.
const OK: u64 = 0;
const FAIL: u64 = 1;
const REENTER: u64 = 2;
const YIELD: u64 = 3;

fn gen(r: &mut Rng, _t: Tuning) -> Scenario {
    let mut s = Scenario::default();
    let n = 1 + r.below(4) as usize;
    let faulty = r.below(3);
    for _ in 0..n {
        let mut v = vec![];
        for _ in 0..1 + r.below(10) {
            let code = if r.chance(1, 2) { MAP } else { 1 + r.below(4) as u32 };
            let ty = match code {
                MAP => r.below(25),
                MAG | DIST | NORM if r.chance(1, 6) => 22 + r.below(3),
                MAG | DIST => r.below(16),
                NORM => r.below(8),
                _ => r.below(8),
            };
            let at = if faulty > 0 && r.chance(1, 3) { 1 + r.below(14) } else { 0 };
            let mut a = vec![ty, at];
            for _ in 0..5 {
                a.push(match r.below(8) {
                    0 if faulty > 0 => FAIL,
                    1 => REENTER,
                    2 | 3 => YIELD,
                    _ => OK,
                });
            }
            // How the components are chosen: 3 and 5 pick out the values at
            // which a shortcut might be taken (zero, unit and equal vectors),
            // 4 those at which the measure leaves the range of a float.
            let style = r.below(6);
            let poison = code != MAP && ty < 4 && faulty > 0 && r.chance(1, 4);
            let same = r.range(-3, 3) as u64;
            for i in 0..10 {
                a.push(match (code, style) {
                    (MAP, _) if matches!(ty, 0..=7) && r.chance(1, 6) => SPECIAL + r.below(13),
                    (MAP, 3) => r.below(2),
                    (MAP, 5) if i < 5 => same & 0x3fff_ffff,
                    (MAP, _) => r.u64() >> 34,
                    (_, 0) => r.range(-128, 127) as u64,
                    (_, 1) => r.u64() & 0xffff,
                    (_, 3) => r.range(-1, 1) as u64,
                    _ if poison && r.chance(1, 6) => SPECIAL + 12,
                    (_, 4) if matches!(ty, 0..=7) => SPECIAL + r.below(12),
                    (_, 5) if i < 5 || r.chance(2, 3) => same,
                    _ => r.range(-9, 9) as u64,
                });
            }
            if poison && code == DIST && r.chance(1, 2) {
                // The same bad value in the same axis of both.
                let i = 7 + r.below(if ty == 2 { 1 } else { 2 }) as usize;
                a[i] = SPECIAL + 12;
                a[i + 5] = a[i];
            }
            v.push(Op { code, a });
        }
        s.tasks.push(v);
    }
    if n > 1 {
        s.sched = schedule(r, n, 20, true);
    }
    s
}

trait El: Component {
    fn of(w: u64) -> Self;
    fn w(self) -> u64;
}
macro_rules! el { ($($t:ty),*) => { $( impl El for $t {
    fn of(w: u64) -> Self { w as $t }
    fn w(self) -> u64 { self as i64 as u64 }
} )* } }
el!(i8, i16, i32, u8, u16, u32);
impl El for f32 {
    fn of(w: u64) -> Self {
        float(w)
    }
    fn w(self) -> u64 {
        self.to_bits() as u64
    }
}
impl El for F32 {
    fn of(w: u64) -> Self {
        F32(float(w))
    }
    fn w(self) -> u64 {
        self.0.to_bits() as u64
    }
}
impl El for Cf {
    fn of(w: u64) -> Self {
        Cf(float(w))
    }
    fn w(self) -> u64 {
        self.0.to_bits() as u64
    }
}
impl El for Cq {
    fn of(w: u64) -> Self {
        // The low bits are lost by every conversion.
        Cq((w as i64) << 12 | 13)
    }
    fn w(self) -> u64 {
        self.0 as u64
    }
}
impl El for Cx {
    fn of(w: u64) -> Self {
        Cx(w as i64)
    }
    fn w(self) -> u64 {
        self.0 as u64
    }
}

trait Vv<C: El>: Vector<C> {
    const N: usize;
    fn make(w: &[u64]) -> Self;
    fn comps(&self) -> Vec<C>;
}
impl<C: El> Vv<C> for Vector2d<C> {
    const N: usize = 2;
    fn make(w: &[u64]) -> Self {
        Vector2d { x: C::of(w[0]), y: C::of(w[1]) }
    }
    fn comps(&self) -> Vec<C> {
        vec![self.x, self.y]
    }
}
impl<C: El> Vv<C> for Vector3d<C> {
    const N: usize = 3;
    fn make(w: &[u64]) -> Self {
        Vector3d { x: C::of(w[0]), y: C::of(w[1]), z: C::of(w[2]) }
    }
    fn comps(&self) -> Vec<C> {
        vec![self.x, self.y, self.z]
    }
}
impl<C: El, const M: usize> Vv<C> for Vn<C, M> {
    const N: usize = M;
    fn make(w: &[u64]) -> Self {
        let mut v = Vn([C::default(); M]);
        for i in 0..M {
            v.0[i] = C::of(w[i]);
        }
        v
    }
    fn comps(&self) -> Vec<C> {
        self.0.to_vec()
    }
}
fn ws<C: El, V: Vv<C>>(v: &V) -> Vec<u64> {
    v.comps().iter().map(|c| c.w()).collect()
}
fn head<C: El, V: Vv<C>>(t: usize, o: &Op) -> String {
    format!("task {}: {} of {} {:x?}", t, WHAT[o.code as usize % 5], TYPES[o.a[0] as usize % TYPES.len()], &o.a[7..7 + V::N])
}

fn map<C: El, V: Vv<C>>(t: usize, o: &'static Op) {
    let mut src = V::make(&o.a[7..12]);
    let before = ws::<C, V>(&src);
    let out: Vec<u64> = (0..V::N).map(|i| C::of(o.a[12 + i]).w()).collect();
    let mut seen: Vec<u64> = Vec::with_capacity(64);
    let mut yields = 0u64;
    arm(o.a[1]);
    let got = {
        let (seen, yields) = (&mut seen, &mut yields);
        let src = &mut src;
        lib(LOOSE, move || {
            src.map(|c| {
                rt::seam();
                let i = rt::quiet(|| {
                    seen.push(c.w());
                    seen.len() - 1
                });
                match o.a.get(2 + i).copied().unwrap_or(OK) {
                    FAIL => inject(),
                    REENTER => {
                        let p = rt::quiet(disarm);
                        reenter(i as u64);
                        rt::quiet(|| *plan() = p);
                    }
                    YIELD => {
                        for _ in 0..7 {
                            rt::seam();
                        }
                        rt::quiet(|| *yields += 1);
                    }
                    _ => {}
                }
                C::of(o.a[(12 + i).min(16)])
            })
        })
    };
    let p = disarm();
    engine::count(4, 1);
    engine::count(5, seen.len() as u64);
    engine::count(8, yields);
    let fail_at = (0..V::N).find(|i| o.a[2 + i] == FAIL);
    if seen.iter().enumerate().any(|(i, _)| o.a.get(2 + i) == Some(&REENTER)) {
        engine::count(7, 1);
        engine::nontrivial();
    }
    let after = ws::<C, V>(&src);
    rt::note(seen.iter().fold(0, |a, b| a << 5 ^ b));
    let h = || head::<C, V>(t, o);
    // The closure saw the leading components, each once, in order.
    if seen.len() > V::N || seen[..] != before[..seen.len()] {
        engine::fail("C11.calls", &format!("{}: the closure was called with {:x?}", h(), seen));
    }
    if after != before {
        engine::fail("C11.source", &format!("{}: the source vector became {:x?}", h(), after));
    }
    match got {
        Got::Val(v) => {
            if fail_at.is_some_and(|i| i < seen.len()) || p.fired {
                engine::fail("C11.swallowed", &format!("{}: a failure in the closure or the vector did not surface", h()));
            }
            if seen.len() != V::N {
                engine::fail("C11.calls", &format!("{}: the closure was called {} times", h(), seen.len()));
            }
            let got = ws::<C, V>(&v);
            if got != out {
                engine::fail("C11.result", &format!("{}: gave {:x?} where the closure returned {:x?}", h(), got, out));
            }
        }
        Got::Panic(inj) => {
            engine::nontrivial();
            if p.fired {
                engine::count(11, 1);
                return;
            }
            match fail_at {
                Some(i) if inj => {
                    engine::count(6, 1);
                    if seen.len() != i + 1 {
                        engine::fail("C11.calls", &format!("{}: the closure failed at axis {} and had been called {} times", h(), i, seen.len()));
                    }
                }
                _ => engine::fail("C11.spurious", &format!("{} failed although nothing it called failed: {}", h(), engine::last_panic())),
            }
        }
    }
}

fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= 2e-4 * b.abs() + 1e-6
}
/// The library's own square root of an exactly summed square.
fn root(x: f64) -> f64 {
    F32(x as f32).sqrt().0 as f64
}

trait Num: El {
    fn num(self) -> f64;
    /// Whether a conversion to f32 fails.
    fn poisoned(self) -> bool {
        false
    }
    fn rest(self) -> i64 {
        0
    }
    const STEP: f64 = 0.0;
}
macro_rules! nums { ($($t:ty),*) => { $( impl Num for $t { fn num(self) -> f64 { self as f64 } } )* } }
nums!(i8, i16, u8, u16, f32);
impl Num for F32 {
    fn num(self) -> f64 {
        self.0 as f64
    }
}
impl Num for Cq {
    fn num(self) -> f64 {
        (self.0 >> 4) as f64 / 256.0
    }
    /// What a conversion from a float leaves behind the value.
    fn rest(self) -> i64 {
        self.0 & 15
    }
    const STEP: f64 = 1.0 / 256.0;
}
impl Num for Cf {
    fn poisoned(self) -> bool {
        self.0.to_bits() == POISON
    }
    fn num(self) -> f64 {
        self.0 as f64
    }
}

/// Ends one measurement: whether the value may be checked.
/// `poisoned`: one of the components to be converted has no conversion.
fn surfaced<C: El, V: Vv<C>, T>(t: usize, o: &Op, got: Got<T>, poisoned: bool) -> Option<T> {
    let p = disarm();
    match got {
        Got::Val(v) => {
            if p.fired {
                engine::fail("C11.swallowed", &format!("{}: conversion {} failed and the call returned", head::<C, V>(t, o), o.a[1]));
            }
            if poisoned {
                engine::fail("C11.swallowed", &format!("{} (other operand {:x?}): a component has no conversion and the call returned", head::<C, V>(t, o), &o.a[12..12 + V::N]));
            }
            Some(v)
        }
        Got::Panic(_) => {
            if !p.fired && !poisoned {
                engine::fail("C11.spurious", &format!("{} failed although no conversion failed: {}", head::<C, V>(t, o), engine::last_panic()));
            }
            engine::count(11, 1);
            engine::nontrivial();
            None
        }
    }
}

fn sane(sq: f64) -> bool {
    sq == 0.0 || (1e-30..1e30).contains(&sq)
}
fn measure<C: Num + Into<f32>, V: Vv<C>>(t: usize, o: &'static Op) {
    let (a, b) = (V::make(&o.a[7..12]), V::make(&o.a[12..17]));
    let (x, y): (Vec<f64>, Vec<f64>) = (a.comps().iter().map(|c| c.num()).collect(), b.comps().iter().map(|c| c.num()).collect());
    arm(o.a[1]);
    let dist = o.code == DIST;
    let got = lib(LOOSE, || if dist { a.distance(b) } else { a.magnitude() });
    engine::count(9, 1);
    let Some(v) = surfaced::<C, V, f32>(t, o, got, a.comps().iter().any(|c| c.poisoned()) || dist && b.comps().iter().any(|c| c.poisoned())) else { return };
    rt::note(v.to_bits() as u64);
    let sq: f64 = if dist { x.iter().zip(&y).map(|(a, b)| (a - b) * (a - b)).sum() } else { x.iter().map(|a| a * a).sum() };
    // Outside the range of a float only the failures are judged.
    if sane(sq) && !close(v as f64, root(sq)) {
        let to = if dist { format!(" to {:?}", y) } else { String::new() };
        engine::fail("C11.measure", &format!("{} ({:?}{}) is {} instead of {}", head::<C, V>(t, o), x, to, v, root(sq)));
    }
}
fn normalise<C: Num + Into<f32> + From<f32>, V: Vv<C>>(t: usize, o: &'static Op) {
    let a = V::make(&o.a[7..12]);
    let x: Vec<f64> = a.comps().iter().map(|c| c.num()).collect();
    let sq: f64 = x.iter().map(|a| a * a).sum();
    arm(o.a[1]);
    let got = lib(LOOSE, || a.normalized());
    engine::count(10, 1);
    let Some(v) = surfaced::<C, V, V>(t, o, got, a.comps().iter().any(|c| c.poisoned())) else { return };
    let y: Vec<f64> = v.comps().iter().map(|c| c.num()).collect();
    if sane(sq) && sq != 0.0 && v.comps().iter().any(|c| c.rest() != 0) {
        engine::fail("C11.measure", &format!("{} ({:?}) gave {:?}, which no conversion from f32 gives", head::<C, V>(t, o), x, v));
    }
    for (g, w) in y.iter().zip(&x) {
        rt::note((*g as f32).to_bits() as u64);
        if sane(sq) && sq != 0.0 && (g - w / root(sq)).abs() > 1e-3 + C::STEP {
            engine::fail("C11.measure", &format!("{} ({:?}) gave {:?}", head::<C, V>(t, o), x, y));
        }
        // A component's quotient is its own, down to the sign of a zero.
        if sane(sq) && sq != 0.0 && !(*g == 0.0 && C::STEP != 0.0) && !g.is_nan() && g.is_sign_negative() != w.is_sign_negative() {
            engine::fail("C11.measure", &format!("{} ({:?}) gave {:?}, a sign of which is another's", head::<C, V>(t, o), x, y));
        }
    }
}
fn square<C: Num + std::iter::Sum, V: Vv<C>>(t: usize, o: &'static Op) {
    let a = V::make(&o.a[7..12]);
    let x: Vec<f64> = a.comps().iter().map(|c| c.num()).collect();
    arm(o.a[1]);
    let got = lib(LOOSE, || a.magnitude_sq());
    engine::count(9, 1);
    let Some(v) = surfaced::<C, V, C>(t, o, got, false) else { return };
    rt::note(v.w());
    let sq: f64 = x.iter().map(|a| a * a).sum();
    if sane(sq) && !close(v.num(), sq) {
        engine::fail("C11.measure", &format!("{} ({:?}) is {} instead of {}", head::<C, V>(t, o), x, v.num(), sq));
    }
}

fn one(t: usize, o: &'static Op) {
    let ty = o.a[0] as usize % TYPES.len();
    if matches!(ty, 2 | 3 | 18 | 24) {
        engine::count(12, 1);
    }
    macro_rules! floaty {
        ($f:ident) => {
            match ty {
                22 => $f::<Cq, Vector2d<Cq>>(t, o),
                23 => $f::<Cq, Vector3d<Cq>>(t, o),
                24 => $f::<Cq, Vn<Cq, 4>>(t, o),
                0 => $f::<Cf, Vector2d<Cf>>(t, o),
                1 => $f::<Cf, Vector3d<Cf>>(t, o),
                2 => $f::<Cf, Vn<Cf, 1>>(t, o),
                3 => $f::<Cf, Vn<Cf, 5>>(t, o),
                4 => $f::<f32, Vector2d<f32>>(t, o),
                5 => $f::<f32, Vector3d<f32>>(t, o),
                6 => $f::<F32, Vector2d<F32>>(t, o),
                _ => $f::<F32, Vector3d<F32>>(t, o),
            }
        };
    }
    macro_rules! narrow {
        ($f:ident) => {
            match ty {
                8 => $f::<i8, Vector2d<i8>>(t, o),
                9 => $f::<i8, Vector3d<i8>>(t, o),
                10 => $f::<i16, Vector2d<i16>>(t, o),
                11 => $f::<i16, Vector3d<i16>>(t, o),
                12 => $f::<u8, Vector2d<u8>>(t, o),
                13 => $f::<u8, Vector3d<u8>>(t, o),
                14 => $f::<u16, Vector2d<u16>>(t, o),
                15 => $f::<u16, Vector3d<u16>>(t, o),
                _ => floaty!($f),
            }
        };
    }
    match o.code {
        MAP => match ty {
            16 => map::<Cx, Vector2d<Cx>>(t, o),
            17 => map::<Cx, Vector3d<Cx>>(t, o),
            18 => map::<Cx, Vn<Cx, 4>>(t, o),
            19 => map::<i32, Vector2d<i32>>(t, o),
            20 => map::<i32, Vector3d<i32>>(t, o),
            21 => map::<u32, Vector3d<u32>>(t, o),
            _ => narrow!(map),
        },
        MAG | DIST => narrow!(measure),
        NORM => floaty!(normalise),
        _ if ty >= 8 => {}
        _ => match ty {
            0 => square::<Cf, Vector2d<Cf>>(t, o),
            1 => square::<Cf, Vector3d<Cf>>(t, o),
            2 => square::<Cf, Vn<Cf, 1>>(t, o),
            3 => square::<Cf, Vn<Cf, 5>>(t, o),
            4 => square::<f32, Vector2d<f32>>(t, o),
            5 => square::<f32, Vector3d<f32>>(t, o),
            6 => square::<F32, Vector2d<F32>>(t, o),
            _ => square::<F32, Vector3d<F32>>(t, o),
        },
    }
}

fn run(s: &Scenario) {
    rt::set_on_limit(|_| engine::fail("C11.no-progress", "a transform did not end"));
    let e = run_tasks(s, 0, one);
    if rt::switches() > 0 && e.stalled == 0 {
        engine::nontrivial();
    }
}

fn describe(s: &Scenario) -> Vec<String> {
    let mut l = vec![];
    for (t, ops) in s.tasks.iter().enumerate() {
        for o in ops {
            let f = if o.a[1] > 0 { format!(", conversion {} fails", o.a[1]) } else { String::new() };
            let c = if o.code == MAP {
                let b: Vec<&str> = o.a[2..7].iter().map(|x| ["returns", "FAILS", "re-enters", "is suspended"][*x as usize & 3]).collect();
                format!(", closure {} with results {:x?}", b.join("/"), &o.a[12..])
            } else {
                format!(", other operand {:x?}", &o.a[12..])
            };
            l.push(format!("task {}: {} of {} {:x?}{}{}", t, WHAT[o.code as usize % 5], TYPES[o.a[0] as usize % TYPES.len()], &o.a[7..12], c, f));
        }
    }
    show_sched(s, &mut l);
    l
}
