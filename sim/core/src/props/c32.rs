//! C32: a controller on wrapped floats stays in step with one on plain floats.
//!
//! Up to three pairs of twin controllers, the one written on the wrapper and
//! its mixed forms, the other on plain floats, take the same faulty readings:
//! any bit pattern, lost, late, repeated, next to a threshold. They compute,
//! compare, branch, crash and restart from checkpoints. The plain twin is the
//! model: every register stays equal, bit for bit.

use crate::wl::*;
use micromath::{F32Ext, F32};
use mmrt::engine::{self, PropDef, Tuning};
use mmrt::rng::{mix, Rng};
use mmrt::rt;
use mmrt::scen::{Op, Scenario};
use micromath::num_traits::{self, Num, One, Zero};
use std::cmp::Ordering;

pub static DEF: PropDef = PropDef {
    id: "C32",
    gen,
    run,
    runs: (80_000, 3_000_000),
    counters: &[
        "mid_call_preemptions",
        "contexts_stopped_for_ever_in_mid_call",
        "shared_state_accesses",
        "blocked_futex_waits",
        "readings",
        "readings_of_any_bit_pattern",
        "lost_readings_nan",
        "saturated_readings_infinite",
        "late_readings",
        "whole_number_readings",
        "operations_in_both_twins",
        "operations_with_a_result_out_of_range_or_nan",
        "comparisons_in_both_twins",
        "comparisons_next_to_a_threshold",
        "comparisons_with_nan",
        "functions_by_both_entry_points",
        "streams_folded",
        "stream_items_lost",
        "control_steps",
        "control_steps_through_the_generic_interface",
        "crashes_and_restarts_from_a_checkpoint",
        "set_points_reached_after_faults",
        "most_steps_to_set_point",
        "sweeps_of_readings_of_every_size",
    ],
    rule: "a case is one seeded run: 1 to 3 pairs of twins take up to 40 operations on faulty readings, with crashes, and must then reach a set point together; non-trivial when at least one fault and one comparison took part; distinct by hash of switch points and register histories",
    describe,
    var_from: |c| if c == FOLD { 4 } else { usize::MAX },
};

const READ: u32 = 0;
const ARITH: u32 = 1;
const CMP: u32 = 2;
const FN: u32 = 3;
const FOLD: u32 = 4;
const CTL: u32 = 5;
const GENERIC: u32 = 6;
const CLASS: u32 = 7;
const CKPT: u32 = 8;
const CRASH: u32 = 9;
const SETTLE: u32 = 10;
const SWEEP: u32 = 11;

const K_LATE: u64 = 1;
const REGS: u64 = 5;

/// How an operand is got: from a register, or next to the left-hand one.
fn operand(r: &mut Rng) -> Vec<u64> {
    let k = match r.below(12) {
        0..=4 => 0,
        5 | 6 => 1,
        7 => 2,
        8 => 3,
        9 => 4,
        10 => 5,
        _ => 6,
    };
    vec![k, if k == 1 { fbits(r) as u64 } else { r.below(64) }]
}
fn rhs(t: usize, k: u64, v: u64, a: f32) -> f32 {
    match k {
        0 => node(t).p[(v % REGS) as usize],
        1 => f32::from_bits(v as u32),
        2 => a,
        3 => f32::from_bits(a.to_bits().wrapping_add(1)),
        4 => f32::from_bits(a.to_bits().wrapping_sub(1)),
        5 => [0.0, -0.0, 1.0, -1.0, 2.0, 0.5, f32::MAX, f32::MIN_POSITIVE][v as usize % 8],
        _ => -a,
    }
}

fn gen(r: &mut Rng, _t: Tuning) -> Scenario {
    let mut s = Scenario::default();
    let n = 1 + r.below(3) as usize;
    for _ in 0..n {
        let mut v = vec![];
        let mut old: Option<Op> = None;
        for _ in 0..3 + r.below(38) {
            let d = r.below(REGS);
            let mut o = match r.below(21) {
                20 => Op { code: SWEEP, a: vec![r.u64(), 1 + r.below(40)] },
                0..=3 => {
                    let form = r.below(8);
                    let b = match r.below(10) {
                        0 => *r.pick(&[0x7fc0_0000u32, 0xffc0_0000, 0x7f80_0001, 0xffff_ffff]),
                        1..=5 => fmod(r).to_bits(),
                        _ => fbits(r),
                    };
                    Op { code: READ, a: vec![d, b as u64, form, 0] }
                }
                4..=8 => Op { code: ARITH, a: vec![d, r.below(REGS), r.below(6), r.below(7)] },
                9..=11 => Op { code: CMP, a: vec![d, r.below(REGS), r.below(4)] },
                12 | 13 => Op { code: FN, a: vec![d, r.below(REGS), r.below(33), r.range(-40, 40) as u64] },
                14 => {
                    let m = if r.chance(1, 40) { r.logu(3000) } else { r.below(9) };
                    let mut a = vec![d, r.below(2), r.below(3), r.u64() >> 40];
                    let tame = r.chance(2, 3);
                    for _ in 0..m {
                        a.push(if tame { fmod(r).to_bits() } else { fbits(r) } as u64);
                    }
                    Op { code: FOLD, a }
                }
                15 => Op { code: CTL, a: vec![fmod(r).to_bits() as u64, fbits(r) as u64, r.below(5), r.below(4)] },
                16 => Op { code: GENERIC, a: vec![d, r.below(REGS), r.below(REGS), r.below(4)] },
                17 => Op { code: CLASS, a: vec![fbits(r) as u64, r.below(REGS)] },
                18 => Op { code: CKPT, a: vec![] },
                _ => match (&old, r.chance(1, 2)) {
                    (Some(o), true) => {
                        let mut o = o.clone();
                        o.a[3] = K_LATE;
                        o
                    }
                    _ => Op { code: CRASH, a: vec![] },
                },
            };
            if o.code == ARITH || o.code == CMP || o.code == FN {
                o.a.extend(operand(r));
            }
            if o.code == FN {
                o.a.extend(operand(r));
            }
            if o.code == READ && r.chance(1, 2) {
                old = Some(o.clone());
            }
            v.push(o);
        }
        v.push(Op { code: SETTLE, a: vec![fmod(r).to_bits() as u64, fmod(r).to_bits() as u64, r.below(5), r.below(4)] });
        s.tasks.push(v);
    }
    if n > 1 || r.chance(1, 2) {
        s.sched = schedule(r, n, 30, false);
    }
    s
}

/// Registers of the twins; only the checkpoints survive a crash.
#[derive(Clone, Default)]
struct Node {
    w: [F32; REGS as usize],
    p: [f32; REGS as usize],
    cw: [u32; REGS as usize],
    cp: [u32; REGS as usize],
    fault: bool,
}
static mut N: [Option<Node>; 4] = [None, None, None, None];
fn node(t: usize) -> &'static mut Node {
    unsafe { N[t].get_or_insert_with(Default::default) }
}
fn call<T>(t: usize, what: &str, f: impl FnOnce() -> T) -> T {
    match lib(LOOSE, f) {
        Got::Val(v) => v,
        Got::Panic(_) => engine::fail("C32.failed", &format!("task {}: {} failed in the wrapped twin only: {}", t, what, engine::last_panic())),
    }
}
/// Both twins' results must be the same.
fn twins(t: usize, what: &str, args: &[f32], w: F32, p: f32) {
    let a = |x: f32| format!("{:e} ({:#010x})", x, x.to_bits());
    if canon(w.0) != canon(p) {
        let l: Vec<String> = args.iter().map(|x| a(*x)).collect();
        engine::fail("C32.apart", &format!("task {}: {} of {} is {} in the wrapped twin and {} in the plain one", t, what, l.join(", "), a(w.0), a(p)));
    }
}
/// Stores both twins' results.
fn put(t: usize, d: u64, what: &str, args: &[f32], w: F32, p: f32) {
    twins(t, what, args, w, p);
    if !p.is_finite() {
        engine::count(11, 1);
    }
    let n = node(t);
    n.w[(d % REGS) as usize] = w;
    n.p[(d % REGS) as usize] = p;
    rt::note(canon(p) as u64);
}

macro_rules! forms {
    ($t:expr, $what:expr, $form:expr, $a:expr, $x:expr, $op:tt, $opa:tt) => {{
        let (a, x): (F32, f32) = ($a, $x);
        call($t, $what, || match $form {
            0 => a $op F32(x),
            1 => a $op x,
            2 => a.0 $op F32(x),
            3 => {
                let mut m = a;
                m $opa F32(x);
                m
            }
            4 => {
                let mut m = a;
                m $opa x;
                m
            }
            _ => generic(a, F32(x), |p, q| p $op q),
        })
    }};
}
macro_rules! back {
    ($t:expr, $what:expr, $a:expr, $x:expr, $opa:tt) => {{
        let (a, x): (F32, f32) = ($a, $x);
        call($t, $what, || {
            let mut m: f32 = a.into();
            m $opa F32(x);
            F32::from(m)
        })
    }};
}
#[inline(never)]
fn generic<T: Num + Copy>(a: T, b: T, f: fn(T, T) -> T) -> T {
    f(a, b)
}

/// What a stage of a plant's controller does, for any number type.
fn stage<T: Num + Copy + PartialOrd>(a: T, b: T, how: u64) -> T {
    match how {
        0 => {
            // Dead band around zero.
            if a.is_zero() || b.is_one() {
                T::one()
            } else if a < b {
                a - b
            } else {
                T::zero()
            }
        }
        1 => {
            let mut m = a;
            if m >= b {
                m.set_one();
            } else {
                m.set_zero();
            }
            m + a * b
        }
        2 => (a % b) + (a / (b + T::one())),
        _ => {
            if a != a {
                T::zero() - T::one()
            } else if a > b || a == b {
                a
            } else {
                b
            }
        }
    }
}

struct Lossy<'a> {
    v: &'a [u64],
    i: usize,
    lost: u64,
}
impl Lossy<'_> {
    fn step(&mut self) -> Option<u32> {
        loop {
            let b = *self.v.get(self.i)?;
            self.i += 1;
            if self.lost >> (self.i % 20) & 15 == 15 {
                continue;
            }
            return Some(b as u32);
        }
    }
}
impl Iterator for Lossy<'_> {
    type Item = F32;
    fn next(&mut self) -> Option<F32> {
        rt::seam();
        self.step().map(F32::from_bits)
    }
}

/// One control step of each twin: error, dead band, integral with limit,
/// wrap-around and output, in whichever mixed forms.
fn control(t: usize, set: f32, meas: f32, how: u64) {
    let n = node(t).clone();
    let (wi, wo) = (n.w[0], n.w[1]);
    let (gain, limit) = (0.125f32, 1000.0f32);
    let (i, o, far) = call(t, "a control step", || {
        let e: F32 = match how {
            0 => F32(set) - F32(meas),
            1 => F32(set) - meas,
            2 => set - F32(meas),
            3 => {
                let mut m = F32(set);
                m -= meas;
                m
            }
            _ => {
                let mut m = set;
                m -= F32(meas);
                m.into()
            }
        };
        let mut i = wi;
        let mut far = 0;
        if e > 0.5 || e < F32(-0.5) {
            i += e * gain;
            far = 1;
        } else if F32(0.25) >= e && -0.25 <= e {
            i -= i * F32(0.25);
            far = 2;
        } else if e != e {
            far = 3;
        }
        if limit < i {
            i = limit.into();
        } else if i <= -limit {
            i = -F32(limit);
        }
        let mut o = match how {
            0 => wo + e * 0.5,
            1 => wo + 0.5 * e,
            2 => wo + e / 2.0,
            3 => 0.5 * e + wo,
            _ => e / F32(2.0) + wo,
        };
        if o.is_nan() || o.is_infinite() {
            o = F32::default();
        }
        o %= 4096.0;
        (i, o, far)
    });
    let e = set - meas;
    let mut pi = n.p[0];
    let mut pf = 0;
    if e > 0.5 || e < -0.5 {
        pi += e * gain;
        pf = 1;
    } else if e <= 0.25 && e >= -0.25 {
        pi -= pi * 0.25;
        pf = 2;
    } else if e.is_nan() {
        pf = 3;
    }
    if pi > limit {
        pi = limit;
    } else if pi <= -limit {
        pi = -limit;
    }
    let mut po = n.p[1] + e * 0.5;
    if !po.is_finite() {
        po = 0.0;
    }
    po %= 4096.0;
    engine::count(18, 1);
    if far != pf {
        engine::fail("C32.branch", &format!("task {}: with a set point of {:e} and a reading of {:e} the twins took different branches ({} and {})", t, set, meas, far, pf));
    }
    put(t, 0, "the integral", &[set, meas, n.p[0]], i, pi);
    put(t, 1, "the output", &[set, meas, n.p[1]], o, po);
}

const FNS: [&str; 33] = [
    "abs", "acos", "asin", "atan", "atan_norm", "ceil", "cos", "exp", "floor", "fract", "inv", "invsqrt", "ln", "log2", "log10",
    "recip", "round", "signum", "sin", "sqrt", "tan", "trunc", "atan2", "atan2_norm", "copysign", "div_euclid", "hypot", "log",
    "powf", "rem_euclid", "mul_add", "powi", "sin_cos",
];

/// A function by both entry points.
fn function(t: usize, k: u64, a: f32, b: f32, c: f32, n: i32) -> (F32, f32) {
    let w = call(t, FNS[k as usize], || {
        let a = F32(a);
        match k {
            0 => a.abs(),
            1 => F32(F32Ext::acos(a.0)),
            2 => a.asin(),
            3 => a.atan(),
            4 => a.atan_norm(),
            5 => a.ceil(),
            6 => a.cos(),
            7 => a.exp(),
            8 => a.floor(),
            9 => a.fract(),
            10 => a.inv(),
            11 => a.invsqrt(),
            12 => a.ln(),
            13 => a.log2(),
            14 => a.log10(),
            15 => a.recip(),
            16 => a.round(),
            17 => a.signum(),
            18 => a.sin(),
            19 => a.sqrt(),
            20 => a.tan(),
            21 => a.trunc(),
            22 => a.atan2(F32(b)),
            23 => F32(F32Ext::atan2_norm(a.0, b)),
            24 => a.copysign(F32(b)),
            25 => a.div_euclid(F32(b)),
            26 => a.hypot(F32(b)),
            27 => a.log(F32(b)),
            28 => a.powf(F32(b)),
            29 => a.rem_euclid(F32(b)),
            30 => a.mul_add(F32(b), F32(c)),
            31 => a.powi(n),
            _ => {
                let (s, c) = a.sin_cos();
                if n & 1 == 0 {
                    s
                } else {
                    c
                }
            }
        }
    });
    let p = call(t, FNS[k as usize], || match k {
        0 => F32Ext::abs(a),
        1 => F32Ext::acos(a),
        2 => F32Ext::asin(a),
        3 => F32Ext::atan(a),
        4 => F32Ext::atan_norm(a),
        5 => F32Ext::ceil(a),
        6 => F32Ext::cos(a),
        7 => F32Ext::exp(a),
        8 => F32Ext::floor(a),
        9 => F32Ext::fract(a),
        10 if n & 1 == 0 => num_traits::Inv::inv(F32(a)).0,
        10 => F32Ext::inv(a),
        11 => F32Ext::invsqrt(a),
        12 => F32Ext::ln(a),
        13 => F32Ext::log2(a),
        14 => F32Ext::log10(a),
        15 => F32Ext::recip(a),
        16 => F32Ext::round(a),
        17 => F32Ext::signum(a),
        18 => F32Ext::sin(a),
        19 => F32Ext::sqrt(a),
        20 => F32Ext::tan(a),
        21 => F32Ext::trunc(a),
        22 => F32Ext::atan2(a, b),
        23 => F32Ext::atan2_norm(a, b),
        24 => F32Ext::copysign(a, b),
        25 => F32Ext::div_euclid(a, b),
        26 => F32Ext::hypot(a, b),
        27 => F32Ext::log(a, b),
        28 => F32Ext::powf(a, b),
        29 => F32Ext::rem_euclid(a, b),
        30 => F32Ext::mul_add(a, b, c),
        31 => F32Ext::powi(a, n),
        _ => {
            let (s, c) = F32Ext::sin_cos(a);
            if n & 1 == 0 {
                s
            } else {
                c
            }
        }
    });
    (w, p)
}

fn kind(b: f32) {
    if b.is_nan() {
        engine::count(6, 1);
    } else if b.is_infinite() {
        engine::count(7, 1);
    } else {
        engine::count(5, 1);
    }
}

/// An arithmetic operation in one of its forms, and on plain floats.
fn arith(t: usize, k: u64, f: u64, a: F32, x: f32) -> (&'static str, F32, f32) {
    let p = a.0;
    const W: [&str; 6] = ["sum", "difference", "product", "quotient", "remainder", "negation"];
    let w = W[k as usize % 6];
    let (r, q) = match (k % 6, f) {
        (0, 6) => (back!(t, w, a, x, +=), p + x),
        (0, _) => (forms!(t, w, f, a, x, +, +=), p + x),
        (1, 6) => (back!(t, w, a, x, -=), p - x),
        (1, _) => (forms!(t, w, f, a, x, -, -=), p - x),
        (2, 6) => (back!(t, w, a, x, *=), p * x),
        (2, _) => (forms!(t, w, f, a, x, *, *=), p * x),
        (3, 6) => (back!(t, w, a, x, /=), p / x),
        (3, _) => (forms!(t, w, f, a, x, /, /=), p / x),
        (4, _) => (forms!(t, w, f.min(5), a, x, %, %=), p % x),
        _ => (call(t, w, || -a), -p),
    };
    (w, r, q)
}
/// All comparisons in one of their forms, and of plain floats.
fn compare(t: usize, k: u64, a: F32, x: f32) -> [bool; 6] {
    type All = ([bool; 6], Option<Ordering>);
    fn all<A: PartialOrd<B>, B>(a: &A, b: &B) -> All {
        ([a == b, a != b, a < b, a <= b, a > b, a >= b], a.partial_cmp(b))
    }
    let (l, q) = call(t, "a comparison", || match k {
        0 => all(&a, &F32(x)),
        1 => all(&a, &x),
        2 => all(&a.0, &F32(x)),
        _ => all(&[a], &[F32(x)]),
    });
    let p = a.0;
    let want = all(&p, &x);
    if (l, q) != want {
        engine::fail("C32.order", &format!("task {}: ==, !=, <, <=, >, >= and order of {:e} and {:e} (form {}) are {:?} in the wrapped twin and {:?} in the plain one", t, p, x, k, (l, q), want));
    }
    l
}

/// Many readings through every entry point, kept by neither twin.
fn sweep(t: usize, seed: u64, n: u64) {
    for i in 0..n.min(64) {
        let h = mix(seed ^ i.wrapping_mul(0x9e37_79b9_7f4a_7c15));
        let (a, mut b, c) = (grain(mix(h ^ 1)), grain(mix(h ^ 2)), grain(mix(h ^ 3)));
        match h >> 20 & 15 {
            0 => b = a,
            1 => b = -a,
            2 => b = f32::from_bits(a.to_bits() ^ 1),
            _ => {}
        }
        let k = (h >> 32) % 33;
        let e = if h & 3 == 0 { (h >> 40) as i32 } else { (h >> 40) as i32 % 40 };
        let (w, p) = function(t, k, a, b, c, e);
        twins(t, FNS[k as usize], &[a, b, c, e as f32], w, p);
        let f = h % 7;
        let (what, w, p) = arith(t, (h >> 8) % 6, f, F32(a), b);
        twins(t, &format!("{} (form {})", what, f), &[a, b], w, p);
        compare(t, (h >> 12) & 3, F32(a), b);
        if i % 4 == 0 {
            let (w, p) = (call(t, "a generic stage", || stage(F32(a), F32(b), h >> 16 & 3)), stage(a, b, h >> 16 & 3));
            twins(t, "generic stage", &[a, b], w, p);
            rt::note(canon(p) as u64);
        }
    }
}

fn one(t: usize, o: &'static Op) {
    let g = |i: usize| o.a.get(i).copied().unwrap_or(0);
    match o.code {
        READ => {
            engine::count(4, 1);
            if g(3) == K_LATE {
                engine::count(8, 1);
            }
            let b = f32::from_bits(g(1) as u32);
            let i = g(1);
            node(t).fault = true;
            if g(2) >= 4 {
                engine::count(9, 1);
            } else {
                kind(b);
            }
            let w = call(t, "taking a reading", || match g(2) {
                0 => F32(b),
                1 => F32::from(b),
                2 => b.into(),
                3 => F32::from_bits(i as u32),
                4 => F32::from(i as i8),
                5 => F32::from(i as u8),
                6 => F32::from(i as i16),
                _ => F32::from(i as u16),
            });
            let p = match g(2) {
                4 => i as i8 as f32,
                5 => i as u8 as f32,
                6 => i as i16 as f32,
                7 => i as u16 as f32,
                _ => b,
            };
            put(t, g(0), "a reading", &[b], w, p);
        }
        ARITH => {
            let n = node(t);
            let i = (g(1) % REGS) as usize;
            let (a, p) = (n.w[i], n.p[i]);
            let x = rhs(t, g(4), g(5), p);
            engine::count(10, 1);
            let f = g(3);
            let (w, r, q) = arith(t, g(2), f, a, x);
            put(t, g(0), &format!("{} (form {})", w, f), &[p, x], r, q);
        }
        CMP => {
            let n = node(t);
            let i = (g(1) % REGS) as usize;
            let (a, p) = (n.w[i], n.p[i]);
            let x = rhs(t, g(3), g(4), p);
            engine::count(12, 1);
            engine::count(13, (g(3) >= 2) as u64);
            engine::count(14, (p.is_nan() || x.is_nan()) as u64);
            if n.fault {
                engine::nontrivial();
            }
            let l = compare(t, g(2), a, x);
            // Both twins clamp.
            if l[4] {
                put(t, g(0), "a clamped value", &[p, x], F32(x), x);
            }
        }
        FN => {
            let i = (g(1) % REGS) as usize;
            let a = node(t).p[i];
            let b = rhs(t, g(4), g(5), a);
            let c = rhs(t, g(6), g(7), b);
            let k = g(2).min(32);
            engine::count(15, 1);
            let (w, p) = function(t, k, a, b, c, g(3) as i32);
            put(t, g(0), FNS[k as usize], &[a, b, c, g(3) as i32 as f32], w, p);
        }
        FOLD => {
            let l = o.a.get(4..).unwrap_or(&[]);
            let lost = g(3);
            let new = || Lossy { v: l, i: 0, lost };
            let mut m = new();
            let mut v = vec![];
            while let Some(b) = m.step() {
                v.push(f32::from_bits(b));
            }
            engine::count(16, 1);
            engine::count(17, (l.len() - v.len()) as u64);
            let (w, p) = if g(1) == 0 {
                let w = call(t, "a sum", || match g(2) {
                    0 => new().sum::<F32>(),
                    1 => v.iter().map(|x| F32(*x)).sum::<F32>(),
                    _ => v.iter().map(|x| F32::from(*x)).rev().rev().sum(),
                });
                (w, v.iter().sum::<f32>())
            } else {
                let w = call(t, "a product", || match g(2) {
                    0 => new().product::<F32>(),
                    1 => v.iter().map(|x| F32(*x)).product::<F32>(),
                    _ => v.iter().map(|x| F32::from(*x)).rev().rev().product(),
                });
                (w, v.iter().product::<f32>())
            };
            // The sign of a zero sum is not promised.
            let w = if w.0 == 0.0 && p == 0.0 { F32(p) } else { w };
            put(t, g(0), if g(1) == 0 { "the sum of a stream" } else { "the product of a stream" }, &v[..v.len().min(12)], w, p);
        }
        SWEEP => {
            engine::count(23, 1);
            sweep(t, g(0), g(1));
        }
        CTL => {
            node(t).fault = true;
            let (set, meas) = (f32::from_bits(g(0) as u32), f32::from_bits(g(1) as u32));
            kind(meas);
            for _ in 0..1 + g(3) % 4 {
                control(t, set, meas, g(2));
            }
        }
        GENERIC => {
            engine::count(19, 1);
            let n = node(t);
            let (i, j) = ((g(1) % REGS) as usize, (g(2) % REGS) as usize);
            let (a, b) = (n.p[i], n.p[j]);
            let (wa, wb) = (n.w[i], n.w[j]);
            let w = call(t, "a generic stage", || stage(wa, wb, g(3)));
            put(t, g(0), &format!("generic stage {}", g(3)), &[a, b], w, stage(a, b, g(3)));
        }
        CLASS => {
            let class = |t: usize, p: f32| {
                let b = p.to_bits();
                let w = call(t, "classifying", || {
                    let w = F32::from_bits(b);
                    (w.is_nan(), w.is_infinite(), w.is_finite(), w.is_sign_positive(), w.is_sign_negative(), w.to_bits(), w.is_zero(), w.is_one())
                });
                let want = (p.is_nan(), p.is_infinite(), p.is_finite(), p.is_sign_positive(), p.is_sign_negative(), b, p == 0.0, p == 1.0);
                if w != want {
                    engine::fail("C32.class", &format!("task {}: nan, infinite, finite, positive, negative, bits, zero, one of {:#010x} are {:?} in the wrapped twin and {:?} in the plain one", t, b, w, want));
                }
            };
            class(t, f32::from_bits(g(0) as u32));
            class(t, node(t).p[(g(1) % REGS) as usize]);
            let c = call(t, "constants", || {
                [
                    F32::ZERO, F32::ONE, F32::EPSILON, F32::MIN, F32::MIN_POSITIVE, F32::MAX, F32::INFINITY, F32::NEG_INFINITY,
                    F32::default(), F32::zero(), F32::one(),
                ]
            });
            let want = [0.0, 1.0, f32::EPSILON, f32::MIN, f32::MIN_POSITIVE, f32::MAX, f32::INFINITY, f32::NEG_INFINITY, 0.0, 0.0, 1.0];
            for (i, (c, w)) in c.iter().zip(want).enumerate() {
                if c.0.to_bits() != w.to_bits() {
                    engine::fail("C32.constant", &format!("task {}: constant {} is {:e} instead of {:e}", t, i, c.0, w));
                }
            }
            let n = (F32::RADIX, F32::MANTISSA_DIGITS, F32::DIGITS, F32::MIN_EXP, F32::MAX_EXP, F32::MIN_10_EXP, F32::MAX_10_EXP, F32::NAN.0.is_nan());
            if n != (f32::RADIX, f32::MANTISSA_DIGITS, f32::DIGITS, f32::MIN_EXP, f32::MAX_EXP, f32::MIN_10_EXP, f32::MAX_10_EXP, true) {
                engine::fail("C32.constant", &format!("task {}: the format's constants are {:?}", t, n));
            }
        }
        CKPT => {
            let n = node(t);
            for i in 0..REGS as usize {
                n.cw[i] = n.w[i].to_bits();
                n.cp[i] = n.p[i].to_bits();
            }
        }
        CRASH => {
            engine::count(20, 1);
            let n = node(t);
            n.fault = true;
            let (cw, cp) = (n.cw, n.cp);
            for i in 0..REGS {
                let w = call(t, "restarting", || F32::from_bits(cw[i as usize]));
                put(t, i, "a restored register", &[], w, f32::from_bits(cp[i as usize]));
            }
        }
        _ => {
            // Faults stop: the plant follows the output, and both twins bring
            // it to the set point, step by step the same.
            let (set, mut x) = (f32::from_bits(g(0) as u32), f32::from_bits(g(1) as u32));
            if !(set.abs() <= 2000.0 && x.abs() <= 2000.0) {
                return;
            }
            put(t, 1, "a reset output", &[], call(t, "reset", F32::default), 0.0);
            let mut k = 0;
            loop {
                let before = node(t).w[1].0;
                control(t, set, x, g(2));
                x += node(t).w[1].0 - before;
                k += 1;
                if (set - x).abs() <= 0.25 {
                    break;
                }
                if k == 60 {
                    engine::fail("C32.no-progress", &format!("task {}: {} steps after faults stopped the plant is at {:e} instead of {:e}", t, k, x, set));
                }
            }
            engine::count(21, 1);
            engine::count_max(22, k);
        }
    }
}

fn run(s: &Scenario) {
    rt::set_on_limit(|_| engine::fail("C32.no-progress", "a library call did not end"));
    run_tasks(s, 0, one);
}

fn describe(s: &Scenario) -> Vec<String> {
    let mut l = vec![];
    for (t, ops) in s.tasks.iter().enumerate() {
        for o in ops {
            let g = |i: usize| o.a.get(i).copied().unwrap_or(0);
            let x = |i: usize| match g(i) {
                0 => format!("r{}", g(i + 1) % REGS),
                1 => fshow(g(i + 1)),
                2 => "the same".into(),
                3 => "the next number".into(),
                4 => "the number before".into(),
                5 => format!("neutral {}", g(i + 1) % 8),
                _ => "the opposite".into(),
            };
            l.push(format!(
                "task {}: {}",
                t,
                match o.code {
                    READ => format!("r{} = reading {:#x} ({}), form {}, kind {}", g(0), g(1), fshow(g(1)), g(2), g(3)),
                    ARITH => format!("r{} = r{} {} {} (form {})", g(0), g(1), ["+", "-", "*", "/", "%", "neg"][g(2) as usize % 6], x(4), g(3)),
                    CMP => format!("r{} = r{} clamped to {} (form {})", g(0), g(1), x(3), g(2)),
                    FN => format!("r{} = {} of r{}, {}, {}, {}", g(0), FNS[g(2).min(32) as usize], g(1), x(4), x(6), g(3) as i64),
                    FOLD => format!("r{} = {} of {} items (form {}, loss {:#x})", g(0), ["sum", "product"][g(1) as usize & 1], o.a.len().saturating_sub(4), g(2), g(3)),
                    CTL => format!("control towards {} with reading {} (form {}), {} times", fshow(g(0)), fshow(g(1)), g(2), 1 + g(3) % 4),
                    GENERIC => format!("r{} = generic stage {} of r{}, r{}", g(0), g(3), g(1), g(2)),
                    CLASS => format!("classify {:#x} and r{}", g(0), g(1)),
                    CKPT => "checkpoint".into(),
                    CRASH => "crash and restart".into(),
                    SWEEP => format!("{} readings of every size (seed {:#x})", g(1), g(0)),
                    _ => format!("settle at {} from {} (form {})", fshow(g(0)), fshow(g(1)), g(2)),
                }
            ));
        }
    }
    show_sched(s, &mut l);
    l
}
