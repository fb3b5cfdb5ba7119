//! C29: filters, meters and back-off hold their laws under faulty clocks and sensors.
//!
//! Up to three nodes, preempted in mid-call, smooth a signal with weights
//! exp(-dt/tau), meter it in decibels, octaves and roots, and back off with
//! powers. The clock jumps, stalls or leaps, the signal leaps to any magnitude,
//! readings are lost, the node crashes and restarts from its checkpoint.
//! Double precision is the model.

use crate::wl::*;
use micromath::{F32Ext, F32};
use mmrt::engine::{self, PropDef, Tuning};
use mmrt::rng::{mix, Rng};
use mmrt::rt;
use mmrt::scen::{Op, Scenario};

pub static DEF: PropDef = PropDef {
    id: "C29",
    gen,
    run,
    runs: (80_000, 3_000_000),
    counters: &[
        "mid_call_preemptions",
        "contexts_stopped_for_ever_in_mid_call",
        "shared_state_accesses",
        "blocked_futex_waits",
        "filter_updates",
        "clock_stalls",
        "clock_jumps_forward",
        "clock_running_backwards",
        "clock_leaps_to_any_magnitude",
        "signal_leaps_to_any_magnitude",
        "signal_readings_of_any_bit_pattern",
        "lost_readings_nan",
        "meter_readings",
        "powers_taken",
        "powers_out_of_range_high",
        "powers_out_of_range_low",
        "powers_of_negative_numbers",
        "backoffs_computed",
        "backoffs_recomputed_after_a_crash",
        "crashes_and_restarts_from_a_checkpoint",
        "filters_settled_after_faults",
        "most_steps_to_settle",
        "late_readings",
        "exact_points_read",
        "sweeps_of_readings_of_every_size",
    ],
    rule: "a case is one seeded run: 1 to 3 nodes take up to 30 faulty readings each and use them in filters, meters, powers and back-offs, with crashes, and must then settle on a steady signal along the decay law; non-trivial when at least one fault and one settling took part; distinct by hash of switch points and results",
    describe,
    var_from: var_none,
};

const FILTER: u32 = 0;
const METER: u32 = 1;
const POW: u32 = 2;
const BACKOFF: u32 = 3;
const LOST: u32 = 4;
const CKPT: u32 = 5;
const CRASH: u32 = 6;
const SETTLE: u32 = 7;
const WEIGHT: u32 = 8;
const POWI: u32 = 9;
const LOGB: u32 = 10;
const SWEEP: u32 = 11;

fn signal(r: &mut Rng) -> (f32, u64) {
    match r.below(8) {
        0 | 1 => (fmod(r), 0),
        2 => (((r.unit() * 2.0 - 1.0) * 10f64.powf(r.unit() * 8.0 - 4.0)) as f32, 0),
        3 => (((r.unit() * 2.0 - 1.0) * 10f64.powi(r.range(-44, 38) as i32)) as f32, 9),
        4 => (f32::from_bits(fbits_no_nan(r)), 10),
        // On a power of two, or a few units in the last place off.
        5 => {
            let b = 2f32.powi(r.range(-120, 120) as i32).to_bits();
            (f32::from_bits((b as i64 + r.range(-3, 3)) as u32), 0)
        }
        6 => (*r.pick(&[0.0, -0.0, 1.0, -1.0, 2.0, 10.0, 0.1, 0.5, std::f32::consts::E, f32::MIN_POSITIVE, 1e-45, f32::MAX, f32::EPSILON]), 23),
        _ => {
            let b = r.pick(&[1.0f32, -1.0, 10.0, 100.0]).to_bits();
            (f32::from_bits(near(r, b)), 0)
        }
    }
}
fn small(r: &mut Rng) -> f32 {
    match r.below(7) {
        0..=2 => ((r.unit() * 2.0 - 1.0) * 5.0) as f32,
        3 => ((r.unit() * 2.0 - 1.0) * 90.0) as f32,
        4 => {
            // Near the ends of the range.
            let e = *r.pick(&[88.0f32, 88.7, -87.3, -86.0, -87.4, -104.0, 89.0]);
            e + ((r.unit() * 2.0 - 1.0) * 0.5) as f32
        }
        5 => (r.range(-126, 127) as f64 * std::f64::consts::LN_2) as f32,
        _ => {
            let b = (r.range(-3, 3) as f32).to_bits();
            f32::from_bits(near(r, b))
        }
    }
}

fn gen(r: &mut Rng, _t: Tuning) -> Scenario {
    let mut s = Scenario::default();
    let n = 1 + r.below(3) as usize;
    for _ in 0..n {
        let mut v: Vec<Op> = vec![];
        let tau = (10f64.powf(r.unit() * 4.0 - 2.0)) as f32;
        let mut now = (r.unit() * 100.0) as f32;
        for _ in 0..3 + r.below(28) {
            let b = |x: f32| x.to_bits() as u64;
            let o = match r.below(20) {
                0..=4 => {
                    let (x, k) = signal(r);
                    let (t, c) = match r.below(8) {
                        0..=2 => (now + tau * (r.unit() * 2.0) as f32, 0),
                        3 => (now, 5),
                        4 => (now + tau * (r.unit() * 200.0) as f32, 6),
                        5 => (now - tau * (r.unit() * 3.0) as f32, 7),
                        6 => (((r.unit() * 2.0 - 1.0) * 10f64.powi(r.range(-30, 37) as i32)) as f32, 8),
                        _ => (now + tau * (r.unit() * 0.01) as f32, 0),
                    };
                    now = if t.is_finite() { t } else { now };
                    Op { code: FILTER, a: vec![b(now), b(tau), b(x), c, k, r.below(4)] }
                }
                5 | 6 => Op { code: WEIGHT, a: vec![b(if r.chance(1, 5) { signal(r).0 } else { small(r) }), r.below(2)] },
                7..=9 => {
                    let (x, k) = signal(r);
                    Op { code: METER, a: vec![b(x), k, r.below(2)] }
                }
                10 | 11 => {
                    let (x, k) = signal(r);
                    let m = match r.below(5) {
                        0 => r.range(-12, 12) as f32,
                        1 => r.range(-12, 12) as f32 + 0.5,
                        2 => ((r.unit() * 2.0 - 1.0) * 10f64.powf(r.unit() * 6.0 - 3.0)) as f32,
                        3 => *r.pick(&[0.0, -0.0, 0.5, 2.0, -1.0, 1.0, 3.0, 16_777_216.0, 16_777_217.0, 8_388_607.0, 8_388_609.0, 3e9, -3e9, 1e20, 0.25, 0.125, -0.5, 1.5]),
                        _ => signal(r).0,
                    };
                    Op { code: POW, a: vec![b(x), b(m), k, r.below(2)] }
                }
                12 | 13 => {
                    let (x, k) = signal(r);
                    let x = if r.chance(1, 3) { 1.0 + ((r.unit() * 2.0 - 1.0) * 0.6) as f32 } else { x };
                    let x = if r.chance(1, 3) { -x } else { x };
                    let m = match r.below(5) {
                        0..=2 => r.range(-12, 12),
                        3 => r.range(-160, 160),
                        _ => (r.logu(4000) as i64) * if r.chance(1, 2) { 1 } else { -1 },
                    };
                    // Compound growth: a base next to one, over any number of periods.
                    let (x, m) = if r.chance(1, 4) {
                        let u = r.logu(1 << 22) as i64;
                        let x = f32::from_bits((0x3f80_0000 + if r.chance(1, 2) { u } else { -u }) as u32);
                        let l = (x as f64).ln().abs();
                        let m = match r.below(6) {
                            0 => r.u32() as i32 as i64,
                            1 => *r.pick(&[i32::MIN as i64, i32::MAX as i64, i32::MIN as i64 + 1]),
                            2 => (1i64 << r.below(31)) + r.range(-1, 1),
                            3 => -(1i64 << r.below(31)) + r.range(-1, 1),
                            4 => (r.unit() * 110.0 / l) as i64,
                            _ => -((r.unit() * 110.0 / l) as i64),
                        };
                        (if r.chance(1, 4) { -x } else { x }, m.clamp(i32::MIN as i64, i32::MAX as i64))
                    } else {
                        (x, m)
                    };
                    Op { code: POWI, a: vec![b(x), m as u64, k, r.below(2)] }
                }
                14 if r.chance(1, 2) => Op { code: SWEEP, a: vec![r.u64(), 8 + r.below(33)] },
                14 => Op { code: LOGB, a: vec![b(signal(r).0), b(signal(r).0), r.below(2)] },
                15 => Op { code: BACKOFF, a: vec![b((0.001 + r.unit()) as f32), b((1.25 + r.unit() * 2.75) as f32), 1 + r.below(14), b((1.0 + r.unit() * 1e4) as f32), r.below(2)] },
                16 => Op { code: LOST, a: vec![*r.pick(&[0x7fc0_0000u64, 0xffc0_0000, 0x7f80_0001, 0x7fff_ffff]), r.below(14), b(fmod(r)), r.below(2)] },
                17 => Op { code: CKPT, a: vec![] },
                18 => Op { code: CRASH, a: vec![] },
                _ => match v.iter().rev().find(|o| o.code == FILTER) {
                    Some(o) => {
                        let mut o = o.clone();
                        o.a[3] = 22;
                        o
                    }
                    None => continue,
                },
            };
            v.push(o);
        }
        let x = ((r.unit() * 2.0 - 1.0) * 1000.0) as f32;
        let dt = (tau as f64 * 10f64.powf(r.unit() * 1.7 - 1.0)) as f32;
        v.push(Op { code: SETTLE, a: vec![x.to_bits() as u64, tau.to_bits() as u64, dt.to_bits() as u64, r.below(4)] });
        s.tasks.push(v);
    }
    if n > 1 || r.chance(1, 2) {
        s.sched = schedule(r, n, 60, false);
    }
    s
}

/// What one node remembers; only `ck` survives a crash.
#[derive(Clone, Default)]
struct Mem {
    y: f32,
    last: f32,
    attempts: u64,
    delay: f32,
}
#[derive(Clone, Default)]
struct Node {
    m: Mem,
    ck: Mem,
    fault: bool,
    back: Option<[u64; 5]>,
}
static mut N: [Option<Node>; 4] = [None, None, None, None];
fn node(t: usize) -> &'static mut Node {
    unsafe { N[t].get_or_insert_with(Node::default) }
}

fn bad(t: usize, what: &str, args: &[f32], got: f32, want: f64, tol: f64) -> ! {
    let a: Vec<String> = args.iter().map(|x| format!("{:e}", x)).collect();
    engine::fail("C29.value", &format!("task {}: {} of ({}) is {:e} instead of {:e} (within {:.2e})", t, what, a.join(", "), got, want, tol))
}
fn close(t: usize, what: &str, args: &[f32], got: f32, want: f64, tol: f64) {
    if !((got as f64 - want).abs() <= tol) {
        bad(t, what, args, got, want, tol);
    }
}
fn call<T>(t: usize, what: &str, f: impl FnOnce() -> T) -> T {
    match lib(LOOSE, f) {
        Got::Val(v) => v,
        Got::Panic(_) => engine::fail("C29.failed", &format!("task {}: {} failed: {}", t, what, engine::last_panic())),
    }
}

/// Largest finite number, and the smallest normal one.
const MAX: f64 = f32::MAX as f64;
const TINY: f64 = f32::MIN_POSITIVE as f64;
const LOGERR: f64 = 7.3e-5;

/// An exponential-like result against its logarithm `t`, within `rel`.
fn expish(t: usize, what: &str, args: &[f32], got: f32, ln: f64, rel: f64, sign: f64) {
    let want = ln.exp() * sign;
    if ln > 88.72283905 + rel + 1e-6 {
        // Beyond the range: infinite.
        if got as f64 != sign * f64::INFINITY {
            bad(t, what, args, got, sign * f64::INFINITY, 0.0);
        }
    } else if ln > 88.72283905 - rel - 0.01 {
        // Next to the end of the range: close, or just infinite.
        if got as f64 != sign * f64::INFINITY {
            close(t, what, args, got, want, want.abs() * rel);
        }
    } else if ln < -87.336 + rel {
        close(t, what, args, got, want, TINY * (1.0 + rel) + want.abs() * rel);
    } else {
        close(t, what, args, got, want, want.abs() * rel);
    }
}
fn exp_rel(x: f64) -> f64 {
    if x >= 0.0 {
        0.0009
    } else {
        0.0026
    }
}

fn weight(t: usize, x: f32, how: u64) -> f32 {
    let w = call(t, "the exponential", || if how & 1 == 0 { F32(x).exp().0 } else { F32Ext::exp(x) });
    expish(t, "the exponential", &[x], w, x as f64, exp_rel(x as f64), 1.0);
    if x == 0.0 && w != 1.0 {
        bad(t, "the exponential", &[x], w, 1.0, 0.0);
    }
    // A decay never grows and a growth never decays.
    if if x < 0.0 { !(w >= 0.0 && w <= 1.0) } else { !(w >= 1.0) } {
        bad(t, "the exponential", &[x], w, (x as f64).exp(), 0.0);
    }
    w
}

/// One update of the low-pass filter; the result stays between old and new.
fn update(t: usize, dt: f32, tau: f32, x: f32, how: u64) {
    let y = node(t).m.y;
    let w = weight(t, -(dt / tau), how);
    let v = call(t, "the filter update", || match how & 3 {
        0 => ((F32(1.0) - F32(w)) * (F32(x) - F32(y)) + F32(y)).0,
        1 => (1.0 - w).mul_add(x - y, y),
        2 => F32(1.0 - w).mul_add(F32(x - y), F32(y)).0,
        _ => F32Ext::mul_add(1.0 - w, x - y, y),
    });
    let want = (1.0 - w) as f64 * (x - y) as f64 + y as f64;
    let big = ((1.0 - w) as f64 * (x - y) as f64).abs().max((y as f64).abs());
    // Next to the end of the range the last rounding may leave it.
    if !(want.abs() > MAX * 0.999999 && v as f64 == want.signum() * f64::INFINITY) {
        close(t, "the filter update", &[w, x, y], v, want, big * 2.5e-7 + 3e-45);
    }
    engine::count(4, 1);
    node(t).m.y = v;
}

fn meter(t: usize, x: f32, how: u64) {
    let e = how & 1 == 0;
    let d = x as f64;
    let f = F32(x);
    let (ln, l2, l10) = call(t, "the logarithms", || if e { (f.ln().0, f.log2().0, f.log10().0) } else { (F32Ext::ln(x), F32Ext::log2(x), F32Ext::log10(x)) });
    if d > 0.0 {
        if x.is_normal() {
            close(t, "the natural logarithm", &[x], ln, d.ln(), LOGERR);
            close(t, "the binary logarithm", &[x], l2, d.log2(), 1.1e-4);
            close(t, "the decimal logarithm", &[x], l10, d.log10(), 3.4e-5);
        } else if !(ln <= -87.0 && l2 <= -125.0 && l10 <= -37.0) {
            bad(t, "the logarithm", &[x], ln, d.ln(), 0.0);
        }
        if x == 1.0 && (ln != 0.0 || l2 != 0.0 || l10 != 0.0) {
            bad(t, "the logarithm", &[x], ln, 0.0, 0.0);
        }
    } else if d < 0.0 && !(ln.is_nan() && l2.is_nan() && l10.is_nan()) {
        bad(t, "the logarithm", &[x], ln, f64::NAN, 0.0);
    } else if d == 0.0 && !(ln <= -87.0 && l2 <= -125.0 && l10 <= -37.0) {
        bad(t, "the logarithm", &[x], ln, f64::NEG_INFINITY, 0.0);
    }
    let sq = call(t, "the square root", || if e { f.sqrt().0 } else { F32Ext::sqrt(x) });
    if d < 0.0 {
        if !sq.is_nan() {
            bad(t, "the square root", &[x], sq, f64::NAN, 0.0);
        }
    } else if x.is_normal() {
        close(t, "the square root", &[x], sq, d.sqrt(), d.sqrt() * 0.062);
    } else {
        // Zero and the subnormal numbers: next to nothing.
        close(t, "the square root", &[x], sq, 0.0, 1.2e-19);
    }
    if d.abs() > 1e-37 && d.abs() < 8e37 {
        let (iv, rc) = call(t, "the reciprocal", || if e { (f.inv().0, f.recip().0) } else { (F32Ext::inv(x), F32Ext::recip(x)) });
        close(t, "the fast reciprocal", &[x], iv, 1.0 / d, 0.1255 / d.abs());
        close(t, "the reciprocal", &[x], rc, 1.0 / d, 1e-5 / d.abs());
        if d > 0.0 {
            let is = call(t, "the inverse root", || if e { f.invsqrt().0 } else { F32Ext::invsqrt(x) });
            close(t, "the inverse root", &[x], is, 1.0 / d.sqrt(), 0.035 / d.sqrt());
        }
    }
    if d.abs() < 88.0 {
        let ch = call(t, "the hyperbolic cosine", || F32(x).cosh().0);
        close(t, "the hyperbolic cosine", &[x], ch, d.cosh(), d.cosh() * 0.0009);
    }
}

fn powers(t: usize, x: f32, n: f32, how: u64) {
    let w = call(t, "the power", || if how & 1 == 0 { F32(x).powf(F32(n)).0 } else { F32Ext::powf(x, n) });
    let args = [x, n];
    let (d, m) = (x as f64, n as f64);
    if d == 0.0 || (x != 0.0 && !x.is_normal()) {
        // Powers of nothing: only the clear cases.
        if x == 0.0 && !x.is_sign_negative() {
            let ok = if m == 0.0 { w == 1.0 } else if m >= 2.0 { w.abs() < 1e-37 } else if m <= -2.0 { w.is_infinite() || w > 1e37 } else { true };
            if !ok {
                bad(t, "the power", &args, w, d.powf(m), 0.0);
            }
        }
        return;
    }
    let mut sign = 1.0;
    if d < 0.0 {
        engine::count(16, 1);
        if m != m.trunc() {
            if !w.is_nan() {
                bad(t, "the power", &args, w, f64::NAN, 0.0);
            }
            return;
        }
        if m % 2.0 != 0.0 {
            sign = -1.0;
        }
    }
    let ln = m * d.abs().ln();
    let rel = m.abs() * LOGERR + ln.abs() * 2e-7;
    if rel > 0.3 {
        // The exponent magnifies the logarithm's error: only which way it goes.
        if (ln > 200.0 && rel < ln * 0.5 && w as f64 != sign * f64::INFINITY) || (ln < -200.0 && rel < -ln * 0.5 && w != 0.0) {
            bad(t, "the power", &args, w, sign * ln.exp(), 0.0);
        }
        return;
    }
    engine::count(if ln > 88.7 { 14 } else if ln < -87.3 { 15 } else { 13 }, 1);
    expish(t, "the power", &args, w, ln, (1.0026f64) * rel.exp() - 1.0, sign);
}

fn powers_i(t: usize, x: f32, n: i32, how: u64) {
    let w = call(t, "the whole power", || if how & 1 == 0 { F32(x).powi(n).0 } else { F32Ext::powi(x, n) });
    let args = [x, n as f32];
    if n == 0 {
        if w != 1.0 {
            bad(t, "the whole power", &args, w, 1.0, 0.0);
        }
        return;
    }
    let d = x as f64;
    let odd = n % 2 != 0;
    let sign = if x.is_sign_negative() && odd { -1.0 } else { 1.0 };
    if d == 0.0 {
        let ok = if n > 0 { w == 0.0 } else { w as f64 == sign * f64::INFINITY };
        if !ok {
            bad(t, "the whole power", &args, w, if n > 0 { 0.0 } else { sign * f64::INFINITY }, 0.0);
        }
        return;
    }
    if x.is_sign_negative() {
        engine::count(16, 1);
    }
    let ln = d.abs().ln() * n as f64;
    let rel = 1e-6 + (n as f64).abs() * 2.0e-7;
    engine::count(if ln > 88.7 { 14 } else if ln < -87.3 { 15 } else { 13 }, 1);
    if rel > 0.01 {
        // Over so many periods only the order of magnitude is left.
        let (lo, hi) = ((ln - 2.0 * rel).exp() - 1e-44, (ln + 2.0 * rel).exp() + 1e-44);
        let g = w as f64 * sign;
        let low_ok = g >= lo || (lo > 3.4028e38 && g == f64::INFINITY);
        if !(low_ok && (g <= hi || hi > 3.4e38) && g >= 0.0) {
            bad(t, "the whole power", &args, w, sign * ln.exp(), rel);
        }
        return;
    }
    if ln > 88.72283905 + rel {
        if w as f64 != sign * f64::INFINITY {
            bad(t, "the whole power", &args, w, sign * f64::INFINITY, 0.0);
        }
    } else if ln > 88.72283905 - rel {
        if w.abs() < 3.3e38 || (w as f64) * sign < 0.0 {
            bad(t, "the whole power", &args, w, sign * ln.exp(), rel);
        }
    } else {
        // The reciprocal of a huge base is subnormal and loses bits.
        let want = d.powi(n);
        let tol = want.abs() * rel + 3e-45 + if n < 0 && d.abs() > 8e37 { 3e-45 } else { 0.0 };
        close(t, "the whole power", &args, w, want, tol);
    }
}

fn log_base(t: usize, x: f32, b: f32, how: u64) {
    if !(x.is_normal() && b.is_normal() && x > 0.0 && b > 0.0) {
        return;
    }
    let lb = (b as f64).ln();
    if lb.abs() < 0.02 {
        return;
    }
    let w = call(t, "the logarithm to a base", || if how & 1 == 0 { F32(x).log(F32(b)).0 } else { F32Ext::log(x, b) });
    let want = (x as f64).ln() / lb;
    close(t, "the logarithm to a base", &[x, b], w, want, LOGERR * (1.0 + want.abs()) / (lb.abs() - LOGERR) + want.abs() * 3e-7);
}

/// Many readings of every size through filters, meters and powers.
fn sweep(t: usize, seed: u64, n: u64) {
    for i in 0..n.min(64) {
        let h = mix(seed ^ i.wrapping_mul(0x9e37_79b9_7f4a_7c15));
        let (x, y) = (grain(mix(h ^ 1)), grain(mix(h ^ 2)));
        if !x.is_finite() || !y.is_finite() {
            continue;
        }
        let u = (h >> 8) as u32 as i32 as f32 * 2f32.powi(-31);
        let w = if h & 1 == 0 { u * 110.0 } else { x };
        rt::note(weight(t, w, h >> 1).to_bits() as u64);
        meter(t, x, h >> 2);
        let m = match h >> 3 & 3 {
            0 => y,
            1 => u * 12.0,
            2 => (u * 12.0).trunc(),
            _ => u * 100.0 / (x.abs().max(1e-30) as f64).ln().abs().max(0.05) as f32,
        };
        powers(t, if h >> 5 & 1 == 0 { x } else { x.abs() }, m, h >> 6);
        let k = (h >> 40) as i32;
        powers_i(t, x, if h >> 7 & 1 == 0 { k % 12 } else { k % 140 }, h >> 12);
        log_base(t, x.abs(), y.abs(), h >> 13);
        // A reading scaled and offset, by gains of every size.
        let z = match h >> 14 & 3 {
            0 => 1.0,
            1 => -x * y * (1.0 + u * 2f32.powi(-((h >> 44) as i32 & 15))),
            _ => grain(mix(h ^ 3)),
        };
        let prod = x as f64 * y as f64;
        if z.is_finite() && prod.abs() < 3.4e38 && (prod + z as f64).abs() < 3.4e38 {
            let v = call(t, "scaling and offsetting", || if h >> 16 & 1 == 0 { F32(x).mul_add(F32(y), F32(z)).0 } else { F32Ext::mul_add(x, y, z) });
            close(t, "scaling and offsetting", &[x, y, z], v, prod + z as f64, prod.abs().max(z.abs() as f64) * 2.5e-7 + 3e-45);
        }
    }
    engine::count(24, 1);
}

fn delay(t: usize, a: &[u64; 5]) -> f32 {
    let (base, factor, k, cap) = (f32::from_bits(a[0] as u32), f32::from_bits(a[1] as u32), a[2].min(40), f32::from_bits(a[3] as u32));
    let mut prev = 0.0f32;
    let mut fin = 0.0;
    for i in 0..=k {
        let (p, q) = call(t, "the back-off", || if a[4] & 1 == 0 { (F32(factor).powi(i as i32).0, F32(factor).powf(F32(i as f32)).0) } else { (F32Ext::powi(factor, i as i32), F32Ext::powf(factor, i as f32)) });
        let want = (factor as f64).powi(i as i32);
        close(t, "the back-off factor", &[factor, i as f32], p, want, want * (1e-6 + i as f64 * 2e-7));
        close(t, "the back-off factor by real power", &[factor, i as f32], q, want, want * ((1.0026) * (i as f64 * LOGERR + 2e-5).exp() - 1.0));
        let d = if base * p > cap { cap } else { base * p };
        if d < prev {
            engine::fail("C29.backoff", &format!("task {}: back-off {} ({:e}) is shorter than the one before ({:e})", t, i, d, prev));
        }
        prev = d;
        fin = d;
    }
    engine::count(17, 1);
    fin
}

fn one(t: usize, o: &'static Op) {
    let g = |i: usize| o.a.get(i).copied().unwrap_or(0);
    let f = |i: usize| f32::from_bits(g(i) as u32);
    match o.code {
        FILTER => {
            let (now, tau, x) = (f(0), f(1), f(2));
            let n = node(t);
            if !now.is_finite() || !x.is_finite() || !(tau > 1e-6 && tau < 1e6) {
                return;
            }
            let mut dt = now - n.m.last;
            if g(3) != 0 {
                n.fault = true;
                engine::count(g(3) as usize, 1);
            }
            if g(4) != 0 {
                n.fault = true;
                engine::count(g(4) as usize, 1);
            }
            n.m.last = now;
            // A clock running backwards says nothing about the time that passed.
            if !(dt > 0.0) {
                dt = 0.0;
            }
            if !(x - n.m.y).is_finite() {
                return;
            }
            update(t, dt, tau, x, g(5));
        }
        WEIGHT => {
            let x = f(0);
            if x.is_finite() {
                weight(t, x, g(1));
            }
        }
        METER => {
            if !f(0).is_finite() {
                return;
            }
            engine::count(12, 1);
            if g(1) != 0 {
                node(t).fault = true;
                engine::count(g(1) as usize, 1);
            }
            meter(t, f(0), g(2));
        }
        POW => {
            if f(0).is_finite() && f(1).is_finite() {
                if g(2) != 0 {
                    node(t).fault = true;
                    engine::count(g(2) as usize, 1);
                }
                powers(t, f(0), f(1), g(3));
            }
        }
        POWI => {
            // Beyond some thousand periods only bases next to one.
            if f(0).is_finite() && ((g(1) as i32).unsigned_abs() <= 5000 || (0.4..2.1).contains(&f(0).abs())) {
                if g(2) != 0 {
                    node(t).fault = true;
                    engine::count(g(2) as usize, 1);
                }
                powers_i(t, f(0), g(1) as i32, g(3));
            }
        }
        LOGB => {
            let (x, b) = (f(0), f(1));
            log_base(t, x, b, g(2));
        }
        SWEEP => sweep(t, g(0), g(1)),
        BACKOFF => {
            let a = [g(0), g(1), g(2).clamp(1, 40), g(3), g(4)];
            let (b, q, c) = (f(0), f(1), f(3));
            if !(b > 0.0 && b < 1e3 && q >= 1.2 && q <= 8.0 && c > 0.0 && c < 1e9) {
                return;
            }
            let d = delay(t, &a);
            let n = node(t);
            n.m.attempts = g(2);
            n.m.delay = d;
            n.back = Some(a);
            n.ck = n.m.clone();
            rt::note(d.to_bits() as u64);
        }
        LOST => {
            let a = f(0);
            if !a.is_nan() {
                return;
            }
            engine::count(11, 1);
            node(t).fault = true;
            let y = f(2);
            let e = g(3) & 1 == 0;
            let n = F32(a);
            let (what, v) = match g(1) {
                0 => ("the exponential", call(t, "exp", || if e { n.exp().0 } else { F32Ext::exp(a) })),
                1 => ("the natural logarithm", call(t, "ln", || if e { n.ln().0 } else { F32Ext::ln(a) })),
                2 => ("the binary logarithm", call(t, "log2", || if e { n.log2().0 } else { F32Ext::log2(a) })),
                3 => ("the decimal logarithm", call(t, "log10", || if e { n.log10().0 } else { F32Ext::log10(a) })),
                4 => ("the square root", call(t, "sqrt", || if e { n.sqrt().0 } else { F32Ext::sqrt(a) })),
                5 => ("the inverse root", call(t, "invsqrt", || if e { n.invsqrt().0 } else { F32Ext::invsqrt(a) })),
                6 => ("the fast reciprocal", call(t, "inv", || if e { n.inv().0 } else { F32Ext::inv(a) })),
                7 => ("the hyperbolic cosine", call(t, "cosh", || n.cosh().0)),
                8 => ("the power of the reading", call(t, "powf", || if e { n.powf(F32(1.0 + y.abs())).0 } else { F32Ext::powf(a, 1.0 + y.abs()) })),
                9 => ("the power to the reading", call(t, "powf", || if e { F32(1.5 + y.abs()).powf(n).0 } else { F32Ext::powf(1.5 + y.abs(), a) })),
                10 => ("the whole power", call(t, "powi", || if e { n.powi(3).0 } else { F32Ext::powi(a, -5) })),
                11 => ("the filter update", call(t, "mul_add", || if e { n.mul_add(F32(y), F32(1.0)).0 } else { F32Ext::mul_add(1.0, y, a) })),
                12 => ("the logarithm to a base", call(t, "log", || if e { n.log(F32(10.0)).0 } else { F32Ext::log(3.0, a) })),
                _ => ("the reciprocal", call(t, "recip", || if e { n.recip().0 } else { F32Ext::recip(a) })),
            };
            if !v.is_nan() {
                engine::fail("C29.lost", &format!("task {}: {} of a lost reading (NaN) is {:e}", t, what, v));
            }
        }
        CKPT => node(t).ck = node(t).m.clone(),
        CRASH => {
            engine::count(19, 1);
            let n = node(t);
            n.fault = true;
            n.m = n.ck.clone();
            // The attempt counter was persisted: the same delay comes out.
            if let Some(a) = n.back {
                let want = n.m.delay;
                let d = delay(t, &a);
                engine::count(18, 1);
                if d.to_bits() != want.to_bits() {
                    engine::fail("C29.backoff", &format!("task {}: after the restart attempt {} waits {:e} instead of {:e}", t, a[2], d, want));
                }
            }
        }
        _ => {
            // A steady signal and an even clock: the rest decays by the law.
            let (x, tau, dt) = (f(0), f(1), f(2));
            if !(x.abs() <= 1e4 && tau > 1e-6 && tau < 1e6 && dt >= tau * 0.05 && dt <= tau * 10.0) {
                return;
            }
            let n = node(t);
            if !(n.m.y.abs() < 1e30) {
                n.m.y = if n.m.y > 0.0 { 1e6 } else { -1e6 };
            }
            let y0 = n.m.y as f64;
            let rest = (x as f64 - y0).abs();
            let floor = (x as f64).abs() * 1e-5 + 1e-5;
            let bound = ((rest / floor).max(1.0).ln() * tau as f64 / dt as f64 * 1.05) as u64 + 4;
            let mut k = 0u64;
            let ulp = y0.abs().max(x.abs() as f64) * 3e-7;
            loop {
                update(t, dt, tau, x, g(3));
                k += 1;
                let off = (node(t).m.y as f64 - x as f64).abs();
                let law = rest * (-(dt as f64 / tau as f64) * k as f64).exp();
                let slack = law * ((k as f64 * 0.0027).exp() - 1.0) + ulp * k.min(30) as f64 + floor;
                if (off - law).abs() > slack {
                    engine::fail("C29.decay", &format!("task {}: {} steps of {:e} (time constant {:e}) after faults stopped the filter is {:e} off the signal; the law says {:e}", t, k, dt, tau, off, law));
                }
                if off <= floor * 2.0 {
                    break;
                }
                if k >= bound.min(4000) {
                    engine::fail("C29.no-progress", &format!("task {}: {} steps after faults stopped the filter is still {:e} off", t, k, off));
                }
            }
            engine::count(20, 1);
            engine::count_max(21, k);
            if node(t).fault {
                engine::nontrivial();
            }
        }
    }
    rt::note(node(t).m.y.to_bits() as u64);
}

fn run(s: &Scenario) {
    rt::set_on_limit(|_| engine::fail("C29.no-progress", "a library call did not end"));
    run_tasks(s, 0, one);
}

fn describe(s: &Scenario) -> Vec<String> {
    let mut l = vec![];
    for (t, ops) in s.tasks.iter().enumerate() {
        for o in ops {
            let g = |i: usize| o.a.get(i).copied().unwrap_or(0);
            l.push(format!(
                "task {}: {}",
                t,
                match o.code {
                    FILTER => format!("filter: clock {} time constant {} signal {} (faults {} {}, form {})", fshow(g(0)), fshow(g(1)), fshow(g(2)), g(3), g(4), g(5)),
                    WEIGHT => format!("weight of {}", fshow(g(0))),
                    METER => format!("meter {} (fault {}, form {})", fshow(g(0)), g(1), g(2)),
                    POW => format!("power {} to {} (form {})", fshow(g(0)), fshow(g(1)), g(3)),
                    POWI => format!("whole power {} to {} (form {})", fshow(g(0)), g(1) as i32, g(3)),
                    LOGB => format!("logarithm of {} to base {}", fshow(g(0)), fshow(g(1))),
                    SWEEP => format!("{} readings of every size, seed {:#x}", g(1).min(64), g(0)),
                    BACKOFF => format!("back off {} times {} for {} attempts, at most {}", fshow(g(0)), fshow(g(1)), g(2), fshow(g(3))),
                    LOST => format!("lost reading {:#x}, use {}, other {}", g(0), g(1), fshow(g(2))),
                    CKPT => "checkpoint".into(),
                    CRASH => "crash and restart".into(),
                    _ => format!("steady signal {} for time constant {}, steps of {}", fshow(g(0)), fshow(g(1)), fshow(g(2))),
                }
            ));
        }
    }
    show_sched(s, &mut l);
    l
}
