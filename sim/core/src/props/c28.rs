//! C28: angles and oscillations stay true under sensor faults, and loops re-lock.
//!
//! Up to three nodes, preempted in mid-call, run an oscillator and a phase
//! lock on a rotating shaft: an angle becomes sine, cosine and tangent, two
//! windings of a resolver become an angle again. The angle leaps to any
//! magnitude, the windings fade, saturate or glitch, readings are lost, the
//! node crashes and restarts from its checkpoint. Double precision is the
//! model.

use crate::wl::*;
use micromath::{F32Ext, F32};
use mmrt::engine::{self, PropDef, Tuning};
use mmrt::rng::{mix, Rng};
use mmrt::rt;
use mmrt::scen::{Op, Scenario};
use std::f64::consts::{FRAC_PI_2, PI, TAU};

pub static DEF: PropDef = PropDef {
    id: "C28",
    gen,
    run,
    runs: (80_000, 3_000_000),
    counters: &[
        "mid_call_preemptions",
        "contexts_stopped_for_ever_in_mid_call",
        "shared_state_accesses",
        "blocked_futex_waits",
        "angles_read",
        "angles_at_or_next_to_a_quarter_turn",
        "angles_leaping_to_any_magnitude",
        "angles_of_any_bit_pattern",
        "lost_readings_nan",
        "saturated_readings_infinite",
        "resolver_readings",
        "resolver_readings_faded_or_overdriven",
        "resolver_glitches_of_any_bit_pattern",
        "resolver_winding_open_or_grounded",
        "slopes_and_ratios_read",
        "crashes_and_restarts_from_a_checkpoint",
        "loop_updates_checked",
        "locks_regained_after_faults",
        "most_steps_to_lock",
        "turn_counts_checked",
        "late_readings",
        "sweeps_of_readings_of_every_size",
    ],
    rule: "a case is one seeded run: 1 to 3 nodes take up to 30 readings of a faulty angle, resolver or slope sensor, with crashes, and must then lock to a steady shaft and count the turns of a rotating one; non-trivial when at least one fault and one lock took part; distinct by hash of switch points and loop histories",
    describe,
    var_from: var_none,
};

const ANGLE: u32 = 0;
const WIND: u32 = 1;
const SLOPE: u32 = 2;
const LOST: u32 = 3;
const CKPT: u32 = 4;
const CRASH: u32 = 5;
const STEADY: u32 = 6;
const TURN: u32 = 7;
const SWEEP: u32 = 8;

const K_ANY: u64 = 1;
const K_LEAP: u64 = 2;
const K_QUARTER: u64 = 3;
const K_LATE: u64 = 4;
const K_AMP: u64 = 5;
const K_OPEN: u64 = 6;

const GAINS: [f32; 4] = [1.0, 0.5, 0.25, 0.75];

fn quarter(r: &mut Rng) -> f32 {
    let k = r.range(-64, 64) * 10i64.pow(r.below(4) as u32);
    let a = k as f64 * FRAC_PI_2 * if r.chance(1, 3) { 0.5 } else { 1.0 };
    if r.chance(1, 3) {
        // Next to it on a logarithmic scale.
        let e = 10f64.powf(-r.unit() * 9.0);
        return (a + if r.chance(1, 2) { e } else { -e }) as f32;
    }
    let a = a as f32;
    f32::from_bits((a.to_bits() as i64 + r.range(-3, 3)).max(0) as u32)
}
fn angle(r: &mut Rng) -> (f32, u64) {
    match r.below(12) {
        0..=2 => ((r.unit() * 2.0 - 1.0) as f32 * 7.0, 0),
        3 => ((r.unit() * 2.0 - 1.0) as f32 * 200.0, 0),
        4 | 5 => (quarter(r), K_QUARTER),
        6 => (f32::from_bits(fbits_no_nan(r)), K_ANY),
        7 => (((r.unit() * 2.0 - 1.0) * 10f64.powi(r.range(-40, 38) as i32)) as f32, K_LEAP),
        8 => (((r.unit() * 2.0 - 1.0) * 10f64.powi(r.range(2, 6) as i32)) as f32, K_LEAP),
        9 => (-f32::from_bits(r.below(0x0100_0000) as u32), K_LEAP),
        _ => ((r.range(-720, 720) as f64).to_radians() as f32, 0),
    }
}

fn gen(r: &mut Rng, _t: Tuning) -> Scenario {
    let mut s = Scenario::default();
    let n = 1 + r.below(3) as usize;
    for _ in 0..n {
        let mut v = vec![];
        let mut old: Option<Op> = None;
        for _ in 0..3 + r.below(28) {
            let o = match r.below(16) {
                0..=4 => {
                    let (a, k) = angle(r);
                    Op { code: ANGLE, a: vec![a.to_bits() as u64, k, r.below(4)] }
                }
                5..=8 => {
                    let th = (angle(r).0 as f64).rem_euclid(TAU);
                    let (y, x, k) = match r.below(10) {
                        8 => {
                            // Diagonals, and pairs of simple numbers.
                            let a = (r.range(-9, 9) as f64 * 10f64.powi(r.range(-6, 6) as i32)) as f32;
                            let b = (r.range(-9, 9) as f64 * 10f64.powi(r.range(-6, 6) as i32)) as f32;
                            match r.below(3) {
                                0 => (a, a, 0),
                                1 => (a, -a, 0),
                                _ => (a, b, 0),
                            }
                        }
                        9 => {
                            let th = quarter(r) as f64;
                            let a = 10f64.powf(r.unit() * 8.0 - 4.0);
                            ((a * th.sin()) as f32, (a * th.cos()) as f32, 0)
                        }
                        0..=2 => (th.sin() as f32, th.cos() as f32, 0),
                        3 | 4 => {
                            let a = 10f64.powf(r.unit() * 66.0 - 33.0);
                            ((a * th.sin()) as f32, (a * th.cos()) as f32, K_AMP)
                        }
                        5 => (f32::from_bits(fbits_no_nan(r)), f32::from_bits(fbits_no_nan(r)), K_ANY),
                        6 => {
                            let z = if r.chance(1, 2) { 0.0 } else { -0.0 };
                            let a = 10f64.powf(r.unit() * 8.0 - 4.0);
                            match r.below(4) {
                                0 => (z, (a * th.cos()) as f32, K_OPEN),
                                1 => ((a * th.sin()) as f32, z, K_OPEN),
                                2 => (z, 0.0, K_OPEN),
                                _ => (0.0, z, K_OPEN),
                            }
                        }
                        _ => {
                            let a = fmod(r);
                            (a, f32::from_bits(near(r, a.to_bits())), 0)
                        }
                    };
                    Op { code: WIND, a: vec![y.to_bits() as u64, x.to_bits() as u64, k, r.below(4)] }
                }
                10 if r.chance(1, 3) => Op { code: SWEEP, a: vec![r.u64(), 8 + r.below(33)] },
                9 | 10 => {
                    let m = match r.below(6) {
                        5 => {
                            // Next to a right angle, on a logarithmic scale.
                            let e = 10f64.powf(-r.unit() * 8.0);
                            let m = if r.chance(1, 4) { 1.0 + e } else { 1.0 - e };
                            (if r.chance(1, 2) { m } else { -m }) as f32
                        }
                        0 => (r.unit() * 2.0 - 1.0) as f32,
                        1 => f32::from_bits(((r.below(2) as u32) << 31) | (0x3f80_0000 - r.below(64) as u32)),
                        2 => ((r.unit() * 2.0 - 1.0) * 10f64.powi(r.range(-40, 38) as i32)) as f32,
                        3 => f32::from_bits(fbits_no_nan(r)),
                        _ => *r.pick(&[0.0, -0.0, 1.0, -1.0, 0.5, -0.5, f32::MAX, f32::MIN, f32::MIN_POSITIVE, -f32::MIN_POSITIVE, 1e-45, -1e-45, 1.8446744e19, -1.8446744e19]),
                    };
                    Op { code: SLOPE, a: vec![m.to_bits() as u64, r.below(2)] }
                }
                11 => Op { code: LOST, a: vec![*r.pick(&[0x7fc0_0000u64, 0xffc0_0000, 0x7f80_0001, 0x7fff_ffff, 0x7f80_0000, 0xff80_0000]), r.below(6), fmod(r).to_bits() as u64, r.below(4)] },
                12 => Op { code: CKPT, a: vec![] },
                13 => Op { code: CRASH, a: vec![] },
                _ => match &old {
                    Some(o) => {
                        let mut o = o.clone();
                        if o.code == ANGLE {
                            o.a[1] = K_LATE;
                        } else if o.code == WIND {
                            o.a[2] = K_LATE;
                        }
                        o
                    }
                    None => continue,
                },
            };
            if o.code == ANGLE && !f32::from_bits(o.a[0] as u32).is_finite() {
                continue;
            }
            if o.code <= WIND && r.chance(1, 2) {
                old = Some(o.clone());
            }
            v.push(o);
        }
        // Faults stop: a shaft at rest, then one that turns evenly.
        let (a, g, how) = ((r.unit() * TAU) as f32, r.below(4), r.below(4));
        v.push(Op { code: STEADY, a: vec![a.to_bits() as u64, g, how] });
        let w = ((r.unit() * 2.0 - 1.0) * 1.5) as f32;
        v.push(Op { code: TURN, a: vec![w.to_bits() as u64, 1 + r.below(12), how] });
        s.tasks.push(v);
    }
    if n > 1 || r.chance(1, 2) {
        s.sched = schedule(r, n, 60, false);
    }
    s
}

/// What one node remembers; only `ck` survives a crash.
#[derive(Clone, Default)]
struct Node {
    phi: f32,
    gain: f32,
    ck: f32,
    fault: bool,
}
static mut N: [Option<Node>; 4] = [None, None, None, None];
fn node(t: usize) -> &'static mut Node {
    unsafe { N[t].get_or_insert_with(|| Node { gain: 0.5, ..Default::default() }) }
}

fn bad(t: usize, what: &str, args: &[f32], got: f32, want: f64, tol: f64) -> ! {
    let a: Vec<String> = args.iter().map(|x| format!("{:e}", x)).collect();
    engine::fail("C28.value", &format!("task {}: {} of ({}) is {:e} instead of {:e} (within {:.2e})", t, what, a.join(", "), got, want, tol))
}
fn close(t: usize, what: &str, args: &[f32], got: f32, want: f64, tol: f64) {
    if !((got as f64 - want).abs() <= tol) {
        bad(t, what, args, got, want, tol);
    }
}
fn call<T>(t: usize, what: &str, f: impl FnOnce() -> T) -> T {
    match lib(LOOSE, f) {
        Got::Val(v) => v,
        Got::Panic(_) => engine::fail("C28.failed", &format!("task {}: {} failed: {}", t, what, engine::last_panic())),
    }
}
fn wrap(a: f64) -> f64 {
    let m = a.rem_euclid(TAU);
    if m > PI {
        m - TAU
    } else {
        m
    }
}

fn sincos(t: usize, a: f32, how: u64) -> (f32, f32) {
    call(t, "sine and cosine", || match how & 3 {
        0 => (F32(a).sin().0, F32(a).cos().0),
        1 => (F32Ext::sin(a), F32Ext::cos(a)),
        2 => {
            let (s, c) = F32(a).sin_cos();
            (s.0, c.0)
        }
        _ => F32Ext::sin_cos(a),
    })
}
fn atan2(t: usize, y: f32, x: f32, how: u64) -> f32 {
    call(t, "the angle of two windings", || if how & 1 == 0 { F32(y).atan2(F32(x)).0 } else { F32Ext::atan2(y, x) })
}

/// How far sine and cosine of an angle may be off.
fn eps(a: f32) -> f64 {
    0.0015 + (a as f64).abs() * 2e-7
}

fn read_angle(t: usize, a: f32, how: u64) -> (f32, f32) {
    let (s, c) = sincos(t, a, how);
    for (what, g) in [("sine", s), ("cosine", c)] {
        if !(g.abs() <= 1.0001) {
            bad(t, what, &[a], g, 0.0, 1.0001);
        }
    }
    let d = a as f64;
    if d.abs() <= 1e6 {
        let e = eps(a);
        close(t, "sine", &[a], s, d.sin(), e);
        close(t, "cosine", &[a], c, d.cos(), e);
        let g = call(t, "tangent", || if how & 1 == 0 { F32(a).tan().0 } else { F32Ext::tan(a) });
        let tc = d.cos().abs();
        // Whatever the errors of sine and cosine within their bounds, their
        // quotient is no nearer to zero, and no further away, than this.
        let ts = d.sin().abs();
        let (lo, hi) = ((ts - e) / (tc + e) * 0.9999, if tc > e { (ts + e) / (tc - e) * 1.0001 } else { f64::INFINITY });
        if e < 0.02 && !((g as f64).abs() >= lo && (g as f64).abs() <= hi) || tc > e && ts > e && (g < 0.0) != (d.tan() < 0.0) {
            engine::fail("C28.value", &format!("task {}: tangent of ({:e}) is {:e}, not between {:e} and {:e} times the sign of {:e}", t, a, g, lo, hi, d.tan()));
        }
        if tc > 0.05 && e < 0.02 {
            close(t, "tangent", &[a], g, d.tan(), e * (1.0 + d.tan().abs()) / (tc - e) + 1e-5 * d.tan().abs());
        }
    }
    (s, c)
}

/// Angle of a pair of windings, checked; `None` when they say nothing.
fn read_wind(t: usize, y: f32, x: f32, how: u64) -> Option<f32> {
    let g = atan2(t, y, x, how);
    if y == 0.0 && x == 0.0 {
        if g != 0.0 {
            bad(t, "the angle of dead windings", &[y, x], g, 0.0, 0.0);
        }
        return None;
    }
    let want = (y as f64).atan2(x as f64);
    if !(g.abs() <= 3.1416) || !(wrap(g as f64 - want).abs() <= 0.003) {
        bad(t, "the angle of windings", &[y, x], g, want, 0.003);
    }
    // Neither winding changes sign: the quadrant is exact.
    if y != 0.0 && (y as f64).abs() > 1e-4 * (x as f64).abs() && (g < 0.0) != (y < 0.0) {
        bad(t, "the half-turn of windings", &[y, x], g, want, 0.003);
    }
    let m = (x as f64).hypot(y as f64);
    if m > 1e-17 && m < 1e18 {
        let h = call(t, "the amplitude", || if how & 1 == 0 { F32(x).hypot(F32(y)).0 } else { F32Ext::hypot(x, y) });
        close(t, "the amplitude", &[x, y], h, m, m * 0.0625);
    }
    Some(g)
}

fn read_slope(t: usize, m: f32, how: u64) {
    engine::count(14, 1);
    let d = m as f64;
    let (a, an) = call(t, "the angle of a slope", || if how & 1 == 0 { (F32(m).atan().0, F32(m).atan_norm().0) } else { (F32Ext::atan(m), F32(m).atan_norm().0) });
    close(t, "the angle of the slope", &[m], a, d.atan(), 0.003);
    close(t, "the normalised angle of the slope", &[m], an, d.atan() / FRAC_PI_2, 0.0019);
    if d.abs() <= 1.0 {
        let (s, c) = call(t, "the angle of a ratio", || if how & 1 == 0 { (F32(m).asin().0, F32Ext::acos(m)) } else { (F32Ext::asin(m), F32Ext::acos(m)) });
        close(t, "the arc sine", &[m], s, d.asin(), 0.019);
        close(t, "the arc cosine", &[m], c, d.acos(), 0.03);
    }
}

/// Many angles, windings and slopes of every size.
fn sweep(t: usize, seed: u64, n: u64) {
    for i in 0..n.min(64) {
        let h = mix(seed ^ i.wrapping_mul(0x9e37_79b9_7f4a_7c15));
        let (x, y) = (grain(mix(h ^ 1)), grain(mix(h ^ 2)));
        if !x.is_finite() || !y.is_finite() {
            continue;
        }
        let u = (h >> 8) as u32 as i32 as f32 * 2f32.powi(-31);
        let a = match h & 3 {
            0 => u * 10.0,
            1 => u * 10f32.powi((h >> 40) as i32 % 7),
            _ => x,
        };
        let (s, c) = read_angle(t, a, h >> 2);
        rt::note(((s.to_bits() as u64) << 32) | c.to_bits() as u64);
        // Two windings of any size, or of sizes not far apart.
        let v = match h >> 4 & 3 {
            0 => x * u,
            1 => x * (1.0 + u * 2f32.powi(-((h >> 44) as i32 % 24))),
            2 => x * u * 64.0,
            _ => y,
        };
        if v.is_finite() {
            read_wind(t, x, v, h >> 6);
            read_wind(t, v, -x, h >> 7);
        }
        read_slope(t, if h >> 8 & 3 == 0 { u } else { x }, h >> 9);
    }
    engine::count(21, 1);
}

/// One step of the loop towards the angle `m`.
fn step(t: usize, m: f32, how: u64) -> f32 {
    let phi = node(t).phi;
    let d = m - phi;
    let (s, c) = read_angle(t, d, how);
    let e = match read_wind(t, s, c, how) {
        Some(e) => e,
        None => bad(t, "the angle of sine and cosine", &[s, c], 0.0, 0.0, 0.0),
    };
    let want = wrap(d as f64);
    if !(wrap(e as f64 - want).abs() <= 0.0048 + 1.6e-7 * d.abs() as f64) {
        bad(t, "the phase error", &[m, phi], e, want, 0.0048);
    }
    engine::count(16, 1);
    let n = node(t);
    n.phi += n.gain * e;
    e
}

fn one(t: usize, o: &'static Op) {
    let g = |i: usize| o.a.get(i).copied().unwrap_or(0);
    match o.code {
        ANGLE => {
            let a = f32::from_bits(g(0) as u32);
            if !a.is_finite() {
                return;
            }
            engine::count(4, 1);
            let n = node(t);
            n.fault |= g(1) != 0;
            match g(1) {
                K_ANY => engine::count(7, 1),
                K_LEAP => engine::count(6, 1),
                K_QUARTER => engine::count(5, 1),
                K_LATE => engine::count(20, 1),
                _ => {}
            }
            let (s, c) = read_angle(t, a, g(2));
            // The oscillator's output drives the loop.
            if let Some(m) = read_wind(t, s, c, g(2)) {
                step(t, m, g(2));
            }
        }
        WIND => {
            let (y, x) = (f32::from_bits(g(0) as u32), f32::from_bits(g(1) as u32));
            if !y.is_finite() || !x.is_finite() {
                return;
            }
            engine::count(10, 1);
            let n = node(t);
            n.fault |= g(2) != 0;
            match g(2) {
                K_ANY => engine::count(12, 1),
                K_AMP => engine::count(11, 1),
                K_OPEN => engine::count(13, 1),
                K_LATE => engine::count(20, 1),
                _ => {}
            }
            if let Some(m) = read_wind(t, y, x, g(3)) {
                step(t, m, g(3));
            }
        }
        SLOPE => {
            let m = f32::from_bits(g(0) as u32);
            if !m.is_finite() {
                return;
            }
            read_slope(t, m, g(1));
        }
        LOST => {
            let a = f32::from_bits(g(0) as u32);
            if a.is_finite() {
                return;
            }
            node(t).fault = true;
            engine::count(if a.is_nan() { 8 } else { 9 }, 1);
            let y = f32::from_bits(g(2) as u32);
            let (s, c) = sincos(t, a, g(3));
            let mut l = vec![("sine", s), ("cosine", c)];
            l.push(("tangent", call(t, "tangent", || F32(a).tan().0)));
            if a.is_nan() {
                match g(1) {
                    0 => l.push(("slope angle", call(t, "slope", || F32(a).atan().0))),
                    1 => l.push(("winding angle", atan2(t, a, y, g(3)))),
                    2 => l.push(("winding angle", atan2(t, y, a, g(3)))),
                    3 => l.push(("arc sine", call(t, "arc sine", || F32Ext::asin(a)))),
                    4 => l.push(("arc cosine", call(t, "arc cosine", || F32Ext::acos(a)))),
                    _ => l.push(("amplitude", call(t, "amplitude", || F32(y).hypot(F32(a)).0))),
                }
            } else {
                let w = call(t, "slope", || F32(a).atan().0);
                close(t, "the angle of an infinite slope", &[a], w, (a as f64).atan(), 0.003);
            }
            for (what, g) in l {
                if !g.is_nan() {
                    engine::fail("C28.lost", &format!("task {}: {} of a lost or saturated reading ({:e}) is {:e}", t, what, a, g));
                }
            }
        }
        SWEEP => sweep(t, g(0), g(1)),
        CKPT => node(t).ck = node(t).phi,
        CRASH => {
            engine::count(15, 1);
            let n = node(t);
            n.fault = true;
            n.phi = n.ck;
        }
        STEADY => {
            // The shaft rests; from wherever it is, the loop must lock.
            let th = f32::from_bits(g(0) as u32);
            if !(th.abs() <= 10.0) {
                return;
            }
            node(t).gain = GAINS[g(1) as usize % 4];
            let mut k = 0;
            loop {
                let (s, c) = read_angle(t, th, g(2));
                if let Some(m) = read_wind(t, s, c, g(2)) {
                    step(t, m, g(2));
                }
                k += 1;
                let off = wrap(th as f64 - node(t).phi as f64).abs();
                if off <= 0.02 {
                    break;
                }
                if k == 40 {
                    engine::fail("C28.no-lock", &format!("task {}: {} steps after faults stopped the loop (gain {}) is at {:e}, {:.3} away from the shaft at {:e}", t, k, node(t).gain, node(t).phi, off, th));
                }
            }
            engine::count(17, 1);
            engine::count_max(18, k);
            if node(t).fault {
                engine::nontrivial();
            }
        }
        _ => {
            // The shaft turns evenly; the loop follows it and counts its turns.
            let w = f32::from_bits(g(0) as u32) as f64;
            if !(w.abs() <= 1.6) {
                return;
            }
            let n = node(t);
            n.gain = 1.0;
            let phi0 = n.phi as f64;
            let th0 = wrap(phi0);
            let k = g(1).clamp(1, 12) * 4;
            for i in 1..=k {
                let th = wrap(th0 + w * i as f64);
                if let Some(m) = read_wind(t, (th.sin() * 3.0) as f32, (th.cos() * 3.0) as f32, g(2)) {
                    step(t, m, g(2));
                }
                let got = node(t).phi as f64 - phi0;
                if (got - w * i as f64).abs() > 0.02 {
                    engine::fail("C28.turns", &format!("task {}: after {} steps of {:.6} the shaft has turned {:.4} but the loop followed {:.4}", t, i, w, w * i as f64, got));
                }
            }
            engine::count(19, 1);
            rt::note(node(t).phi.to_bits() as u64);
        }
    }
    rt::note(node(t).phi.to_bits() as u64);
}

fn run(s: &Scenario) {
    rt::set_on_limit(|_| engine::fail("C28.no-progress", "a library call did not end"));
    run_tasks(s, 0, one);
}

fn describe(s: &Scenario) -> Vec<String> {
    let mut l = vec![];
    for (t, ops) in s.tasks.iter().enumerate() {
        for o in ops {
            let g = |i: usize| o.a.get(i).copied().unwrap_or(0);
            l.push(format!(
                "task {}: {}",
                t,
                match o.code {
                    ANGLE => format!("angle {} (kind {}, form {})", fshow(g(0)), g(1), g(2)),
                    WIND => format!("windings {} {} (kind {}, form {})", fshow(g(0)), fshow(g(1)), g(2), g(3)),
                    SLOPE => format!("slope {}", fshow(g(0))),
                    LOST => format!("lost reading {:#x}, use {}, other {}", g(0), g(1), fshow(g(2))),
                    SWEEP => format!("{} readings of every size, seed {:#x}", g(1).min(64), g(0)),
                    CKPT => "checkpoint".into(),
                    CRASH => "crash and restart".into(),
                    STEADY => format!("shaft at rest at {}, gain {}", fshow(g(0)), GAINS[g(1) as usize % 4]),
                    _ => format!("shaft turning by {} for {} steps", fshow(g(0)), g(1).clamp(1, 12) * 4),
                }
            ));
        }
    }
    show_sched(s, &mut l);
    l
}
