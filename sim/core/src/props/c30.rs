//! C30: attitude tracking stays rigid under sensor faults and re-aligns.
//!
//! Up to three nodes, preempted in mid-call, track an attitude as a quaternion:
//! turn increments from a gyro, corrections from pairs of directions, readout
//! as a rotated vector or as Euler angles. Increments are lost, duplicated,
//! late or saturated, directions are opposite, faded or overdriven, the stored
//! attitude is damaged in scale, the node crashes and restarts from its
//! checkpoint. Double-precision quaternions are the model.

use crate::wl::*;
use micromath::vector::{F32x3, I16x3, I8x3, U16x3, U8x3, Vector3d};
use micromath::{Quaternion, F32};
use mmrt::engine::{self, PropDef, Tuning};
use mmrt::rng::{mix, Rng};
use mmrt::rt;
use mmrt::scen::{Op, Scenario};

pub static DEF: PropDef = PropDef {
    id: "C30",
    gen,
    run,
    runs: (80_000, 3_000_000),
    counters: &[
        "mid_call_preemptions",
        "contexts_stopped_for_ever_in_mid_call",
        "shared_state_accesses",
        "blocked_futex_waits",
        "turn_increments",
        "increments_duplicated",
        "increments_lost",
        "increments_of_any_magnitude",
        "increments_late_or_reversed",
        "directions_rotated",
        "corrections",
        "corrections_between_opposite_directions",
        "corrections_between_nearly_opposite_directions",
        "corrections_faded_or_overdriven",
        "corrections_from_whole_numbers",
        "euler_readouts",
        "euler_readouts_with_the_pitch_near_vertical",
        "stored_attitude_damaged_in_scale",
        "lost_readings_nan",
        "crashes_and_restarts_from_a_checkpoint",
        "re_alignments_after_faults",
        "spins_followed",
        "sweeps_of_attitudes_of_every_size",
    ],
    rule: "a case is one seeded run: 1 to 3 nodes track an attitude through up to 30 increments, corrections, readouts, damages and crashes, and must then re-align to a steady reference and follow a steady spin; non-trivial when at least one fault and one re-alignment took part; distinct by hash of switch points and attitudes",
    describe,
    var_from: var_none,
};

const GYRO: u32 = 0;
const LOOK: u32 = 1;
const ALIGN: u32 = 2;
const EULER: u32 = 3;
const DAMAGE: u32 = 4;
const LOST: u32 = 5;
const CKPT: u32 = 6;
const CRASH: u32 = 7;
const STEADY: u32 = 8;
const SPIN: u32 = 9;
const SET: u32 = 10;
const SWEEP: u32 = 11;

type Q = [f64; 4];
type V = [f64; 3];

fn qmul(a: Q, b: Q) -> Q {
    [
        a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
        a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
        a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
        a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0],
    ]
}
fn qn(a: Q) -> f64 {
    a.iter().map(|x| x * x).sum::<f64>().sqrt()
}
fn qrot(q: Q, v: V) -> V {
    let p = qmul(qmul(q, [0.0, v[0], v[1], v[2]]), [q[0], -q[1], -q[2], -q[3]]);
    [p[1], p[2], p[3]]
}
fn vn(a: V) -> f64 {
    (a[0] * a[0] + a[1] * a[1] + a[2] * a[2]).sqrt()
}
fn between(a: V, b: V) -> f64 {
    let c = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]];
    vn(c).atan2(a[0] * b[0] + a[1] * b[1] + a[2] * b[2])
}
fn q64(q: Quaternion) -> Q {
    let a = q.to_array();
    [a[0] as f64, a[1] as f64, a[2] as f64, a[3] as f64]
}
fn v64(v: [f32; 3]) -> V {
    [v[0] as f64, v[1] as f64, v[2] as f64]
}

fn dir(r: &mut Rng) -> [f32; 3] {
    if r.chance(1, 4) {
        let s = if r.chance(1, 2) { 1.0f32 } else { -1.0 };
        return *r.pick(&[[s, 0.0, 0.0], [0.0, s, 0.0], [0.0, 0.0, s]]);
    }
    let plane = r.below(12);
    loop {
        let mut v: V = [r.unit() * 2.0 - 1.0, r.unit() * 2.0 - 1.0, r.unit() * 2.0 - 1.0];
        // In a plane, on a diagonal, or next to a plane.
        match plane {
            0 => v[r.below(3) as usize] = 0.0,
            1 => v[r.below(3) as usize] = v[r.below(3) as usize],
            2 => v[r.below(3) as usize] *= 10f64.powf(-r.unit() * 9.0),
            3 => v = v.map(|c| if c < 0.0 { -1.0 } else { 1.0 }),
            _ => {}
        }
        let n = vn(v);
        if n > 0.05 {
            return [(v[0] / n) as f32, (v[1] / n) as f32, (v[2] / n) as f32];
        }
    }
}
fn turn(r: &mut Rng) -> (f32, u64) {
    match r.below(10) {
        0..=3 => ((r.unit() * 2.0 - 1.0) as f32 * 0.3, 0),
        4 | 5 => ((r.unit() * 2.0 - 1.0) as f32 * 7.0, 0),
        6 => ((r.range(-8, 8) as f64 * std::f64::consts::FRAC_PI_2 * 0.5) as f32, 0),
        7 => ((r.unit() * 2.0 - 1.0) as f32 * 1e-4, 0),
        8 => (((r.unit() * 2.0 - 1.0) * 10f64.powi(r.range(-30, 38) as i32)) as f32, 7),
        _ => (f32::from_bits(fbits_no_nan(r)), 7),
    }
}
fn bits3(v: [f32; 3]) -> [u64; 3] {
    [v[0].to_bits() as u64, v[1].to_bits() as u64, v[2].to_bits() as u64]
}

fn gen(r: &mut Rng, _t: Tuning) -> Scenario {
    let mut s = Scenario::default();
    let n = 1 + r.below(3) as usize;
    for _ in 0..n {
        let mut v: Vec<Op> = vec![];
        let mut old: Option<Op> = None;
        for _ in 0..3 + r.below(28) {
            let o = match r.below(20) {
                0..=5 => {
                    let (a, k) = turn(r);
                    let d = bits3(dir(r));
                    Op { code: GYRO, a: vec![d[0], d[1], d[2], a.to_bits() as u64, k, r.below(8)] }
                }
                6 | 7 => {
                    let d = dir(r);
                    let m = 10f32.powi(r.range(-8, 8) as i32);
                    let d = bits3([d[0] * m, d[1] * m, d[2] * m]);
                    Op { code: LOOK, a: vec![d[0], d[1], d[2], r.below(4)] }
                }
                8..=11 => {
                    let u = dir(r);
                    let mut w = dir(r);
                    let mut k = 0;
                    match r.below(8) {
                        6 => {
                            // Next to each other, or sharing axes.
                            let e = 10f64.powf(-r.unit() * 6.0) as f32;
                            let d = dir(r);
                            w = [u[0] + e * d[0], u[1] + e * d[1], u[2] + e * d[2]];
                        }
                        7 => {
                            for i in 0..3 {
                                match r.below(4) {
                                    0 => w[i] = u[i],
                                    1 => w[i] = -u[i],
                                    2 => w[i] = u[r.below(3) as usize],
                                    _ => {}
                                }
                            }
                            if w == [0.0; 3] {
                                w = u;
                            }
                        }
                        0 => w = u,
                        1 => {
                            w = [-u[0], -u[1], -u[2]];
                            k = 11;
                        }
                        2 => {
                            let e = 10f64.powf(-r.unit() * 6.0) as f32;
                            let d = dir(r);
                            w = [-u[0] + e * d[0], -u[1] + e * d[1], -u[2] + e * d[2]];
                            k = 12;
                        }
                        _ => {}
                    }
                    if r.chance(1, 5) {
                        // Whole-number directions.
                        let m = 1 + r.below(50) as i64;
                        let a: Vec<u64> = (0..3).map(|_| r.range(-m, m) as u64).collect();
                        let b: Vec<u64> = if k == 11 { a.iter().map(|x| (-(*x as i64)) as u64).collect() } else { (0..3).map(|_| r.range(-m, m) as u64).collect() };
                        Op { code: ALIGN, a: vec![a[0], a[1], a[2], b[0], b[1], b[2], k, 14, r.below(2)] }
                    } else {
                        let mut f = 0;
                        let (mut m1, mut m2) = (1.0f32, 1.0f32);
                        if r.chance(1, 3) {
                            m1 = 10f32.powf((r.unit() * 16.0 - 8.0) as f32);
                            m2 = 10f32.powf((r.unit() * 16.0 - 8.0) as f32);
                            f = 13;
                        }
                        let (u, w) = (bits3([u[0] * m1, u[1] * m1, u[2] * m1]), bits3([w[0] * m2, w[1] * m2, w[2] * m2]));
                        Op { code: ALIGN, a: vec![u[0], u[1], u[2], w[0], w[1], w[2], k, f, r.below(4)] }
                    }
                }
                12 if r.chance(1, 2) => Op { code: SWEEP, a: vec![r.u64(), 3 + r.below(8)] },
                12 => Op { code: EULER, a: vec![] },
                13 => {
                    // Simple attitudes: few or equal components.
                    let mut q = [0.0f64; 4];
                    for c in q.iter_mut() {
                        *c = r.range(-2, 2) as f64;
                    }
                    let n = qn(q);
                    if n == 0.0 {
                        q[r.below(4) as usize] = 1.0;
                    }
                    let n = qn(q);
                    Op { code: SET, a: q.iter().map(|x| ((*x / n) as f32).to_bits() as u64).collect() }
                }
                14 => Op { code: DAMAGE, a: vec![((10f64.powf(r.unit() * 16.0 - 8.0)) as f32).to_bits() as u64, r.below(2)] },
                15 => Op { code: LOST, a: vec![*r.pick(&[0x7fc0_0000u64, 0xffc0_0000, 0x7f80_0001, 0x7fff_ffff]), r.below(9), r.below(4)] },
                16 => Op { code: CKPT, a: vec![] },
                17 => Op { code: CRASH, a: vec![] },
                18 => {
                    // Straight up, straight down, or next to it; any roll and yaw.
                    let (p, y) = ((if r.chance(1, 2) { 1.0 } else { -1.0 }) * (std::f64::consts::FRAC_PI_2 + *r.pick(&[0.0, 1e-7, -1e-7, 1e-4, -1e-4, 0.01, -0.01, 0.3])), r.unit() * 6.28);
                    let q = qmul([(y / 2.0).cos(), 0.0, 0.0, (y / 2.0).sin()], [(p / 2.0).cos(), 0.0, (p / 2.0).sin(), 0.0]);
                    Op { code: SET, a: q.iter().map(|x| (*x as f32).to_bits() as u64).collect() }
                }
                _ => match &old {
                    Some(o) => {
                        let mut o = o.clone();
                        o.a[4] = 5 + 3 * r.below(2);
                        if o.a[4] == 8 {
                            let x = f32::from_bits(o.a[3] as u32);
                            o.a[3] = (-x).to_bits() as u64;
                        }
                        o
                    }
                    None => continue,
                },
            };
            if o.code == GYRO {
                if r.chance(1, 12) {
                    // Lost on the way: the node never sees it.
                    v.push(Op { code: GYRO, a: vec![0, 0, 0, 0, 6, 0] });
                    continue;
                }
                old = Some(o.clone());
            }
            v.push(o);
        }
        let (u, w) = (bits3(dir(r)), bits3(dir(r)));
        v.push(Op { code: STEADY, a: vec![u[0], u[1], u[2], w[0], w[1], w[2], r.below(4)] });
        let d = bits3(dir(r));
        let w = ((r.unit() * 2.0 - 1.0) * 1.0) as f32;
        v.push(Op { code: SPIN, a: vec![d[0], d[1], d[2], w.to_bits() as u64, 1 + r.below(30), r.below(4)] });
        s.tasks.push(v);
    }
    if n > 1 || r.chance(1, 2) {
        s.sched = schedule(r, n, 80, false);
    }
    s
}

/// What one node remembers; only `ck` survives a crash.
#[derive(Clone)]
struct Node {
    q: Quaternion,
    ck: Quaternion,
    fault: bool,
}
static mut N: [Option<Node>; 4] = [None, None, None, None];
fn node(t: usize) -> &'static mut Node {
    unsafe {
        N[t].get_or_insert_with(|| {
            let q = if t & 1 == 0 { Quaternion::IDENTITY } else { Quaternion::default() };
            near_all(t, "the attitude of a node that just started", &[], &q.to_array(), &[1.0, 0.0, 0.0, 0.0], 0.0);
            Node { q, ck: q, fault: false }
        })
    }
}

fn bad(t: usize, what: &str, args: &[f64], got: &[f32], want: &[f64]) -> ! {
    engine::fail("C30.value", &format!("task {}: {} of {:?} is {:?} instead of about {:?}", t, what, args, got, want))
}
fn near_all(t: usize, what: &str, args: &[f64], got: &[f32], want: &[f64], tol: f64) {
    if got.iter().zip(want).any(|(g, w)| !((*g as f64 - *w).abs() <= tol)) {
        bad(t, what, args, got, want);
    }
}
fn call<T>(t: usize, what: &str, f: impl FnOnce() -> T) -> T {
    match lib(LOOSE, f) {
        Got::Val(v) => v,
        Got::Panic(_) => engine::fail("C30.failed", &format!("task {}: {} failed: {}", t, what, engine::last_panic())),
    }
}
fn v3(v: [f32; 3]) -> F32x3 {
    F32x3 { x: v[0], y: v[1], z: v[2] }
}
fn vf(v: [f32; 3]) -> Vector3d<F32> {
    Vector3d { x: F32(v[0]), y: F32(v[1]), z: F32(v[2]) }
}
fn arr(v: F32x3) -> [f32; 3] {
    [v.x, v.y, v.z]
}

fn product(t: usize, a: Quaternion, b: Quaternion) -> Quaternion {
    let (x, y) = (q64(a), q64(b));
    let p = call(t, "the product of attitudes", || a * b);
    near_all(t, "the product of attitudes", &[x, y].concat(), &p.to_array(), &qmul(x, y), qn(x) * qn(y) * 5e-7 + 1e-37);
    p
}

/// Blending two attitudes: sums, differences, scalings, in every form.
fn blend(t: usize, a: Quaternion, b: Quaternion, k: f32, how: u64) -> Quaternion {
    let (x, y, f) = (q64(a), q64(b), k as f64);
    let (m, d, e) = call(t, "the blend of attitudes", || match how % 4 {
        0 => (a.scale(1.0 - k) + b.scale(k), a - b, a.dot(b)),
        1 => (a * (1.0 - k) + b * k, a - b, b.dot(a)),
        2 => (k * b + (1.0 - k) * a, a + b * -1.0, Quaternion::from(a.to_array()).dot(b)),
        _ => {
            let (mut p, mut q, mut d) = (a, b, a);
            p *= 1.0 - k;
            q *= k;
            p += q;
            d -= b;
            (p, d, <(f32, f32, f32, f32)>::from(a).0 * b.w() + a.x() * b.x() + a.y() * b.y() + a.z() * b.z())
        }
    });
    let r = qn(x) * (1.0 - f).abs() + qn(y) * f.abs();
    let g = (1.0f32 - k) as f64;
    near_all(t, "the blend of attitudes", &[x, y].concat(), &m.to_array(), &[0, 1, 2, 3].map(|i| x[i] * g + y[i] * f), r * 4e-7 + 1e-37);
    near_all(t, "the difference of attitudes", &[x, y].concat(), &d.to_array(), &[0, 1, 2, 3].map(|i| x[i] - y[i]), (qn(x) + qn(y)) * 2e-7 + 1e-37);
    near_all(t, "the likeness of attitudes", &[x, y].concat(), &[e], &[(0..4).map(|i| x[i] * y[i]).sum()], qn(x) * qn(y) * 5e-7 + 1e-37);
    m
}

fn normalize(t: usize, q: Quaternion) -> Quaternion {
    let x = q64(q);
    let l = qn(x);
    if !(l > 1e-15 && l < 1e15) {
        return q;
    }
    let p = call(t, "normalising", || q.normalize());
    let m = qn(q64(p));
    if (m - 1.0).abs() > 0.036 {
        bad(t, "normalising", &x, &p.to_array(), &x.map(|c| c / l));
    }
    near_all(t, "the direction after normalising", &x, &p.to_array(), &x.map(|c| c / l * m), 1e-6);
    p
}

/// Magnitude, norm, conjugate and inverse of the attitude belong together.
fn measures(t: usize, q: Quaternion) {
    let x = q64(q);
    let l = qn(x);
    if !(l > 1e-15 && l < 1e15) {
        return;
    }
    let (m, n, c, i, d) = call(t, "measuring the attitude", || (q.magnitude(), q.norm(), q.conj(), q.inv(), q.dot(q)));
    near_all(t, "the magnitude", &x, &[m], &[l], l * 0.0625);
    near_all(t, "the norm", &x, &[n, d], &[l * l, l * l], l * l * 1e-6);
    near_all(t, "the conjugate", &x, &c.to_array(), &[x[0], -x[1], -x[2], -x[3]], 0.0);
    let want = [x[0], -x[1], -x[2], -x[3]].map(|c| c / (l * l));
    let k = qn(q64(i)) * l;
    if (k - 1.0).abs() > 0.126 {
        bad(t, "the inverse", &x, &i.to_array(), &want);
    }
    near_all(t, "the direction of the inverse", &x, &i.to_array(), &want.map(|c| c * k), 1e-6 / l);
}

fn rotate(t: usize, q: Quaternion, v: [f32; 3], how: u64) -> [f32; 3] {
    let (x, y) = (q64(q), v64(v));
    let p = call(t, "rotating a direction", || match how & 3 {
        0 => q.rotate(v3(v)),
        1 => q * v3(v),
        2 => q.rotate(vf(v)),
        _ => q * vf(v),
    });
    near_all(t, "the rotated direction", &[&x[..], &y[..]].concat(), &arr(p), &qrot(x, y), qn(x) * qn(x) * vn(y) * 2e-6 + 1e-37);
    // A direction as a pure quaternion, and directions in whole numbers.
    let w = v.map(|c| c as i8);
    let k = how >> 2 & 3;
    let (pure, p2, m, whole) = call(t, "rotating a direction in whole numbers", || {
        let (a, b) = if how & 2 == 0 { (Quaternion::from(v3(v)), v3(v)) } else { (Quaternion::from(vf(v)), v3(v)) };
        let _ = b;
        let [i, j, l] = w;
        let u = |c: i8| c as u8;
        match k {
            0 => {
                let z = I8x3 { x: i, y: j, z: l };
                (a, q * z, w.map(|c| c as f64), Quaternion::from(z))
            }
            1 => {
                let z = I16x3 { x: i as i16 * 99, y: j as i16 * 99, z: l as i16 * 99 };
                (a, q.rotate(z), w.map(|c| c as f64 * 99.0), Quaternion::from(z))
            }
            2 => {
                let z = U8x3 { x: u(i), y: u(j), z: u(l) };
                (a, q.rotate(z), w.map(|c| u(c) as f64), Quaternion::from(z))
            }
            _ => {
                let z = U16x3 { x: u(i) as u16 * 99, y: u(j) as u16 * 99, z: u(l) as u16 * 99 };
                (a, q * z, w.map(|c| u(c) as f64 * 99.0), Quaternion::from(z))
            }
        }
    });
    if pure.to_array().map(f32::to_bits) != [0.0, v[0], v[1], v[2]].map(f32::to_bits) {
        bad(t, "a direction as a pure quaternion", &y, &pure.to_array(), &[0.0, y[0], y[1], y[2]]);
    }
    if whole.to_array().map(|c| c as f64) != [0.0, m[0], m[1], m[2]] {
        bad(t, "a direction in whole numbers as a pure quaternion", &m, &whole.to_array(), &[0.0, m[0], m[1], m[2]]);
    }
    near_all(t, "the rotated direction in whole numbers", &[&x[..], &m[..]].concat(), &arr(p2), &qrot(x, m), qn(x) * qn(x) * vn(m) * 2e-6 + 1e-37);
    arr(p)
}

fn increment(t: usize, d: [f32; 3], a: f32, how: u64) -> Quaternion {
    let q = call(t, "the turn increment", || if how & 1 == 0 { Quaternion::axis_angle(v3(d), a) } else { Quaternion::axis_angle(vf(d), F32(a)) });
    let h = a as f64 * 0.5;
    let x = q64(q);
    if h.abs() <= 1e5 {
        let e = 0.0012 + h.abs() * 1.6e-7;
        let s = h.sin();
        near_all(t, "the turn increment", &[d[0] as f64, d[1] as f64, d[2] as f64, a as f64], &q.to_array(), &[h.cos(), s * d[0] as f64, s * d[1] as f64, s * d[2] as f64], e + 1e-6);
    }
    // Whatever the angle, the increment turns and hardly scales.
    if !(x.iter().all(|c| c.abs() <= 1.001)) || (h.abs() <= 1e4 && (qn(x) - 1.0).abs() > 0.006) {
        bad(t, "the turn increment", &[d[0] as f64, d[1] as f64, d[2] as f64, a as f64], &q.to_array(), &[]);
    }
    // Its axis is the one that was asked for.
    let s = if d[0].abs() > 0.5 { x[1] / d[0] as f64 } else if d[1].abs() > 0.5 { x[2] / d[1] as f64 } else { x[3] / d[2] as f64 };
    near_all(t, "the axis of the turn increment", &[d[0] as f64, d[1] as f64, d[2] as f64, a as f64], &q.to_array()[1..], &[s * d[0] as f64, s * d[1] as f64, s * d[2] as f64], 1e-6);
    q
}

/// The turn from one direction to another, checked.
fn correction(t: usize, u: [f32; 3], w: [f32; 3], how: u64) -> Quaternion {
    let q = call(t, "the correction", || if how & 1 == 0 { Quaternion::from_two_vectors(v3(u), v3(w)) } else { Quaternion::from_two_vectors(vf(u), vf(w)) });
    check_correction(t, q, v64(u), v64(w));
    q
}
fn check_correction(t: usize, q: Quaternion, u: V, w: V) {
    let x = q64(q);
    if (qn(x) - 1.0).abs() > 0.037 {
        bad(t, "the correction", &[u, w].concat(), &q.to_array(), &[]);
    }
    let off = between(qrot(x, u), w);
    // Only between nearly opposite directions does the float sum that tells the
    // angle cancel.
    let gap = std::f64::consts::PI - between(u, w);
    let tol = if gap < 0.0017 { gap + 0.001 } else { 1e-5 + 6e-6 / gap };
    if !(off <= tol) {
        engine::fail("C30.correction", &format!("task {}: the correction {:?} from {:?} to {:?} misses by {:.4} rad", t, q.to_array(), u, w, off));
    }
}

fn euler(t: usize) {
    let q = node(t).q;
    let x = q64(q);
    let l = qn(x);
    // Meant for attitudes that are near unit length.
    if (l - 1.0).abs() > 0.04 {
        return;
    }
    let (r, p, y) = call(t, "the Euler angles", || q.to_euler());
    engine::count(15, 1);
    let s = 2.0 * (x[0] * x[2] - x[1] * x[3]);
    if s.abs() > 0.99 {
        engine::count(16, 1);
    }
    let want = s.clamp(-1.0, 1.0).asin();
    if !((p as f64 - want).abs() <= 0.02) {
        bad(t, "the pitch", &x, &[p], &[want]);
    }
    for (what, g, a, b) in [("the roll", r, 2.0 * (x[0] * x[1] + x[2] * x[3]), 1.0 - 2.0 * (x[1] * x[1] + x[2] * x[2])), ("the yaw", y, 2.0 * (x[0] * x[3] + x[1] * x[2]), 1.0 - 2.0 * (x[2] * x[2] + x[3] * x[3]))] {
        let h = a.hypot(b);
        if g.is_nan() {
            bad(t, what, &x, &[g], &[a.atan2(b)]);
        }
        if h > 1e-3 {
            let d = (g as f64 - a.atan2(b)).rem_euclid(std::f64::consts::TAU);
            if d.min(std::f64::consts::TAU - d) > 0.003 + 1e-6 / h {
                bad(t, what, &x, &[g], &[a.atan2(b)]);
            }
        }
    }
}

/// A component of an attitude or direction: many are zero, equal, or far apart.
fn facet(h: u64, last: f32) -> f32 {
    let u = (h >> 8) as u32 as i32 as f32 * 2f32.powi(-31);
    match h & 7 {
        0 => 0.0,
        1 => last,
        2 => -last,
        3 => ((h >> 40) % 5) as f32 - 2.0,
        4 => u * 2f32.powi(-((h >> 40) as i32 & 31)),
        5 => 2f32.powi(-((h >> 40) as i32 & 15)) * if u < 0.0 { -1.0 } else { 1.0 },
        _ => u,
    }
}
fn facets<const K: usize>(h: u64, size: f32) -> [f32; K] {
    let mut l = 1.0;
    let mut v = [0; K].map(|_: i32| 0.0f32);
    for (i, c) in v.iter_mut().enumerate() {
        l = facet(mix(h ^ (i as u64 + 1)), l);
        *c = l;
    }
    v.map(|c| c * size)
}
/// Many attitudes and directions of every moderate size, kept by nobody.
fn sweep(t: usize, seed: u64, n: u64) {
    let kept = node(t).q;
    for i in 0..n.min(32) {
        let h = mix(seed ^ i.wrapping_mul(0x9e37_79b9_7f4a_7c15));
        let size = |h: u64| if h & 1 == 0 { 1.0 } else { 2f32.powi((h >> 8) as i32 % 26) };
        let (a, b) = (facets::<4>(mix(h ^ 1), size(mix(h ^ 2))), facets::<4>(mix(h ^ 3), size(mix(h ^ 4))));
        let (u, w) = (facets::<3>(mix(h ^ 5), size(mix(h ^ 6))), facets::<3>(mix(h ^ 7), size(mix(h ^ 8))));
        let p = Quaternion::new(a[0], a[1], a[2], a[3]);
        let q = match h & 15 {
            0 => p,
            1 => Quaternion::new(a[0], -a[1], -a[2], -a[3]),
            2 => Quaternion::new(-a[0], -a[1], -a[2], -a[3]),
            _ => Quaternion::new(b[0], b[1], b[2], b[3]),
        };
        let r = product(t, p, q);
        rt::note(canon(r.w()) as u64);
        blend(t, p, q, [0.5f32, 0.25, 0.9, -0.5, 0.0, 1.0, 3.0, -7.25][(h >> 4 & 7) as usize], h >> 7);
        measures(t, p);
        if u.iter().any(|c| *c != 0.0) {
            rotate(t, p, u, h >> 10);
        }
        let (lu, lw) = (vn(v64(u)), vn(v64(w)));
        if lu > 1e-7 && lw > 1e-7 && lu < 1e8 && lw < 1e8 {
            correction(t, u, w, h >> 14);
            let d = v64(u).map(|c| (c / lu) as f32);
            let turn = (h >> 20) as u32 as i32 as f32 * 2f32.powi(-31 + (h >> 52) as i32 % 14);
            increment(t, d, turn, h >> 15);
        }
        let l = qn(q64(p));
        if l > 1e-7 && l < 1e9 {
            normalize(t, p);
            let e = q64(p).map(|c| (c / l) as f32);
            node(t).q = Quaternion::new(e[0], e[1], e[2], e[3]);
            euler(t);
        }
    }
    node(t).q = kept;
    engine::count(22, 1);
}

fn one(t: usize, o: &'static Op) {
    let g = |i: usize| o.a.get(i).copied().unwrap_or(0);
    let f = |i: usize| f32::from_bits(g(i) as u32);
    let d3 = |i: usize| [f(i), f(i + 1), f(i + 2)];
    let unit = |v: [f32; 3]| (vn(v64(v)) - 1.0).abs() < 1e-5;
    match o.code {
        GYRO => {
            if g(4) != 0 {
                node(t).fault = true;
                engine::count(g(4) as usize, 1);
            }
            let d = d3(0);
            if g(4) == 6 || !unit(d) || !f(3).is_finite() {
                return;
            }
            engine::count(4, 1);
            let dq = increment(t, d, f(3), g(5));
            // Beyond that, the nodes reject it as implausible: a float no longer resolves the turn.
            if f(3).abs() > 2e5 {
                return;
            }
            let q = node(t).q;
            let p = if g(5) & 2 == 0 { product(t, q, dq) } else { product(t, dq, q) };
            if g(5) & 4 != 0 {
                blend(t, q, p, [0.5f32, 0.25, 0.9, -0.5][(g(3) & 3) as usize], g(3) >> 2);
            }
            let l = qn(q64(p));
            let p = if g(5) & 4 != 0 || !(l > 0.25 && l < 4.0) { normalize(t, p) } else { p };
            node(t).q = p;
        }
        LOOK => {
            let v = d3(0);
            let m = vn(v64(v));
            if !(m > 1e-10 && m < 1e10) {
                return;
            }
            engine::count(9, 1);
            let q = node(t).q;
            let p = rotate(t, q, v, g(3));
            measures(t, q);
            for c in p {
                rt::note(canon(c) as u64);
            }
        }
        ALIGN => {
            let n = node(t);
            for k in [g(6), g(7)] {
                if k != 0 {
                    n.fault = true;
                    engine::count(k as usize & 31, 1);
                }
            }
            engine::count(10, 1);
            let q = if g(7) == 14 {
                let i = |k: usize| (g(k) as i64).clamp(-50, 50);
                let u = [i(0), i(1), i(2)];
                let w = [i(3), i(4), i(5)];
                if u == [0; 3] || w == [0; 3] {
                    return;
                }
                let big = u.iter().chain(&w).any(|x| x.abs() > 6);
                let q = call(t, "the correction", || {
                    if big || g(8) & 1 == 0 {
                        let v = |a: [i64; 3]| I16x3 { x: a[0] as i16, y: a[1] as i16, z: a[2] as i16 };
                        Quaternion::from_two_vectors(v(u), v(w))
                    } else {
                        let v = |a: [i64; 3]| I8x3 { x: a[0] as i8, y: a[1] as i8, z: a[2] as i8 };
                        Quaternion::from_two_vectors(v(u), v(w))
                    }
                });
                check_correction(t, q, u.map(|x| x as f64), w.map(|x| x as f64));
                q
            } else {
                let (u, w) = (d3(0), d3(3));
                let (a, b) = (vn(v64(u)), vn(v64(w)));
                if !(a > 0.5e-8 && a < 2e8 && b > 0.5e-8 && b < 2e8) {
                    return;
                }
                correction(t, u, w, g(8))
            };
            let p = product(t, q, n.q);
            node(t).q = normalize(t, p);
        }
        SET => {
            let q = Quaternion::new(f(0), f(1), f(2), f(3));
            if (qn(q64(q)) - 1.0).abs() < 0.03 {
                node(t).q = q;
                euler(t);
            }
        }
        EULER => euler(t),
        DAMAGE => {
            let k = f(0);
            if !(k > 1e-9 && k < 1e9) {
                return;
            }
            engine::count(17, 1);
            let n = node(t);
            n.fault = true;
            let q = n.q;
            let p = call(t, "scaling", || if g(1) & 1 == 0 { q * k } else { k * q });
            near_all(t, "scaling", &q64(q), &p.to_array(), &q64(q).map(|c| c * k as f64), qn(q64(q)) * k as f64 * 1e-6 + 1e-44);
            measures(t, p);
            node(t).q = normalize(t, p);
        }
        LOST => {
            let a = f(0);
            if !a.is_nan() {
                return;
            }
            engine::count(18, 1);
            let n = node(t);
            n.fault = true;
            let mut w = [0.6f32, 0.0, 0.8];
            w[g(2) as usize % 3] = a;
            let mut c = n.q.to_array();
            c[g(2) as usize % 4] = a;
            let q = n.q;
            let h = Quaternion::from(c);
            let got: Vec<f32> = call(t, "using a lost reading", || match g(1) {
                0 => q.rotate(v3(w)).to_array().to_vec(),
                1 => h.rotate(F32x3 { x: 1.0, y: 2.0, z: 3.0 }).to_array().to_vec(),
                2 => h.normalize().to_array().to_vec(),
                3 => (q * h).to_array().to_vec(),
                4 => (h * q).to_array().to_vec(),
                5 => vec![h.to_euler().0, h.to_euler().1, h.to_euler().2],
                6 => Quaternion::from_two_vectors(v3(w), F32x3 { x: 0.0, y: 1.0, z: 0.0 }).to_array().to_vec(),
                7 => Quaternion::axis_angle(F32x3 { x: 0.0, y: 1.0, z: 0.0 }, a).to_array().to_vec(),
                _ => vec![h.norm(), h.magnitude(), h.dot(q), h.inv().w(), h.inv().x(), h.inv().y(), h.inv().z()],
            });
            if got.iter().any(|x| !x.is_nan()) {
                engine::fail("C30.lost", &format!("task {}: use {} of a lost reading (NaN) gives {:?}", t, g(1), got));
            }
        }
        SWEEP => sweep(t, g(0), g(1)),
        CKPT => node(t).ck = node(t).q,
        CRASH => {
            engine::count(19, 1);
            let n = node(t);
            n.fault = true;
            n.q = n.ck;
        }
        STEADY => {
            // A body direction and its steady reference: two corrections align them.
            let (u, w) = (d3(0), d3(3));
            if !unit(u) || !unit(w) {
                return;
            }
            let q = normalize(t, node(t).q);
            node(t).q = q;
            for _ in 0..2 {
                let seen = rotate(t, node(t).q, u, g(6));
                let c = correction(t, seen, w, g(6));
                let p = product(t, c, node(t).q);
                node(t).q = normalize(t, p);
            }
            let off = between(qrot(q64(node(t).q), v64(u)), v64(w));
            if !(off <= 0.005) {
                engine::fail("C30.no-alignment", &format!("task {}: two corrections after faults stopped the attitude {:?} is {:.4} rad off", t, node(t).q.to_array(), off));
            }
            engine::count(20, 1);
            if node(t).fault {
                engine::nontrivial();
            }
        }
        _ => {
            // A steady spin, step by step and normalised every time.
            let (d, a) = (d3(0), f(3));
            if !unit(d) || !(a.abs() <= 1.1) {
                return;
            }
            let k = g(4).clamp(1, 30);
            let q0 = q64(node(t).q);
            let l0 = qn(q0);
            if !(l0 > 0.1 && l0 < 10.0) {
                return;
            }
            for i in 1..=k {
                let dq = increment(t, d, a, g(5));
                let p = product(t, node(t).q, dq);
                let p = normalize(t, p);
                node(t).q = p;
                let h = a as f64 * 0.5 * i as f64;
                let want = qmul(q0.map(|c| c / l0), [h.cos(), h.sin() * d[0] as f64, h.sin() * d[1] as f64, h.sin() * d[2] as f64]);
                let got = q64(p);
                let l = qn(got);
                let dot: f64 = got.iter().zip(&want).map(|(a, b)| a / l * b).sum();
                let off = 2.0 * dot.abs().min(1.0).acos();
                if !(off <= 0.0036 * i as f64 + 1e-3) {
                    engine::fail("C30.spin", &format!("task {}: after {} steps of {:e} the attitude {:?} is {:.4} rad off", t, i, a, p.to_array(), off));
                }
            }
            engine::count(21, 1);
        }
    }
    for c in node(t).q.to_array() {
        rt::note(canon(c) as u64);
    }
}

fn run(s: &Scenario) {
    rt::set_on_limit(|_| engine::fail("C30.no-progress", "a library call did not end"));
    run_tasks(s, 0, one);
}

fn describe(s: &Scenario) -> Vec<String> {
    let mut l = vec![];
    for (t, ops) in s.tasks.iter().enumerate() {
        for o in ops {
            let g = |i: usize| o.a.get(i).copied().unwrap_or(0);
            let v = |i: usize| format!("({} {} {})", fshow(g(i)), fshow(g(i + 1)), fshow(g(i + 2)));
            l.push(format!(
                "task {}: {}",
                t,
                match o.code {
                    GYRO if g(4) == 6 => "increment lost".into(),
                    GYRO => format!("turn about {} by {} (fault {}, form {})", v(0), fshow(g(3)), g(4), g(5)),
                    LOOK => format!("rotate {} (form {})", v(0), g(3)),
                    ALIGN if g(7) == 14 => format!("correct from ({} {} {}) to ({} {} {})", g(0) as i64, g(1) as i64, g(2) as i64, g(3) as i64, g(4) as i64, g(5) as i64),
                    ALIGN => format!("correct from {} to {} (faults {} {}, form {})", v(0), v(3), g(6), g(7), g(8)),
                    SET => format!("attitude {} {}", v(0), fshow(g(3))),
                    EULER => "Euler angles".into(),
                    DAMAGE => format!("stored attitude scaled by {}", fshow(g(0))),
                    LOST => format!("lost reading {:#x}, use {}, place {}", g(0), g(1), g(2)),
                    SWEEP => format!("{} attitudes of every size, seed {:#x}", g(1).min(32), g(0)),
                    CKPT => "checkpoint".into(),
                    CRASH => "crash and restart".into(),
                    STEADY => format!("steady: body {} reference {}", v(0), v(3)),
                    _ => format!("spin about {} by {} for {} steps", v(0), fshow(g(3)), g(4)),
                }
            ));
        }
    }
    show_sched(s, &mut l);
    l
}
