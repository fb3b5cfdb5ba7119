//! C31: navigation with vectors is geometrically sound under faulty fixes, and arrives.
//!
//! Up to three nodes, preempted in mid-call, steer to targets in the plane and
//! in space: difference, distance, heading, side of the border, lever arm, step.
//! Targets and positions leap, fade, coincide, arrive late or lost, components
//! are floats or whole numbers of any width, the node crashes and restarts from
//! its checkpoint. Double precision is the model.

use crate::wl::*;
use micromath::vector::{F32x2, F32x3, I16x2, I16x3, I32x2, I32x3, I8x2, I8x3, U16x2, U16x3, U32x2, U32x3, U8x2, U8x3, Vector, Vector2d, Vector3d};
use micromath::F32;
use mmrt::engine::{self, PropDef, Tuning};
use mmrt::rng::Rng;
use mmrt::rt;
use mmrt::scen::{Op, Scenario};

pub static DEF: PropDef = PropDef {
    id: "C31",
    gen,
    run,
    runs: (80_000, 3_000_000),
    counters: &[
        "mid_call_preemptions",
        "contexts_stopped_for_ever_in_mid_call",
        "shared_state_accesses",
        "blocked_futex_waits",
        "fixes_used",
        "fixes_leaping_to_any_magnitude",
        "fixes_coinciding_with_the_position",
        "fixes_late",
        "fixes_one_unit_in_the_last_place_off",
        "fixes_lost_nan",
        "position_glitches",
        "border_side_tests",
        "fixes_in_whole_numbers",
        "fixes_at_the_limits_of_the_component_type",
        "crashes_and_restarts_from_a_checkpoint",
        "arrivals_after_faults",
        "most_steps_to_arrive",
        "fixes_parallel_or_opposite",
        "fixes_sharing_axes_with_the_position",
        "fixes_at_the_ends_of_a_component_range",
        "fixes_small_against_large_lever_arms",
    ],
    rule: "a case is one seeded run: 1 to 3 nodes use up to 30 faulty fixes for distances, headings, sides, lever arms and steps, with crashes, and must then arrive at a steady target within the bound; non-trivial when at least one fault and one arrival took part; distinct by hash of switch points and positions",
    describe,
    var_from: var_none,
};

const FARS: usize = 19;
const RANGE: [(i64, i64); 4] = [(-128, 127), (-32768, 32767), (0, 255), (0, 65535)];
const FIX: u32 = 0;
const INT: u32 = 1;
const LOST: u32 = 2;
const GLITCH: u32 = 3;
const CKPT: u32 = 4;
const CRASH: u32 = 5;
const HOME: u32 = 6;
/// Distances and lengths over the whole range of a component type.
const FAR: u32 = 7;
/// Small times large: products and their sums fit, sums of the factors do not.
const WIDE: u32 = 8;
const WIDES: usize = 20;
const TOP: [(i64, i64); 6] = [(-128, 127), (-32768, 32767), (i32::MIN as i64, i32::MAX as i64), (0, 255), (0, 65535), (0, u32::MAX as i64)];

fn coord(r: &mut Rng, m: f64) -> f32 {
    match r.below(6) {
        0 => (r.range(-20, 20) as f64 * m.max(1e-6)) as f32,
        1 => 0.0,
        _ => ((r.unit() * 2.0 - 1.0) * m) as f32,
    }
}
fn point(r: &mut Rng) -> ([f32; 3], u64) {
    match r.below(6) {
        0 => {
            let m = 10f64.powf(r.unit() * 30.0 - 15.0);
            ([coord(r, m), coord(r, m), coord(r, m)], 5)
        }
        1 => {
            // Axes of very different size.
            let v: Vec<f32> = (0..3).map(|_| ((r.unit() * 2.0 - 1.0) * 10f64.powf(r.unit() * 24.0 - 12.0)) as f32).collect();
            ([v[0], v[1], v[2]], 5)
        }
        _ => {
            let m = 10f64.powf(r.unit() * 4.0 - 1.0);
            ([coord(r, m), coord(r, m), coord(r, m)], 0)
        }
    }
}

fn gen(r: &mut Rng, _t: Tuning) -> Scenario {
    let mut s = Scenario::default();
    let n = 1 + r.below(3) as usize;
    for _ in 0..n {
        let form = r.below(4);
        let mut v: Vec<Op> = vec![];
        let b = |p: [f32; 3]| [p[0].to_bits() as u64, p[1].to_bits() as u64, p[2].to_bits() as u64];
        let mut last: Option<([f32; 3], [f32; 3])> = None;
        for _ in 0..3 + r.below(28) {
            let o = match r.below(18) {
                17 => {
                    let ty = r.below(16);
                    let mut a = vec![ty];
                    if ty < 4 {
                        // Floats: one factor tiny, one at the top of the range.
                        let up = (r.unit() * 60.0 + 64.0) as i32;
                        let same = r.chance(1, 2);
                        let mut sm: Vec<f32> = (0..3).map(|_| ((r.unit() * 2.0 - 1.0) * 2f64.powi(-up)) as f32).collect();
                        let mut lg: Vec<f32> = (0..3).map(|_| ((r.unit() * 2.0 - 1.0) * 2f64.powi(up.min(127)) * 1.9) as f32).collect();
                        if same {
                            sm = vec![sm[0]; 3];
                        }
                        if r.chance(1, 4) {
                            lg = vec![lg[0]; 3];
                        }
                        if r.chance(1, 2) {
                            std::mem::swap(&mut sm, &mut lg);
                        }
                        a.extend(sm.iter().chain(&lg).map(|x| x.to_bits() as u64));
                    } else {
                        let (lo, hi) = TOP[(ty as usize - 4) % 6];
                        let m = *r.pick(&[1i64, 1, 2, 3, 5, 11]);
                        let same = r.chance(1, 2);
                        let mut sm: Vec<i64> = (0..3).map(|_| if lo < 0 { r.range(-m, m) } else { r.range(0, m) }).collect();
                        if same {
                            sm = vec![sm[0]; 3];
                        }
                        let w = sm.iter().map(|x| x.abs()).sum::<i64>().max(1);
                        let mut lg: Vec<i64> = (0..3).map(|_| r.range(lo / w, hi / w)).collect();
                        if r.chance(1, 3) {
                            lg = vec![*r.pick(&[hi / w, lo / w, lg[0]]); 3];
                        }
                        if r.chance(1, 2) {
                            std::mem::swap(&mut sm, &mut lg);
                        }
                        a.extend(sm.iter().chain(&lg).map(|x| *x as u64));
                    }
                    Op { code: WIDE, a }
                }
                16 => {
                    // Opposite ends of the range: differences and squares do not fit the type.
                    let ty = r.below(8);
                    let (lo, hi) = RANGE[ty as usize % 4];
                    let mut a = vec![ty];
                    for _ in 0..6 {
                        a.push(match r.below(5) {
                            0 => lo,
                            1 => hi,
                            2 => *r.pick(&[0, 1, lo + 1, hi - 1, hi / 2 + 1]),
                            _ => r.range(lo, hi),
                        } as u64);
                    }
                    Op { code: FAR, a }
                }
                0..=6 => {
                    let (a, mut k) = point(r);
                    let mut c = point(r).0;
                    match r.below(9) {
                        7 | 8 => {
                            // In the same row, column or plane, mirrored, or with axes swapped.
                            let mut a2 = a;
                            for i in 0..3 {
                                match r.below(7) {
                                    0 | 1 => c[i] = a[i],
                                    2 => c[i] = -a[i],
                                    3 => {
                                        c[i] = 0.0;
                                        a2[i] = 0.0;
                                    }
                                    4 => c[i] = a[r.below(3) as usize],
                                    5 => a2[i] = 0.0,
                                    _ => {}
                                }
                            }
                            last = Some((a2, c));
                            k = 18;
                        }
                        0 => {
                            c = a;
                            k = 6;
                        }
                        1 => {
                            c = a.map(|x| f32::from_bits((x.to_bits() as i64 + r.range(-1, 1)).max(0) as u32));
                            k = 8;
                        }
                        2 => {
                            let m = *r.pick(&[1.0f32, -1.0, 2.0, -0.5, 1e3, -1e-3]);
                            c = a.map(|x| x * m);
                            k = 17;
                        }
                        3 => {
                            if let Some(l) = last {
                                c = l.1;
                                k = 7;
                            }
                        }
                        _ => {}
                    }
                    let a = if k == 18 { last.map_or(a, |l| l.0) } else { a };
                    last = Some((a, c));
                    let (x, y) = (b(a), b(c));
                    let m = *r.pick(&[1.0f32, 0.1, 2.0, -3.0, 0.0, 1e-6, 1e6]) * (1.0 + r.unit() as f32);
                    Op { code: FIX, a: vec![x[0], x[1], x[2], y[0], y[1], y[2], m.to_bits() as u64, k, form] }
                }
                7..=9 => {
                    // Whole numbers; products must fit the component type.
                    let ty = r.below(12);
                    let lim: i64 = match ty % 6 {
                        0 => 6,
                        1 => 100,
                        2 => 20_000,
                        3 => 9,
                        4 => 140,
                        _ => 30_000,
                    };
                    let mut a = vec![ty];
                    let edge = r.chance(1, 3);
                    for _ in 0..6 {
                        let m = if edge && r.chance(1, 2) { lim } else { r.below(lim as u64 + 1) as i64 };
                        a.push((if ty % 6 < 3 && r.chance(1, 2) { -m } else { m }) as u64);
                    }
                    if r.chance(1, 2) {
                        for i in 1..4 {
                            match r.below(6) {
                                0 | 1 => a[i + 3] = a[i],
                                2 if ty % 6 < 3 => a[i + 3] = (-(a[i] as i64)) as u64,
                                3 => {
                                    a[i] = 0;
                                    a[i + 3] = 0;
                                }
                                4 => a[i + 3] = a[1 + r.below(3) as usize],
                                _ => {}
                            }
                        }
                    }
                    a.push(edge as u64);
                    a.push(if ty % 6 < 3 { r.range(-lim, lim) as u64 } else { r.below(lim as u64 + 1) });
                    Op { code: INT, a }
                }
                10 => Op { code: LOST, a: vec![*r.pick(&[0x7fc0_0000u64, 0xffc0_0000, 0x7f80_0001, 0x7fff_ffff]), r.below(3), form] },
                11 | 12 => {
                    let p = b(point(r).0);
                    Op { code: GLITCH, a: vec![p[0], p[1], p[2]] }
                }
                13 => Op { code: CKPT, a: vec![] },
                _ => Op { code: CRASH, a: vec![] },
            };
            v.push(o);
        }
        let m = 10f64.powf(r.unit() * 3.0 - 1.0);
        let p = b([coord(r, m), coord(r, m), coord(r, m)]);
        v.push(Op { code: HOME, a: vec![p[0], p[1], p[2], ((m * (0.05 + r.unit())) as f32).to_bits() as u64, form] });
        s.tasks.push(v);
    }
    if n > 1 || r.chance(1, 2) {
        s.sched = schedule(r, n, 60, false);
    }
    s
}

#[derive(Clone, Default)]
struct Node {
    pos: [f32; 3],
    ck: [f32; 3],
    fault: bool,
}
static mut N: [Option<Node>; 4] = [None, None, None, None];
fn node(t: usize) -> &'static mut Node {
    unsafe { N[t].get_or_insert_with(Node::default) }
}
fn call<T>(t: usize, what: &str, f: impl FnOnce() -> T) -> T {
    match lib(LOOSE, f) {
        Got::Val(v) => v,
        Got::Panic(_) => engine::fail("C31.failed", &format!("task {}: {} failed: {}", t, what, engine::last_panic())),
    }
}

/// Everything a node derives from two points and a factor.
#[derive(Default, Debug)]
struct Out {
    sum: [f32; 3],
    diff: [f32; 3],
    scaled: [f32; 3],
    scaled2: [f32; 3],
    divided: [f32; 3],
    stepped: [f32; 3],
    cross: [f32; 3],
    cross2: [f32; 3],
    unit: [f32; 3],
    dot: f32,
    dot2: f32,
    perp: f32,
    dist: f32,
    dist_back: f32,
    mag: f32,
    magsq: f32,
}

macro_rules! ops {
    ($mk:expr, $un:expr, $un3:expr, $c:expr, $u:expr, $perp:expr, $a:expr, $b:expr, $k:expr) => {{
        let (a, b, k) = ($mk($a), $mk($b), $c($k));
        let mut stepped = a;
        stepped += b;
        stepped *= k;
        stepped -= a;
        let d = b - a;
        Out {
            sum: $un(a + b),
            diff: $un(d),
            scaled: $un(d * k),
            scaled2: $un(k * d),
            divided: $un(d / k),
            stepped: $un(stepped),
            cross: $un3(a.cross(b)),
            cross2: $un3(a * b),
            unit: $un(d.normalized()),
            dot: $u(a.dot(b)),
            dot2: $u(Vector::dot(b, a)),
            perp: $perp(a, b),
            dist: a.distance(b),
            dist_back: b.distance(a),
            mag: d.magnitude(),
            magsq: $u(d.magnitude_sq()),
        }
    }};
}
fn all(form: u64, a: [f32; 3], b: [f32; 3], k: f32) -> Out {
    let id = |x: f32| x;
    match form & 3 {
        0 => ops!(|v: [f32; 3]| F32x3 { x: v[0], y: v[1], z: v[2] }, |v: F32x3| v.to_array(), |v: F32x3| v.to_array(), id, id, |_, _| 0.0, a, b, k),
        1 => ops!(
            |v: [f32; 3]| Vector3d { x: F32(v[0]), y: F32(v[1]), z: F32(v[2]) },
            |v: Vector3d<F32>| [v.x.0, v.y.0, v.z.0],
            |v: Vector3d<F32>| [v.x.0, v.y.0, v.z.0],
            F32,
            |x: F32| x.0,
            |_, _| 0.0,
            a,
            b,
            k
        ),
        2 => ops!(|v: [f32; 3]| F32x2 { x: v[0], y: v[1] }, |v: F32x2| [v.x, v.y, 0.0], |v: F32x3| v.to_array(), id, id, |a: F32x2, b: F32x2| a.perpendicular_dot(b), a, b, k),
        _ => ops!(
            |v: [f32; 3]| Vector2d { x: F32(v[0]), y: F32(v[1]) },
            |v: Vector2d<F32>| [v.x.0, v.y.0, 0.0],
            |v: Vector3d<F32>| [v.x.0, v.y.0, v.z.0],
            F32,
            |x: F32| x.0,
            |a: Vector2d<F32>, b: Vector2d<F32>| a.perpendicular_dot(b).0,
            a,
            b,
            k
        ),
    }
}

fn vn(a: [f64; 3]) -> f64 {
    a.iter().map(|x| x * x).sum::<f64>().sqrt()
}
fn bad(t: usize, what: &str, a: &[f32], b: &[f32], got: &[f32], want: &[f64]) -> ! {
    engine::fail("C31.value", &format!("task {}: {} of {:?} and {:?} is {:?} instead of about {:?}", t, what, a, b, got, want))
}

/// Uses one fix: every derived quantity against double precision.
fn use_fix(t: usize, form: u64, mut a: [f32; 3], mut b: [f32; 3], k: f32) -> Option<Out> {
    if form & 2 != 0 {
        a[2] = 0.0;
        b[2] = 0.0;
    }
    let w = call(t, "taking a fix into another form", || {
        let p = F32x3::from(Vector3d { x: F32(a[0]), y: F32(a[1]), z: F32(a[2]) });
        let (l, m): (f32, f32) = F32x2 { x: a[0], y: a[1] }.into();
        let (n, o, q): (f32, f32, f32) = F32x3::from([a[0], a[1], a[2]]).into();
        let r: [f32; 2] = F32x2::from((l, m)).into();
        let s: [f32; 3] = F32x3::from((n, o, q)).into();
        [p.x, p.y, p.z, s[0], s[1], s[2], r[0], r[1], q]
    });
    if (0..9).any(|i| w[i].to_bits() != a[i % 3].to_bits()) {
        bad(t, "the fix in another form", &a, &b, &w, &[]);
    }
    let (x, y) = (a.map(|v| v as f64), b.map(|v| v as f64));
    let (la, lb) = (vn(x), vn(y));
    if !(la < 1e16 && lb < 1e16) {
        return None;
    }
    let o = call(t, "using a fix", || all(form, a, b, k));
    let each = |what: &str, got: [f32; 3], want: [f64; 3], tol: f64| {
        if (0..3).any(|i| !((got[i] as f64 - want[i]).abs() <= tol)) {
            bad(t, what, &a, &b, &got, &want);
        }
    };
    let k64 = k as f64;
    let d: [f64; 3] = [0, 1, 2].map(|i| y[i] - x[i]);
    let ax = [0, 1, 2].map(|i| x[i].abs().max(y[i].abs()));
    // Exact up to the rounding of each axis by itself.
    for i in 0..3 {
        let e = ax[i] * 1.3e-7 + 3e-45;
        for (what, got, want, tol) in [
            ("the sum", o.sum[i], x[i] + y[i], e * 2.0),
            ("the difference", o.diff[i], d[i], e * 2.0),
            ("the scaled difference", o.scaled[i], d[i] * k64, e * 3.0 * k64.abs() + 3e-45),
            ("the scaled difference (factor first)", o.scaled2[i], d[i] * k64, e * 3.0 * k64.abs() + 3e-45),
            ("the step", o.stepped[i], (x[i] + y[i]) * k64 - x[i], e * (4.0 + 4.0 * k64.abs()) + 3e-45),
        ] {
            if !((got as f64 - want).abs() <= tol) {
                bad(t, what, &a, &b, &[got], &[want]);
            }
        }
        if k != 0.0 && !((o.divided[i] as f64 - d[i] / k64).abs() <= e * 3.0 / k64.abs() + 3e-45) {
            bad(t, "the divided difference", &a, &b, &[o.divided[i]], &[d[i] / k64]);
        }
    }
    let e2 = la * lb * 4e-7 + 1e-37;
    let c = [x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]];
    each("the lever arm", o.cross, c, e2);
    each("the lever arm (by multiplication)", o.cross2, c, e2);
    let dot: f64 = (0..3).map(|i| x[i] * y[i]).sum();
    for g in [o.dot, o.dot2] {
        if !((g as f64 - dot).abs() <= e2) {
            bad(t, "the projection", &a, &b, &[g], &[dot]);
        }
    }
    if form & 2 != 0 {
        engine::count(11, 1);
        if !((o.perp as f64 - c[2]).abs() <= e2) {
            bad(t, "the side of the border", &a, &b, &[o.perp], &[c[2]]);
        }
        if c[2].abs() > e2 && (o.perp > 0.0) != (c[2] > 0.0) {
            bad(t, "the side of the border", &a, &b, &[o.perp], &[c[2]]);
        }
    }
    // Lengths; the axes of the difference are the rounded ones.
    let f = o.diff.map(|v| v as f64);
    let l = vn(f);
    if l > 1e-17 && l < 1e18 {
        for (what, g) in [("the distance", o.dist), ("the distance back", o.dist_back), ("the length", o.mag)] {
            if !((g as f64 - l).abs() <= l * 0.0625) {
                bad(t, what, &a, &b, &[g], &[l]);
            }
        }
        if !((o.magsq as f64 - l * l).abs() <= l * l * 1e-6) {
            bad(t, "the squared length", &a, &b, &[o.magsq], &[l * l]);
        }
        let u = o.unit.map(|v| v as f64);
        let m = vn(u);
        if !(m >= 0.94 && m <= 1.001) {
            bad(t, "the heading", &a, &b, &o.unit, &f.map(|v| v / l));
        }
        each("the direction of the heading", o.unit, f.map(|v| v / l * m), 1e-6);
    } else if l == 0.0 {
        // Already there: nothing to steer, and nothing breaks.
        for (what, g) in [("the distance", o.dist), ("the distance back", o.dist_back), ("the length", o.mag), ("the squared length", o.magsq)] {
            if !(g.abs() <= 1e-18) {
                bad(t, what, &a, &b, &[g], &[0.0]);
            }
        }
        each("the heading", o.unit, [0.0; 3], 1e-18);
    }
    engine::count(4, 1);
    Some(o)
}

/// What a node derives from whole numbers; `None` where the type has no such value.
struct Whole {
    dot: i64,
    dot2: i64,
    sq: i64,
    mag: f32,
    dist: f32,
    cross: Option<[[i64; 3]; 2]>,
    perp: Option<i64>,
    sum: [i64; 3],
    diff: Option<[i64; 3]>,
    scaled: [i64; 3],
    divided: Option<[i64; 3]>,
}
macro_rules! ints {
    ($t:ty, $task:expr, $a:expr, $k:expr, $v2:ident, $v3:ident, $two:expr) => {{
        let a: &[i64] = $a;
        let (x, y) = (&a[0..3], &a[3..6]);
        let signed = <$t>::MIN != 0;
        let below = (0..3).all(|i| x[i] <= y[i]);
        call($task, "using a fix in whole numbers", || {
            let c = |v: i64| v as $t;
            let k = c($k);
            if $two {
                let (p, q) = ($v2 { x: c(x[0]), y: c(x[1]) }, $v2 { x: c(y[0]), y: c(y[1]) });
                let u = |v: $v2| [v.x as i64, v.y as i64, 0];
                let u3 = |v: $v3| [v.x as i64, v.y as i64, v.z as i64];
                let (mut s, mut d) = (p, q);
                s += q;
                let diff = if signed || below {
                    d -= p;
                    Some(u(d))
                } else {
                    None
                };
                let w = p * k;
                Whole {
                    dot: p.dot(q) as i64,
                    dot2: Vector::dot(q, p) as i64,
                    sq: p.magnitude_sq() as i64,
                    mag: p.mag(),
                    dist: p.dis(q),
                    cross: if signed { Some([u3(p.cross(q)), u3($v3::from(p) * $v3::from(q))]) } else { None },
                    perp: if signed { Some(p.perpendicular_dot(q) as i64) } else { None },
                    sum: u(s),
                    diff,
                    scaled: u(w),
                    divided: if k != 0 { Some(u(p / k)) } else { None },
                }
            } else {
                let (p, q) = ($v3 { x: c(x[0]), y: c(x[1]), z: c(x[2]) }, $v3 { x: c(y[0]), y: c(y[1]), z: c(y[2]) });
                let u = |v: $v3| [v.x as i64, v.y as i64, v.z as i64];
                let mut w = q;
                w *= k;
                Whole {
                    dot: p.dot(q) as i64,
                    dot2: Vector::dot(q, p) as i64,
                    sq: p.magnitude_sq() as i64,
                    mag: p.mag(),
                    dist: p.dis(q),
                    cross: if signed { Some([u(p.cross(q)), u(p * q)]) } else { None },
                    perp: None,
                    sum: u(p + q),
                    diff: if signed || below { Some(u(q - p)) } else { None },
                    scaled: u(w),
                    divided: if k != 0 {
                        let mut d = p;
                        d /= k;
                        Some(u(d))
                    } else {
                        None
                    },
                }
            }
        })
    }};
}
/// Lengths of whole-number vectors, where the component converts to a float.
trait Len: Sized {
    fn mag(self) -> f32;
    fn dis(self, o: Self) -> f32;
}
macro_rules! len {
    ($($v:ty)*) => {$(impl Len for $v {
        fn mag(self) -> f32 {
            self.magnitude()
        }
        fn dis(self, o: Self) -> f32 {
            self.distance(o)
        }
    })*};
}
len!(I8x2 I8x3 I16x2 I16x3 U8x2 U8x3 U16x2 U16x3);
macro_rules! nolen {
    ($($v:ty)*) => {$(impl Len for $v {
        fn mag(self) -> f32 {
            f32::NAN
        }
        fn dis(self, _: Self) -> f32 {
            f32::NAN
        }
    })*};
}
nolen!(I32x2 I32x3 U32x2 U32x3);

/// Taking whole-number fixes into floats, tuples and arrays and back is exact.
fn conversions(t: usize, ty: u64, a: &[i64]) {
    macro_rules! two {
        ($c:ty, $v:ident, $v3:ident) => {{
            let v = $v { x: a[0] as $c, y: a[1] as $c };
            let f = F32x2::from(v);
            let (l, m): ($c, $c) = v.into();
            let n: [$c; 2] = $v::from((l, m)).into();
            let w = $v::from(n);
            let b = $v3::from(w);
            vec![f.x as f64, f.y as f64, l as f64, m as f64, w.to_array()[0] as f64, w[1] as f64, b.x as f64, b.y as f64]
        }};
    }
    macro_rules! three {
        ($c:ty, $v:ident) => {{
            let v = $v { x: a[0] as $c, y: a[1] as $c, z: a[2] as $c };
            let f = F32x3::from(v);
            let (l, m, n): ($c, $c, $c) = v.into();
            let o: [$c; 3] = $v::from((l, m, n)).into();
            let w = $v::from(o);
            vec![f.x as f64, f.y as f64, f.z as f64, l as f64, m as f64, n as f64, w.to_array()[0] as f64, w[1] as f64, w[2] as f64]
        }};
    }
    macro_rules! wide {
        ($c:ty, $v:ident, $v3:ident, $two:expr) => {{
            if $two {
                let (l, m): ($c, $c) = $v { x: a[0] as $c, y: a[1] as $c }.into();
                let n: [$c; 2] = $v::from((l, m)).into();
                let b = $v3::from($v::from(n));
                vec![l as f64, m as f64, b.x as f64, b.y as f64]
            } else {
                let (l, m, n): ($c, $c, $c) = $v3 { x: a[0] as $c, y: a[1] as $c, z: a[2] as $c }.into();
                let o: [$c; 3] = $v3::from((l, m, n)).into();
                let w = $v3::from(o);
                vec![l as f64, m as f64, n as f64, w.x as f64, w.y as f64, w[2] as f64]
            }
        }};
    }
    let got = call(t, "taking a fix into another form", || match ty {
        0 => three!(i8, I8x3),
        1 => three!(i16, I16x3),
        2 | 8 => wide!(i32, I32x2, I32x3, ty == 8),
        3 => three!(u8, U8x3),
        4 => three!(u16, U16x3),
        5 | 11 => wide!(u32, U32x2, U32x3, ty == 11),
        6 => two!(i8, I8x2, I8x3),
        7 => two!(i16, I16x2, I16x3),
        9 => two!(u8, U8x2, U8x3),
        _ => two!(u16, U16x2, U16x3),
    });
    let d = if ty >= 6 { 2 } else { 3 };
    for (i, g) in got.iter().enumerate() {
        if *g != a[i % d] as f64 {
            engine::fail("C31.whole", &format!("task {}: the fix {:?} (type {}) taken into floats, tuples, arrays and space is {:?}", t, &a[..d], ty, got));
        }
    }
}

fn one(t: usize, o: &'static Op) {
    let g = |i: usize| o.a.get(i).copied().unwrap_or(0);
    let f = |i: usize| f32::from_bits(g(i) as u32);
    let p3 = |i: usize| [f(i), f(i + 1), f(i + 2)];
    match o.code {
        FIX => {
            let (a, b, k) = (p3(0), p3(3), f(6));
            if a.iter().chain(&b).any(|x| !x.is_finite()) || !(k.abs() < 1e7) || (k != 0.0 && k.abs() < 1e-7) {
                return;
            }
            if g(7) != 0 {
                node(t).fault = true;
                engine::count(g(7) as usize & 31, 1);
            }
            if let Some(o) = use_fix(t, g(8), a, b, k) {
                node(t).pos = o.sum.map(|c| if c.abs() < 1e6 { c } else { 1e6f32.copysign(c) });
                rt::note(o.dist.to_bits() as u64);
            }
        }
        INT => {
            let ty = g(0) % 12;
            let two = ty >= 6;
            let lim = [6i64, 100, 20_000, 9, 140, 30_000][ty as usize % 6];
            let mut a: Vec<i64> = (1..7).map(|i| (g(i) as i64).clamp(if ty % 6 < 3 { -lim } else { 0 }, lim)).collect();
            if two {
                a[2] = 0;
                a[5] = 0;
            }
            engine::count(12, 1);
            if g(7) == 1 {
                node(t).fault = true;
                engine::count(13, 1);
            }
            conversions(t, ty, &a);
            let k = (g(8) as i64).clamp(if ty % 6 < 3 { -lim } else { 0 }, lim);
            let o: Whole = match ty % 6 {
                0 => ints!(i8, t, &a, k, I8x2, I8x3, two),
                1 => ints!(i16, t, &a, k, I16x2, I16x3, two),
                2 => ints!(i32, t, &a, k, I32x2, I32x3, two),
                3 => ints!(u8, t, &a, k, U8x2, U8x3, two),
                4 => ints!(u16, t, &a, k, U16x2, U16x3, two),
                _ => ints!(u32, t, &a, k, U32x2, U32x3, two),
            };
            let (x, y) = (&a[0..3], &a[3..6]);
            let dot: i64 = (0..3).map(|i| x[i] * y[i]).sum();
            let wsq: i64 = x.iter().map(|v| v * v).sum();
            let show = |what: &str, got: String, want: String| -> ! { engine::fail("C31.whole", &format!("task {}: {} of {:?} and {:?} (type {}) is {} instead of {}", t, what, x, y, ty, got, want)) };
            for (what, got, want) in [("the projection", o.dot, dot), ("the projection", o.dot2, dot), ("the squared length", o.sq, wsq), ("the side of the border", o.perp.unwrap_or(x[0] * y[1] - x[1] * y[0]), x[0] * y[1] - x[1] * y[0])] {
                if got != want {
                    show(what, got.to_string(), want.to_string());
                }
            }
            let w = [x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]];
            let [c, c2] = o.cross.unwrap_or([w, w]);
            let each = |f: &dyn Fn(usize) -> i64| [f(0), f(1), f(2)];
            let diff = each(&|i| y[i] - x[i]);
            let quot = if k == 0 { [0; 3] } else { each(&|i| x[i] / k) };
            for (what, got, want) in [
                ("the lever arm", c, w),
                ("the lever arm (by multiplication)", c2, w),
                ("the sum", o.sum, each(&|i| x[i] + y[i])),
                ("the difference", o.diff.unwrap_or(diff), diff),
                ("the scaled fix", o.scaled, each(&|i| if two { x[i] * k } else { y[i] * k })),
                ("the divided fix", o.divided.unwrap_or(quot), quot),
            ] {
                if got != want {
                    show(what, format!("{:?}", got), format!("{:?}", want));
                }
            }
            let (mag, dist) = (o.mag, o.dist);
            if ty % 6 % 3 != 2 {
                let l = (wsq as f64).sqrt();
                let d = (0..3).map(|i| ((x[i] - y[i]) as f64).powi(2)).sum::<f64>().sqrt();
                if !((mag as f64 - l).abs() <= l * 0.0625 + 1e-18) {
                    show("the length", mag.to_string(), l.to_string());
                }
                if !((dist as f64 - d).abs() <= d * 0.0625 + 1e-18) {
                    show("the distance", dist.to_string(), d.to_string());
                }
            }
        }
        FAR => {
            let ty = g(0) as usize % 8;
            let (lo, hi) = RANGE[ty % 4];
            let mut a = [0i64; 6];
            for (i, c) in a.iter_mut().enumerate() {
                *c = (g(i + 1) as i64).clamp(lo, hi);
            }
            if ty >= 4 {
                a[2] = 0;
                a[5] = 0;
            }
            engine::count(FARS, 1);
            macro_rules! far {
                ($c:ty, $v2:ident, $v3:ident) => {
                    call(t, "measuring between distant fixes", || {
                        let c = |i: usize| a[i] as $c;
                        if ty >= 4 {
                            let (p, q) = ($v2 { x: c(0), y: c(1) }, $v2 { x: c(3), y: c(4) });
                            (p.magnitude(), q.magnitude(), p.distance(q), q.distance(p))
                        } else {
                            let (p, q) = ($v3 { x: c(0), y: c(1), z: c(2) }, $v3 { x: c(3), y: c(4), z: c(5) });
                            (p.magnitude(), q.magnitude(), p.distance(q), q.distance(p))
                        }
                    })
                };
            }
            let (m, n, d, e) = match ty % 4 {
                0 => far!(i8, I8x2, I8x3),
                1 => far!(i16, I16x2, I16x3),
                2 => far!(u8, U8x2, U8x3),
                _ => far!(u16, U16x2, U16x3),
            };
            let len = |v: &dyn Fn(usize) -> i64| (0..3).map(|i| (v(i) as f64).powi(2)).sum::<f64>().sqrt();
            for (what, got, want) in [
                ("the length of the first", m, len(&|i| a[i])),
                ("the length of the second", n, len(&|i| a[i + 3])),
                ("the distance", d, len(&|i| a[i + 3] - a[i])),
                ("the distance back", e, len(&|i| a[i + 3] - a[i])),
            ] {
                rt::note(got.to_bits() as u64);
                if !((got as f64 - want).abs() <= want * 0.0625 + 1e-18) {
                    engine::fail("C31.whole", &format!("task {}: {} of the distant fixes {:?} and {:?} (type {}) is {} instead of {}", t, what, &a[..3], &a[3..], ty, got, want));
                }
            }
            if d.to_bits() != e.to_bits() {
                engine::fail("C31.whole", &format!("task {}: the distance between {:?} and {:?} (type {}) is {} there and {} back", t, &a[..3], &a[3..], ty, d, e));
            }
        }
        WIDE => {
            let ty = g(0) % 16;
            engine::count(WIDES, 1);
            if ty < 4 {
                let (mut a, mut b) = (p3(1), p3(4));
                if ty & 2 != 0 {
                    a[2] = 0.0;
                    b[2] = 0.0;
                }
                let (x, y) = (a.map(|v| v as f64), b.map(|v| v as f64));
                if !(vn(x) * vn(y) < 1e38) {
                    return;
                }
                let (d, d2, p, c) = call(t, "projecting small on large", || match ty {
                    0 => {
                        let (p, q) = (F32x3::from(a), F32x3::from(b));
                        (p.dot(q), Vector::dot(q, p), 0.0, p.cross(q).to_array())
                    }
                    1 => {
                        let v = |v: [f32; 3]| Vector3d { x: F32(v[0]), y: F32(v[1]), z: F32(v[2]) };
                        let c = v(a) * v(b);
                        (v(a).dot(v(b)).0, Vector::dot(v(b), v(a)).0, 0.0, [c.x.0, c.y.0, c.z.0])
                    }
                    2 => {
                        let v = |v: [f32; 3]| F32x2 { x: v[0], y: v[1] };
                        (v(a).dot(v(b)), Vector::dot(v(b), v(a)), v(a).perpendicular_dot(v(b)), v(a).cross(v(b)).to_array())
                    }
                    _ => {
                        let v = |v: [f32; 3]| Vector2d { x: F32(v[0]), y: F32(v[1]) };
                        let c = v(a).cross(v(b));
                        (v(a).dot(v(b)).0, Vector::dot(v(b), v(a)).0, v(a).perpendicular_dot(v(b)).0, [c.x.0, c.y.0, c.z.0])
                    }
                });
                let e = vn(x) * vn(y) * 4e-7 + 1e-37;
                let dot: f64 = (0..3).map(|i| x[i] * y[i]).sum();
                let w = [x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]];
                let w2 = if ty & 2 != 0 { w[2] } else { 0.0 };
                for (what, got, want) in [("the projection", d, dot), ("the projection back", d2, dot), ("the side of the border", p, w2), ("the lever arm (x)", c[0], w[0]), ("the lever arm (y)", c[1], w[1]), ("the lever arm (z)", c[2], w[2])] {
                    if !((got as f64 - want).abs() <= e) {
                        bad(t, what, &a, &b, &[got], &[want]);
                    }
                }
                rt::note(canon(d) as u64);
                return;
            }
            let two = ty >= 10;
            let k = (ty as usize - 4) % 6;
            let (lo, hi) = TOP[k];
            let mut a = [0i64; 6];
            for (i, c) in a.iter_mut().enumerate() {
                *c = (g(i + 1) as i64).clamp(lo, hi);
            }
            if two {
                a[2] = 0;
                a[5] = 0;
            }
            let (x, y) = (&a[0..3], &a[3..6]);
            let pr: Vec<i128> = (0..9).map(|i| x[i / 3] as i128 * y[i % 3] as i128).collect();
            let top = (hi as i128).min(-(lo as i128)).max(if lo == 0 { hi as i128 } else { 0 });
            // In whatever order products are added, every sum fits.
            let dot_fits = pr[0].abs() + pr[4].abs() + pr[8].abs() <= top;
            let cross_fits = lo < 0 && [(5, 7), (6, 2), (1, 3)].iter().all(|&(i, j)| pr[i].abs() + pr[j].abs() <= top);
            let dot = (pr[0] + pr[4] + pr[8]) as i64;
            let w = [(5, 7), (6, 2), (1, 3)].map(|(i, j)| (pr[i] - pr[j]) as i64);
            macro_rules! wide {
                ($c:ty, $v2:ident, $v3:ident) => {
                    call(t, "projecting small on large", || {
                        let c = |i: usize| a[i] as $c;
                        let mut o = ([dot, dot], w, [w[2], w[2]]);
                        if two {
                            let (p, q) = ($v2 { x: c(0), y: c(1) }, $v2 { x: c(3), y: c(4) });
                            if dot_fits {
                                o.0 = [p.dot(q) as i64, Vector::dot(q, p) as i64];
                            }
                            if cross_fits {
                                let v = p.cross(q);
                                o.1 = [v.x as i64, v.y as i64, v.z as i64];
                                o.2 = [p.perpendicular_dot(q) as i64, w[2]];
                            }
                        } else {
                            let (p, q) = ($v3 { x: c(0), y: c(1), z: c(2) }, $v3 { x: c(3), y: c(4), z: c(5) });
                            if dot_fits {
                                o.0 = [p.dot(q) as i64, Vector::dot(q, p) as i64];
                            }
                            if cross_fits {
                                let v = p * q;
                                o.1 = [v.x as i64, v.y as i64, v.z as i64];
                            }
                        }
                        o
                    })
                };
            }
            let (d, c, p) = match k {
                0 => wide!(i8, I8x2, I8x3),
                1 => wide!(i16, I16x2, I16x3),
                2 => wide!(i32, I32x2, I32x3),
                3 => wide!(u8, U8x2, U8x3),
                4 => wide!(u16, U16x2, U16x3),
                _ => wide!(u32, U32x2, U32x3),
            };
            rt::note(d[0] as u64);
            if d != [dot, dot] || c != w || p != [w[2], w[2]] {
                engine::fail("C31.whole", &format!("task {}: projection, lever arm and side of {:?} and {:?} (type {}) are {:?}, {:?}, {:?} instead of {}, {:?}, {}", t, x, y, ty, d, c, p, dot, w, w[2]));
            }
        }
        LOST => {
            let bad = f(0);
            if !bad.is_nan() {
                return;
            }
            engine::count(9, 1);
            let n = node(t);
            n.fault = true;
            let form = g(2) & 3;
            let ax = if form & 2 != 0 { g(1) as usize % 2 } else { g(1) as usize % 3 };
            let mut a = n.pos;
            a[ax] = bad;
            let b = [1.5f32, -2.5, if form & 2 != 0 { 0.0 } else { 3.5 }];
            let o = call(t, "using a lost fix", || all(form, a, b, 2.0));
            // A planar fix taken into space is at height zero, whatever its axes.
            for v in [bad, f32::INFINITY, f32::NEG_INFINITY] {
                let mut c = [b[0], b[1]];
                c[ax % 2] = v;
                let w = call(t, "taking a lost planar fix into space", || {
                    let p = F32x3::from(F32x2 { x: c[0], y: c[1] });
                    let q = Vector3d::from(Vector2d { x: F32(c[0]), y: F32(c[1]) });
                    [p.to_array(), [q.x.0, q.y.0, q.z.0]]
                });
                for w in w {
                    if w[2] != 0.0 || canon(w[0]) != canon(c[0]) || canon(w[1]) != canon(c[1]) {
                        engine::fail("C31.lost", &format!("task {}: the planar fix {:?} taken into space is {:?}", t, c, w));
                    }
                }
            }
            let dims = if form & 2 != 0 { 2 } else { 3 };
            let mut l = vec![o.dot, o.dot2, o.dist, o.dist_back, o.mag, o.magsq, o.sum[ax], o.diff[ax], o.scaled[ax], o.scaled2[ax], o.divided[ax], o.stepped[ax]];
            l.extend(&o.unit[..dims]);
            if form & 2 != 0 {
                l.push(o.perp);
            }
            if l.iter().any(|x| !x.is_nan()) {
                engine::fail("C31.lost", &format!("task {}: a fix whose axis {} is lost (NaN) gives {:?}", t, ax, o));
            }
            // The other axes are not touched.
            for i in 0..dims {
                if i != ax && o.sum[i].is_nan() {
                    engine::fail("C31.lost", &format!("task {}: a fix whose axis {} is lost (NaN) spoils axis {}: {:?}", t, ax, i, o));
                }
            }
        }
        GLITCH => {
            let p = p3(0);
            if p.iter().all(|x| x.abs() < 1e6) {
                engine::count(10, 1);
                let n = node(t);
                n.fault = true;
                n.pos = p;
            }
        }
        CKPT => node(t).ck = node(t).pos,
        CRASH => {
            engine::count(14, 1);
            let n = node(t);
            n.fault = true;
            n.pos = n.ck;
        }
        _ => {
            // A steady target: the node steers straight to it and arrives.
            let (p, v, form) = (p3(0), f(3), g(4));
            if p.iter().any(|x| !(x.abs() < 1e4)) || !(v > 1e-3 && v < 1e4) {
                return;
            }
            let n = node(t);
            let two = form & 2 != 0;
            if two {
                n.pos[2] = 0.0;
            }
            let goal = if two { [p[0], p[1], 0.0] } else { p };
            let far = |q: [f32; 3]| vn([0, 1, 2].map(|i| goal[i] as f64 - q[i] as f64));
            let d0 = far(n.pos);
            // A stride the position can resolve.
            let v = v.max((d0 * 6e-3) as f32);
            let eps = (d0 + vn(goal.map(|x| x as f64))) * 1e-6 + 1e-4;
            let bound = (d0 / (v as f64 * 0.94)) as u64 + 24;
            let mut k = 0;
            let mut was = d0;
            while was > eps {
                let pos = node(t).pos;
                let o = match use_fix(t, form, pos, goal, 1.0) {
                    Some(o) => o,
                    None => return,
                };
                let step = if o.dist < v { o.dist } else { v };
                let next = [0, 1, 2].map(|i| pos[i] + o.unit[i] * step);
                node(t).pos = next;
                let now = far(next);
                k += 1;
                if now > was * 1.0000005 + eps || k > bound {
                    engine::fail("C31.no-arrival", &format!("task {}: step {} of at most {} after faults stopped leads from {:.6} to {:.6} away from the target {:?} (form {})", t, k, bound, was, now, goal, form));
                }
                was = now;
            }
            engine::count(15, 1);
            engine::count_max(16, k);
            if node(t).fault {
                engine::nontrivial();
            }
        }
    }
    for c in node(t).pos {
        rt::note(canon(c) as u64);
    }
}

fn run(s: &Scenario) {
    rt::set_on_limit(|_| engine::fail("C31.no-progress", "a library call did not end"));
    run_tasks(s, 0, one);
}

fn describe(s: &Scenario) -> Vec<String> {
    let mut l = vec![];
    for (t, ops) in s.tasks.iter().enumerate() {
        for o in ops {
            let g = |i: usize| o.a.get(i).copied().unwrap_or(0);
            let v = |i: usize| format!("({} {} {})", fshow(g(i)), fshow(g(i + 1)), fshow(g(i + 2)));
            l.push(format!(
                "task {}: {}",
                t,
                match o.code {
                    FIX => format!("fix {} {} factor {} (fault {}, form {})", v(0), v(3), fshow(g(6)), g(7), g(8)),
                    INT => format!("whole-number fix, type {}: {:?}", g(0) % 12, o.a.iter().skip(1).take(6).map(|x| *x as i64).collect::<Vec<_>>()),
                    FAR => format!("distant fixes, type {}: {:?}", g(0) % 8, o.a.iter().skip(1).take(6).map(|x| *x as i64).collect::<Vec<_>>()),
                    WIDE if g(0) % 16 < 4 => format!("small against large, type {}: {} {}", g(0) % 16, v(1), v(4)),
                    WIDE => format!("small against large, type {}: {:?}", g(0) % 16, o.a.iter().skip(1).take(6).map(|x| *x as i64).collect::<Vec<_>>()),
                    LOST => format!("lost fix {:#x}, axis {}, form {}", g(0), g(1), g(2)),
                    GLITCH => format!("position glitch {}", v(0)),
                    CKPT => "checkpoint".into(),
                    CRASH => "crash and restart".into(),
                    _ => format!("steady target {} stride {} (form {})", v(0), fshow(g(3)), g(4)),
                }
            ));
        }
    }
    show_sched(s, &mut l);
    l
}
