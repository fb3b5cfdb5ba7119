//! C05: streaming reductions cover exactly the samples delivered before the
//! end.

use crate::cx::Sample;
use crate::src_script::{self as ss, *};
use crate::wl::*;
use micromath::statistics::{Mean, StdDev, Variance};
use micromath::vector::{Vector2d, Vector3d};
use micromath::F32;
use mmrt::engine::{self, PropDef, Tuning};
use mmrt::rng::Rng;
use mmrt::rt;
use mmrt::scen::{Op, Scenario};

pub static DEF: PropDef = PropDef {
    id: "C05",
    gen,
    run,
    runs: (60_000, 1_500_000),
    counters: &[
        "mid_call_preemptions",
        "contexts_stopped_for_ever_in_mid_call",
        "shared_state_accesses",
        "blocked_futex_waits",
        "reductions",
        "reductions_that_returned",
        "source_failures_that_struck",
        "sources_polled_after_their_end",
        "re_entrant_sources",
        "conversion_failures_that_struck",
        "streams_with_non_finite_glitches",
        "sources_with_items_after_their_end",
        "longest_stream",
    ],
    rule: "a case is one seeded run: 1 to 4 contexts run up to 5 reductions each (mean, sum, product, variance, standard deviation) over scripted streams or slices of up to hundreds of samples; non-trivial when a reduction met a failing, resuming, glitching or re-entrant source or was preempted in the middle; distinct by hash of switch points and results",
    describe,
    var_from: |_| 3,
};

pub const KINDS: [&str; 10] = [
    "mean of stream", "sum of F32 stream", "product of F32 stream", "sum of Vector2d<f32> stream", "sum of Vector3d<f32> stream",
    "sum of &Vector3d<f32> stream", "variance of slice", "standard deviation of slice", "sum of Vector2d<i32> stream", "sum of &Vector2d<i32> stream",
];

fn val(r: &mut Rng) -> u64 {
    (fmod(r).to_bits()) as u64
}

fn gen(r: &mut Rng, t: Tuning) -> Scenario {
    let mut s = Scenario::default();
    let n = 1 + r.below(4) as usize;
    for _ in 0..n {
        let m = 1 + r.below(5);
        let v = (0..m)
            .map(|_| {
                let k = r.below(KINDS.len() as u64);
                // a[0]: size hint; a[1]: failing conversion; a[2]: the script
                // is repeated this often (long streams stay compact).
                let mut a = vec![r.below(8), 0, 1];
                let len = match r.below(12) {
                    0 => 0,
                    1 => 1,
                    2 => r.logu(if t.thorough { 6000 } else { 400 }),
                    _ => 2 + r.below(12),
                };
                let glitch = r.chance(1, 5);
                let offset = if r.chance(1, 6) { fmod(r) * 64.0 } else { 0.0 };
                let shape = if r.chance(1, 2) { r.below(8) } else { 0 };
                let zoom = 2f32.powi(r.range(-40, 40) as i32);
                let mut last = fmod(r);
                for i in 0..len {
                    let x = if glitch && r.chance(1, 8) {
                        *r.pick(&[0x7fc0_0000u64, 0x7f80_0000, 0xff80_0000, 0x7f00_0000, 0x8000_0000, 0x0000_0001])
                    } else if k == 2 {
                        *r.pick(&[0x3f80_0000u64, 0x3f00_0000, 0x4000_0000, 0xbf80_0000, 0x3f8c_cccd, 0xbfc0_0000, 0x3f40_0000])
                    } else {
                        let x = f32::from_bits(val(r) as u32) + offset;
                        // All of another size, equal, negative, cancelling, of
                        // different sizes, in order, or hardly different.
                        let x = match shape {
                            1 => x * zoom,
                            2 => last,
                            3 => -x.abs(),
                            4 => {
                                if i % 2 == 0 {
                                    x
                                } else {
                                    -last
                                }
                            }
                            5 => x * 2f32.powi(r.range(-40, 35) as i32),
                            6 => last + x.abs(),
                            7 => f32::from_bits(near(r, last.to_bits())),
                            _ => x,
                        };
                        last = x;
                        x.to_bits() as u64
                    };
                    a.push(x << 3 | if r.chance(1, 40) { REENTER } else { ITEM });
                }
                if k == 6 || k == 7 {
                    if r.chance(1, 5) {
                        a[1] = 1 + r.below(2 * len + 2);
                    }
                } else {
                    match r.below(5) {
                        // Ends, then more items follow.
                        0 => {
                            let p = 3 + r.below(len + 1) as usize;
                            a.insert(p, END);
                            if r.chance(1, 3) {
                                a.insert(p, END);
                            }
                            let x = val(r);
                            a.push(x << 3);
                        }
                        1 => {
                            let p = 3 + r.below(len + 1) as usize;
                            a.insert(p, FAIL);
                        }
                        _ => {}
                    }
                }
                if k != 2 && r.chance(1, if t.thorough { 30 } else { 90 }) && a.len() > 3 {
                    let room = if r.chance(1, 3) { 70_000 } else { 2_000 } / (a.len() as u64 - 3);
                    a[2] = r.logu(room.max(1));
                }
                Op { code: k as u32, a }
            })
            .collect();
        s.tasks.push(v);
    }
    if n > 1 {
        s.sched = schedule(r, n, 20, true);
    }
    s
}

fn f(w: u64) -> f32 {
    f32::from_bits(w as u32)
}
fn axis(w: u64, i: u32) -> f32 {
    f(w) * [1.0, -0.5, 2.0][i as usize]
}
fn v2(w: u64) -> Vector2d<f32> {
    Vector2d { x: axis(w, 0), y: axis(w, 1) }
}
fn v3(w: u64) -> Vector3d<f32> {
    Vector3d { x: axis(w, 0), y: axis(w, 1), z: axis(w, 2) }
}
fn int(w: u64) -> i32 {
    (f(w) as i32).clamp(-10_000, 10_000)
}
fn i2(w: u64) -> Vector2d<i32> {
    Vector2d { x: int(w), y: 7 - int(w) }
}

/// A reference stream must yield references that live long enough.
fn leak<T: 'static>(x: T) -> &'static T {
    Box::leak(Box::new(x))
}

/// Exact-ish value, error bound: |got - want| must be within tol.
struct Want {
    v: f64,
    tol: f64,
    judge: bool,
}

fn want_sum(x: &[f32]) -> Want {
    let n = x.len() as f64;
    let s: f64 = x.iter().map(|v| *v as f64).sum();
    let m: f64 = x.iter().map(|v| v.abs() as f64).sum();
    // NaN and infinity: decided by which specials occur.
    let tol = (n + 2.0) * 2f64.powi(-23) * m + 1e-44;
    // Finite samples that may overflow on the way: not judged.
    let fin: f64 = x.iter().filter(|v| v.is_finite()).map(|v| v.abs() as f64).sum();
    Want { v: s, tol, judge: fin < 1e38 }
}
fn want_mean(x: &[f32]) -> Want {
    let mut w = want_sum(x);
    let n = x.len() as f64;
    w.v /= n;
    w.tol = w.tol / n + w.v.abs() * 2f64.powi(-22) + 1e-44;
    w
}
fn want_product(x: &[f32]) -> Want {
    let mut p = 1f64;
    let mut judge = true;
    for v in x {
        p *= *v as f64;
    }
    // Any regrouping of the factors may pass through other magnitudes.
    let mut big = 1f64;
    let mut small = 1f64;
    for v in x {
        let a = v.abs() as f64;
        if !a.is_finite() {
            continue;
        }
        if a > 1.0 {
            big *= a
        } else if a > 0.0 {
            small *= a
        }
    }
    if big > 1e36 || small < 1e-36 {
        judge = x.iter().any(|v| v.is_nan());
    }
    Want { v: p, tol: p.abs() * (x.len() as f64 + 2.0) * 2f64.powi(-23) + 1e-44, judge }
}
fn want_var(x: &[f32]) -> Want {
    let n = x.len() as f64;
    let m = x.iter().map(|v| *v as f64).sum::<f64>() / n;
    let big = x.iter().map(|v| v.abs() as f64).fold(0.0, f64::max);
    let s: f64 = x.iter().map(|v| (*v as f64 - m).powi(2)).sum();
    let v = s / (n - 1.0);
    let eps = 2f64.powi(-23);
    // Error of the mean enters squared and by cross terms.
    let em = (n + 4.0) * eps * big;
    let tol = v * (2.0 * n + 20.0) * eps + n / (n - 1.0).max(1.0) * (em * em * 4.0) + 4.0 * em * v.sqrt() + 1e-44;
    Want { v, tol, judge: x.len() >= 2 && x.iter().filter(|v| v.is_finite()).all(|v| v.abs() < 1e15) }
}

fn close(got: f32, w: &Want) -> bool {
    if !w.judge {
        return true;
    }
    if w.v.is_nan() {
        return got.is_nan();
    }
    if w.v.is_infinite() {
        return got as f64 == w.v;
    }
    (got as f64 - w.v).abs() <= w.tol
}

fn one(t: usize, o: &'static Op) {
    let k = o.code % KINDS.len() as u32;
    let hint = o.a.first().copied().unwrap_or(0);
    let fail_at = o.a.get(1).copied().unwrap_or(0);
    let w: &'static [u64] = o.a.get(3..).unwrap_or(&[]);
    let rep = o.a.get(2).copied().unwrap_or(1).clamp(1, 1_000_000) as usize;
    let w: &'static [u64] = if rep > 1 { leak(w.repeat(rep)) } else { w };
    let limit = LOOSE + 2_000 * w.len() as u64;
    let slice = k == 6 || k == 7;
    let mut fired = false;
    *ss::log() = ss::Log::default();
    let got: Got<Vec<f64>> = if slice {
        let v: Vec<Sample> = w.iter().enumerate().map(|(i, x)| Sample { v: f(x >> 3), id: i as u32 }).collect();
        arm(fail_at);
        let r = lib(limit, || if k == 6 { v.as_slice().variance() } else { v.as_slice().stddev() });
        fired = disarm().fired;
        if fired {
            engine::count(9, 1);
        }
        map(r, |x| vec![x as f64])
    } else {
        match k {
            0 => map(lib(limit, || Script::new(w, hint, f).mean()), |x| vec![x as f64]),
            1 => map(lib(limit, || Script::new(w, hint, |x| F32(f(x))).sum::<F32>()), |x| vec![x.0 as f64]),
            2 => map(lib(limit, || Script::new(w, hint, |x| F32(f(x))).product::<F32>()), |x| vec![x.0 as f64]),
            3 => map(lib(limit, || Script::new(w, hint, v2).sum::<Vector2d<f32>>()), |v| vec![v.x as f64, v.y as f64]),
            4 => map(lib(limit, || Script::new(w, hint, v3).sum::<Vector3d<f32>>()), |v| vec![v.x as f64, v.y as f64, v.z as f64]),
            5 => map(lib(limit, || Script::new(w, hint, |x| rt::quiet(|| leak(v3(x)))).sum::<Vector3d<f32>>()), |v| vec![v.x as f64, v.y as f64, v.z as f64]),
            8 => map(lib(limit, || Script::new(w, hint, i2).sum::<Vector2d<i32>>()), |v| vec![v.x as f64, v.y as f64]),
            _ => map(lib(limit, || Script::new(w, hint, |x| rt::quiet(|| leak(i2(x)))).sum::<Vector2d<i32>>()), |v| vec![v.x as f64, v.y as f64]),
        }
    };
    // The model: items before the first END; a FAIL before it must surface.
    let mut items: Vec<u64> = vec![];
    let mut must_fail = false;
    let mut more = false;
    for (i, x) in w.iter().enumerate() {
        match event(*x) {
            (END, _) => {
                more = i + 1 < w.len();
                break;
            }
            (FAIL, _) => {
                must_fail = true;
                break;
            }
            (_, v) => items.push(v),
        }
    }
    engine::count(4, 1);
    if !slice {
        ss::tally(6, w);
    }
    if more {
        engine::count(11, 1);
    }
    let glitch = items.iter().any(|x| !f(*x).is_finite());
    if glitch {
        engine::count(10, 1);
    }
    engine::count_max(12, items.len() as u64);
    if must_fail || more || glitch || fired {
        engine::nontrivial();
    }
    let what = || format!("task {}: {} {}", t, KINDS[k as usize], show(w));
    let l = *ss::log();
    match got {
        Got::Panic(_) => {
            rt::note(l.polls | 1 << 50);
            if !must_fail && !fired {
                engine::fail("C05.spurious", &format!("{} failed although nothing in it fails: {}", what(), engine::last_panic()));
            }
        }
        Got::Val(g) => {
            engine::count(5, 1);
            for x in &g {
                rt::note(canon(*x as f32) as u64);
            }
            if must_fail || fired {
                engine::fail("C05.swallowed", &format!("{} returned {:?} although the source or a conversion failed", what(), g));
            }
            let x: Vec<f32> = items.iter().map(|x| f(*x)).collect();
            let ax = |i| items.iter().map(|x| axis(*x, i)).collect::<Vec<f32>>();
            let want: Vec<Want> = match k {
                0 => vec![want_mean(&x)],
                1 => vec![want_sum(&x)],
                2 => vec![want_product(&x)],
                3 => vec![want_sum(&ax(0)), want_sum(&ax(1))],
                4 | 5 => vec![want_sum(&ax(0)), want_sum(&ax(1)), want_sum(&ax(2))],
                6 => vec![want_var(&x)],
                7 => {
                    let mut w = want_var(&x);
                    // Band for the approximate square root, wide at tiny values.
                    w.tol = (w.v + w.tol).sqrt() * 0.07 + (w.v + w.tol).sqrt() - (w.v - w.tol).max(0.0).sqrt() + 1e-15;
                    w.v = w.v.sqrt();
                    w.judge = w.judge && !(w.v.is_infinite());
                    vec![w]
                }
                _ => {
                    let sx: i64 = items.iter().map(|x| int(*x) as i64).sum();
                    let sy: i64 = items.iter().map(|x| 7 - int(*x) as i64).sum();
                    vec![Want { v: sx as f64, tol: 0.0, judge: true }, Want { v: sy as f64, tol: 0.0, judge: true }]
                }
            };
            for (i, (g, w)) in g.iter().zip(want.iter()).enumerate() {
                if !close(*g as f32, w) && (k < 8 || *g != w.v) {
                    engine::fail("C05.value", &format!("{} gave {:e} for component {}, but the {} samples delivered before the end give {:e} (allowed error {:e})", what(), g, i, items.len(), w.v, w.tol));
                }
            }
        }
    }
    // Nothing may be taken from the source after its first end.
    if l.polls_after_end > 0 {
        let i = l.polls - l.polls_after_end;
        let took = (i..l.polls).any(|j| w.get(j as usize).map_or(false, |x| event(*x).0 != END));
        if took {
            engine::fail("C05.after-end", &format!("{}: the source was asked again after it had ended", what()));
        }
    }
}

fn map<T, U>(g: Got<T>, f: impl FnOnce(T) -> U) -> Got<U> {
    match g {
        Got::Val(v) => Got::Val(f(v)),
        Got::Panic(i) => Got::Panic(i),
    }
}

fn show(w: &[u64]) -> String {
    let v: Vec<String> = w
        .iter()
        .take(30)
        .map(|x| match event(*x) {
            (END, _) => "END".into(),
            (FAIL, _) => "FAIL".into(),
            (REENTER, v) => format!("{:e}(re-enters)", f(v)),
            (_, v) => format!("{:e}", f(v)),
        })
        .collect();
    format!("[{}{}]", v.join(", "), if w.len() > 30 { format!(", ... {} more", w.len() - 30) } else { String::new() })
}

fn run(s: &Scenario) {
    rt::set_on_limit(|_| engine::fail("C05.no-progress", "a reduction did not end"));
    run_tasks(s, 0, one);
    if rt::switches() > 0 {
        engine::nontrivial();
    }
}

fn describe(s: &Scenario) -> Vec<String> {
    let mut l = vec![];
    for (t, ops) in s.tasks.iter().enumerate() {
        for o in ops {
            let c = o.a.get(1).copied().unwrap_or(0);
            l.push(format!(
                "task {}: {} {} x {} (size hint kind {}{})", t, KINDS[o.code as usize % KINDS.len()], show(o.a.get(3..).unwrap_or(&[])), o.a.get(2).unwrap_or(&1),
                o.a.first().unwrap_or(&0), if c > 0 { format!(", conversion {} fails", c) } else { String::new() }
            ));
        }
    }
    show_sched(s, &mut l);
    l
}
