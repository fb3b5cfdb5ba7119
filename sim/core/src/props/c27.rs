//! C27: ticks and phases taken from a float clock are exact under clock faults.
//!
//! Up to three nodes, preempted in mid-call, derive tick numbers, phases,
//! deadlines and drift from a float clock that stalls, jumps, runs backwards,
//! leaps to any magnitude, hands out readings late or not at all (NaN), and
//! from a checkpoint after a crash. Exact arithmetic is the model.

use crate::wl::*;
use micromath::{F32Ext, F32};
use mmrt::engine::{self, PropDef, Tuning};
use mmrt::rng::{mix, Rng};
use mmrt::rt;
use mmrt::scen::{Op, Scenario};

pub static DEF: PropDef = PropDef {
    id: "C27",
    gen,
    run,
    runs: (80_000, 3_000_000),
    counters: &[
        "mid_call_preemptions",
        "contexts_stopped_for_ever_in_mid_call",
        "shared_state_accesses",
        "blocked_futex_waits",
        "clock_readings",
        "clock_stalls",
        "clock_jumps_forward",
        "clock_jumps_back",
        "clock_leaps_to_any_magnitude",
        "clock_readings_near_a_tick_boundary",
        "lost_readings",
        "late_readings",
        "crashes_and_restarts_from_a_checkpoint",
        "period_changes",
        "ticks_fired",
        "readings_that_fired_no_tick",
        "recoveries_checked",
        "clock_readings_of_any_bit_pattern",
        "sweeps_of_readings_of_every_size",
    ],
    rule: "a case is one seeded run: 1 to 3 nodes take up to 40 readings of a faulty clock each, with crashes, checkpoints and period changes, and then a regular clock for up to 12 periods; non-trivial when at least one fault and one tick took part; distinct by hash of switch points and tick histories",
    describe,
    var_from: var_none,
};

const PERIOD: u32 = 0;
const READ: u32 = 1;
const LOST: u32 = 2;
const CKPT: u32 = 3;
const CRASH: u32 = 4;
const QUIET: u32 = 5;
const SWEEP: u32 = 6;

const REG: u64 = 0;
const STALL: u64 = 1;
const FWD: u64 = 2;
const BACK: u64 = 3;
const LEAP: u64 = 4;
const EDGE: u64 = 5;
const LATE: u64 = 6;
const ANY: u64 = 7;

fn period(r: &mut Rng) -> f32 {
    let p = match r.below(8) {
        0..=4 => 2f32.powi(r.range(-20, 20) as i32),
        5 => (1 + r.below(1000)) as f32 * 0.1,
        6 => (r.unit() * 10.0 + 1e-3) as f32,
        _ => (10f64.powf(r.unit() * 16.0 - 8.0)) as f32,
    };
    if r.chance(1, 8) {
        -p
    } else {
        p
    }
}

fn gen(r: &mut Rng, _t: Tuning) -> Scenario {
    let mut s = Scenario::default();
    let n = 1 + r.below(3) as usize;
    for _ in 0..n {
        let mut v = vec![];
        let mut p = period(r);
        v.push(Op { code: PERIOD, a: vec![p.to_bits() as u64] });
        let mut t = match r.below(4) {
            0 => 0.0,
            1 => fmod(r),
            2 => p * r.range(-50, 50) as f32,
            _ => f32::from_bits(fbits_no_nan(r)),
        };
        let mut old = t;
        for _ in 0..4 + r.below(37) {
            match r.below(24) {
                0 => {
                    p = period(r);
                    v.push(Op { code: PERIOD, a: vec![p.to_bits() as u64] });
                    continue;
                }
                1 => {
                    v.push(Op { code: LOST, a: vec![*r.pick(&[0x7fc0_0000u64, 0xffc0_0000, 0x7f80_0001, 0x7fff_ffff]), r.below(2)] });
                    continue;
                }
                2 => {
                    v.push(Op { code: CKPT, a: vec![] });
                    continue;
                }
                4 if r.chance(1, 2) => {
                    v.push(Op { code: SWEEP, a: vec![r.u64(), 8 + r.below(33)] });
                    continue;
                }
                3 => {
                    v.push(Op { code: CRASH, a: vec![] });
                    continue;
                }
                _ => {}
            }
            let k = *r.pick(&[REG, REG, REG, STALL, FWD, BACK, LEAP, EDGE, EDGE, LATE, ANY]);
            let x = match k {
                REG => t + p.abs() * (r.unit() * 1.5) as f32,
                STALL => t,
                FWD => t + p.abs() * (r.unit() * 2000.0) as f32,
                BACK => t - p.abs() * (r.unit() * 2000.0) as f32,
                LEAP => {
                    let e = r.range(-44, 38) as i32;
                    ((r.unit() * 2.0 - 1.0) * 10f64.powi(e)) as f32
                }
                EDGE => {
                    // On a tick boundary, half-way, or a few units in the last place off.
                    let k = r.range(-40, 40) * 10i64.pow(r.below(6) as u32);
                    let e = p * (k as f32 * 0.5);
                    f32::from_bits((e.to_bits() as i64 + r.range(-2, 2)).max(0) as u32)
                }
                LATE => old,
                _ => f32::from_bits(fbits_no_nan(r)),
            };
            old = t;
            if !x.is_finite() {
                continue;
            }
            t = x;
            v.push(Op { code: READ, a: vec![t.to_bits() as u64, k, r.below(2)] });
        }
        // Faults stop; the clock runs evenly. Start where it can resolve its steps.
        let start = p.abs() * r.range(-20, 20) as f32;
        v.push(Op { code: QUIET, a: vec![start.to_bits() as u64, 1 + r.below(12), 1 + r.below(4), r.below(2)] });
        s.tasks.push(v);
    }
    if n > 1 || r.chance(1, 2) {
        s.sched = schedule(r, n, 60, false);
    }
    s
}

/// What one node remembers; only `ck` survives a crash.
#[derive(Clone, Default)]
struct Node {
    p: f32,
    prev: f32,
    last: Option<f32>,
    model: Option<f64>,
    slack: f64,
    ck: Option<(f32, f64, f64)>,
    ticks: u64,
    fault: bool,
}
static mut N: [Option<Node>; 4] = [None, None, None, None];
fn node(t: usize) -> &'static mut Node {
    unsafe { N[t].get_or_insert_with(Node::default) }
}

fn bad(t: usize, what: &str, x: f32, got: f32, want: f64) -> ! {
    engine::fail("C27.value", &format!("task {}: {} at reading {:e} (period {:e}) is {:e} instead of {:e}", t, what, x, node(t).p, got, want))
}
fn call<T>(t: usize, what: &str, f: impl FnOnce() -> T) -> T {
    match lib(LOOSE, f) {
        Got::Val(v) => v,
        Got::Panic(_) => engine::fail("C27.failed", &format!("task {}: {} failed: {}", t, what, engine::last_panic())),
    }
}

struct Parts {
    floor: f32,
    ceil: f32,
    round: f32,
    trunc: f32,
    fract: f32,
    q: f32,
    r: f32,
}
fn parts(t: usize, x: f32, p: f32, how: u64) -> Parts {
    call(t, "taking a reading apart", || {
        if how & 1 == 0 {
            let f = F32(x);
            Parts {
                floor: f.floor().0,
                ceil: f.ceil().0,
                round: f.round().0,
                trunc: f.trunc().0,
                fract: f.fract().0,
                q: f.div_euclid(F32(p)).0,
                r: f.rem_euclid(F32(p)).0,
            }
        } else {
            Parts {
                floor: F32Ext::floor(x),
                ceil: F32Ext::ceil(x),
                round: F32Ext::round(x),
                trunc: F32Ext::trunc(x),
                fract: F32Ext::fract(x),
                q: F32Ext::div_euclid(x, p),
                r: F32Ext::rem_euclid(x, p),
            }
        }
    })
}
fn pow2(p: f32) -> bool {
    p.to_bits() & 0x7f_ffff == 0 && p.is_normal()
}

/// The exact tick number of a reading, and how far the quotient may be off.
fn exact(x: f32, p: f32) -> (f64, f64, f64) {
    let (x, p) = (x as f64, p as f64);
    let mut m = x % p;
    let mut q = (x / p).trunc();
    // The quotient in double precision can round up to a whole number.
    if (x - m - q * p).abs() > p.abs() * 0.5 {
        q = ((x - m) / p).round();
    }
    if m < 0.0 {
        q -= p.signum();
        m += p.abs();
    }
    let e = x / p;
    let off = (e - e.round()).abs();
    let slack = if pow2(p as f32) {
        0.0
    } else if e.abs() >= 4_194_304.0 {
        1.0 + e.abs() * 2.4e-7
    } else if off <= e.abs() * 1.2e-7 {
        1.0
    } else {
        0.0
    };
    (q, m, slack)
}

/// One reading: everything the node derives from it must be exact.
fn read(t: usize, x: f32, how: u64) -> (f32, f64, f64) {
    let n = node(t);
    let p = n.p;
    let w = parts(t, x, p, how);
    let d = x as f64;
    for (what, got, want) in [
        ("floor", w.floor, d.floor()),
        ("ceil", w.ceil, d.ceil()),
        ("round", w.round, d.round()),
        ("trunc", w.trunc, d.trunc()),
        ("fract", w.fract, d - d.trunc()),
    ] {
        if got as f64 != want {
            bad(t, what, x, got, want);
        }
    }
    // Drift since the last reading, taken apart and put together again.
    let drift = x - n.prev;
    let (mag, sg, back) = call(t, "taking the drift apart", || {
        if how & 1 == 0 {
            let f = F32(drift);
            (f.abs().0, f.signum().0, f.abs().copysign(f.signum()).0)
        } else {
            (F32Ext::abs(drift), F32Ext::signum(drift), F32Ext::copysign(F32Ext::abs(drift), F32Ext::signum(drift)))
        }
    });
    if mag.to_bits() != drift.to_bits() & 0x7fff_ffff {
        bad(t, "the absolute value of the drift", x, mag, drift.abs() as f64);
    }
    if sg != if drift.is_sign_negative() { -1.0 } else { 1.0 } {
        bad(t, "the sign of the drift", x, sg, drift.signum() as f64);
    }
    if back.to_bits() != drift.to_bits() {
        bad(t, "the drift put together from size and sign", x, back, drift as f64);
    }
    n.prev = x;
    let (q, m, slack) = exact(x, p);
    let e = (x as f64 / p as f64).abs();
    if e >= 3.0e38 {
        return (w.q, f64::NAN, 0.0);
    }
    if w.q as f64 != (w.q as f64).trunc() || (w.q as f64 - q).abs() > slack {
        bad(t, "the tick number", x, w.q, q);
    }
    // The phase: exact unless a tiny negative one was moved up by a period.
    let pa = (p as f64).abs();
    let ok = if (x % p) >= 0.0 { w.r as f64 == m } else { w.r >= 0.0 && w.r as f64 <= pa && (w.r as f64 - m).abs() <= pa * 6.0e-8 };
    if !ok {
        bad(t, "the phase", x, w.r, m);
    }
    (w.q, q, slack)
}

fn service(t: usize, x: f32, how: u64) {
    let (q, want, slack) = read(t, x, how);
    let n = node(t);
    if want.is_nan() {
        return;
    }
    // Ticks up to q have happened; each is fired once, in order.
    match (n.last, n.model) {
        (Some(l), Some(m)) => {
            let fresh = q > l;
            if fresh {
                let k = q as f64 - l as f64;
                n.ticks += if k < 1e9 { k as u64 } else { 1 };
                engine::count(14, if k < 1e9 { k as u64 } else { 1 });
                n.last = Some(q);
            } else {
                engine::count(15, 1);
            }
            if want > m {
                n.model = Some(want);
                n.slack = slack.max(n.slack - (want - m));
            } else if want == m {
                n.slack = n.slack.max(slack);
            } else {
                // A reading within rounding of the boundary may have come first.
                n.slack = n.slack.max(slack - (m - want));
            }
            let (l, m) = (n.last.unwrap() as f64, n.model.unwrap());
            if (l - m).abs() > n.slack.max(0.0) {
                engine::fail("C27.ticks", &format!("task {}: after reading {:e} (period {:e}) the last tick fired is {:e} instead of {:e}", t, x, n.p, l, m));
            }
        }
        _ => {
            n.last = Some(q);
            n.model = Some(want);
            n.slack = slack;
        }
    }
    rt::note((q.to_bits() as u64) << 20 ^ n.ticks);
}

/// Many readings of every size, with periods of every size.
fn sweep(t: usize, seed: u64, n: u64) {
    let p = node(t).p;
    for i in 0..n.min(64) {
        let h = mix(seed ^ i.wrapping_mul(0x9e37_79b9_7f4a_7c15));
        let (mut x, mut y) = (grain(mix(h ^ 1)), grain(mix(h ^ 2)));
        match h & 7 {
            0 => y = p,
            1 => x = y,
            2 => x = y * ((h >> 40) as i32 % 5000) as f32,
            3 => x = y * (((h >> 40) as i32 % 5000) as f32 + 0.5),
            4 => x = (h >> 32) as i32 as f32 * 2f32.powi(-((h >> 8) as i32 & 31)),
            _ => {}
        }
        if !x.is_finite() || !y.is_normal() {
            continue;
        }
        node(t).p = y;
        let (q, _, _) = read(t, x, h >> 3);
        rt::note(q.to_bits() as u64);
        let c = call(t, "putting size and sign together", || if h >> 4 & 1 == 0 { F32(x).copysign(F32(y)).0 } else { F32Ext::copysign(x, y) });
        if c.to_bits() != x.to_bits() & 0x7fff_ffff | y.to_bits() & 0x8000_0000 {
            bad(t, "the size of the reading with the sign of the period", x, c, x.copysign(y) as f64);
        }
    }
    node(t).p = p;
    engine::count(18, 1);
}

fn one(t: usize, o: &'static Op) {
    let g = |i: usize| o.a.get(i).copied().unwrap_or(0);
    let n = node(t);
    if n.p == 0.0 && o.code != PERIOD {
        n.p = 1.0;
    }
    match o.code {
        PERIOD => {
            let p = f32::from_bits(g(0) as u32);
            if !p.is_normal() {
                return;
            }
            if n.p != 0.0 {
                engine::count(13, 1);
            }
            // Another period counts its ticks from anew.
            *n = Node { p, prev: n.prev, ticks: n.ticks, fault: n.fault, ..Default::default() };
        }
        READ => {
            let x = f32::from_bits(g(0) as u32);
            if !x.is_finite() {
                return;
            }
            engine::count(4, 1);
            match g(1) {
                STALL => engine::count(5, 1),
                FWD => engine::count(6, 1),
                BACK => engine::count(7, 1),
                LEAP => engine::count(8, 1),
                EDGE => engine::count(9, 1),
                LATE => engine::count(11, 1),
                ANY => engine::count(17, 1),
                _ => {}
            }
            n.fault |= g(1) != REG;
            service(t, x, g(2));
        }
        LOST => {
            engine::count(10, 1);
            n.fault = true;
            let x = f32::from_bits(g(0) as u32);
            if !x.is_nan() {
                return;
            }
            let w = parts(t, x, n.p, g(1));
            for (what, got) in [("floor", w.floor), ("ceil", w.ceil), ("round", w.round), ("trunc", w.trunc), ("fract", w.fract), ("the tick number", w.q), ("the phase", w.r)] {
                if !got.is_nan() {
                    engine::fail("C27.lost", &format!("task {}: {} of a lost reading (NaN) is {:e}", t, what, got));
                }
            }
        }
        SWEEP => sweep(t, g(0), g(1)),
        CKPT => n.ck = n.last.map(|l| (l, n.model.unwrap_or(0.0), n.slack)),
        CRASH => {
            engine::count(12, 1);
            n.fault = true;
            match n.ck {
                Some((l, m, s)) => {
                    n.last = Some(l);
                    n.model = Some(m);
                    n.slack = s;
                }
                None => {
                    n.last = None;
                    n.model = None;
                }
            }
        }
        _ => {
            // Quiet: an even clock with `d` readings per period. Whatever came
            // before, the node counts one tick per period from the start on.
            let start = f32::from_bits(g(0) as u32);
            let d = g(2).clamp(1, 4);
            let per = g(1).clamp(1, 12);
            let p = n.p.abs();
            n.last = None;
            n.model = None;
            if !start.is_finite() || !(p > 1e-30 && p < 1e30) {
                return;
            }
            let mut hist: Vec<f32> = vec![];
            for i in 0..=per * d {
                let x = start + p * (i as f32 / d as f32);
                service(t, x, g(3));
                hist.push(node(t).last.unwrap_or(0.0));
                // The deadline of the next tick lies ahead, less than a period away.
                let u = x / p;
                let c = call(t, "the next deadline", || if g(3) & 1 == 0 { F32(u).ceil().0 } else { F32Ext::ceil(u) });
                if c as f64 != (u as f64).ceil() {
                    engine::fail("C27.deadline", &format!("task {}: the deadline after {:e} periods is {:e}", t, u, c));
                }
            }
            engine::count(16, 1);
            let n = node(t);
            if n.p > 0.0 && pow2(n.p) && start.abs() < p * 1e4 && start % p == 0.0 {
                let got = hist[hist.len() - 1] as f64 - hist[0] as f64;
                if got != per as f64 || (1..hist.len()).any(|i| (hist[i] - hist[i - 1]) != if i as u64 % d == 0 { 1.0 } else { 0.0 }) {
                    engine::fail("C27.progress", &format!("task {}: {} periods of {:e} after faults stopped fired {} ticks (history {:?})", t, per, n.p, got, hist));
                }
            }
            if n.fault {
                engine::nontrivial();
            }
        }
    }
}

fn run(s: &Scenario) {
    rt::set_on_limit(|_| engine::fail("C27.no-progress", "a library call did not end"));
    run_tasks(s, 0, one);
}

fn describe(s: &Scenario) -> Vec<String> {
    let mut l = vec![];
    let k = ["regular", "stalled clock", "jump forward", "jump back", "leap", "near a boundary", "late", "any"];
    for (t, ops) in s.tasks.iter().enumerate() {
        for o in ops {
            let g = |i: usize| o.a.get(i).copied().unwrap_or(0);
            l.push(format!(
                "task {}: {}",
                t,
                match o.code {
                    PERIOD => format!("period {}", fshow(g(0))),
                    READ => format!("reading {} ({}; form {})", fshow(g(0)), k[g(1) as usize % 8], g(2)),
                    LOST => format!("lost reading (NaN {:#x})", g(0)),
                    SWEEP => format!("{} readings of every size, seed {:#x}", g(1).min(64), g(0)),
                    CKPT => "checkpoint".into(),
                    CRASH => "crash and restart".into(),
                    _ => format!("even clock from {} for {} periods, {} readings each", fshow(g(0)), g(1), g(2)),
                }
            ));
        }
    }
    show_sched(s, &mut l);
    l
}
