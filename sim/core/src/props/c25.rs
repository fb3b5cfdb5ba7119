//! C25: absolute value takes data-independent time.
//!
//! Up to three victims take the absolute value of secret readings, one at a
//! time or in batches, through every entry point, while other contexts
//! preempt them in mid-call. An observer with a perfect view of the simulated
//! clock and of the memory bus (the branches passed, the addresses read and
//! written) must see the same for every secret, whatever came before.

use crate::wl::*;
use micromath::{F32Ext, F32};
use mmrt::engine::{self, PropDef, Tuning};
use mmrt::rng::Rng;
use mmrt::rt;
use mmrt::scen::{Op, Scenario};

pub static DEF: PropDef = PropDef {
    id: "C25",
    gen,
    run,
    runs: (80_000, 2_000_000),
    counters: &[
        "mid_call_preemptions",
        "contexts_stopped_for_ever_in_mid_call",
        "shared_state_accesses",
        "blocked_futex_waits",
        "calls_observed",
        "observations_compared",
        "secrets_of_any_bit_pattern",
        "secrets_negative",
        "secrets_zero_or_subnormal",
        "secrets_infinite_or_nan",
        "secrets_repeated_or_next_to_the_one_before",
        "batches_observed",
        "observations_of_an_interrupted_call",
        "longest_call_in_steps",
    ],
    rule: "a case is one seeded run: 1 to 3 victims take up to 24 absolute values of secrets, alone or in batches; non-trivial when two secrets of different sign or class were compared; distinct by hash of switch points and results",
    describe,
    var_from: |_| 2,
};

const FORMS: [&str; 6] = ["F32::abs", "F32Ext::abs", "F32::abs by reference", "F32Ext::abs behind a pointer", "F32::abs of a batch", "F32Ext::abs of a batch"];

fn secret(r: &mut Rng, old: u32) -> u32 {
    match r.below(8) {
        0 => near(r, old),
        1 => old,
        2 => (r.below(2) as u32) << 31 | r.below(0x0080_0000) as u32,
        3 => *r.pick(&[0x7f80_0000u32, 0xff80_0000, 0x7fc0_0000, 0xffc0_0000, 0x7f80_0001, 0xffff_ffff]),
        4 => r.u32(),
        _ => fbits(r),
    }
}

fn gen(r: &mut Rng, _t: Tuning) -> Scenario {
    let mut s = Scenario::default();
    let n = 1 + r.below(3) as usize;
    for _ in 0..n {
        let mut v = vec![];
        let mut old = fbits(r);
        let forms: Vec<u64> = (0..1 + r.below(2)).map(|_| r.below(6)).collect();
        let len = 1 + r.below(7);
        for _ in 0..2 + r.below(23) {
            let form = *r.pick(&forms);
            let k = if form >= 4 { len } else { 1 };
            let mut a = vec![form, r.below(2)];
            for _ in 0..k {
                old = secret(r, old);
                a.push(old as u64);
            }
            v.push(Op { code: 0, a });
        }
        s.tasks.push(v);
    }
    if n > 1 || r.chance(1, 2) {
        s.sched = schedule(r, n, 8, false);
    }
    s
}

/// What the observer saw of the first call by a form on a batch of a length.
#[derive(Clone, Copy)]
struct Seen {
    form: u64,
    len: usize,
    steps: u64,
    trace: u64,
    secret: u32,
    preempted: bool,
}
static mut SEEN: [Vec<Seen>; 4] = [vec![], vec![], vec![], vec![]];

#[inline(never)]
fn victim(form: u64, x: &[f32; 8], out: &mut [f32; 8], n: usize) -> bool {
    static PTR: [fn(f32) -> f32; 1] = [<f32 as F32Ext>::abs];
    let r = lib(LOOSE, || match form {
        0 => out[0] = F32(x[0]).abs().0,
        1 => out[0] = F32Ext::abs(x[0]),
        2 => out[0] = by_ref(&F32(x[0])).0,
        3 => out[0] = std::hint::black_box(PTR[0])(x[0]),
        4 => {
            for i in 0..n.min(8) {
                out[i] = F32(x[i]).abs().0
            }
        }
        _ => {
            for i in 0..n.min(8) {
                out[i] = F32Ext::abs(x[i])
            }
        }
    });
    matches!(r, Got::Val(()))
}
#[inline(never)]
fn by_ref(x: &F32) -> F32 {
    x.abs()
}

fn one(t: usize, o: &'static Op) {
    let g = |i: usize| o.a.get(i).copied().unwrap_or(0);
    let form = g(0) % 6;
    let n = if form >= 4 { o.a.len().saturating_sub(2).min(8) } else { 1 };
    let mut x = [0f32; 8];
    for i in 0..n {
        x[i] = f32::from_bits(g(2 + i) as u32);
    }
    let mut out = [0f32; 8];
    let sw = rt::switches();
    let ok = victim(form, &x, &mut out, n);
    let (steps, trace) = (rt::own(), rt::trace());
    let preempted = rt::switches() != sw;
    if !ok {
        engine::fail("C25.failed", &format!("task {}: {} of {} failed: {}", t, FORMS[form as usize], fshow(g(2)), engine::last_panic()));
    }
    engine::count(4, 1);
    engine::count(11, (form >= 4) as u64);
    engine::count_max(13, steps);
    engine::count(12, preempted as u64);
    let seen = unsafe { &mut *std::ptr::addr_of_mut!(SEEN[t]) };
    let last = seen.last().map_or(0, |s| s.secret);
    for i in 0..n {
        let b = x[i].to_bits();
        engine::count(6, 1);
        engine::count(7, (b >> 31) as u64);
        engine::count(8, (b << 1 < 0x0100_0000) as u64);
        engine::count(9, (b << 1 >= 0xff00_0000) as u64);
        engine::count(10, ((b ^ last) & 0x7fff_fff8 == 0) as u64);
        let got = out[i];
        if canon(got) != canon(f32::from_bits(b & 0x7fff_ffff)) {
            engine::fail("C25.value", &format!("task {}: {} of {:#010x} is {:#010x}", t, FORMS[form as usize], b, got.to_bits()));
        }
        rt::note(got.to_bits() as u64);
    }
    let me = Seen { form, len: n, steps, trace, secret: x[0].to_bits(), preempted };
    let first = seen.iter().find(|s| s.form == form && s.len == n).copied();
    if let Some(f) = first {
        engine::count(5, 1);
        if f.secret >> 31 != me.secret >> 31 || f.secret >> 23 != me.secret >> 23 {
            engine::nontrivial();
        }
        if (f.steps, f.trace) != (me.steps, me.trace) {
            let show = |s: &Seen| format!("{} steps{} for {:#010x}{}", s.steps, if s.preempted { " (interrupted)" } else { "" }, s.secret, if s.len > 1 { " and others" } else { "" });
            let how = if f.steps != me.steps { "its time" } else { "the branches it takes or the memory it touches" };
            engine::fail("C25.leak", &format!("task {}: {} shows its argument by {}: {}, {}", t, FORMS[form as usize], how, show(&f), show(&me)));
        }
    }
    seen.push(me);
}

fn run(s: &Scenario) {
    rt::set_on_limit(|_| engine::fail("C25.no-progress", "a library call did not end"));
    rt::watch();
    run_tasks(s, 0, one);
}

fn describe(s: &Scenario) -> Vec<String> {
    let mut l = vec![];
    for (t, ops) in s.tasks.iter().enumerate() {
        for o in ops {
            let b: Vec<String> = o.a.iter().skip(2).map(|x| format!("{:#010x}", x)).collect();
            l.push(format!("task {}: {} of {}", t, FORMS[(o.a.first().copied().unwrap_or(0) % 6) as usize], b.join(" ")));
        }
    }
    show_sched(s, &mut l);
    l
}
