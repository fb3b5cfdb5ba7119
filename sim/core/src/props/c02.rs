//! C02: every call ends within a bounded number of its own steps.

use super::c01::{self, args_of, combo, elements, show_combo, STREAM};
use crate::wl::*;
use mmops::{op, Out};
use mmrt::engine::{self, PropDef, Tuning};
use mmrt::rng::Rng;
use mmrt::rt;
use mmrt::scen::{Op, Scenario};

pub static DEF: PropDef = PropDef {
    id: "C02",
    gen,
    run,
    runs: (30_000, 900_000),
    counters: &[
        "mid_call_preemptions",
        "contexts_stopped_for_ever_in_mid_call",
        "shared_state_accesses",
        "blocked_futex_waits",
        "calls",
        "calls_that_panicked",
        "stream_calls",
        "max_steps_of_a_scalar_call",
        "max_steps_per_element_of_a_stream_call",
        "longest_stream",
    ],
    rule: "a case is one seeded run of 1 to 4 contexts making up to 8 calls each with ordinary and extreme arguments (scalar operations) or slices and streams of up to thousands of elements, with contexts preempted and stopped for ever in mid-call; non-trivial when a call was preempted in the middle, a context was stopped in the middle, or a stream call ran; distinct by hash of all switch points and step counts",
    describe,
    var_from: var_none,
};

/// Own steps (basic blocks, loads and stores of the library) allowed to one
/// scalar call; the largest measured is two orders of magnitude smaller.
pub const LIMIT: u64 = 20_000;

fn gen(r: &mut Rng, t: Tuning) -> Scenario {
    let mut s = Scenario::default();
    let k = 2 + r.below(8) as usize;
    s.table = c01::gen_table(r, k);
    let n = 1 + r.below(4) as usize;
    for _ in 0..n {
        let m = 1 + r.below(8);
        let v = (0..m)
            .map(|_| {
                if r.chance(1, 10) {
                    let max = if t.thorough { 20_000 } else { 2_500 };
                    Op { code: STREAM | r.below(mmops::STREAMS as u64) as u32, a: vec![r.logu(max), r.u64()] }
                } else {
                    Op { code: r.below(k as u64) as u32, a: vec![] }
                }
            })
            .collect();
        s.tasks.push(v);
    }
    if n > 1 {
        s.sched = schedule(r, n, 30, true);
    }
    s
}

static mut SCN: *const Scenario = std::ptr::null();
static mut NOW: [(*const Op, u64); 17] = [(std::ptr::null(), 0); 17];

fn call(_t: usize, o: &'static Op) {
    let s = unsafe { &*SCN };
    let stream = o.code & STREAM != 0;
    let mut out = Out::new();
    let (r, limit, n) = if stream {
        let n = o.a.first().copied().unwrap_or(0);
        let v = elements(n, o.a.get(1).copied().unwrap_or(0));
        let limit = LIMIT + 2_000 * n;
        unsafe { NOW[rt::cur().min(16)] = (o, limit) };
        engine::count(6, 1);
        engine::count_max(9, n);
        let k = (o.code & !STREAM) as usize;
        (lib(limit, || mmops::stream(k, &v, &mut out)), limit, n)
    } else {
        let c = combo(s, o.code);
        unsafe { NOW[rt::cur().min(16)] = (c, LIMIT) };
        let d = op(c.code as usize % mmops::count());
        let a = args_of(c);
        (lib(LIMIT, || (d.f)(&a, &mut out)), LIMIT, 0)
    };
    let own = rt::own();
    let _ = limit;
    engine::count(4, 1);
    if let Got::Panic(_) = r {
        engine::count(5, 1);
    }
    if stream {
        engine::count_max(8, own / n.max(100));
        engine::nontrivial();
    } else {
        engine::count_max(7, own);
    }
    rt::note(own ^ (o.code as u64) << 32);
}

fn run(s: &Scenario) {
    unsafe { SCN = s };
    rt::set_on_limit(|f| {
        let (o, l) = unsafe { NOW[f.min(16)] };
        let what = if o.is_null() { "a call".into() } else { show(unsafe { &*o }) };
        engine::fail("C02.steps", &format!("{} has not ended after {} steps of its own (task {})", what, l, f as i64))
    });
    let e = run_tasks(s, 0, call);
    if rt::switches() > 0 || e.stalled > 0 {
        engine::nontrivial();
    }
}

fn show(o: &Op) -> String {
    show_combo(o)
}

fn describe(s: &Scenario) -> Vec<String> {
    let mut l = vec![];
    for (t, ops) in s.tasks.iter().enumerate() {
        let v: Vec<String> = ops.iter().map(|o| if o.code & STREAM != 0 { show(o) } else { show_combo(combo(s, o.code)) }).collect();
        l.push(format!("task {}: {}", t, v.join("; ")));
    }
    show_sched(s, &mut l);
    l
}

/// Prints the largest step counts over many arguments.
pub fn measure() {
    let mut r = Rng::new(&[7]);
    rt::set_on_limit(|_| println!("over the limit"));
    let mut all = vec![];
    for c in 0..mmops::count() {
        let d = op(c);
        let mut best = (0, String::new());
        for _ in 0..3000 {
            let o = Op { code: c as u32, a: words(&mut r, d.kinds) };
            let a = args_of(&o);
            let mut out = Out::new();
            let _ = lib(1_000_000, || (d.f)(&a, &mut out));
            if rt::own() > best.0 {
                best = (rt::own(), show_combo(&o));
            }
        }
        all.push(best);
    }
    for k in 0..mmops::STREAMS {
        let mut b = 0;
        for i in 0..40 {
            let v = elements(1000, i);
            let mut out = Out::new();
            let _ = lib(100_000_000, || mmops::stream(k, &v, &mut out));
            b = b.max(rt::own() / 1000);
        }
        all.push((b, format!("{} per element", mmops::stream_name(k))));
    }
    all.sort();
    for (n, s) in all.iter().rev().take(25) {
        println!("{} {}", n, s);
    }
}
