//! C01: results depend only on arguments, under any preemption and history.
//!
//! Oracle: every (operation, arguments) pair of the scenario is first
//! evaluated "cold", each in its own pristine copy of the process in which
//! the library has never been called before; every later result must equal
//! the cold one.

use crate::wl::*;
use mmops::{op, Out, MAX_ARGS};
use mmrt::engine::{self, PropDef, Tuning};
use mmrt::rng::Rng;
use mmrt::rt;
use mmrt::scen::{Op, Scenario};
use mmrt::sys;

pub static DEF: PropDef = PropDef {
    id: "C01",
    gen,
    run,
    runs: (14_000, 400_000),
    counters: &[
        "mid_call_preemptions",
        "contexts_stopped_for_ever_in_mid_call",
        "shared_state_accesses",
        "blocked_futex_waits",
        "calls",
        "calls_that_panicked",
        "cold_evaluations",
        "runs_with_contexts",
        "runs_with_long_history",
        "longest_history_calls",
    ],
    rule: "a case is one seeded run: a table of operation/argument pairs evaluated cold, then either a call history of up to millions of calls or 2 to 4 contexts preempted at basic-block/load/store granularity; non-trivial when the run compared at least two warm results, with a mid-call preemption if it has several contexts; distinct by hash of all switch points and results",
    describe,
    var_from: var_none,
};

pub const LIMIT: u64 = 20_000;

/// A table of combos whose arguments relate to each other, so that state
/// carried from one call to another (memo tables, latches, counters) is
/// likely to be confused.
pub fn gen_table(r: &mut Rng, k: usize) -> Vec<Op> {
    let n = mmops::count() as u64;
    let mut t: Vec<Op> = vec![];
    // Few distinct operations, sometimes related ones, which a hidden state
    // may be shared between.
    let few: Vec<u64> = if r.chance(1, 3) {
        let f = r.pick(&FAMILIES);
        let all: Vec<u64> = (0..n).filter(|c| f.iter().any(|k| op(*c as usize).name.contains(k))).collect();
        (0..2 + r.below(3)).map(|_| *r.pick(&all)).collect()
    } else {
        (0..1 + r.below(3)).map(|_| pick_op(r, n)).collect()
    };
    let focus = r.chance(3, 5);
    // Arguments that compare equal, or nearly so, without being the same.
    let twins = r.chance(1, 4);
    while t.len() < k {
        let code = if focus { *r.pick(&few) } else { pick_op(r, n) } as u32;
        let kinds = op(code as usize).kinds;
        if twins && !t.is_empty() && r.chance(3, 4) {
            let mut o = r.pick(&t).clone();
            for (i, w) in o.a.iter_mut().enumerate() {
                let kind = op(o.code as usize).kinds.get(i).copied().unwrap_or(b'f');
                *w = twin(r, *w as u32, kind) as u64;
            }
            t.push(o);
            continue;
        }
        let a = if !t.is_empty() && r.chance(3, 4) {
            // Derived from an earlier combo with compatible arguments.
            let b = r.pick(&t).a.clone();
            let mut a = words(r, kinds);
            for i in 0..a.len().min(b.len()) {
                if r.chance(2, 3) {
                    a[i] = if r.chance(1, 2) { b[i] } else { near(r, b[i] as u32) as u64 };
                }
            }
            a
        } else {
            words(r, kinds)
        };
        t.push(Op { code, a });
    }
    t
}
/// A value easily taken for `x`: the other zero, another NaN, the other sign,
/// the neighbouring float, the same low or high half.
fn twin(r: &mut Rng, x: u32, kind: u8) -> u32 {
    if kind != b'f' {
        return if r.chance(1, 2) { x } else { x ^ (1 << r.below(32)) };
    }
    let nan = f32::from_bits(x).is_nan();
    match r.below(10) {
        0 | 1 | 2 => x,
        3 | 4 => x & 0x8000_0000,
        5 | 6 | 7 if x & 0x7fff_ffff == 0 => x ^ 0x8000_0000,
        5 if nan => x ^ 1,
        5 => x ^ 0x8000_0000,
        6 => x ^ (1 << r.below(8)),
        7 => x ^ (1 << r.below(23)),
        8 => x.swap_bytes(),
        _ => near(r, x),
    }
}
const FAMILIES: [&[&str]; 9] = [
    &["sin", "cos", "tan", "axis_angle", "euler"],
    &["atan", "asin", "acos", "euler"],
    &["sqrt", "hypot", "magnitude", "norm", "distance", "inv", "recip"],
    &["exp", "pow", "cosh"],
    &["ln", "log", "powf"],
    &["floor", "ceil", "trunc", "round", "fract", "euclid"],
    &["quat."],
    &["vec2.", "vec3."],
    &["from_str", "text", "debug"],
];
/// Each group of operations about equally often.
pub fn pick_op(r: &mut Rng, n: u64) -> u64 {
    match r.below(4) {
        0 => r.below(25),
        1 => r.below(83),
        2 => 63 + r.below(40),
        _ => r.below(n),
    }
    .min(n - 1)
}

/// Wears one operation: state that changes after 2^8, 2^16 or more calls.
/// Around each power of two, every pair of the table is tried in its own copy
/// of the world, since only the call that hits it may be affected.
fn wear(r: &mut Rng, code: u32) -> Scenario {
    let mut s = Scenario::default();
    let stream = code & STREAM != 0;
    for i in 0..if stream { 6 } else { 24 } {
        let a = if stream {
            vec![2 + r.below(4), r.u64()]
        } else {
            let kinds = op(code as usize).kinds;
            match i {
                0..=4 => words(r, kinds),
                5..=7 => {
                    let a: &Op = r.pick(&s.table);
                    a.a.clone().iter().enumerate().map(|(i, w)| twin(r, *w as u32, kinds.get(i).copied().unwrap_or(b'f')) as u64).collect()
                }
                // Ordinary values, whose results show the smallest change.
                _ => words(r, kinds).iter().enumerate().map(|(i, w)| if kinds[i] == b'f' { fmod(r).to_bits() as u64 } else { *w & 0x1f }).collect(),
            }
        };
        s.table.push(Op { code, a });
    }
    let n = s.table.len() as u64;
    let mut v = vec![];
    // Calls made so far (forked copies leave no trace).
    let mut made = 0;
    for k in 4..17 {
        let to = (1u64 << k) - 4;
        let per = (to - made) / 3;
        for j in 0..3 {
            let m = if j == 2 { to - made } else { per };
            v.push(Op { code: r.below(n) as u32, a: vec![m] });
            made += m;
        }
        v.push(Op { code: 0, a: vec![9, 1] });
    }
    v.push(Op { code: r.below(n) as u32, a: vec![300] });
    v.push(Op { code: 0, a: vec![3, 1] });
    s.tasks.push(v);
    s
}

fn gen(r: &mut Rng, t: Tuning) -> Scenario {
    // The first runs wear each operation in turn.
    if (t.run as usize) < mmops::count() {
        return wear(r, t.run as u32);
    }
    if (t.run as usize) < mmops::count() + mmops::STREAMS {
        return wear(r, STREAM | (t.run as usize - mmops::count()) as u32);
    }
    let mut s = Scenario::default();
    let concurrent = r.chance(2, 3);
    let k = if concurrent { 2 + r.below(7) } else { 2 + r.below(15) } as usize;
    s.table = gen_table(r, k);
    if r.chance(1, 6) {
        // Some or all pairs are operations over whole slices and streams.
        let all = r.chance(1, 3);
        let (code, a) = (STREAM | r.below(mmops::STREAMS as u64) as u32, vec![r.logu(60), r.u64()]);
        for i in 0..k {
            if all || r.chance(1, 2) {
                let mut o = Op { code, a: a.clone() };
                match r.below(4) {
                    0 => o.code = STREAM | r.below(mmops::STREAMS as u64) as u32,
                    1 => o.a[0] = r.logu(60),
                    2 => o.a[1] = o.a[1].wrapping_add(r.below(3)),
                    _ => {}
                }
                s.table[i] = o;
            }
        }
    }
    if concurrent {
        let n = 2 + r.below(3) as usize;
        for _ in 0..n {
            let m = 1 + r.below(6);
            let warm = r.chance(1, 12);
            s.tasks.push((0..m).map(|i| Op { code: r.below(k as u64) as u32, a: vec![if warm && i == 0 { r.logu(200) } else { 1 }] }).collect());
        }
        s.sched = schedule(r, n, 30, true);
    } else {
        let mut v = vec![];
        // Total history length: mostly short, sometimes very long.
        let total = match r.below(100) {
            0 => r.logu(if t.thorough { 1 << 25 } else { 1 << 18 }),
            1..=7 => r.logu(1 << 15),
            _ => r.logu(600),
        };
        let m = 2 + r.below(24);
        // A warm-up, then single calls: state that changes after a number of
        // calls shows only behind it.
        if r.chance(1, 3) {
            v.push(Op { code: r.below(k as u64) as u32, a: vec![1 + r.below(total)] });
        }
        for _ in 0..m {
            let rep = if v.len() > 1 && r.chance(1, 2) { 1 } else if r.chance(1, 3) { r.logu(total / 2 + 1) } else { 1 };
            v.push(Op { code: r.below(k as u64) as u32, a: vec![rep] });
        }
        s.tasks.push(v);
    }
    s
}

pub fn combo(s: &Scenario, i: u32) -> &Op {
    &s.table[i as usize % s.table.len()]
}
pub fn args_of(o: &Op) -> [u32; MAX_ARGS] {
    let mut a = [0u32; MAX_ARGS];
    for i in 0..o.a.len().min(MAX_ARGS) {
        a[i] = o.a[i] as u32;
    }
    a
}
/// Operations over whole slices and streams: length and data seed.
pub const STREAM: u32 = 0x8000_0000;
pub fn elements(n: u64, seed: u64) -> Vec<f32> {
    let mut r = Rng::new(&[seed]);
    let style = seed % 4;
    (0..n)
        .map(|i| match style {
            0 => i as f32,
            1 => fmod(&mut r),
            2 => f32::from_bits(fbits(&mut r)),
            _ => 1.5,
        })
        .collect()
}
pub fn show_combo(o: &Op) -> String {
    if o.code & STREAM != 0 {
        let k = (o.code & !STREAM) as usize;
        return format!("{} over {} elements (data seed {:x})", mmops::stream_name(k), o.a.first().copied().unwrap_or(0), o.a.get(1).copied().unwrap_or(0));
    }
    let d = op(o.code as usize % mmops::count());
    let v: Vec<String> = o
        .a
        .iter()
        .enumerate()
        .map(|(i, w)| match d.kinds.get(i) {
            Some(b'f') => format!("{}[{:08x}]", fshow(*w), *w as u32),
            _ => format!("{}", *w as u32 as i32),
        })
        .collect();
    format!("{}({})", d.name, v.join(", "))
}

#[derive(Clone, Copy)]
#[repr(C)]
pub struct Cold {
    /// 0: no result, 1: returned, 2: panicked
    st: u32,
    n: u32,
    w: [u32; 32],
}

static mut COLD: *mut Cold = std::ptr::null_mut();
static mut SCN: *const Scenario = std::ptr::null();

fn eval(o: &Op) -> Cold {
    let mut out = Out::new();
    let got = if o.code & STREAM != 0 {
        let n = o.a.first().copied().unwrap_or(0).min(100_000);
        let v = elements(n, o.a.get(1).copied().unwrap_or(0));
        lib(LIMIT + 2_000 * n, || mmops::stream((o.code & !STREAM) as usize, &v, &mut out))
    } else {
        let d = op(o.code as usize % mmops::count());
        let a = args_of(o);
        lib(LIMIT, || (d.f)(&a, &mut out))
    };
    let st = match got {
        Got::Val(()) => 1,
        Got::Panic(_) => 2,
    };
    if st == 2 {
        out = Out::new();
    }
    Cold { st, n: out.n as u32, w: out.w }
}

fn check(t: usize, ci: u32, k: u64) {
    let s = unsafe { &*SCN };
    let i = ci as usize % s.table.len();
    let cold = unsafe { *COLD.add(i) };
    for rep in 0..k {
        let c = eval(&s.table[i]);
        engine::count(4, 1);
        if c.st == 2 {
            engine::count(5, 1);
        }
        if rep < 4 {
            let mut x = c.st as u64;
            for j in 0..4 {
                x = x.wrapping_mul(0x100_0000_01b3) ^ c.w[j] as u64;
            }
            rt::note(x ^ (ci as u64) << 32);
        }
        if cold.st == 0 {
            continue;
        }
        if c.st != cold.st {
            let f = |s| if s == 1 { "returns" } else { "panics" };
            engine::fail("C01.outcome", &format!("{} {} in a fresh process but {} in task {} (call {} of this entry)", show_combo(&s.table[i]), f(cold.st), f(c.st), t, rep + 1));
        }
        if c.st == 1 && (c.n != cold.n || c.w != cold.w) {
            let j = (0..32).find(|&j| c.w[j] != cold.w[j]).unwrap_or(0);
            engine::fail(
                "C01.value",
                &format!(
                    "{} gives {:08x} ({:e}) at result word {} in task {} (call {} of this entry), but {:08x} ({:e}) in a fresh process",
                    show_combo(&s.table[i]), c.w[j], f32::from_bits(c.w[j]), j, t, rep + 1, cold.w[j], f32::from_bits(cold.w[j])
                ),
            );
        }
    }
}

fn run(s: &Scenario) {
    unsafe {
        COLD = sys::shared::<Cold>(s.table.len());
        SCN = s;
    }
    rt::set_on_limit(|_| unsafe { sys::_exit(0) });
    for i in 0..s.table.len() {
        engine::in_fork(|| unsafe { *COLD.add(i) = eval(&s.table[i]) });
        engine::count(6, 1);
    }
    rt::set_on_limit(|f| {
        engine::fail("C01.no-result", &format!("a call that ends in a fresh process did not end within {} steps in task {}", LIMIT, if f == rt::NONE { 0 } else { f }))
    });
    // Combos that do not even end in a fresh process are C02's business.
    for i in 0..s.table.len() {
        if unsafe { (*COLD.add(i)).st } == 0 {
            return;
        }
    }
    let calls0 = engine::counter(4);
    if s.tasks.len() == 1 {
        engine::count(8, 1);
        for o in &s.tasks[0] {
            let k = o.a.first().copied().unwrap_or(1);
            if o.a.len() > 1 {
                // Each pair in its own copy of the world.
                for c in 0..s.table.len() {
                    engine::in_fork(|| check(0, c as u32, k));
                    if engine::failed() {
                        engine::exit_failed();
                    }
                }
                continue;
            }
            check(0, o.code, k);
        }
    } else {
        engine::count(7, 1);
        run_tasks(s, 0, |t, o| check(t, o.code, o.a.first().copied().unwrap_or(1)));
    }
    let calls = engine::counter(4) - calls0;
    engine::count_max(9, calls);
    if calls >= 2 && (s.tasks.len() == 1 || rt::switches() > 0) {
        engine::nontrivial();
    }
}

fn describe(s: &Scenario) -> Vec<String> {
    let mut l = vec![];
    for (t, ops) in s.tasks.iter().enumerate() {
        let mut v: Vec<String> = vec![];
        for o in ops.iter().take(12) {
            let k = o.a.first().copied().unwrap_or(1);
            if o.a.len() > 1 {
                v.push(format!("each of the {} pairs x {} in its own copy of the world", s.table.len(), k));
                continue;
            }
            let c = show_combo(combo(s, o.code));
            v.push(if k == 1 { c } else { format!("{} x {}", k, c) });
        }
        if ops.len() > 12 {
            v.push(format!("... {} more", ops.len() - 12));
        }
        l.push(format!("task {}: {}", t, v.join("; ")));
    }
    show_sched(s, &mut l);
    l
}
