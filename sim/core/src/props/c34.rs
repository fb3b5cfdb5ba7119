//! C34: every operation needs only a small fixed stack, and no heap.
//!
//! The heap is gone while a call runs, and every context has a stack of fixed
//! size, whose use is measured at every scheduling point of the call. Sources
//! are generated on the fly, so their length costs nothing but steps.

use super::c01::{self, args_of, combo, show_combo, STREAM};
use crate::cx::{Cx, Ln, Sample, Vn};
use crate::src_script::reenter;
use crate::wl::*;
use micromath::statistics::{Mean, StdDev, Trim, Variance};
use micromath::vector::{Vector, Vector2d, Vector3d};
use micromath::{Quaternion, F32};
use mmops::{op, Out};
use mmrt::engine::{self, PropDef, Tuning};
use mmrt::rng::{mix, Rng};
use mmrt::rt;
use mmrt::scen::{Op, Scenario};
use std::fmt::Write;

pub static DEF: PropDef = PropDef {
    id: "C34",
    gen,
    run,
    runs: (60_000, 1_500_000),
    counters: &[
        "mid_call_preemptions",
        "contexts_stopped_for_ever_in_mid_call",
        "shared_state_accesses",
        "blocked_futex_waits",
        "calls_without_a_heap",
        "calls_over_streams_and_slices",
        "longest_stream",
        "sources_failing_in_mid_call",
        "calls_nested_in_calls",
        "failing_sinks",
        "max_bytes_of_stack_of_a_scalar_call",
        "max_bytes_of_stack_of_a_stream_call",
        "max_bytes_of_stack_of_a_text_call",
        "outlier_runs_longer_than_a_hundred",
        "max_contexts_in_mid_call_at_once",
    ],
    rule: "a case is one seeded run of 1 to 5 contexts making up to 8 calls each, with the heap gone, over any arguments and over streams and slices of up to thousands of items (runs of outliers, constant, alternating, any bit patterns), with failing sources and sinks, calls nested in calls, and contexts preempted and stopped in mid-call; non-trivial when a stream of at least 64 items or a preempted call took part; distinct by hash of switch points, results and stack depths",
    describe,
    var_from: var_none,
};

/// Stack of a context: what one call may use at most, twice to three times
/// what the largest uses. Text goes through core's formatting, which needs more.
const STACK: usize = if cfg!(debug_assertions) { 3072 } else { 1024 };
const TEXT: usize = STACK + 1024;

const FORMS: [&str; 30] = [
    "mean of a stream", "mean of a slice", "variance", "stddev", "variance of bytes", "stddev of i16", "trimmed, one by one",
    "trimmed at a threshold", "trimmed, nth", "trimmed, counted", "trimmed, last", "trimmed, summed", "trimmed u16", "trimmed, reversed order of data",
    "F32 sum", "F32 product", "Vector2d<f32> sum", "Vector3d<F32> sum", "Vector3d<i32> sum of references", "Vector2d<i32> sum of references",
    "Vector3d from a stream", "Vector2d from a stream", "Vector2d from a slice", "components of a caller's long vector", "variance of the caller's samples",
    "text into a sink", "mapped caller's components", "trimmed samples of the caller's", "mean of trimmed", "components of a caller's vector, nth",
];
const STYLES: [&str; 8] = ["ordinary", "any bit pattern", "constant", "ramp", "far outliers in long runs", "alternating", "mostly lost (NaN)", "falling"];

fn val(seed: u64, style: u64, i: u64, n: u64) -> f32 {
    let h = mix(seed ^ i.wrapping_mul(0x9e37_79b9));
    let x = (h % 2001) as f32 * 0.125 - 125.0;
    match style {
        0 => x,
        1 => f32::from_bits(h as u32),
        2 => 3.5,
        3 => i as f32,
        4 => {
            if i * 4 > n && i * 4 < n * 3 {
                1.0e4 + x
            } else {
                x * 0.01
            }
        }
        5 => {
            if i & 1 == 0 {
                x
            } else {
                -1.0e6
            }
        }
        6 => {
            if h % 64 == 0 {
                x
            } else {
                f32::NAN
            }
        }
        _ => (n - i) as f32 * 0.5,
    }
}

/// A source generated on the fly; it may fail or make calls of its own.
struct Src {
    seed: u64,
    style: u64,
    i: u64,
    n: u64,
    fail: u64,
    nest: u64,
}
impl Iterator for Src {
    type Item = f32;
    fn next(&mut self) -> Option<f32> {
        rt::seam();
        if self.i >= self.n {
            return None;
        }
        let i = self.i;
        self.i += 1;
        if i == self.fail {
            inject();
        }
        if i == self.nest {
            rt::nest(|| reenter(i));
        }
        Some(val(self.seed, self.style, i, self.n))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        ((self.n - self.i) as usize, None)
    }
}

struct Sink {
    left: usize,
    n: u64,
    nest: u64,
}
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        rt::seam();
        self.n += 1;
        if self.n == self.nest {
            rt::nest(|| reenter(self.n));
        }
        if s.len() > self.left {
            return Err(std::fmt::Error);
        }
        self.left -= s.len();
        Ok(())
    }
}

fn gen(r: &mut Rng, t: Tuning) -> Scenario {
    let mut s = Scenario::default();
    let k = 2 + r.below(8) as usize;
    s.table = c01::gen_table(r, k);
    let n = 1 + r.below(5) as usize;
    for _ in 0..n {
        let m = 1 + r.below(8);
        let v = (0..m)
            .map(|_| {
                if r.chance(2, 5) {
                    let max = if t.thorough { 20_000 } else { 1_500 };
                    let len = if r.chance(1, 40) { max * 8 } else { r.logu(max) };
                    let nest = if r.chance(1, 6) { 1 + r.below(len + 2) } else { 0 };
                    let fail = if r.chance(1, 8) { 1 + r.below(len + 2) } else { 0 };
                    Op { code: STREAM | r.below(FORMS.len() as u64) as u32, a: vec![len, r.u64(), r.below(STYLES.len() as u64), nest, fail, r.below(12)] }
                } else {
                    Op { code: r.below(k as u64) as u32, a: vec![] }
                }
            })
            .collect();
        s.tasks.push(v);
    }
    if n > 1 {
        s.sched = schedule(r, n, 60, true);
    }
    s
}

static mut SCN: *const Scenario = std::ptr::null();
static mut NOW: [*const Op; 17] = [std::ptr::null(); 17];
/// Contexts in the middle of a call.
static mut IN: u64 = 0;

fn stream(o: &'static Op, out: &mut Out) -> Got<()> {
    let g = |i: usize| o.a.get(i).copied().unwrap_or(0);
    let (n, seed, style) = (g(0).min(1_000_000), g(1), g(2) % STYLES.len() as u64);
    let form = (o.code & !STREAM) as usize % FORMS.len();
    let limit = LOOSE + 4_000 * n;
    let src = || Src { seed, style, i: 0, n, fail: g(4).wrapping_sub(1), nest: g(3).wrapping_sub(1) };
    let plain = || Src { seed, style, i: 0, n, fail: u64::MAX, nest: u64::MAX };
    let at = [2.0f32, 1.0, 0.5, 0.01, 0.0, -1.0, 3.0, f32::NAN, f32::INFINITY, 1.5, 0.1, 1e-30][g(5) as usize % 12];
    let mut emit = |x: f32| {
        if out.n < 32 {
            out.w[out.n] = canon(x);
        }
        out.n += 1;
    };
    engine::count(5, 1);
    engine::count_max(6, n);
    if n >= 64 {
        engine::nontrivial();
    }
    if style == 4 && n > 400 {
        engine::count(13, 1);
    }
    // Prepared before the heap is gone.
    let v: Vec<f32> = if matches!(form, 1..=3 | 6..=11 | 13 | 22 | 28) { plain().collect() } else { vec![] };
    match form {
        0 => lib(limit, || emit(src().mean())),
        1 => lib(limit, || emit(v.iter().copied().mean())),
        2 => lib(limit, || emit((&v[..]).variance())),
        3 => lib(limit, || emit((&v[..]).stddev())),
        4 => {
            let w: Vec<u8> = plain().map(|x| x.to_bits() as u8).collect();
            lib(limit, || emit((&w[..]).variance()))
        }
        5 => {
            let w: Vec<i16> = plain().map(|x| x as i16).collect();
            lib(limit, || emit((&w[..]).stddev()))
        }
        6 => lib(limit, || (&v[..]).trim().for_each(|x| emit(x))),
        7 => lib(limit, || {
            for x in (&v[..]).trim_at(at) {
                emit(x)
            }
        }),
        8 => lib(limit, || {
            let b = &v[..];
            let mut i = b.trim_at(at);
            while let Some(x) = i.nth(seed as usize % 7) {
                emit(x)
            }
        }),
        9 => lib(limit, || emit((&v[..]).trim_at(at).count() as f32)),
        10 => lib(limit, || emit((&v[..]).trim_at(at).last().unwrap_or(0.0))),
        11 => lib(limit, || emit((&v[..]).trim_at(at).map(F32).sum::<F32>().0)),
        12 => {
            let w: Vec<u16> = plain().map(|x| x as u16).collect();
            lib(limit, || (&w[..]).trim_at(at).for_each(|x| emit(x as f32)))
        }
        13 => lib(limit, || {
            let b = &v[..];
            let mut i = b.trim_at(at);
            emit(i.size_hint().0 as f32);
            while let Some(x) = i.next() {
                emit(x)
            }
            emit(i.next().unwrap_or(-1.0))
        }),
        14 => lib(limit, || emit(src().map(F32).sum::<F32>().0)),
        15 => lib(limit, || emit(src().map(F32).product::<F32>().0)),
        16 => lib(limit, || emit(src().map(|x| Vector2d { x, y: -x }).sum::<Vector2d<f32>>().x)),
        17 => lib(limit, || emit(src().map(|x| Vector3d { x: F32(x), y: F32(1.0), z: F32(-x) }).sum::<Vector3d<F32>>().z.0)),
        18 => {
            let w: Vec<Vector3d<i32>> = plain().map(|x| Vector3d { x: x as i8 as i32, y: 1, z: -1 }).collect();
            lib(limit, || emit(w.iter().sum::<Vector3d<i32>>().y as f32))
        }
        19 => {
            let w: Vec<Vector2d<i32>> = plain().map(|x| Vector2d { x: x as i8 as i32, y: 1 }).collect();
            lib(limit, || emit(w.iter().sum::<Vector2d<i32>>().y as f32))
        }
        20 => lib(limit, || emit(src().collect::<Vector3d<f32>>().z)),
        21 => lib(limit, || emit(src().collect::<Vector2d<f32>>().y)),
        22 => lib(limit, || emit(Vector2d::from_slice(&v[..v.len().min(1 + seed as usize % 4)]).y)),
        23 => lib(limit, || {
            let mut s = 0u64;
            for c in Ln::<70_000>(seed as u32).iter().take(n as usize) {
                s = s.wrapping_add(c.0 as u64);
            }
            emit(s as f32)
        }),
        24 | 27 => {
            let w: Vec<Sample> = plain().enumerate().map(|(i, v)| Sample { v, id: i as u32 }).collect();
            arm(g(4));
            let x = if form == 24 { lib(limit, || emit((&w[..]).variance())) } else { lib(limit, || (&w[..]).trim_at(at).for_each(|x| emit(x.v))) };
            disarm();
            x
        }
        25 => {
            let mut k = Sink { left: (g(4) as usize).wrapping_sub(1), n: 0, nest: g(3) };
            if g(4) != 0 {
                engine::count(9, 1);
            }
            let f = |i: u64| val(seed, style, i, n.max(4));
            let x = lib(LOOSE, || {
                let _ = match g(5) {
                    0 => write!(k, "{}", F32(f(0))),
                    1 => write!(k, "{:?}", F32(f(0))),
                    2 => write!(k, "{:e}", F32(f(0))),
                    3 => write!(k, "{:E}", F32(f(0))),
                    4 => write!(k, "{:?}", Vector2d { x: f(0), y: f(1) }),
                    5 => write!(k, "{:?}", Vector3d { x: F32(f(0)), y: F32(f(1)), z: F32(f(2)) }),
                    6 => write!(k, "{:#?}", Vector3d { x: f(0) as i32, y: 2, z: 3 }),
                    7 => write!(k, "{:#?}", Quaternion::new(f(0), f(1), f(2), f(3))),
                    8 => write!(k, "{:+.3}", F32(f(0))),
                    9 => write!(k, "{:>40}", F32(f(0))),
                    10 => write!(k, "{:?}", Quaternion::new(f(0), f(1), f(2), f(3))),
                    _ => write!(k, "{} {:?}", F32(f(0)), F32(f(1))),
                };
            });
            x
        }
        26 => {
            arm(g(4));
            let x = lib(limit, || {
                let w = Vn::<Cx, 5>([Cx(1), Cx(2), Cx(3), Cx(4), Cx(seed as i64)]);
                emit(w.iter().map(|c| c.0 as f32).mean());
                let z = Vector3d { x: Cx(1), y: Cx(2), z: Cx(3) }.map(|c| c + Cx(1));
                emit(z.x.0 as f32)
            });
            disarm();
            x
        }
        28 => lib(limit, || emit((&v[..]).trim_at(at).mean())),
        _ => lib(limit, || {
            let w = Ln::<300>(seed as u32);
            let mut i = w.iter();
            while let Some(c) = i.nth(seed as usize % 5) {
                emit(c.0 as f32)
            }
        }),
    }
}

fn call(_t: usize, o: &'static Op) {
    let s = unsafe { &*SCN };
    let is_stream = o.code & STREAM != 0;
    let mut out = Out::new();
    let r;
    let me = rt::cur().min(16);
    unsafe {
        NOW[me] = if is_stream { o } else { combo(s, o.code) };
        IN += 1;
        engine::count_max(14, IN);
    }
    let top;
    if is_stream {
        r = stream(o, &mut out);
        let g = |i: usize| o.a.get(i).copied().unwrap_or(0);
        top = if is_text(o) { 12 } else { 11 };
        if g(3) != 0 && g(3) <= g(0) {
            engine::count(8, 1);
        }
    } else {
        let c = combo(s, o.code);
        let d = op(c.code as usize % mmops::count());
        let a = args_of(c);
        r = lib(LOOSE, || (d.f)(&a, &mut out));
        top = if is_text(c) { 12 } else { 10 };
    }
    unsafe { IN -= 1 };
    engine::count(4, 1);
    let used = rt::stack_used() as u64;
    match r {
        Got::Panic(true) => engine::count(7, 1),
        Got::Panic(false) => {}
        Got::Val(_) => engine::count_max(top, used),
    }
    if matches!(r, Got::Val(_)) {
        rt::note(used << 32 ^ out.n as u64);
        for w in &out.w[..out.n.min(32)] {
            rt::note(*w as u64);
        }
    }
}

fn is_text(o: &Op) -> bool {
    if o.code & STREAM != 0 {
        return (o.code & !STREAM) as usize % FORMS.len() == 25;
    }
    let n = op(o.code as usize % mmops::count()).name;
    n.contains("text") || n.contains("debug")
}
fn deep(used: usize) {
    let o = unsafe { NOW[rt::cur().min(16)] };
    let limit = if o.is_null() || is_text(unsafe { &*o }) { TEXT } else { STACK };
    if used > limit {
        engine::fail("C34.stack", &format!("task {}: {} needs more than the {} bytes of stack of its context ({} so far)", rt::cur() as i64, now(), limit, used));
    }
}

fn now() -> String {
    let o = unsafe { NOW[rt::cur().min(16)] };
    if o.is_null() {
        "a call".into()
    } else {
        show(unsafe { &*o })
    }
}

fn run(s: &Scenario) {
    unsafe { SCN = s };
    rt::set_on_limit(|_| engine::fail("C34.no-progress", &format!("{} did not end", now())));
    rt::measure_stack(STACK, deep);
    rt::no_heap(|n| engine::fail("C34.heap", &format!("task {}: {} asks for {} bytes of dynamic memory, of which there is none", rt::cur() as i64, now(), n)));
    run_tasks(s, 0, call);
    if rt::switches() > 0 {
        engine::nontrivial();
    }
}

fn show(o: &Op) -> String {
    if o.code & STREAM == 0 {
        return show_combo(o);
    }
    let g = |i: usize| o.a.get(i).copied().unwrap_or(0);
    let mut t = format!("{} over {} items, {} (seed {:x}, parameter {})", FORMS[(o.code & !STREAM) as usize % FORMS.len()], g(0), STYLES[g(2) as usize % STYLES.len()], g(1), g(5));
    if g(4) != 0 {
        t += &format!(", failing at {}", g(4));
    }
    if g(3) != 0 {
        t += &format!(", nested call at {}", g(3));
    }
    t
}

fn describe(s: &Scenario) -> Vec<String> {
    let mut l = vec![];
    for (t, ops) in s.tasks.iter().enumerate() {
        let v: Vec<String> = ops.iter().map(|o| if o.code & STREAM != 0 { show(o) } else { show_combo(combo(s, o.code)) }).collect();
        l.push(format!("task {}: {}", t, v.join("; ")));
    }
    show_sched(s, &mut l);
    l
}
