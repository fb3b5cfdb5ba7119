//! C07: component iteration visits each axis once, surviving failed accesses.

use crate::cx::{Cx, Ln, Vn};
use crate::wl::*;
use micromath::vector::{Component, Iter, Vector, Vector2d, Vector3d};
use micromath::F32;
use mmrt::engine::{self, PropDef, Tuning};
use mmrt::rng::Rng;
use mmrt::rt;
use mmrt::scen::{Op, Scenario};

pub static DEF: PropDef = PropDef {
    id: "C07",
    gen,
    run,
    runs: (70_000, 2_000_000),
    counters: &[
        "mid_call_preemptions",
        "contexts_stopped_for_ever_in_mid_call",
        "shared_state_accesses",
        "blocked_futex_waits",
        "iterators",
        "requests",
        "failed_accesses",
        "retries_after_a_failed_access",
        "clones_of_half_consumed_iterators",
        "skips",
        "requests_after_the_end",
        "size_queries",
        "whole_consumptions",
        "iterators_abandoned",
    ],
    rule: "a case is one seeded run: 1 to 4 contexts step up to 4 component iterators each, over built-in and caller-defined vector types, with failing accesses, clones, skips, size queries, drops and polls past the end, interleaved; non-trivial when an access failed, a half-consumed iterator was cloned or an ended one was polled; distinct by hash of switch points and items",
    describe,
    var_from: var_none,
};

const TYPES: [&str; 12] = [
    "Vector2d<i32>", "Vector3d<i32>", "Vector2d<f32>", "Vector3d<F32>", "Vector3d<u8>", "user Vn<Cx,1>", "user Vn<Cx,2>", "user Vn<Cx,3>",
    "user Vn<Cx,5>", "user Vn<Cx,0>", "user Ln<300>", "user Ln<70000>",
];
const NEW: u32 = 0;
const NEXT: u32 = 1;
const CLONE: u32 = 2;
const SKIP: u32 = 3;
const HINT: u32 = 4;
const DRAIN: u32 = 5;
const WHOLE: u32 = 6;
const DROP: u32 = 7;

/// Skips far past the end, where a position could wrap around.
const FAR: [u64; 10] = [
    u64::MAX, u64::MAX - 1, u64::MAX - 2, u64::MAX - 4, 1 << 63, (1 << 63) - 1, 1 << 32, (1 << 32) - 1, 256, 1 << 16,
];
const WAYS: [&str; 10] = ["count", "last", "for_each", "a for loop", "collect", "fold", "find", "position", "zip", "chain"];

fn gen(r: &mut Rng, _t: Tuning) -> Scenario {
    let mut s = Scenario::default();
    for _ in 0..1 + r.below(3) {
        // A vector shared by the contexts: type and components.
        let mut a = vec![match r.below(3000) {
            0 => 11,
            1..=150 => 10,
            _ => r.below(10),
        }];
        for _ in 0..5 {
            a.push(1 + r.below(100));
        }
        s.table.push(Op { code: 0, a });
    }
    let n = 1 + r.below(4) as usize;
    let faults = r.chance(2, 3);
    for _ in 0..n {
        let m = 2 + r.below(24);
        let mut v = vec![];
        for i in 0..m {
            let k = match if i == 0 { 0 } else { r.below(16) } {
                0 => NEW,
                1 | 2 => CLONE,
                3 => SKIP,
                4 => HINT,
                5 => DRAIN,
                6 => WHOLE,
                7 => DROP,
                _ => NEXT,
            };
            let slot = r.below(4);
            let a = match k {
                NEW => vec![slot, r.below(3)],
                NEXT => vec![slot, if faults && r.chance(1, 3) { 1 + r.below(2) } else { 0 }],
                CLONE => vec![slot, r.below(4)],
                SKIP => vec![slot, if r.chance(1, 6) { *r.pick(&FAR) } else if r.chance(1, 8) { r.logu(300) } else { r.below(4) }],
                WHOLE => vec![slot, r.below(WAYS.len() as u64), if faults && r.chance(1, 4) { 1 + r.below(5) } else { 0 }],
                _ => vec![slot],
            };
            v.push(Op { code: k, a });
        }
        s.tasks.push(v);
    }
    if n > 1 {
        s.sched = schedule(r, n, 6, true);
    }
    s
}

trait Any {
    fn next(&mut self) -> Option<u64>;
    fn nth(&mut self, n: usize) -> Option<u64>;
    fn hint(&self) -> (usize, Option<usize>);
    fn dup(&self) -> Box<dyn Any>;
    fn whole(self: Box<Self>, how: u64, out: &mut Vec<u64>);
}
struct W<V: Vector<C> + 'static, C: Component + 'static>(Iter<'static, V, C>, fn(C) -> u64);
impl<V: Vector<C> + 'static, C: Component + 'static> Any for W<V, C> {
    fn next(&mut self) -> Option<u64> {
        self.0.next().map(self.1)
    }
    fn nth(&mut self, n: usize) -> Option<u64> {
        self.0.nth(n).map(self.1)
    }
    fn hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
    fn dup(&self) -> Box<dyn Any> {
        Box::new(W(self.0.clone(), self.1))
    }
    fn whole(self: Box<Self>, how: u64, out: &mut Vec<u64>) {
        let f = self.1;
        match how {
            0 => out.push(self.0.count() as u64),
            1 => out.extend(self.0.last().map(f)),
            2 => self.0.for_each(|c| out.push(f(c))),
            3 => {
                for c in self.0 {
                    out.push(f(c))
                }
            }
            4 => *out = self.0.map(f).collect(),
            5 => *out = self.0.fold(Vec::with_capacity(16), |mut v, c| {
                v.push(f(c));
                v
            }),
            6 => {
                let mut it = self.0;
                while let Some(c) = it.find(|_| true) {
                    out.push(f(c))
                }
            }
            7 => {
                let mut it = self.0;
                it.position(|c| {
                    out.push(f(c));
                    false
                });
                out.extend(it.next().map(f));
            }
            8 => out.extend(self.0.zip(0..200_000u32).map(|(c, _)| f(c))),
            _ => out.extend(self.0.chain(None).map(f)),
        }
    }
}

struct Slot {
    it: Box<dyn Any>,
    want: &'static [u64],
    pos: usize,
    failed: bool,
    vec: usize,
}

static mut SLOTS: Vec<Box<[Option<Slot>; 4]>> = Vec::new();
static mut SCN: *const Scenario = std::ptr::null();
/// Each shared vector: a maker of iterators over it, and its components.
static mut VECS: Vec<(Box<dyn Fn() -> Box<dyn Any>>, &'static [u64])> = Vec::new();

fn mk<V: Vector<C> + 'static, C: Component + 'static>(v: V, f: fn(C) -> u64, want: Vec<u64>) -> (Box<dyn Fn() -> Box<dyn Any>>, &'static [u64]) {
    let want: &'static [u64] = Box::leak(want.into_boxed_slice());
    let v: &'static V = Box::leak(Box::new(v));
    (Box::new(move || Box::new(W(v.iter(), f))), want)
}

fn make(o: &Op) -> (Box<dyn Fn() -> Box<dyn Any>>, &'static [u64]) {
    let a = &o.a;
    let w = |n: usize| a[1..1 + n].to_vec();
    let i = |k: usize| a[k] as i32;
    let f = |k: usize| a[k] as f32;
    let c = |k: usize| Cx(a[k] as i64);
    fn cx(c: Cx) -> u64 {
        c.0 as u64
    }
    match a[0] % TYPES.len() as u64 {
        0 => mk(Vector2d { x: i(1), y: i(2) }, |c| c as u64, w(2)),
        1 => mk(Vector3d { x: i(1), y: i(2), z: i(3) }, |c| c as u64, w(3)),
        2 => mk(Vector2d { x: f(1), y: f(2) }, |c| c as u64, w(2)),
        3 => mk(Vector3d { x: F32(f(1)), y: F32(f(2)), z: F32(f(3)) }, |c| c.0 as u64, w(3)),
        4 => mk(Vector3d { x: a[1] as u8, y: a[2] as u8, z: a[3] as u8 }, |c| c as u64, w(3)),
        5 => mk(Vn([c(1)]), cx, w(1)),
        6 => mk(Vn([c(1), c(2)]), cx, w(2)),
        7 => mk(Vn([c(1), c(2), c(3)]), cx, w(3)),
        8 => mk(Vn([c(1), c(2), c(3), c(4), c(5)]), cx, w(5)),
        9 => mk(Vn::<Cx, 0>([]), cx, w(0)),
        10 => mk(Ln::<300>(a[1] as u32), cx, (0..300).map(|i| Ln::<300>(a[1] as u32).at(i)).collect()),
        _ => mk(Ln::<70_000>(a[1] as u32), cx, (0..70_000).map(|i| Ln::<70_000>(a[1] as u32).at(i)).collect()),
    }
}

fn name(s: usize) -> String {
    let sc = unsafe { &*SCN };
    let w = unsafe { VECS[s].1 };
    format!("{} {:?}{}", TYPES[sc.table[s].a[0] as usize % TYPES.len()], &w[..w.len().min(12)], if w.len() > 12 { " and so on" } else { "" })
}

fn one(t: usize, o: &'static Op) {
    let slots = unsafe { &mut SLOTS[t] };
    let vecs = unsafe { &VECS };
    let k = o.a[0] as usize % 4;
    if o.code == NEW {
        let v = o.a[1] as usize % vecs.len();
        engine::count(4, 1);
        match lib(LOOSE, || (vecs[v].0)()) {
            Got::Val(it) => slots[k] = Some(Slot { it, want: vecs[v].1, pos: 0, failed: false, vec: v }),
            Got::Panic(_) => engine::fail("C07.spurious", &format!("task {}: making an iterator over {} failed", t, name(v))),
        }
        return;
    }
    let Some(s) = slots[k].as_mut() else { return };
    match o.code {
        NEXT => next(t, s, o.a[1]),
        DRAIN => {
            for _ in 0..s.want.len() + 3 - s.pos.min(s.want.len()) {
                next(t, s, 0)
            }
        }
        CLONE => {
            let it = &s.it;
            let Got::Val(it) = lib(LOOSE, || it.dup()) else { engine::fail("C07.spurious", &format!("task {}: cloning an iterator over {} failed", t, name(s.vec))) };
            if s.pos > 0 {
                engine::count(8, 1);
                engine::nontrivial();
            }
            let n = Slot { it, want: s.want, pos: s.pos, failed: s.failed, vec: s.vec };
            let to = o.a[1] as usize % 4;
            slots[to] = Some(n);
        }
        SKIP => {
            let n = o.a[1] as usize;
            let it = &mut s.it;
            engine::count(9, 1);
            match lib(LOOSE + 1000 * s.want.len() as u64, || it.nth(n)) {
                Got::Val(x) => {
                    let at = s.pos.saturating_add(n);
                    let want = s.want.get(at).copied();
                    if x != want {
                        engine::fail("C07.item", &format!("task {}: iterator over {} at axis {}: skipping {} gave {:?} instead of {:?}", t, name(s.vec), s.pos, n, x, want));
                    }
                    s.pos = at.saturating_add(1).min(s.want.len());
                }
                Got::Panic(_) => engine::fail("C07.spurious", &format!("task {}: skipping over {} failed: {}", t, name(s.vec), engine::last_panic())),
            }
        }
        HINT => {
            let it = &s.it;
            engine::count(11, 1);
            if let Got::Val((lo, hi)) = lib(LOOSE, || it.hint()) {
                let left = s.want.len() - s.pos;
                if lo > left || hi.map_or(false, |h| h < left) {
                    engine::fail("C07.size", &format!("task {}: iterator over {} with {} components left announces at least {} and at most {:?}", t, name(s.vec), left, lo, hi));
                }
            }
        }
        WHOLE => {
            let Some(s) = slots[k].take() else { return };
            let how = o.a[1] % WAYS.len() as u64;
            let it = s.it;
            let mut out: Vec<u64> = Vec::with_capacity(16);
            engine::count(12, 1);
            arm(o.a.get(2).copied().unwrap_or(0));
            let r = lib(LOOSE + 1000 * s.want.len() as u64, || it.whole(how, &mut out));
            let p = disarm();
            match r {
                Got::Panic(_) if p.fired => {
                    engine::count(6, 1);
                    engine::nontrivial();
                    let left = &s.want[s.pos..];
                    if how > 1 && how != 5 && !left.starts_with(&out) {
                        engine::fail("C07.item", &format!("task {}: consuming the rest of the iterator over {} from axis {} (by {}) gave {:?} before an access failed", t, name(s.vec), s.pos, WAYS[how as usize], few(&out)));
                    }
                }
                Got::Val(()) if p.fired => engine::fail("C07.swallowed", &format!("task {}: an access failed while the iterator over {} was consumed (by {}) and was swallowed", t, name(s.vec), WAYS[how as usize])),
                Got::Val(()) => {
                    let left = &s.want[s.pos..];
                    let want: Vec<u64> = match how {
                        0 => vec![left.len() as u64],
                        1 => left.last().copied().into_iter().collect(),
                        _ => left.to_vec(),
                    };
                    if out != want {
                        engine::fail("C07.item", &format!("task {}: consuming the rest of the iterator over {} from axis {} (by {}) gave {:?} instead of {:?}", t, name(s.vec), s.pos, WAYS[how as usize], few(&out), few(&want)));
                    }
                }
                Got::Panic(_) => engine::fail("C07.spurious", &format!("task {}: consuming the iterator over {} failed: {}", t, name(s.vec), engine::last_panic())),
            }
        }
        _ => {
            slots[k] = None;
            engine::count(13, 1);
        }
    }
}

/// The first few, and how many there are.
fn few(v: &[u64]) -> String {
    if v.len() <= 12 {
        return format!("{:?}", v);
    }
    format!("{:?} and so on ({} in all)", &v[..12], v.len())
}

fn next(t: usize, s: &mut Slot, fault: u64) {
    arm(fault);
    engine::count(5, 1);
    if s.failed {
        engine::count(7, 1);
    }
    let it = &mut s.it;
    let r = lib(LOOSE, || it.next());
    let p = disarm();
    match r {
        Got::Val(x) => {
            if p.fired {
                engine::fail("C07.swallowed", &format!("task {}: an access failed during next() over {} and was swallowed", t, name(s.vec)));
            }
            let want = s.want.get(s.pos).copied();
            rt::note(x.unwrap_or(9999) ^ (s.pos as u64) << 40);
            if s.pos >= s.want.len() {
                engine::count(10, 1);
                engine::nontrivial();
            }
            if x != want {
                engine::fail(
                    "C07.item",
                    &format!("task {}: iterator over {} at axis {}{} gave {:?} instead of {:?}", t, name(s.vec), s.pos, if s.failed { " (after a failed access)" } else { "" }, x, want),
                );
            }
            if x.is_some() {
                s.pos += 1;
            }
            s.failed = false;
        }
        Got::Panic(_) => {
            if !p.fired {
                engine::fail("C07.spurious", &format!("task {}: next() over {} failed: {}", t, name(s.vec), engine::last_panic()));
            }
            rt::note(55);
            s.failed = true;
            engine::count(6, 1);
            engine::nontrivial();
        }
    }
}

fn run(s: &Scenario) {
    rt::set_on_limit(|_| engine::fail("C07.no-progress", "an iterator call did not end"));
    unsafe {
        SCN = s;
        for o in &s.table {
            VECS.push(make(o));
        }
        for _ in &s.tasks {
            SLOTS.push(Box::new([const { None }; 4]));
        }
    }
    if s.table.is_empty() {
        return;
    }
    run_tasks(s, 0, one);
}

fn describe(s: &Scenario) -> Vec<String> {
    let mut l = vec![];
    for (i, o) in s.table.iter().enumerate() {
        l.push(format!("vector {}: {} {:?}", i, TYPES[o.a[0] as usize % TYPES.len()], &o.a[1..]));
    }
    for (t, ops) in s.tasks.iter().enumerate() {
        let v: Vec<String> = ops
            .iter()
            .map(|o| {
                let k = o.a[0] % 4;
                match o.code {
                    NEW => format!("it{} = iter of vector {}", k, o.a[1] as usize % s.table.len().max(1)),
                    NEXT => format!("it{}.next{}", k, if o.a[1] > 0 { format!(" (access {} fails)", o.a[1]) } else { String::new() }),
                    CLONE => format!("it{} = clone of it{}", o.a[1] % 4, k),
                    SKIP => format!("it{}.nth({:#x})", k, o.a[1]),
                    HINT => format!("it{}.size_hint", k),
                    DRAIN => format!("drain it{}", k),
                    WHOLE => format!("consume it{} by {}{}", k, WAYS[o.a[1] as usize % WAYS.len()], match o.a.get(2) {
                        Some(n) if *n > 0 => format!(" (access {} fails)", n),
                        _ => String::new(),
                    }),
                    _ => format!("drop it{}", k),
                }
            })
            .collect();
        l.push(format!("task {}: {}", t, v.join("; ")));
    }
    show_sched(s, &mut l);
    l
}
