//! C04: a vector built from a stream takes exactly its components or fails.

use crate::cx::Cx;
use crate::src_script::{self as ss, *};
use crate::wl::*;
use micromath::vector::{Component, Vector, Vector2d, Vector3d};
use micromath::F32;
use mmrt::engine::{self, PropDef, Tuning};
use mmrt::rng::Rng;
use mmrt::rt;
use mmrt::scen::{Op, Scenario};

pub static DEF: PropDef = PropDef {
    id: "C04",
    gen,
    run,
    runs: (70_000, 2_000_000),
    counters: &[
        "mid_call_preemptions",
        "contexts_stopped_for_ever_in_mid_call",
        "shared_state_accesses",
        "blocked_futex_waits",
        "constructions",
        "constructions_that_succeeded",
        "source_failures_that_struck",
        "sources_polled_after_their_end",
        "re_entrant_sources",
        "short_sources",
        "long_or_endless_sources",
        "lying_size_hints",
        "slices",
    ],
    rule: "a case is one seeded run: 1 to 4 contexts build up to 8 vectors each from scripted streams (exact, short, long, endless, failing, ending and resuming, re-entrant, lying about their size) or slices; non-trivial when at least one construction met a short, long, failing or resuming source; distinct by hash of switch points and outcomes",
    describe,
    var_from: |_| 3,
};

const TYPES: [&str; 6] = ["i32", "f32", "Cx", "u8", "F32", "i16"];

fn gen(r: &mut Rng, _t: Tuning) -> Scenario {
    let mut s = Scenario::default();
    let n = 1 + r.below(4) as usize;
    for _ in 0..n {
        let m = 1 + r.below(8);
        let v = (0..m)
            .map(|_| {
                let axes = 2 + r.below(2);
                let slice = r.chance(1, 4);
                let mut a = vec![axes, r.below(TYPES.len() as u64), if slice { 100 } else { r.below(8) }];
                if slice {
                    for _ in 0..if r.chance(1, 2) { axes } else { r.below(7) } {
                        a.push((1 + r.below(120)) << 3);
                    }
                } else {
                    a.extend(ss::gen_script(r, axes, |r| 1 + r.below(120)));
                }
                Op { code: r.below(3) as u32, a }
            })
            .collect();
        s.tasks.push(v);
    }
    if n > 1 {
        s.sched = schedule(r, n, 8, true);
    }
    s
}

trait El: Component {
    fn mk(v: u64) -> Self;
    fn id(self) -> u64;
}
macro_rules! el { ($($t:ty),*) => { $( impl El for $t {
    fn mk(v: u64) -> Self { v as $t }
    fn id(self) -> u64 { self as u64 }
} )* } }
el!(i32, u8, i16, f32);
impl El for Cx {
    fn mk(v: u64) -> Self {
        Cx(v as i64)
    }
    fn id(self) -> u64 {
        self.0 as u64
    }
}
impl El for F32 {
    fn mk(v: u64) -> Self {
        F32(v as f32)
    }
    fn id(self) -> u64 {
        self.0 as u64
    }
}

fn build<C: El, V: Vector<C>>(axes: usize, how: u32, slice: bool, hint: u64, w: &[u64], get: fn(V, usize) -> u64) -> (Got<Vec<u64>>, u64) {
    let r = if slice {
        *ss::log() = ss::Log::default();
        let v: Vec<C> = w.iter().map(|x| C::mk(x >> 3)).collect();
        lib(LOOSE, || V::from_slice(&v))
    } else {
        let sc = Script::new(w, hint, C::mk);
        match how {
            0 => lib(LOOSE, || sc.collect::<V>()),
            1 => lib(LOOSE, || V::from_iter(sc)),
            _ => {
                let mut sc = sc;
                lib(LOOSE, || V::from_iter(&mut sc))
            }
        }
    };
    let polls = ss::log().polls;
    match r {
        Got::Val(v) => (Got::Val((0..axes).map(|i| get(v, i)).collect()), polls),
        Got::Panic(i) => (Got::Panic(i), polls),
    }
}

fn two<C: El>(v: Vector2d<C>, i: usize) -> u64 {
    if i == 0 { v.x } else { v.y }.id()
}
fn three<C: El>(v: Vector3d<C>, i: usize) -> u64 {
    [v.x, v.y, v.z][i].id()
}

fn one(t: usize, o: &'static Op) {
    let axes = if o.a.first() == Some(&2) { 2 } else { 3 };
    let ty = o.a.get(1).copied().unwrap_or(0) % TYPES.len() as u64;
    let hint = o.a.get(2).copied().unwrap_or(0);
    let slice = hint >= 100;
    let w: &[u64] = o.a.get(3..).unwrap_or(&[]);
    macro_rules! go {
        ($c:ty) => {
            if axes == 2 {
                build::<$c, Vector2d<$c>>(2, o.code, slice, hint, w, two::<$c>)
            } else {
                build::<$c, Vector3d<$c>>(3, o.code, slice, hint, w, three::<$c>)
            }
        };
    }
    let (got, polls) = match ty {
        0 => go!(i32),
        1 => go!(f32),
        2 => go!(Cx),
        3 => go!(u8),
        4 => go!(F32),
        _ => go!(i16),
    };
    // The model: the first axes+1 answers of the source decide.
    let at = |i: usize| -> (u64, u64) {
        match w.get(i) {
            Some(x) => event(*x),
            None if w.iter().any(|x| event(*x).0 == ENDLESS) => (ITEM, i as u64 & 15),
            None => (END, 0),
        }
    };
    let mut items = vec![];
    let mut ok = true;
    for i in 0..axes {
        match at(i) {
            (ITEM, v) | (REENTER, v) | (ENDLESS, v) => items.push(v),
            (END, _) => {
                ok = false;
                engine::count(9, 1);
                break;
            }
            _ => {
                ok = false;
                break;
            }
        }
    }
    if ok && at(axes).0 != END {
        ok = false;
        if at(axes).0 != FAIL {
            engine::count(10, 1);
        }
    }
    engine::count(4, 1);
    if slice {
        engine::count(12, 1);
    } else {
        ss::tally(6, w);
        if hint != 0 && !(hint == 1 && ok) && !(hint == axes as u64 && ok) {
            engine::count(11, 1);
        }
    }
    if !ok {
        engine::nontrivial();
    }
    let what = || {
        format!(
            "task {}: Vector{}d<{}> from {} {}{}",
            t, axes, TYPES[ty as usize], if slice { "slice" } else { "stream" }, show_script(w),
            if slice || hint == 0 { String::new() } else { format!(" announcing size kind {}", hint) }
        )
    };
    match got {
        Got::Val(v) => {
            engine::count(5, 1);
            rt::note(v.iter().fold(polls, |a, b| a.wrapping_mul(31).wrapping_add(*b)));
            if !ok {
                engine::fail("C04.accepted", &format!("{} was accepted as {:x?}", what(), v));
            }
            if v != items {
                engine::fail("C04.components", &format!("{} gave {:x?} instead of {:x?}", what(), v, items));
            }
        }
        Got::Panic(_) => {
            rt::note(polls | 1 << 40);
            if ok {
                engine::fail("C04.rejected", &format!("{} was rejected: {}", what(), engine::last_panic()));
            }
        }
    }
    let l = ss::log();
    // Requests answered with an item beyond the axes and the one that shows
    // the source is too long.
    if !slice && !l.ended && polls > axes as u64 + 1 {
        engine::fail("C04.requests", &format!("{} was asked for {} items", what(), polls));
    }
}

fn run(s: &Scenario) {
    rt::set_on_limit(|_| engine::fail("C04.no-progress", "a construction did not end (an endless source keeps being asked)"));
    run_tasks(s, 0, one);
}

fn describe(s: &Scenario) -> Vec<String> {
    let mut l = vec![];
    for (t, ops) in s.tasks.iter().enumerate() {
        for o in ops {
            l.push(format!(
                "task {}: Vector{}d<{}> from {} (size hint kind {}) {}",
                t, o.a.first().unwrap_or(&3), TYPES[*o.a.get(1).unwrap_or(&0) as usize % TYPES.len()],
                if o.a.get(2).unwrap_or(&0) >= &100 { "slice" } else { "stream" }, o.a.get(2).unwrap_or(&0), show_script(o.a.get(3..).unwrap_or(&[]))
            ));
        }
    }
    show_sched(s, &mut l);
    l
}
