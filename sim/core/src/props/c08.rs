//! C08: text output reports every sink failure and never corrupts what was
//! written.

use crate::src_script::reenter;
use crate::wl::*;
use micromath::vector::{Vector2d, Vector3d};
use micromath::{Quaternion, F32};
use mmrt::engine::{self, PropDef, Tuning};
use mmrt::rng::Rng;
use mmrt::rt;
use mmrt::scen::{Op, Scenario};
use std::fmt::{self, Debug, Display, Write};

pub static DEF: PropDef = PropDef {
    id: "C08",
    gen,
    run,
    runs: (60_000, 1_500_000),
    counters: &[
        "mid_call_preemptions",
        "contexts_stopped_for_ever_in_mid_call",
        "shared_state_accesses",
        "blocked_futex_waits",
        "texts_written",
        "texts_complete",
        "sinks_that_ran_full",
        "sinks_that_refused_a_write",
        "sinks_that_panicked",
        "sinks_that_failed_once_and_recovered",
        "re_entrant_sinks",
        "texts_parsed_back",
    ],
    rule: "a case is one seeded run: 1 to 4 contexts write up to 6 values each (float wrapper in three forms, debug form of every value type) to sinks that run full at a chosen byte, refuse a chosen write, fail once and recover, panic, or re-enter the library; non-trivial when a sink failed or re-entered; distinct by hash of switch points and texts",
    describe,
    var_from: var_none,
};

const FORMS: [&str; 12] = [
    "{} of F32", "{:e} of F32", "{:E} of F32", "{:?} of F32", "{:?} of Vector2d<f32>", "{:?} of Vector3d<i16>", "{:?} of Quaternion",
    "{:#?} of Vector3d<F32>", "{:#?} of Quaternion", "to_string of F32", "{}, {:e} of two F32", "{:?} of Vector2d<F32>",
];
const SINKS: [&str; 7] = ["sound", "full", "refuses", "refuses once", "panics", "re-enters", "full (all or nothing)"];

fn gen(r: &mut Rng, _t: Tuning) -> Scenario {
    let mut s = Scenario::default();
    let n = 1 + r.below(4) as usize;
    for _ in 0..n {
        let m = 1 + r.below(6);
        let v = (0..m)
            .map(|_| {
                let form = r.below(FORMS.len() as u64) as u32;
                // sink kind, where it strikes, value words
                let mut a = vec![r.below(SINKS.len() as u64), r.logu(if form == 7 || form == 8 { 60 } else { 24 }) - 1];
                for _ in 0..4 {
                    a.push(fbits(r) as u64);
                }
                Op { code: form, a }
            })
            .collect();
        s.tasks.push(v);
    }
    if n > 1 {
        s.sched = schedule(r, n, 4, true);
    }
    s
}

struct Sink {
    text: String,
    after: String,
    kind: u64,
    at: usize,
    writes: usize,
    failed: bool,
}

impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        rt::seam();
        enum D {
            Ok,
            Err,
            Panic,
            Re,
        }
        let d = rt::quiet(|| {
            self.writes += 1;
            if self.failed {
                // Anything accepted after a failure is recorded separately.
                if self.kind == 3 {
                    self.after.push_str(s);
                    return D::Ok;
                }
                self.after.push_str(s);
                return D::Err;
            }
            match self.kind {
                1 | 6 => {
                    let room = self.at.saturating_sub(self.text.len());
                    if s.len() <= room {
                        self.text.push_str(s);
                        D::Ok
                    } else {
                        if self.kind == 1 {
                            let mut k = room;
                            while !s.is_char_boundary(k) {
                                k -= 1;
                            }
                            self.text.push_str(&s[..k]);
                        }
                        self.failed = true;
                        D::Err
                    }
                }
                2 | 3 if self.writes > self.at % 8 => {
                    self.failed = true;
                    D::Err
                }
                4 if self.writes > self.at % 8 => {
                    self.failed = true;
                    D::Panic
                }
                5 => {
                    self.text.push_str(s);
                    D::Re
                }
                _ => {
                    self.text.push_str(s);
                    D::Ok
                }
            }
        });
        rt::seam();
        match d {
            D::Ok => Ok(()),
            D::Err => Err(fmt::Error),
            D::Panic => inject(),
            D::Re => {
                reenter(self.writes as u64);
                Ok(())
            }
        }
    }
}

/// Twins of the value types, formatted by the standard library alone.
mod twin {
    #[derive(Debug)]
    #[allow(dead_code)]
    pub struct F32(pub f32);
    #[derive(Debug)]
    #[allow(dead_code)]
    pub struct Vector2d<C> {
        pub x: C,
        pub y: C,
    }
    #[derive(Debug)]
    #[allow(dead_code)]
    pub struct Vector3d<C> {
        pub x: C,
        pub y: C,
        pub z: C,
    }
    #[derive(Debug)]
    #[allow(dead_code)]
    pub struct Quaternion(pub f32, pub f32, pub f32, pub f32);
}

fn f(w: u64) -> f32 {
    f32::from_bits(w as u32)
}

fn expect(form: u32, a: &[u64]) -> String {
    let x = f(a[0]);
    match form {
        0 | 9 => format!("{}", x),
        1 => format!("{:e}", x),
        2 => format!("{:E}", x),
        3 => format!("{:?}", twin::F32(x)),
        4 => format!("{:?}", twin::Vector2d { x, y: f(a[1]) }),
        5 => format!("{:?}", twin::Vector3d { x: a[0] as i16, y: a[1] as i16, z: a[2] as i16 }),
        6 => format!("{:?}", twin::Quaternion(x, f(a[1]), f(a[2]), f(a[3]))),
        7 => format!("{:#?}", twin::Vector3d { x: twin::F32(x), y: twin::F32(f(a[1])), z: twin::F32(f(a[2])) }),
        8 => format!("{:#?}", twin::Quaternion(x, f(a[1]), f(a[2]), f(a[3]))),
        10 => format!("{}, {:e}", x, f(a[1])),
        _ => format!("{:?}", twin::Vector2d { x: twin::F32(x), y: twin::F32(f(a[1])) }),
    }
}

fn write(form: u32, a: &[u64], k: &mut Sink) -> fmt::Result {
    let x = f(a[0]);
    let h = |i: usize| F32(f(a[i]));
    let dbg: &dyn Debug = match form {
        0 => return write!(k, "{}", F32(x)),
        1 => return write!(k, "{:e}", F32(x)),
        2 => return write!(k, "{:E}", F32(x)),
        9 => {
            let d: &dyn Display = &F32(x);
            return k.write_fmt(format_args!("{}", d));
        }
        10 => return write!(k, "{}, {:e}", F32(x), h(1)),
        3 => &F32(x),
        4 => &Vector2d { x, y: f(a[1]) },
        5 => &Vector3d { x: a[0] as i16, y: a[1] as i16, z: a[2] as i16 },
        6 => &Quaternion::new(x, f(a[1]), f(a[2]), f(a[3])),
        7 => return write!(k, "{:#?}", Vector3d { x: h(0), y: h(1), z: h(2) }),
        8 => return write!(k, "{:#?}", Quaternion::new(x, f(a[1]), f(a[2]), f(a[3]))),
        _ => &Vector2d { x: h(0), y: h(1) },
    };
    write!(k, "{:?}", dbg)
}

fn one(t: usize, o: &'static Op) {
    let form = o.code % FORMS.len() as u32;
    let (kind, at) = (o.a[0] % SINKS.len() as u64, o.a[1] as usize);
    let v = &o.a[2..];
    let want = expect(form, v);
    let mut k = Sink { text: String::with_capacity(256), after: String::new(), kind, at, writes: 0, failed: false };
    engine::count(4, 1);
    let r = lib(LOOSE, || write(form, v, &mut k));
    if k.failed || kind == 5 {
        engine::nontrivial();
        let c = match kind {
            1 | 6 => 6,
            2 => 7,
            3 => 9,
            4 => 8,
            _ => 10,
        };
        engine::count(c, 1);
    }
    rt::note(k.text.bytes().fold(k.failed as u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64)));
    let what = || format!("task {}: writing {} of {} to a sink that is {} (at {})", t, FORMS[form as usize], v.iter().map(|x| fshow(*x)).collect::<Vec<_>>().join(", "), SINKS[kind as usize], at);
    if !k.after.is_empty() {
        engine::fail("C08.after-failure", &format!("{}: {:?} was written after the failure", what(), k.after));
    }
    match r {
        Got::Val(Ok(())) => {
            if k.failed {
                engine::fail("C08.swallowed", &format!("{}: success was reported although the sink failed (it holds {:?})", what(), k.text));
            }
            if k.text != want {
                engine::fail("C08.text", &format!("{}: wrote {:?} instead of {:?}", what(), k.text, want));
            }
            engine::count(5, 1);
        }
        Got::Val(Err(_)) => {
            if !k.failed {
                engine::fail("C08.spurious", &format!("{}: an error was reported although the sink never failed", what()));
            }
            if !want.starts_with(&k.text) {
                engine::fail("C08.prefix", &format!("{}: the sink holds {:?}, no prefix of {:?}", what(), k.text, want));
            }
        }
        Got::Panic(inj) => {
            if !(k.failed && (kind == 4 || !inj)) || (kind != 4) {
                engine::fail("C08.panic", &format!("{}: panicked: {}", what(), engine::last_panic()));
            }
            if !want.starts_with(&k.text) {
                engine::fail("C08.prefix", &format!("{}: the sink holds {:?}, no prefix of {:?}", what(), k.text, want));
            }
        }
    }
    // What was completely written parses back to the same value.
    if !k.failed && matches!(form, 0 | 1 | 2 | 9) {
        engine::count(11, 1);
        let x = f(v[0]);
        match lib(LOOSE, || k.text.parse::<F32>()) {
            Got::Val(Ok(y)) if same(x, y.0) => {}
            Got::Val(y) => engine::fail("C08.parse", &format!("{}: {:?} parsed back as {:?}", what(), k.text, y.map(|y| y.0))),
            Got::Panic(_) => engine::fail("C08.parse", &format!("{}: parsing {:?} panicked", what(), k.text)),
        }
    }
}

fn run(s: &Scenario) {
    rt::set_on_limit(|_| engine::fail("C08.no-progress", "a text write did not end"));
    run_tasks(s, 0, one);
}

fn describe(s: &Scenario) -> Vec<String> {
    let mut l = vec![];
    for (t, ops) in s.tasks.iter().enumerate() {
        for o in ops {
            let v: Vec<String> = o.a[2..].iter().map(|x| fshow(*x)).collect();
            l.push(format!("task {}: {} of {} to a sink that is {} (at {})", t, FORMS[o.code as usize % FORMS.len()], v.join(", "), SINKS[o.a[0] as usize % SINKS.len()], o.a[1]));
        }
    }
    show_sched(s, &mut l);
    l
}
