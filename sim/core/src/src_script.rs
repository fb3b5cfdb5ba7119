//! A scripted stream: delivers, ends, fails, resumes and lies about its size
//! exactly as its script says, and records what was asked of it.

use crate::wl::*;
use mmrt::engine;
use mmrt::rng::Rng;
use mmrt::rt;

pub const ITEM: u64 = 0;
pub const END: u64 = 1;
pub const FAIL: u64 = 2;
/// Delivers an item after making library calls of its own (re-entrancy).
pub const REENTER: u64 = 3;
/// The remaining requests all get items, for ever.
pub const ENDLESS: u64 = 4;

/// Word = value << 3 | event.
pub fn event(w: u64) -> (u64, u64) {
    (w & 7, w >> 3)
}

#[derive(Default, Clone, Copy)]
pub struct Log {
    pub polls: u64,
    pub items: u64,
    pub ended: bool,
    pub failed: bool,
    pub polls_after_end: u64,
}
static mut LOGS: [Log; 17] = [Log { polls: 0, items: 0, ended: false, failed: false, polls_after_end: 0 }; 17];
pub fn log() -> &'static mut Log {
    unsafe { &mut LOGS[rt::cur().min(16)] }
}

pub struct Script<'a, T> {
    w: &'a [u64],
    i: usize,
    hint: u64,
    mk: fn(u64) -> T,
    endless: bool,
}

impl<'a, T> Script<'a, T> {
    pub fn new(w: &'a [u64], hint: u64, mk: fn(u64) -> T) -> Self {
        *log() = Log::default();
        Script { w, i: 0, hint, mk, endless: false }
    }
}

enum Step {
    Item(u64),
    Re(u64),
    End,
    Fail,
}

impl<'a, T> Iterator for Script<'a, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        rt::seam();
        let st = rt::quiet(|| {
            let l = log();
            l.polls += 1;
            if l.ended {
                l.polls_after_end += 1;
            }
            let (e, v) = match self.w.get(self.i) {
                Some(w) => event(*w),
                None if self.endless => (ITEM, self.i as u64 & 15),
                None => (END, 0),
            };
            self.i += 1;
            match e {
                ITEM | ENDLESS | REENTER => {
                    if e == ENDLESS {
                        self.endless = true;
                    }
                    if !l.ended {
                        l.items += 1;
                    }
                    if e == REENTER {
                        Step::Re(v)
                    } else {
                        Step::Item(v)
                    }
                }
                FAIL => {
                    l.failed = true;
                    Step::Fail
                }
                _ => {
                    l.ended = true;
                    Step::End
                }
            }
        });
        rt::seam();
        match st {
            Step::Item(v) => Some((self.mk)(v)),
            Step::Re(v) => {
                reenter(v);
                Some((self.mk)(v))
            }
            Step::End => None,
            Step::Fail => inject(),
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let left = self.w.len().saturating_sub(self.i);
        match self.hint {
            0 => (0, None),
            1 => (left, Some(left)),
            2 => (2, Some(2)),
            3 => (3, Some(3)),
            4 => (usize::MAX, None),
            5 => (1000, Some(1000)),
            6 => (0, Some(0)),
            _ => (7, Some(2)),
        }
    }
}

/// Library calls made from inside a callback.
#[inline(never)]
pub fn reenter(v: u64) {
    use micromath::vector::{Vector, Vector3d};
    use micromath::{F32Ext, Quaternion};
    let x = v as f32 * 0.25 - 3.0;
    let a: Vector3d<f32> = [x, 2.0, 1.0].iter().copied().collect();
    let mut b = a + Vector3d { x: 1.0, y: x, z: 0.0 };
    b /= 2.0;
    let _ = std::hint::black_box((a.magnitude(), b.dot(a), x.sin(), x.exp(), b.map(|c| c + 1.0)));
    let _ = std::hint::black_box(Quaternion::IDENTITY.rotate(b));
}

/// A random script; `axes` biases the length.
pub fn gen_script(r: &mut Rng, axes: u64, val: fn(&mut Rng) -> u64) -> Vec<u64> {
    let mut w = vec![];
    let mut item = |r: &mut Rng, w: &mut Vec<u64>| {
        let e = if r.chance(1, 12) { REENTER } else { ITEM };
        let v = val(r);
        w.push(v << 3 | e)
    };
    match r.below(9) {
        0 | 1 | 2 => {
            for _ in 0..axes {
                item(r, &mut w)
            }
        }
        3 => {
            for _ in 0..r.below(axes) {
                item(r, &mut w)
            }
        }
        4 => {
            for _ in 0..axes + 1 + r.below(4) {
                item(r, &mut w)
            }
        }
        // Ends in the middle and then resumes.
        5 => {
            for _ in 0..r.below(axes + 1) {
                item(r, &mut w)
            }
            for _ in 0..1 + r.below(2) {
                w.push(END);
            }
            for _ in 0..1 + r.below(axes + 1) {
                item(r, &mut w)
            }
        }
        6 => {
            for _ in 0..r.below(axes + 2) {
                item(r, &mut w)
            }
            w.push(FAIL);
            for _ in 0..r.below(axes + 1) {
                item(r, &mut w)
            }
        }
        7 => {
            for _ in 0..r.below(axes + 2) {
                item(r, &mut w)
            }
            w.push(r.below(16) << 3 | ENDLESS);
        }
        _ => {
            for _ in 0..r.below(axes + 3) {
                match r.below(6) {
                    0 => w.push(END),
                    1 => w.push(FAIL),
                    _ => item(r, &mut w),
                }
            }
        }
    }
    w
}

/// Counts which kinds of trouble a finished call really met, in the three
/// counters from `base`: failures, early or resumed ends, re-entrancy.
pub fn tally(base: usize, w: &[u64]) {
    let l = *log();
    if l.failed {
        engine::count(base, 1);
    }
    if l.polls_after_end > 0 {
        engine::count(base + 1, 1);
    }
    if w.iter().take(l.polls as usize).any(|x| event(*x).0 == REENTER) {
        engine::count(base + 2, 1);
    }
}
pub fn show_script(w: &[u64]) -> String {
    let v: Vec<String> = w
        .iter()
        .map(|x| {
            let (e, v) = event(*x);
            match e {
                ITEM => format!("{:x}", v),
                REENTER => format!("{:x}(re-enters)", v),
                END => "END".into(),
                FAIL => "FAIL".into(),
                _ => format!("{:x} and so on for ever", v),
            }
        })
        .collect();
    format!("[{}]", v.join(", "))
}
