//! C06: trimming yields each retained sample exactly once, in order, across
//! faults.

use crate::cx::{gain, Sample};
use crate::wl::*;
use micromath::statistics::trim::Iter as TrimIter;
use micromath::statistics::{Mean, StdDev, Trim};
use mmrt::engine::{self, PropDef, Tuning};
use mmrt::rng::Rng;
use mmrt::rt;
use mmrt::scen::{Op, Scenario};

pub static DEF: PropDef = PropDef {
    id: "C06",
    gen,
    run,
    runs: (60_000, 1_500_000),
    counters: &[
        "mid_call_preemptions",
        "contexts_stopped_for_ever_in_mid_call",
        "shared_state_accesses",
        "blocked_futex_waits",
        "iterators",
        "requests",
        "samples_yielded",
        "samples_trimmed",
        "conversion_failures_during_iteration",
        "conversion_failures_during_construction",
        "requests_after_the_end",
        "iterators_abandoned",
        "samples_in_the_undecided_band",
        "longest_buffer",
        "consumed_through_other_entry_points",
        "recalibrations",
    ],
    rule: "a case is one seeded run: 1 to 4 contexts share 1 to 3 sample buffers and step up to 3 trimming iterators each, interleaved, with failing conversions, abandoned iterators and polls past the end; non-trivial when an iterator trimmed at least one sample or met a failing conversion; distinct by hash of switch points and items",
    describe,
    var_from: var_none,
};

const NEW: u32 = 0;
const NEXT: u32 = 1;
const DROP: u32 = 2;
const DRAIN: u32 = 3;
/// Recalibrate the sensor: conversions of samples give other floats from now
/// on, while the bounds of existing iterators stay.
const GAIN: u32 = 5;
const GAINS: [f32; 6] = [1.0, 1.0, 2.0, 0.5, -1.0, 16.0];
/// Take several through the iterator adaptors.
const TAKE: u32 = 4;

fn gen(r: &mut Rng, t: Tuning) -> Scenario {
    let mut s = Scenario::default();
    let bufs = 1 + r.below(3);
    s.cfg = vec![r.below(4) / 3];
    for _ in 0..bufs {
        let len = match r.below(10) {
            0 => r.below(3),
            1 => r.logu(if t.thorough { 3000 } else { 300 }),
            _ => 3 + r.below(14),
        };
        let base = if r.chance(1, 3) { fmod(r) } else { 0.0 };
        let spread = *r.pick(&[1.0f32, 0.1, 10.0, 100.0]);
        let mut a = vec![];
        for _ in 0..len {
            let x = match r.below(12) {
                0 => base + spread * 50.0 * (r.unit() as f32 - 0.5),
                1 => base + spread * 400.0,
                2 => base,
                3 if r.chance(1, 12) => f32::from_bits(*r.pick(&[0x7fc0_0000u32, 0x7f80_0000, 0xff80_0000, 0x7f7f_ffff])),
                _ => base + spread * (r.unit() as f32 * 2.0 - 1.0),
            };
            a.push(x.to_bits() as u64);
        }
        s.table.push(Op { code: 0, a });
    }
    let n = 1 + r.below(4) as usize;
    let faults = r.chance(1, 2);
    for _ in 0..n {
        let m = 2 + r.below(24);
        let mut v = vec![];
        for i in 0..m {
            let slot = r.below(3);
            let k = match if i == 0 { 0 } else { r.below(12) } {
                0 | 1 => NEW,
                2 => DROP,
                3 => DRAIN,
                4 => TAKE,
                5 if r.chance(1, 4) => GAIN,
                _ => NEXT,
            };
            let a = match k {
                NEW => {
                    let th = match r.below(12) {
                        0..=4 => 2.0f32,
                        5 => 1.0,
                        6 => r.unit() as f32 * 4.0,
                        7 => *r.pick(&[0.0f32, -1.0, f32::INFINITY, f32::NAN, 0.5, 1e-3]),
                        _ => 0.5 + r.unit() as f32 * 2.0,
                    };
                    let fault = if faults && r.chance(1, 6) { 1 + r.below(24) } else { 0 };
                    vec![slot, r.below(bufs), th.to_bits() as u64, r.below(3), fault]
                }
                GAIN => vec![slot, r.below(6)],
                TAKE => vec![slot, 1 + r.below(5), r.below(14)],
                NEXT | DRAIN => vec![slot, if faults && r.chance(1, 5) { 1 + r.below(5) } else { 0 }],
                _ => vec![slot],
            };
            v.push(Op { code: k, a });
        }
        s.tasks.push(v);
    }
    if n > 1 {
        s.sched = schedule(r, n, 40, true);
    }
    s
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Must {
    In,
    Out,
    Either,
}

/// Generic over plain f32 and the identity-carrying sample.
trait El: Copy + 'static
where
    f32: From<Self>,
{
    fn val(&self) -> f32;
    /// What the conversion gives now.
    fn conv(&self) -> f32 {
        self.val()
    }
    fn id(&self) -> Option<u32>;
}
impl El for f32 {
    fn val(&self) -> f32 {
        *self
    }
    fn id(&self) -> Option<u32> {
        None
    }
}
impl El for Sample {
    fn val(&self) -> f32 {
        self.v
    }
    fn conv(&self) -> f32 {
        self.v * *gain()
    }
    fn id(&self) -> Option<u32> {
        Some(self.id)
    }
}

struct It<T: El>
where
    f32: From<T>,
{
    it: TrimIter<'static, T>,
    buf: usize,
    bounds: Bounds,
    /// What the bounds say of each sample, as calibrated now.
    must: Vec<Must>,
    gain: f32,
    /// All samples before this index have been passed.
    pos: usize,
    ended: bool,
    /// A conversion failed since the last item: one sample may be lost per
    /// failure.
    slack: usize,
    /// Samples before this index may have been passed, judged by an earlier
    /// calibration, when a conversion failed.
    perhaps: usize,
    faulted: bool,
    th: f32,
}

static mut SCN: *const Scenario = std::ptr::null();
static mut F32BUF: Vec<&'static [f32]> = Vec::new();
static mut SMPBUF: Vec<&'static [Sample]> = Vec::new();
/// One set of iterators per task, on the heap.
static mut ITS: Vec<Box<[Option<It<f32>>; 3]>> = Vec::new();
static mut ITM: Vec<Box<[Option<It<Sample>>; 3]>> = Vec::new();

/// The statistics of a whole buffer at the time an iterator is made.
#[derive(Clone, Copy)]
struct Bounds {
    ok: bool,
    /// No sample is below the bound: it is not a number.
    none: bool,
    n: f64,
    big: f64,
    m: f64,
    sd: f64,
    lm: f64,
    ls: f64,
    th: f64,
}
fn bounds(v: &[f32], th: f32) -> Bounds {
    let n = v.len() as f64;
    let x: Vec<f64> = v.iter().map(|x| *x as f64).collect();
    let big = x.iter().fold(0.0f64, |a, b| a.max(b.abs()));
    let m = x.iter().sum::<f64>() / n;
    let sd = (x.iter().map(|a| (a - m).powi(2)).sum::<f64>() / (n - 1.0)).sqrt();
    let ok = v.len() >= 2 && big.is_finite() && big < 1e15 && sd > 1e-6 * big && sd > 1e-12 && !th.is_nan();
    let none = th.is_nan() || v.len() == 1 || x.iter().any(|a| !a.is_finite());
    // The library's own mean and standard deviation of the same buffer.
    let (lm, ls) = (v.iter().copied().mean() as f64, v.stddev() as f64);
    Bounds { ok, none, n, big, m, sd, lm, ls, th: th as f64 }
}
fn judge(b: &Bounds, v: &[f32]) -> Vec<Must> {
    v.iter().map(|x| judge1(b, *x as f64)).collect()
}
fn judge1(b: &Bounds, a: f64) -> Must {
    if b.none || a.is_nan() {
        return Must::Out;
    }
    let big = b.big.max(a.abs());
    if !b.ok || !(big < 1e15) {
        return Must::Either;
    }
    let em = (b.n + 8.0) * 2f64.powi(-22) * big;
    let d = (a - b.m).abs() / b.sd;
    let e = em / b.sd + 1e-6;
    let wide = if d + e < b.th * 0.93 {
        Must::In
    } else if d - e > b.th * 1.07 || b.th <= 0.0 {
        Must::Out
    } else {
        Must::Either
    };
    if wide != Must::Either || b.th.is_infinite() {
        return wide;
    }
    let d = (a - b.lm).abs() / b.ls;
    let e = (em * 2.0 / b.ls + 1e-6) * (1.0 + d);
    if d + e < b.th * 0.999 {
        Must::In
    } else if d - e > b.th * 1.001 {
        Must::Out
    } else {
        Must::Either
    }
}
/// Judges the samples anew after a recalibration.
fn recalibrate<T: El>(i: &mut It<T>, bufs: &'static Vec<&'static [T]>)
where
    f32: From<T>,
{
    if i.gain != *gain() {
        i.gain = *gain();
        let v: Vec<f32> = bufs[i.buf].iter().map(|x| x.conv()).collect();
        i.must = judge(&i.bounds, &v);
        for j in i.pos..i.perhaps.max(i.pos) {
            if i.must[j] == Must::In {
                i.must[j] = Must::Either;
            }
        }
        // Only a change since the bounds were fixed makes the difference.
        i.faulted = true;
    }
}

fn one(t: usize, o: &'static Op) {
    let kind = unsafe { (*SCN).cfg.first().copied().unwrap_or(0) };
    if kind == 0 {
        unsafe { step::<Sample>(t, o, &mut ITM[t], &SMPBUF) }
    } else {
        unsafe { step::<f32>(t, o, &mut ITS[t], &F32BUF) }
    }
}

fn step<T: El>(t: usize, o: &'static Op, its: &mut [Option<It<T>>; 3], bufs: &'static Vec<&'static [T]>)
where
    f32: From<T>,
{
    let s = unsafe { &*SCN };
    let slot = o.a[0] as usize % 3;
    if let Some(i) = &mut its[slot] {
        recalibrate(i, bufs);
    }
    match o.code {
        GAIN => {
            *gain() = GAINS[o.a[1] as usize % 6];
            engine::count(15, 1);
        }
        NEW => {
            its[slot] = None;
            let b = o.a[1] as usize % bufs.len();
            let buf: &'static [T] = bufs[b];
            let mut th = f32::from_bits(o.a[2] as u32);
            arm(o.a[4]);
            engine::count(4, 1);
            engine::count_max(13, buf.len() as u64);
            let how = o.a[3];
            if how == 0 {
                th = 2.0;
            }
            let r = lib(LOOSE + 4000 * buf.len() as u64, || match how {
                0 => bufs[b].trim(),
                1 => bufs[b].trim_at(th),
                _ => TrimIter::new(buf, th),
            });
            let p = disarm();
            match r {
                Got::Val(_) if p.fired => engine::fail("C06.swallowed", &format!("task {}: a conversion failed while a trimming iterator over {} was made, but it was made", t, show(s, b))),
                Got::Panic(_) if !p.fired => engine::fail("C06.spurious", &format!("task {}: making a trimming iterator over {} failed: {}", t, show(s, b), engine::last_panic())),
                Got::Panic(_) => {
                    engine::count(9, 1);
                    engine::nontrivial();
                }
                Got::Val(it) => {
                    let v: Vec<f32> = buf.iter().map(|x| x.conv()).collect();
                    let bounds = bounds(&v, th);
                    let must = judge(&bounds, &v);
                    engine::count(12, must.iter().filter(|m| **m == Must::Either).count() as u64);
                    its[slot] = Some(It { it, buf: b, bounds, must, gain: *gain(), pos: 0, ended: false, slack: 0, perhaps: 0, faulted: false, th });
                }
            }
        }
        NEXT => {
            if let Some(i) = &mut its[slot] {
                poll(t, i, o.a[1], bufs);
            }
        }
        DRAIN => {
            if let Some(i) = &mut its[slot] {
                let n = bufs[i.buf].len() + 3;
                for k in 0..n {
                    poll(t, i, if k == 0 { o.a[1] } else { 0 }, bufs);
                }
                if !i.ended {
                    engine::fail("C06.endless", &format!("task {}: the iterator over {} had not ended after {} more requests", t, show(s, i.buf), n));
                }
            }
        }
        TAKE if o.a.get(2).copied().unwrap_or(0) > 2 && its[slot].as_ref().map_or(false, |i| !i.faulted) => other_ways(t, o, &mut its[slot], bufs),
        TAKE => {
            if let Some(i) = &mut its[slot] {
                let k = o.a[1] as usize;
                let it = &mut i.it;
                let r = lib(LOOSE, || {
                    let mut v: Vec<T> = vec![];
                    for x in it.by_ref().take(k) {
                        rt::quiet(|| v.push(x));
                    }
                    v
                });
                match r {
                    Got::Val(v) => {
                        let short = v.len() < k;
                        for x in v {
                            item(t, i, Some(x), bufs);
                        }
                        if short {
                            item(t, i, None, bufs);
                        }
                    }
                    Got::Panic(_) => engine::fail("C06.spurious", &format!("task {}: taking samples from {} failed: {}", t, show(s, i.buf), engine::last_panic())),
                }
            }
        }
        _ => {
            if its[slot].take().is_some() {
                engine::count(11, 1);
            }
        }
    }
}

/// Buffer positions that a fresh iterator over the same buffer retains.
/// (Samples of equal value are retained or trimmed alike.)
fn retained<T: El>(buf: &'static [T], th: f32) -> Vec<usize>
where
    f32: From<T>,
{
    let mut v = vec![];
    let got: Vec<T> = match lib(LOOSE + 9000 * buf.len() as u64, || {
        let mut it = TrimIter::new(buf, th);
        let mut v: Vec<T> = vec![];
        while let Some(x) = it.next() {
            rt::quiet(|| v.push(x));
            if v.len() > buf.len() {
                break;
            }
        }
        v
    }) {
        Got::Val(v) => v,
        Got::Panic(_) => engine::fail("C06.spurious", &format!("iterating failed: {}", engine::last_panic())),
    };
    let mut j = 0;
    for x in got {
        while j < buf.len() && buf[j].val().to_bits() != x.val().to_bits() {
            j += 1;
        }
        v.push(j);
        j += 1;
    }
    v
}

/// The entry points of an iterator other than next() must agree with it.
fn other_ways<T: El>(t: usize, o: &'static Op, slot: &mut Option<It<T>>, bufs: &'static Vec<&'static [T]>)
where
    f32: From<T>,
{
    let s = unsafe { &*SCN };
    let i = slot.as_mut().unwrap();
    let buf = bufs[i.buf];
    let all = retained(buf, i.th);
    let left: Vec<usize> = all.iter().copied().filter(|j| *j >= i.pos).collect();
    let k = (o.a[1] as usize).max(1);
    let mode = o.a[2];
    let limit = LOOSE + 9000 * buf.len() as u64;
    let val = |j: usize| buf[j].val().to_bits();
    let bits = |x: Option<T>| x.map(|x| x.val().to_bits());
    let names = ["", "", "", "nth", "size_hint", "find", "position", "all", "fold", "count", "last", "collect", "skip", "step_by"];
    let mode = if mode as usize >= names.len() { 3 } else { mode as usize };
    engine::count(14, 1);
    let bad = |got: &str, want: &str| -> ! {
        engine::fail("C06.item", &format!("task {}: {}({}) on the iterator over {} with {} of {} retained samples left gave {}, but next() would give {}", t, names[mode], k, show(s, i.buf), left.len(), all.len(), got, want))
    };
    let chk = |got: Vec<Option<u32>>, want: Vec<Option<u32>>| {
        if got != want {
            let f = |v: &Vec<Option<u32>>| v.iter().take(20).map(|x| x.map_or("None".into(), |x| fshow(x as u64))).collect::<Vec<_>>().join(" ");
            bad(&f(&got), &f(&want));
        }
    };
    macro_rules! call {
        ($e:expr) => {
            match lib(limit, || $e) {
                Got::Val(x) => x,
                Got::Panic(_) => engine::fail("C06.spurious", &format!("task {}: {} on the iterator over {} failed: {}", t, names[mode], show(s, i.buf), engine::last_panic())),
            }
        };
    }
    // By reference: the iterator goes on behind what was consumed.
    let passed = match mode {
        3 => {
            let x = call!(i.it.nth(k - 1));
            chk(vec![bits(x)], vec![left.get(k - 1).map(|j| val(*j))]);
            Some(k)
        }
        4 => {
            let (lo, hi) = call!(i.it.size_hint());
            if lo > left.len() || hi.map_or(false, |h| h < left.len()) {
                bad(&format!("{:?}", (lo, hi)), &format!("{} more samples", left.len()));
            }
            Some(0)
        }
        5 => {
            let mut n = 0;
            let x = call!(i.it.find(|_| {
                n += 1;
                n == k
            }));
            chk(vec![bits(x)], vec![left.get(k - 1).map(|j| val(*j))]);
            Some(k)
        }
        6 => {
            let mut n = 0;
            let x = call!(i.it.position(|_| {
                n += 1;
                n == k
            }));
            let want = if k <= left.len() { Some(k - 1) } else { None };
            if x != want {
                bad(&format!("{:?}", x), &format!("{:?}", want));
            }
            Some(k)
        }
        7 => {
            let mut n = 0;
            let x = call!(i.it.all(|_| {
                n += 1;
                n < k
            }));
            if x != (k > left.len()) {
                bad(&format!("{}", x), &format!("{}", k > left.len()));
            }
            Some(k)
        }
        _ => None,
    };
    rt::note(mode as u64 ^ (left.len() as u64) << 8 ^ (k as u64) << 32);
    if let Some(k) = passed {
        if k > left.len() {
            i.pos = buf.len();
            i.ended = true;
        } else if k > 0 {
            i.pos = left[k - 1] + 1;
        }
        return;
    }
    // By value.
    let it = slot.take().unwrap();
    let b = it.buf;
    macro_rules! last {
        ($e:expr) => {
            match lib(limit, || $e) {
                Got::Val(x) => x,
                Got::Panic(_) => engine::fail("C06.spurious", &format!("task {}: {} on the iterator over {} failed: {}", t, names[mode], show(s, b), engine::last_panic())),
            }
        };
    }
    let it = it.it;
    let i = It2 { buf: b };
    let bad = |got: &str, want: &str| -> ! {
        engine::fail("C06.item", &format!("task {}: {}({}) on the iterator over {} with {} of {} retained samples left gave {}, but next() would give {}", t, names[mode], k, show(s, i.buf), left.len(), all.len(), got, want))
    };
    let chk = |got: Vec<Option<u32>>, want: Vec<Option<u32>>| {
        if got != want {
            let f = |v: &Vec<Option<u32>>| v.iter().take(20).map(|x| x.map_or("None".into(), |x| fshow(x as u64))).collect::<Vec<_>>().join(" ");
            bad(&f(&got), &f(&want));
        }
    };
    let every: Vec<Option<u32>> = left.iter().map(|j| Some(val(*j))).collect();
    match mode {
        8 => {
            let v = last!(it.fold(vec![], |mut v: Vec<Option<u32>>, x| {
                rt::quiet(|| v.push(Some(x.val().to_bits())));
                v
            }));
            chk(v, every)
        }
        9 => {
            let n = last!(it.count());
            if n != left.len() {
                bad(&format!("{}", n), &format!("{}", left.len()));
            }
        }
        10 => {
            let x = last!(it.last());
            chk(vec![bits(x)], vec![left.last().map(|j| val(*j))])
        }
        11 => {
            let v = last!(it.collect::<Vec<T>>());
            chk(v.into_iter().map(|x| bits(Some(x))).collect(), every)
        }
        12 => {
            let v = last!(it.skip(k).collect::<Vec<T>>());
            chk(v.into_iter().map(|x| bits(Some(x))).collect(), every.into_iter().skip(k).collect())
        }
        _ => {
            let v = last!(it.step_by(k).collect::<Vec<T>>());
            chk(v.into_iter().map(|x| bits(Some(x))).collect(), every.into_iter().step_by(k).collect())
        }
    }
}
struct It2 {
    buf: usize,
}

fn poll<T: El>(t: usize, i: &mut It<T>, fault: u64, bufs: &'static Vec<&'static [T]>)
where
    f32: From<T>,
{
    arm(fault);
    engine::count(5, 1);
    if i.ended {
        engine::count(10, 1);
    }
    let it = &mut i.it;
    let r = lib(LOOSE + 4000 * bufs[i.buf].len() as u64, || it.next());
    let p = disarm();
    let s = unsafe { &*SCN };
    match r {
        Got::Val(_) if p.fired => engine::fail("C06.swallowed", &format!("task {}: a conversion failed during next() over {} and was swallowed", t, show(s, i.buf))),
        Got::Val(x) => item(t, i, x, bufs),
        Got::Panic(_) => {
            if !p.fired {
                engine::fail("C06.spurious", &format!("task {}: next() over {} failed: {}", t, show(s, i.buf), engine::last_panic()));
            }
            engine::count(8, 1);
            engine::nontrivial();
            i.slack += 1;
            i.faulted = true;
            let mut left = i.slack;
            i.perhaps = i.pos;
            while i.perhaps < i.must.len() && left > 0 {
                if i.must[i.perhaps] == Must::In {
                    left -= 1;
                }
                i.perhaps += 1;
            }
        }
    }
}

/// Matches one answer of the iterator against the set of possible positions.
fn item<T: El>(t: usize, i: &mut It<T>, x: Option<T>, bufs: &'static Vec<&'static [T]>)
where
    f32: From<T>,
{
    let s = unsafe { &*SCN };
    let buf = bufs[i.buf];
    rt::note(x.map_or(77, |x| x.val().to_bits() as u64) ^ (i.pos as u64) << 32);
    // A sample that must be retained may be passed over only if it was in
    // flight at a failure.
    let mut skipped = 0;
    let mut at = None;
    if let Some(x) = x {
        for j in i.pos..buf.len() {
            let same = match x.id() {
                Some(id) => buf[j].id() == Some(id),
                None => buf[j].val().to_bits() == x.val().to_bits(),
            };
            if same && i.must[j] != Must::Out {
                at = Some(j);
                break;
            }
            if i.must[j] == Must::In {
                skipped += 1;
            }
            if skipped > i.slack {
                break;
            }
        }
        match at {
            Some(j) => {
                if i.ended {
                    engine::fail("C06.after-end", &format!("task {}: the iterator over {} yielded {:e} after it had ended", t, show(s, i.buf), x.val()));
                }
                engine::count(6, 1);
                engine::count(7, (i.pos..j).filter(|k| i.must[*k] == Must::Out).count() as u64);
                if (i.pos..j).any(|k| i.must[k] == Must::Out) {
                    engine::nontrivial();
                }
                i.pos = j + 1;
                i.slack = 0;
            }
            None => engine::fail(
                "C06.item",
                &format!("task {}: the iterator over {} yielded {:e} after passing {} samples (kept: {}), which is out of order, repeated, skips a retained sample, or should have been trimmed", t, show(s, i.buf), x.val(), i.pos, keep(&i.must)),
            ),
        }
    } else {
        for j in i.pos..buf.len() {
            if i.must[j] == Must::In {
                skipped += 1;
            }
        }
        if skipped > i.slack && !i.ended {
            engine::fail("C06.lost", &format!("task {}: the iterator over {} ended after passing {} samples although {} retained samples were left (kept: {})", t, show(s, i.buf), i.pos, skipped, keep(&i.must)));
        }
        if !i.ended {
            engine::count(7, (i.pos..buf.len()).filter(|k| i.must[*k] == Must::Out).count() as u64);
            if (i.pos..buf.len()).any(|k| i.must[k] == Must::Out) {
                engine::nontrivial();
            }
        }
        i.ended = true;
        i.pos = buf.len();
        i.slack = 0;
    }
}

fn keep(m: &[Must]) -> String {
    m.iter().take(60).map(|m| match m { Must::In => '1', Must::Out => '0', _ => '?' }).collect()
}

fn show(s: &Scenario, b: usize) -> String {
    let v: Vec<String> = s.table[b].a.iter().take(24).map(|x| fshow(*x)).collect();
    format!("buffer {} [{}{}]", b, v.join(", "), if s.table[b].a.len() > 24 { ", ..." } else { "" })
}

fn run(s: &Scenario) {
    rt::set_on_limit(|_| engine::fail("C06.no-progress", "a trimming call did not end"));
    unsafe {
        SCN = s;
        for o in &s.table {
            let v: Vec<f32> = o.a.iter().map(|x| f32::from_bits(*x as u32)).collect();
            let m: Vec<Sample> = v.iter().enumerate().map(|(i, x)| Sample { v: *x, id: i as u32 }).collect();
            F32BUF.push(Box::leak(v.into_boxed_slice()));
            SMPBUF.push(Box::leak(m.into_boxed_slice()));
        }
    }
    for _ in &s.tasks {
        unsafe {
            ITS.push(Box::new([const { None }; 3]));
            ITM.push(Box::new([const { None }; 3]));
        }
    }
    if s.table.is_empty() {
        return;
    }
    run_tasks(s, 0, one);
}

fn describe(s: &Scenario) -> Vec<String> {
    let mut l = vec![];
    for b in 0..s.table.len() {
        l.push(show(s, b));
    }
    for (t, ops) in s.tasks.iter().enumerate() {
        for o in ops {
            let slot = o.a[0] % 3;
            l.push(match o.code {
                NEW => format!(
                    "task {}: iterator {} := trim of buffer {} at {}{}", t, slot, o.a[1] as usize % s.table.len().max(1),
                    if o.a[3] == 0 { "the default".into() } else { fshow(o.a[2]) }, if o.a[4] > 0 { format!(", conversion {} fails", o.a[4]) } else { String::new() }
                ),
                NEXT => format!("task {}: next of iterator {}{}", t, slot, if o.a[1] > 0 { format!(", conversion {} fails", o.a[1]) } else { String::new() }),
                DRAIN => format!("task {}: drain iterator {}", t, slot),
                GAIN => format!("task {}: recalibrate the conversions by {}", t, GAINS[o.a[1] as usize % 6]),
                TAKE => format!("task {}: take {} from iterator {} (way {})", t, o.a[1], slot, o.a.get(2).unwrap_or(&0)),
                _ => format!("task {}: drop iterator {}", t, slot),
            });
        }
    }
    show_sched(s, &mut l);
    l
}
