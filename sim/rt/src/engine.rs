//! Batches of simulated runs, each in its own forked process image (so every
//! run starts from the same pristine state), violation minimisation, replay.

use crate::rng::{mix, Rng};
use crate::scen::{self, Header, Op, Scenario};
use crate::{rt, sys};
use std::collections::HashSet;
use std::time::Instant;

pub const NCOUNT: usize = 40;

#[repr(C)]
pub struct Page {
    status: u32,
    nontrivial: u32,
    class: [u8; 64],
    msg: [u8; 4000],
    pub hash: u64,
    pub steps: u64,
    pub time: u64,
    pub counters: [u64; NCOUNT],
}

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Ok,
    Violation(String, String),
    Error(String),
}

#[derive(Clone, Copy)]
pub struct Tuning {
    pub thorough: bool,
    /// Number of the run, for the rare scenarios that must occur once.
    pub run: u64,
}

pub struct PropDef {
    pub id: &'static str,
    pub gen: fn(&mut Rng, Tuning) -> Scenario,
    pub run: fn(&Scenario),
    /// (quick, thorough) runs per build.
    pub runs: (u64, u64),
    pub counters: &'static [&'static str],
    pub rule: &'static str,
    pub describe: fn(&Scenario) -> Vec<String>,
    /// First argument index that may be dropped when minimising an op.
    pub var_from: fn(u32) -> usize,
}

static mut PAGE: *mut Page = std::ptr::null_mut();
static mut PANIC: String = String::new();

fn page() -> &'static mut Page {
    unsafe { &mut *PAGE }
}

#[inline(never)]
pub fn count(i: usize, n: u64) {
    page().counters[i] += n;
}
/// A counter merged by maximum over the runs (names start with "longest" or "max").
#[inline(never)]
pub fn count_max(i: usize, n: u64) {
    let c = &mut page().counters[i];
    *c = (*c).max(n);
}
#[inline(never)]
pub fn counter(i: usize) -> u64 {
    page().counters[i]
}
/// Marks the run as having reached what the property is about.
#[inline(never)]
pub fn nontrivial() {
    page().nontrivial = 1;
}
/// Simulated time covered, in the property's own unit (steps by default).
#[inline(never)]
pub fn sim_time(t: u64) {
    page().time = t;
}

fn put(dst: &mut [u8], s: &str) {
    let b = s.as_bytes();
    let n = b.len().min(dst.len() - 1);
    dst[..n].copy_from_slice(&b[..n]);
    dst[n] = 0;
}
fn get(src: &[u8]) -> String {
    let n = src.iter().position(|&c| c == 0).unwrap_or(src.len());
    String::from_utf8_lossy(&src[..n]).replace('\n', " ")
}

/// Records the violation and ends the run.
#[inline(never)]
pub fn fail(class: &str, msg: &str) -> ! {
    let p = page();
    put(&mut p.class, class);
    put(&mut p.msg, msg);
    p.hash = mix(rt::hash() ^ 0xbad);
    p.steps = rt::steps();
    p.status = 2;
    unsafe { sys::_exit(0) }
}
#[inline(never)]
pub fn harness_error(msg: &str) -> ! {
    let p = page();
    put(&mut p.msg, msg);
    p.status = 3;
    unsafe { sys::_exit(0) }
}

#[inline(never)]
pub fn last_panic() -> String {
    unsafe { PANIC.replace('\n', " ") }
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| unsafe { rt::quiet(|| PANIC = i.to_string()) }));
}

/// True when a child process of this run has recorded a violation or error.
#[inline(never)]
pub fn failed() -> bool {
    page().status != 0
}
/// Ends the run as its child process left it.
#[inline(never)]
pub fn exit_failed() -> ! {
    unsafe { sys::_exit(0) }
}

/// Runs `f` in a forked copy of this process that writes its answer to
/// `out`; used for cold evaluations. Returns false if it did not finish.
pub fn in_fork(f: impl FnOnce()) -> bool {
    unsafe {
        let pid = sys::fork();
        if pid < 0 {
            harness_error("fork failed");
        }
        if pid == 0 {
            sys::prctl(1, 9, 0, 0, 0);
            f();
            sys::_exit(0)
        }
        let mut st = 0;
        while sys::waitpid(pid, &mut st, 0) < 0 {}
        st == 0
    }
}

fn merge(p: &PropDef, k: usize, to: &mut u64, x: u64) {
    match p.counters.get(k) {
        Some(n) if n.starts_with("longest") || n.starts_with("most_") || n.starts_with("max_") => *to = (*to).max(x),
        _ => *to += x,
    }
}

pub fn exec(p: &PropDef, s: &Scenario, pg: *mut Page) -> Outcome {
    unsafe {
        std::ptr::write_bytes(pg as *mut u8, 0, std::mem::size_of::<Page>());
        let pid = sys::fork();
        if pid < 0 {
            return Outcome::Error("fork failed".into());
        }
        if pid == 0 {
            PAGE = pg;
            sys::prctl(1, 9, 0, 0, 0); // die with the parent
            sys::setrlimit(sys::RLIMIT_CORE, &[0, 0]);
            sys::setrlimit(sys::RLIMIT_CPU, &[60, 60]);
            (p.run)(s);
            let g = page();
            g.hash = rt::hash();
            g.steps = rt::steps();
            if g.time == 0 {
                g.time = g.steps;
            }
            g.status = 1;
            sys::_exit(0)
        }
        let mut st = 0;
        while sys::waitpid(pid, &mut st, 0) < 0 {}
        let g = &*pg;
        match g.status {
            1 => Outcome::Ok,
            2 => Outcome::Violation(get(&g.class), get(&g.msg)),
            3 => Outcome::Error(get(&g.msg)),
            _ => {
                let sig = st & 0x7f;
                match sig {
                    24 | 9 => Outcome::Violation(format!("{}.hang", p.id), "the run used 60 s of CPU time without ending (a library call never reached a scheduling point again)".into()),
                    0 => Outcome::Error(format!("run process exited with status {:#x}", st)),
                    _ => Outcome::Violation(format!("{}.crash", p.id), format!("the process died of signal {}", sig)),
                }
            }
        }
    }
}

pub struct Batch {
    pub runs: u64,
    pub steps: u64,
    pub time: u64,
    pub distinct: u64,
    pub nontrivial: u64,
    pub replayed: u64,
    pub replay_mismatch: u64,
    /// Runs that ended in a violation listed as a known finding.
    pub known: u64,
    pub counters: [u64; NCOUNT],
    pub violation: Option<(u64, String, String)>,
    pub error: Option<(u64, String)>,
    pub hash: u64,
    pub wall: f64,
}

#[repr(C)]
struct Shared {
    viol: [u64; 64],
    err: [u64; 64],
    errmsg: [[u8; 400]; 64],
    done: [u64; 64],
    steps: [u64; 64],
    time: [u64; 64],
    nontrivial: [u64; 64],
    replayed: [u64; 64],
    mismatch: [u64; 64],
    known: [u64; 64],
    hash: [u64; 64],
    counters: [[u64; NCOUNT]; 64],
}

pub fn scenario(p: &PropDef, seed: u64, build: &str, run: u64, t: Tuning) -> Scenario {
    let pid = p.id.bytes().fold(0u64, |a, b| a << 8 | b as u64);
    // Both builds see the same scenarios for even runs and their own for odd ones.
    let b = if run % 2 == 0 { 0 } else { build.bytes().fold(0u64, |a, b| a << 8 | b as u64) };
    let mut r = Rng::new(&[seed, pid, b, run]);
    (p.gen)(&mut r, Tuning { run, ..t })
}

#[allow(clippy::too_many_arguments)]
pub fn batch(p: &PropDef, seed: u64, build: &str, start: u64, runs: u64, jobs: usize, t: Tuning, max_wall: f64, dump: bool, known: &[String]) -> Batch {
    let t0 = Instant::now();
    let sh = sys::shared::<Shared>(1);
    let hashes = sys::shared::<u64>(runs as usize + 1);
    unsafe {
        for w in 0..64 {
            (*sh).viol[w] = u64::MAX;
            (*sh).err[w] = u64::MAX;
        }
        let mut pids = vec![];
        for w in 0..jobs {
            let pid = sys::fork();
            if pid == 0 {
                sys::prctl(1, 9, 0, 0, 0);
                let pg = sys::shared::<Page>(1);
                let s = &mut *sh;
                let mut i = w as u64;
                while i < runs {
                    if t0.elapsed().as_secs_f64() > max_wall {
                        break;
                    }
                    let best = (0..jobs).map(|k| std::ptr::read_volatile(&s.viol[k]).min(std::ptr::read_volatile(&s.err[k]))).min().unwrap();
                    if i > best {
                        break;
                    }
                    let sc = scenario(p, seed, build, start + i, t);
                    let o = exec(p, &sc, pg);
                    let g = &*pg;
                    s.done[w] += 1;
                    s.steps[w] += g.steps;
                    s.time[w] += g.time;
                    for k in 0..NCOUNT {
                        merge(p, k, &mut s.counters[w][k], g.counters[k]);
                    }
                    s.hash[w] = s.hash[w].wrapping_add(mix(g.hash ^ mix(i)));
                    *hashes.add(i as usize) = if g.nontrivial != 0 { g.hash | 1 } else { 0 };
                    if g.nontrivial != 0 {
                        s.nontrivial[w] += 1;
                    }
                    if dump {
                        println!("{} {:016x} {:?}", start + i, g.hash, o);
                    }
                    match o {
                        Outcome::Ok => {
                            // One run in 61 is executed twice: same seed, same execution.
                            if i % 61 == 7 {
                                let (h, c) = (g.hash, g.steps);
                                exec(p, &sc, pg);
                                s.replayed[w] += 1;
                                if (*pg).hash != h || (*pg).steps != c {
                                    s.mismatch[w] += 1;
                                }
                            }
                        }
                        Outcome::Violation(c, m) if known.iter().any(|k| format!("{} {}", c, m).contains(k.as_str())) => s.known[w] += 1,
                        Outcome::Violation(..) => {
                            s.viol[w] = i;
                            break;
                        }
                        Outcome::Error(m) => {
                            s.err[w] = i;
                            put(&mut s.errmsg[w], &m);
                            break;
                        }
                    }
                    i += jobs as u64;
                }
                sys::_exit(0)
            }
            pids.push(pid);
        }
        for pid in pids {
            let mut st = 0;
            while sys::waitpid(pid, &mut st, 0) < 0 {}
        }
        let s = &*sh;
        let mut b = Batch {
            runs: 0,
            steps: 0,
            time: 0,
            distinct: 0,
            nontrivial: 0,
            replayed: 0,
            replay_mismatch: 0,
            known: 0,
            counters: [0; NCOUNT],
            violation: None,
            error: None,
            hash: 0,
            wall: 0.0,
        };
        let mut v = u64::MAX;
        let mut e = (u64::MAX, 0);
        for w in 0..jobs {
            b.runs += s.done[w];
            b.steps += s.steps[w];
            b.time += s.time[w];
            b.nontrivial += s.nontrivial[w];
            b.replayed += s.replayed[w];
            b.replay_mismatch += s.mismatch[w];
            b.known += s.known[w];
            b.hash = b.hash.wrapping_add(s.hash[w]);
            for k in 0..NCOUNT {
                merge(p, k, &mut b.counters[k], s.counters[w][k]);
            }
            v = v.min(s.viol[w]);
            if s.err[w] < e.0 {
                e = (s.err[w], w);
            }
        }
        let mut set = HashSet::new();
        for i in 0..runs as usize {
            let h = *hashes.add(i);
            if h != 0 {
                set.insert(h);
            }
        }
        b.distinct = set.len() as u64;
        if v != u64::MAX {
            let pg = sys::shared::<Page>(1);
            let sc = scenario(p, seed, build, start + v, t);
            match exec(p, &sc, pg) {
                Outcome::Violation(c, m) => b.violation = Some((start + v, c, m)),
                o => b.violation = Some((start + v, format!("{}.unstable", p.id), format!("the violation did not recur on re-execution ({:?})", o))),
            }
        } else if e.0 != u64::MAX {
            b.error = Some((start + e.0, get(&s.errmsg[e.1])));
        }
        b.wall = t0.elapsed().as_secs_f64();
        b
    }
}

/// Shrinks the scenario while a violation of the same class persists.
pub fn minimise(p: &PropDef, s0: &Scenario, class: &str, budget_s: f64) -> (Scenario, String, u64) {
    let pg = sys::shared::<Page>(1);
    let t0 = Instant::now();
    let mut tries = 0u64;
    let mut best = s0.clone();
    let mut msg = String::new();
    let mut test = |s: &Scenario, msg: &mut String| -> bool {
        if t0.elapsed().as_secs_f64() > budget_s {
            return false;
        }
        tries += 1;
        match exec(p, s, pg) {
            Outcome::Violation(c, m) if c == class => {
                *msg = m;
                true
            }
            _ => false,
        }
    };
    test(&best.clone(), &mut msg);
    loop {
        let before = best.clone();
        // No preemption at all?
        if !best.sched.is_empty() {
            let mut c = best.clone();
            c.sched.clear();
            if test(&c, &mut msg) {
                best = c;
            }
        }
        // Whole tasks.
        let mut k = 0;
        while k < best.tasks.len() && best.tasks.len() > 1 {
            let mut c = best.clone();
            c.tasks[k].clear();
            if c.tasks[k] != best.tasks[k] && test(&c, &mut msg) {
                best = c;
            }
            k += 1;
        }
        // Ops of each task, in halving chunks.
        for k in 0..best.tasks.len() {
            let mut chunk = best.tasks[k].len().max(1);
            while chunk >= 1 {
                let mut i = 0;
                while i < best.tasks[k].len() {
                    let mut c = best.clone();
                    let e = (i + chunk).min(c.tasks[k].len());
                    c.tasks[k].drain(i..e);
                    if test(&c, &mut msg) {
                        best = c;
                    } else {
                        i += chunk;
                    }
                }
                if chunk == 1 {
                    break;
                }
                chunk /= 2;
            }
        }
        // Schedule entries.
        let mut chunk = best.sched.len().max(1);
        while chunk >= 1 {
            let mut i = 0;
            while i < best.sched.len() {
                let mut c = best.clone();
                let e = (i + chunk).min(c.sched.len());
                c.sched.drain(i..e);
                if test(&c, &mut msg) {
                    best = c;
                } else {
                    i += chunk;
                }
            }
            if chunk == 1 {
                break;
            }
            chunk /= 2;
        }
        // Op arguments: drop trailing list elements, then simplify words.
        let nt = best.tasks.len();
        for k in 0..=nt {
            let n = if k < nt { best.tasks[k].len() } else { best.table.len() };
            for i in 0..n {
                let from = (p.var_from)(at(&mut best, k, i).code);
                let mut j = at(&mut best, k, i).a.len();
                while j > from {
                    j -= 1;
                    let mut c = best.clone();
                    at(&mut c, k, i).a.remove(j);
                    if test(&c, &mut msg) {
                        best = c;
                    }
                }
                let len = at(&mut best, k, i).a.len();
                for j in 0..len {
                    let v = at(&mut best, k, i).a[j];
                    for nv in [0, 1, v / 2, v & v.wrapping_sub(1), if v <= 64 { v.saturating_sub(1) } else { v }] {
                        if nv < at(&mut best, k, i).a[j] {
                            let mut c = best.clone();
                            at(&mut c, k, i).a[j] = nv;
                            if test(&c, &mut msg) {
                                best = c;
                                if nv == 0 {
                                    break;
                                }
                            }
                        }
                    }
                }
            }
        }
        // Quanta.
        for i in 0..best.sched.len() {
            for nq in [1, best.sched[i].q / 2, if best.sched[i].q <= 200 { best.sched[i].q.saturating_sub(1) } else { u32::MAX }] {
                if nq >= 1 && nq < best.sched[i].q {
                    let mut c = best.clone();
                    c.sched[i].q = nq;
                    if test(&c, &mut msg) {
                        best = c;
                    }
                }
            }
        }
        if best == before || t0.elapsed().as_secs_f64() > budget_s {
            break;
        }
    }
    // Trailing tasks that no longer do anything (numbering stays as it is).
    (best, msg, tries)
}

/// The i-th op of task k, or of the table if k is past the tasks.
fn at(s: &mut Scenario, k: usize, i: usize) -> &mut Op {
    if k < s.tasks.len() {
        &mut s.tasks[k][i]
    } else {
        &mut s.table[i]
    }
}

pub fn write_replay(path: &str, p: &PropDef, h: &Header, s: &Scenario) {
    let notes = (p.describe)(s);
    if let Err(e) = std::fs::write(path, scen::to_text(h, s, &notes)) {
        eprintln!("cannot write {}: {}", path, e);
        std::process::exit(2);
    }
}
