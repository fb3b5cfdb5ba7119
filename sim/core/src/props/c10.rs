//! C10: replicas on different builds never diverge on the same log.
//!
//! Four replicas, each the real library compiled in another configuration
//! and loaded as a shared object, apply one log of operations to their state.
//! A leader sends the entries over a simulated network that loses,
//! duplicates, delays and reorders messages and partitions; replicas crash
//! and restart from their last checkpoint on a simulated disk. After every
//! entry the replica's results and state digest must equal those of the
//! first replica that applied that entry.

use crate::wl::*;
use mmops::MAX_ARGS;
use mmrt::engine::{self, PropDef, Tuning};
use mmrt::rng::{mix, Rng};
use mmrt::scen::{Op, Scenario};
use mmrt::{rt, sys};
use std::collections::BTreeMap;

pub static DEF: PropDef = PropDef {
    id: "C10",
    gen,
    run,
    runs: (60_000, 2_500_000),
    counters: &[
        "entries_applied",
        "entries_that_failed_in_every_build",
        "messages_sent",
        "messages_lost",
        "messages_duplicated",
        "messages_delayed_or_reordered",
        "messages_cut_by_a_partition",
        "partitions",
        "crashes",
        "restarts_from_a_checkpoint",
        "entries_applied_again_after_a_restart",
        "duplicate_entries_ignored",
        "retransmissions",
        "checkpoints_written",
        "digests_compared",
        "stream_entries",
        "nan_results_stored",
    ],
    rule: "a case is one seeded run: a log of 10 to 120 operations over 16 registers applied by 4 replicas of different builds under a seeded network, partition and crash plan; non-trivial when every replica applied the whole log and at least one message was lost or one replica restarted; distinct by hash of results and deliveries",
    describe,
    var_from: |c| if c as usize >= STREAM { 3 } else { 99 },
};

pub const NODES: [&str; 4] = ["dev", "release", "size-optimised", "release without integrations"];
const N: usize = 4;
const REGS: usize = 16;
const STREAM: usize = 0x1000;
const GIANT_RUN: u64 = 5;

type Apply = unsafe extern "C" fn(usize, *const u32, *mut u32) -> i32;
type Stream = unsafe extern "C" fn(usize, *const f32, usize, *mut u32) -> i32;
#[derive(Clone, Copy)]
struct Build {
    apply: Apply,
    stream: Stream,
}
static mut BUILDS: Vec<Build> = Vec::new();

/// Loads the four builds; called once, before the runs are forked.
pub fn load() {
    let dir = std::env::var("MMSIM_NODES").unwrap_or_default();
    for n in ["dev", "release", "small", "bare"] {
        let p = format!("{}/{}.so\0", dir, n);
        unsafe {
            let h = sys::dlopen(p.as_ptr(), 2);
            if h.is_null() {
                let e = std::ffi::CStr::from_ptr(sys::dlerror() as *const _).to_string_lossy().into_owned();
                eprintln!("mmsim: {}", e);
                std::process::exit(2);
            }
            let sym = |s: &str| {
                let f = sys::dlsym(h, s.as_ptr());
                if f.is_null() {
                    eprintln!("mmsim: no {} in {}", s, p);
                    std::process::exit(2);
                }
                f
            };
            let init: extern "C" fn() -> usize = std::mem::transmute(sym("mm_init\0"));
            if init() != mmops::count() {
                eprintln!("mmsim: {} has another catalogue", p);
                std::process::exit(2);
            }
            BUILDS.push(Build { apply: std::mem::transmute(sym("mm_apply\0")), stream: std::mem::transmute(sym("mm_stream\0")) });
        }
    }
}

/// Operations a log may hold: everything but those whose integer arithmetic
/// would overflow for the small arguments used here.
fn usable(code: usize) -> bool {
    let o = mmops::op(code);
    if o.name == "num.from_str_radix" {
        return false;
    }
    !(o.int && o.name.contains(".u") && o.name.ends_with(".dot"))
}
/// Small integer components that keep every integer result in range.
fn int_arg(o: &mmops::OpDef, i: usize, w: u32) -> u32 {
    let n = if o.name.starts_with("vec2") { 2 } else { 3 };
    if o.name.contains(".u") {
        if o.name.ends_with("_sq") {
            w % 8
        } else if i < n {
            8 + w % 8
        } else {
            1 + w % 8
        }
    } else if i < n {
        (w % 11).wrapping_sub(5)
    } else {
        [1u32, 2, 3, 4, 5, 0u32.wrapping_sub(1), 0u32.wrapping_sub(2), 0u32.wrapping_sub(5)][w as usize % 8]
    }
}

fn gen(r: &mut Rng, t: Tuning) -> Scenario {
    let mut s = Scenario::default();
    if t.run == GIANT_RUN {
        // One log with a single entry: a mean over more than 2^31 samples.
        s.tasks = vec![vec![Op { code: STREAM as u32, a: vec![0x1_0000 + r.below(3), 0, 0, 0x3f80_0000] }], vec![], vec![]];
        s.cfg = vec![1; 2 + REGS];
        return s;
    }
    let n = 10 + r.below(110);
    // Task 0: the log. Argument words: an immediate, or 1 << 32 | register.
    let mut log = vec![];
    let focus = r.below(mmops::count() as u64);
    for _ in 0..n {
        if r.chance(1, 16) {
            let mut a = vec![r.below(mmops::STREAMS as u64), r.below(REGS as u64), 0];
            for _ in 0..r.below(12) {
                a.push(arg(r, b'f'));
            }
            // Some streams repeat their items up to a great length.
            if r.chance(1, 30) {
                let most = if r.chance(1, 8) { 200_000 } else { 1_000 };
                a[2] = r.logu(most);
            }
            log.push(Op { code: STREAM as u32, a });
            continue;
        }
        let code = loop {
            let c = if r.chance(1, 10) { focus } else { r.below(mmops::count() as u64) };
            if usable(c as usize) {
                break c;
            }
        };
        let o = mmops::op(code as usize);
        let mut a = vec![r.below(REGS as u64)];
        for (i, k) in o.kinds.iter().enumerate() {
            a.push(if o.int { int_arg(o, i, r.u32()) as u64 } else { arg(r, *k) });
        }
        log.push(Op { code: code as u32, a });
    }
    s.tasks.push(log);
    // Task 1: fates of successive messages: 0 delivered at once, 1 lost,
    // 2 duplicated, else delayed so long.
    let mut fates = vec![];
    if r.chance(4, 5) {
        let (lose, dup, late) = (r.below(40), r.below(20), r.below(60));
        for _ in 0..40 + r.below(200) {
            let k = r.below(160);
            let code = if k < lose {
                1
            } else if k < lose + dup {
                2
            } else if k < lose + dup + late {
                3
            } else {
                0
            };
            fates.push(Op { code, a: vec![r.logu(60), r.logu(60)] });
        }
    }
    s.tasks.push(fates);
    // Task 2: crashes (time, node, downtime) and partitions (from, to, nodes).
    let mut ev = vec![];
    for _ in 0..r.below(5) {
        ev.push(Op { code: 0, a: vec![1 + r.below(4 * n), r.below(N as u64), 1 + r.logu(80)] });
    }
    for _ in 0..r.below(3) {
        let t = r.below(4 * n);
        ev.push(Op { code: 1, a: vec![t, t + r.logu(200), 1 + r.below(15)] });
    }
    s.tasks.push(ev);
    // Checkpoint interval, window, start values.
    s.cfg = vec![1 + r.logu(40), 1 + r.below(12)];
    for _ in 0..REGS {
        s.cfg.push(fbits_no_nan(r) as u64);
    }
    s
}
fn arg(r: &mut Rng, kind: u8) -> u64 {
    if kind == b'f' {
        if r.chance(2, 5) {
            1 << 32 | r.below(REGS as u64)
        } else {
            fbits_no_nan(r) as u64
        }
    } else {
        word(r, kind) as u64
    }
}

#[derive(Clone, PartialEq)]
struct State {
    reg: [u32; REGS],
    next: usize,
    hash: u64,
}
struct Node {
    up: bool,
    st: State,
    disk: State,
    peak: usize,
    /// Entries that arrived ahead of their turn.
    early: BTreeMap<usize, ()>,
}
#[derive(Clone)]
struct Canon {
    by: usize,
    n: i32,
    out: [u32; 32],
    hash: u64,
    args: Vec<u32>,
}

fn apply(who: usize, st: &mut State, o: &Op) -> (i32, [u32; 32], Vec<u32>) {
    let b = unsafe { BUILDS[who] };
    let fetch = |w: u64| -> u32 {
        let x = if w >> 32 != 0 { st.reg[w as usize % REGS] } else { w as u32 };
        if f32::from_bits(x).is_nan() {
            0x3f00_0000
        } else {
            x
        }
    };
    let mut out = [0u32; 32];
    let mut args;
    let n;
    if o.code as usize >= STREAM {
        args = o.a.get(3..).unwrap_or(&[]).iter().map(|w| fetch(*w)).collect::<Vec<u32>>();
        let mut v: Vec<f32> = args.iter().map(|w| f32::from_bits(*w)).collect();
        let long = o.a.get(2).map_or(0, |n| *n as usize % 1_000_000);
        if long > 0 && !v.is_empty() {
            let k = v.len();
            v.extend((k..long).map(|i| f32::from_bits(args[i % k])));
        }
        n = unsafe { (b.stream)(o.a[0] as usize, v.as_ptr(), v.len(), out.as_mut_ptr()) };
    } else {
        let d = mmops::op(o.code as usize);
        args = vec![0u32; MAX_ARGS];
        for (i, k) in d.kinds.iter().enumerate() {
            let w = o.a.get(1 + i).copied().unwrap_or(0);
            args[i] = if *k == b'f' { fetch(w) } else { w as u32 };
        }
        n = unsafe { (b.apply)(o.code as usize, args.as_ptr(), out.as_mut_ptr()) };
        args.truncate(d.kinds.len());
    }
    let dst = if o.code as usize >= STREAM { o.a[1] } else { o.a[0] } as usize;
    for i in 0..(n.max(0) as usize).min(8) {
        st.reg[(dst + i) % REGS] = out[i];
    }
    if n < 0 {
        st.reg[dst % REGS] = 0x3f80_0000;
    }
    st.next += 1;
    let mut h = mix(st.hash ^ n as u64);
    for w in &out[..(n.max(0) as usize).min(32)] {
        h = mix(h ^ *w as u64);
    }
    for w in &st.reg {
        h = mix(h ^ *w as u64);
    }
    st.hash = h;
    (n, out, args)
}

fn name(o: &Op) -> String {
    if o.code as usize >= STREAM {
        if o.a[0] >= 0x1_0000 {
            return format!("mean of {} equal samples", o.a[0] << 15);
        }
        format!("{} of a stream{}", mmops::stream_name(o.a[0] as usize), if o.a[2] > 0 { format!(" of {} items", o.a[2]) } else { String::new() })
    } else {
        mmops::op(o.code as usize).name.into()
    }
}
fn kinds(o: &Op) -> &'static [u8] {
    if o.code as usize >= STREAM {
        b""
    } else {
        mmops::op(o.code as usize).kinds
    }
}
fn res(n: i32, out: &[u32; 32]) -> String {
    if n < 0 {
        return "a panic".into();
    }
    let v: Vec<String> = out[..(n as usize).min(12)].iter().map(|w| format!("{:08x}", w)).collect();
    v.join(" ")
}

struct Net<'a> {
    q: BTreeMap<(u64, u64), (usize, usize, usize)>,
    seq: u64,
    fates: &'a [Op],
    sent: usize,
    parts: Vec<(u64, u64, u64)>,
}
/// The leader is at address N.
impl Net<'_> {
    fn cut(&self, now: u64, a: usize, b: usize) -> bool {
        self.parts.iter().any(|(f, t, m)| now >= *f && now < *t && (m >> a & 1) != (m >> b & 1))
    }
    fn send(&mut self, now: u64, from: usize, to: usize, x: usize) {
        engine::count(2, 1);
        if self.cut(now, from, to) {
            engine::count(6, 1);
            return;
        }
        let f = self.fates.get(self.sent);
        self.sent += 1;
        let mut put = |at: u64| {
            self.seq += 1;
            self.q.insert((at, self.seq), (from, to, x));
        };
        match f {
            None => put(now + 1),
            Some(f) => match f.code {
                1 => engine::count(3, 1),
                2 => {
                    engine::count(4, 1);
                    put(now + f.a[0]);
                    put(now + f.a[1]);
                }
                3 => {
                    engine::count(5, 1);
                    put(now + f.a[0]);
                }
                _ => put(now + 1),
            },
        }
    }
}

fn run(s: &Scenario) {
    let log = &s.tasks[0];
    let none = vec![];
    let fates = s.tasks.get(1).unwrap_or(&none);
    let events = s.tasks.get(2).unwrap_or(&none);
    let mut reg = [0u32; REGS];
    for i in 0..REGS {
        reg[i] = s.cfg.get(2 + i).copied().unwrap_or(0) as u32;
    }
    let every = s.cfg[0].max(1) as usize;
    let window = s.cfg[1].max(1) as usize;
    let start = State { reg, next: 0, hash: 0 };
    let mut nodes: Vec<Node> = (0..N).map(|_| Node { up: true, st: start.clone(), disk: start.clone(), peak: 0, early: BTreeMap::new() }).collect();
    let mut canon: Vec<Option<Canon>> = vec![None; log.len()];
    let mut acked = [0usize; N];
    let mut last_sent = [0u64; N];
    let mut net = Net { q: BTreeMap::new(), seq: 0, fates, sent: 0, parts: vec![] };
    // Timed events: (time, kind, node).
    let mut timed: Vec<(u64, u8, usize)> = vec![];
    let mut calm = 0;
    for e in events {
        if e.code == 0 {
            timed.push((e.a[0], 0, e.a[1] as usize % N));
            timed.push((e.a[0] + e.a[2], 1, e.a[1] as usize % N));
            calm = calm.max(e.a[0] + e.a[2]);
        } else {
            net.parts.push((e.a[0], e.a[1], e.a[2]));
            engine::count(7, 1);
            calm = calm.max(e.a[1]);
        }
    }
    timed.sort();
    let mut ti = 0;
    let mut now = 0u64;
    let mut faulted = false;
    // Faults stop by themselves (fates run out, events end); from then on
    // every replica must finish within a bounded time.
    let bound = calm + 70 * (fates.len() as u64 + 8) + 40 * log.len() as u64 + 1000;
    loop {
        while ti < timed.len() && timed[ti].0 <= now {
            let (_, k, w) = timed[ti];
            ti += 1;
            let nd = &mut nodes[w];
            if k == 0 && nd.up {
                engine::count(8, 1);
                faulted = true;
                nd.up = false;
                nd.early.clear();
                nd.st = State { reg: [0; REGS], next: 0, hash: 0 };
            } else if k == 1 && !nd.up {
                nd.up = true;
                nd.st = nd.disk.clone();
                if nd.st.next > 0 {
                    engine::count(9, 1);
                }
                let nx = nd.st.next;
                net.send(now, w, N, nx);
            }
        }
        // Deliveries due now.
        while let Some((&k, &(from, to, x))) = net.q.iter().next() {
            if k.0 > now {
                break;
            }
            net.q.remove(&k);
            rt::note((from * 7 + to) as u64 ^ (x as u64) << 8 ^ now << 24);
            if to == N {
                // A replica says which entry it needs next. After a restart
                // that number may be lower than before.
                acked[from] = x;
                continue;
            }
            let nd = &mut nodes[to];
            if !nd.up {
                continue;
            }
            if x < nd.st.next {
                engine::count(11, 1);
            } else {
                nd.early.insert(x, ());
            }
            while nd.early.remove(&nd.st.next).is_some() {
                let i = nd.st.next;
                let o = &log[i];
                let (n, out, args) = apply(to, &mut nd.st, o);
                engine::count(0, 1);
                engine::count(14, 1);
                if o.code as usize >= STREAM {
                    engine::count(15, 1);
                }
                if i < nd.peak {
                    engine::count(10, 1);
                }
                nd.peak = nd.peak.max(i + 1);
                match &canon[i] {
                    None => {
                        if n < 0 {
                            engine::count(1, 1);
                        }
                        if n > 0 && out[..(n as usize).min(32)].contains(&0x7fc0_0000) {
                            engine::count(16, 1);
                        }
                        rt::note(nd.st.hash);
                        canon[i] = Some(Canon { by: to, n, out, hash: nd.st.hash, args });
                    }
                    Some(c) => {
                        let len = (n.max(0) as usize).min(32);
                        if c.n != n || c.out[..len] != out[..len] || c.hash != nd.st.hash {
                            let a: Vec<String> = args.iter().enumerate().map(|(j, w)| if kinds(o).get(j).unwrap_or(&b'f') == &b'f' { fshow(*w as u64) } else { format!("{}", *w as i32) }).collect();
                            engine::fail(
                                "C10.diverged",
                                &format!("entry {} ({}) of ({}): replica {} ({}) got {}; replica {} ({}) got {}{}", i, name(o), a.join(", "), c.by, NODES[c.by], res(c.n, &c.out), to, NODES[to], res(n, &out),
                                    if c.args != args { " (the arguments differ already)" } else { "" }),
                            );
                        }
                    }
                }
                if nd.st.next % every == 0 {
                    nd.disk = nd.st.clone();
                    engine::count(13, 1);
                }
            }
            let nx = nd.st.next;
            net.send(now, to, N, nx);
        }
        // The leader: a window of entries to every replica, again on timeout.
        let mut all = true;
        for w in 0..N {
            if acked[w] >= log.len() && nodes[w].st.next >= log.len() && nodes[w].up {
                continue;
            }
            all = false;
            if last_sent[w] == 0 || now >= last_sent[w] + 20 || (net.q.is_empty() && now > last_sent[w]) {
                if last_sent[w] != 0 {
                    engine::count(12, 1);
                }
                last_sent[w] = now.max(1);
                if acked[w] >= log.len() {
                    acked[w] = 0; // it has lost its state: ask again
                }
                for x in acked[w]..(acked[w] + window).min(log.len()) {
                    net.send(now, N, w, x);
                }
            }
        }
        if all && ti >= timed.len() {
            break;
        }
        now += 1;
        if now > bound {
            engine::fail("C10.progress", "a replica did not finish the log although all faults have stopped");
        }
        rt::absorb(1, 0, 0, 0);
    }
    engine::sim_time(now);
    let h = nodes[0].st.hash;
    if nodes.iter().any(|n| n.st.hash != h) {
        engine::fail("C10.diverged", "the replicas end with different states");
    }
    if faulted || engine::counter(3) > 0 {
        engine::nontrivial();
    }
}

fn describe(s: &Scenario) -> Vec<String> {
    let mut l = vec![format!("four replicas ({}), checkpoint every {} entries, window {}", NODES.join(", "), s.cfg[0], s.cfg[1])];
    for (i, o) in s.tasks[0].iter().enumerate() {
        let from = if o.code as usize >= STREAM { 3 } else { 1 };
        let a: Vec<String> = o.a.iter().skip(from).map(|w| if w >> 32 != 0 { format!("r{}", *w as usize % REGS) } else { format!("{:x}", w) }).collect();
        let dst = if from == 3 { o.a[1] } else { o.a[0] };
        l.push(format!("entry {}: r{}.. = {} ({})", i, dst as usize % REGS, name(o), a.join(", ")));
    }
    if let Some(f) = s.tasks.get(1) {
        let v: Vec<String> = f.iter().take(60).map(|o| match o.code {
            1 => "lost".into(),
            2 => format!("twice(+{},+{})", o.a[0], o.a[1]),
            3 => format!("+{}", o.a[0]),
            _ => "ok".into(),
        }).collect();
        if !v.is_empty() {
            l.push(format!("messages: {}", v.join(" ")));
        }
    }
    if let Some(e) = s.tasks.get(2) {
        for o in e {
            l.push(if o.code == 0 {
                format!("at time {} replica {} crashes for {}", o.a[0], o.a[1] as usize % N, o.a[2])
            } else {
                format!("from time {} to {} the network is cut along {:04b}", o.a[0], o.a[1], o.a[2])
            });
        }
    }
    l
}
