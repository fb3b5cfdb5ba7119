//! mmsim: deterministic simulation of programs that use micromath.
//!
//!   mmsim run    --prop C01 --build dev --seed 1 --runs N [...]   JSON result on stdout
//!   mmsim replay FILE                                            exit 1 when the violation recurs
//!   mmsim gen    --prop C01 --build dev --seed 1 --run N         print one scenario
//!   mmsim steps                                                  measure the steps of every operation
#![allow(static_mut_refs)]
#![allow(clippy::all)]

mod cx;
mod props;
mod src_script;
mod wl;

use mmrt::engine::{self, Outcome, PropDef, Tuning};
use mmrt::scen::{self, Header};
use mmrt::{rt, sys};

fn arg(a: &[String], n: &str) -> Option<String> {
    a.iter().position(|x| x == n).and_then(|i| a.get(i + 1).cloned())
}
fn num(a: &[String], n: &str, d: u64) -> u64 {
    arg(a, n).map(|v| v.parse().unwrap_or_else(|_| die(&format!("bad {}", n)))).unwrap_or(d)
}
fn die(m: &str) -> ! {
    eprintln!("mmsim: {}", m);
    std::process::exit(2)
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn prop(id: &str) -> &'static PropDef {
    props::ALL.iter().find(|p| p.id == id).copied().unwrap_or_else(|| die(&format!("unknown property {}", id)))
}

fn prepare(p: &PropDef) {
    if p.id == "C10" {
        props::c10::load();
    }
    if p.id == "C33" {
        props::c33::load();
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    rt::init();
    engine::install_hook();
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => run(&a),
        Some("replay") => replay(&a),
        Some("gen") => {
            let p = prop(&arg(&a, "--prop").unwrap_or_default());
            let b = arg(&a, "--build").unwrap_or("dev".into());
            let t = Tuning { thorough: a.iter().any(|x| x == "--thorough"), run: 0 };
            let r = num(&a, "--run", 0);
            let s = engine::scenario(p, num(&a, "--seed", 1), &b, r, t);
            let h = Header { property: p.id.into(), build: b, seed: num(&a, "--seed", 1), run: r, ..Default::default() };
            print!("{}", scen::to_text(&h, &s, &(p.describe)(&s)));
        }
        Some("steps") => props::c02::measure(),
        _ => die("usage: run | replay FILE | gen | steps"),
    }
}

fn run(a: &[String]) {
    let p = prop(&arg(a, "--prop").unwrap_or_default());
    prepare(p);
    let build = arg(a, "--build").unwrap_or_else(|| die("--build"));
    let seed = num(a, "--seed", 1);
    let thorough = a.iter().any(|x| x == "--thorough");
    let t = Tuning { thorough, run: 0 };
    let runs = num(a, "--runs", if thorough { p.runs.1 } else { p.runs.0 });
    let start = num(a, "--start", 0);
    let jobs = num(a, "--jobs", 8).clamp(1, 64) as usize;
    let max = num(a, "--max-wall", 100000) as f64;
    let known = known_for(p.id, arg(a, "--known").as_deref());
    let b = engine::batch(p, seed, &build, start, runs, jobs, t, max, a.iter().any(|x| x == "--dump"), &known);
    let mut o = String::from("{");
    o.push_str(&format!(
        "\"property\":{},\"build\":{},\"seed\":{},\"start\":{},\"runs\":{},\"steps\":{},\"time\":{},\"distinct\":{},\"nontrivial\":{},\"replayed\":{},\"replay_mismatch\":{},\"known\":{},\"hash\":\"{:016x}\",\"wall\":{:.3},\"rule\":{},",
        js(p.id), js(&build), seed, start, b.runs, b.steps, b.time, b.distinct, b.nontrivial, b.replayed, b.replay_mismatch, b.known, b.hash, b.wall, js(p.rule)
    ));
    let c: Vec<String> = p.counters.iter().enumerate().map(|(i, n)| format!("{}:{}", js(n), b.counters[i])).collect();
    o.push_str(&format!("\"counters\":{{{}}},", c.join(",")));
    let k = num(a, "--samples", 2);
    let mut sm = vec![];
    for i in 0..k {
        let r = start + i;
        let s = engine::scenario(p, seed, &build, r, t);
        let mut l = (p.describe)(&s);
        l.truncate(10);
        sm.push(format!("{{\"run\":{},\"tasks\":{},\"ops\":{},\"decisions\":{},\"text\":{}}}", r, s.tasks.len(),
            s.tasks.iter().map(|t| t.len()).sum::<usize>(), s.sched.len(), js(&l.join(" | "))));
    }
    o.push_str(&format!("\"samples\":[{}]", sm.join(",")));
    if let Some((r, m)) = &b.error {
        o.push_str(&format!(",\"error\":{{\"run\":{},\"detail\":{}}}", r, js(m)));
    }
    if let Some((r, c, m)) = &b.violation {
        let s = engine::scenario(p, seed, &build, *r, t);
        let (ms, mm, tries) = engine::minimise(p, &s, c, num(a, "--min-budget", 20) as f64);
        let mut h = Header { property: p.id.into(), build: build.clone(), seed, run: *r, class: c.clone(), detail: mm.clone() };
        if mm.is_empty() {
            h.detail = m.clone();
        }
        let path = arg(a, "--replay-out").unwrap_or("replay.txt".into());
        engine::write_replay(&path, p, &h, &ms);
        let (o0, o1): (usize, usize) = (s.tasks.iter().map(|t| t.len()).sum(), ms.tasks.iter().map(|t| t.len()).sum());
        o.push_str(&format!(
            ",\"violation\":{{\"run\":{},\"class\":{},\"detail\":{},\"replay\":{},\"ops\":[{},{}],\"sched\":[{},{}],\"minimise_runs\":{}}}",
            r, js(c), js(&h.detail), js(&path), o0, o1, s.sched.len(), ms.sched.len(), tries
        ));
    }
    o.push('}');
    println!("{}", o);
}

fn known_for(id: &str, path: Option<&str>) -> Vec<String> {
    let mut v = vec![];
    if let Some(p) = path {
        for l in std::fs::read_to_string(p).unwrap_or_default().lines() {
            if let Some(r) = l.strip_prefix(&format!("finding: property={} match=", id)) {
                v.push(r.trim().to_string());
            }
        }
    }
    v
}

fn replay(a: &[String]) {
    let f = a.get(2).unwrap_or_else(|| die("replay FILE"));
    let t = std::fs::read_to_string(f).unwrap_or_else(|e| die(&format!("{}: {}", f, e)));
    let (h, s) = scen::from_text(&t).unwrap_or_else(|e| die(&e));
    let p = prop(&h.property);
    prepare(p);
    let pg = sys::shared::<engine::Page>(1);
    match engine::exec(p, &s, pg) {
        Outcome::Violation(c, m) => {
            println!("violation property={} class={} {}", h.property, c, m);
            if c == h.class && m == h.detail {
                println!("replay: reproduced exactly");
            } else {
                println!("replay: recorded was class={} {}", h.class, h.detail);
            }
            std::process::exit(1)
        }
        Outcome::Ok => {
            println!("replay: no violation");
            std::process::exit(0)
        }
        Outcome::Error(m) => die(&m),
    }
}
