//! A scenario is one complete simulated execution written down: what every
//! task does, which faults are injected where, and the schedule. Executing a
//! scenario is a pure function of the scenario and the code under test, so a
//! scenario file is the replay file.

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub code: u32,
    pub a: Vec<u64>,
}

/// One scheduling decision: run `task` until `q` events of `kind` happened.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Sw {
    pub task: u8,
    pub kind: u8,
    pub q: u32,
}
/// q counts every scheduling point.
pub const SW_STEPS: u8 = 0;
/// q counts accesses to writable static memory (state shared by contexts).
pub const SW_SHARED: u8 = 1;
/// as SW_STEPS, and then the task is stopped for ever.
pub const SW_STALL: u8 = 2;
/// as SW_SHARED, and then the task is stopped for ever.
pub const SW_STALL_SHARED: u8 = 3;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Scenario {
    pub cfg: Vec<u64>,
    pub table: Vec<Op>,
    pub tasks: Vec<Vec<Op>>,
    pub sched: Vec<Sw>,
}

#[derive(Clone, Debug, Default)]
pub struct Header {
    pub property: String,
    pub build: String,
    pub seed: u64,
    pub run: u64,
    pub class: String,
    pub detail: String,
}

fn nums(a: &[u64]) -> String {
    let mut s = String::new();
    for x in a {
        s.push_str(&format!(" {:x}", x));
    }
    s
}

pub fn to_text(h: &Header, s: &Scenario, notes: &[String]) -> String {
    let mut t = String::new();
    t.push_str("mmsim-replay 1\n");
    t.push_str(&format!(
        "property {}\nbuild {}\nseed {}\nrun {}\nclass {}\ndetail {}\n",
        h.property, h.build, h.seed, h.run, h.class, h.detail
    ));
    for n in notes {
        t.push_str(&format!("# {}\n", n));
    }
    t.push_str(&format!("cfg{}\n", nums(&s.cfg)));
    for o in &s.table {
        t.push_str(&format!("table {:x}{}\n", o.code, nums(&o.a)));
    }
    for k in &s.tasks {
        t.push_str("task\n");
        for o in k {
            t.push_str(&format!("op {:x}{}\n", o.code, nums(&o.a)));
        }
    }
    for w in &s.sched {
        t.push_str(&format!("sched {:x} {:x} {:x}\n", w.task, w.kind, w.q));
    }
    t.push_str("end\n");
    t
}

pub fn from_text(t: &str) -> Result<(Header, Scenario), String> {
    let mut h = Header::default();
    let mut s = Scenario::default();
    let mut lines = t.lines();
    if lines.next() != Some("mmsim-replay 1") {
        return Err("not a replay file".into());
    }
    for l in lines {
        let (key, rest) = l.split_once(' ').unwrap_or((l, ""));
        let hex = || -> Result<Vec<u64>, String> {
            rest.split_whitespace()
                .map(|w| u64::from_str_radix(w, 16).map_err(|e| format!("{l}: {e}")))
                .collect()
        };
        match key {
            "#" => {}
            "property" => h.property = rest.into(),
            "build" => h.build = rest.into(),
            "seed" => h.seed = rest.parse().map_err(|_| "seed")?,
            "run" => h.run = rest.parse().map_err(|_| "run")?,
            "class" => h.class = rest.into(),
            "detail" => h.detail = rest.into(),
            "cfg" => s.cfg = hex()?,
            "table" | "op" => {
                let v = hex()?;
                if v.is_empty() {
                    return Err(format!("bad line {l}"));
                }
                let o = Op { code: v[0] as u32, a: v[1..].to_vec() };
                if key == "table" {
                    s.table.push(o)
                } else {
                    s.tasks.last_mut().ok_or("op before task")?.push(o)
                }
            }
            "task" => s.tasks.push(vec![]),
            "sched" => {
                let v = hex()?;
                if v.len() != 3 {
                    return Err(format!("bad line {l}"));
                }
                s.sched.push(Sw { task: v[0] as u8, kind: v[1] as u8, q: v[2] as u32 })
            }
            "end" => return Ok((h, s)),
            _ => return Err(format!("bad line {l}")),
        }
    }
    Err("truncated replay file".into())
}
