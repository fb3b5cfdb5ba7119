//! Shared workload pieces: argument pools, schedules, fault plans, and the
//! wrapper around every call into the library.

use mmrt::engine;
use mmrt::rng::Rng;
use mmrt::rt;
use mmrt::scen::{Op, Scenario, Sw, SW_SHARED, SW_STALL, SW_STALL_SHARED, SW_STEPS};

pub struct Injected;

pub enum Got<T> {
    Val(T),
    /// true: an injected fault surfaced.
    Panic(bool),
}

/// Step limit for calls whose step count is not itself the property.
pub const LOOSE: u64 = 3_000_000;

/// One call into the library, with scheduling points on.
pub fn lib<T>(limit: u64, f: impl FnOnce() -> T) -> Got<T> {
    rt::op_begin(limit);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    rt::op_end();
    match r {
        Ok(v) => Got::Val(v),
        Err(e) => Got::Panic(e.is::<Injected>()),
    }
}

/// A nested call made from inside a library call (re-entrancy).
pub fn nested<T>(f: impl FnOnce() -> T) -> T {
    f()
}

// ---------------------------------------------------------------- faults

#[derive(Clone, Copy)]
pub struct Plan {
    /// Fault points passed so far in this call.
    pub n: u64,
    /// Fail at this fault point (1-based; 0: never).
    pub at: u64,
    pub fired: bool,
}
static mut PLANS: [Plan; 17] = [Plan { n: 0, at: 0, fired: false }; 17];

pub fn plan() -> &'static mut Plan {
    unsafe { &mut PLANS[rt::cur().min(16)] }
}
pub fn arm(at: u64) {
    *plan() = Plan { n: 0, at, fired: false };
}
pub fn disarm() -> Plan {
    let p = *plan();
    *plan() = Plan { n: 0, at: 0, fired: false };
    p
}
/// A place where caller-supplied code runs inside a library call: a
/// scheduling point, and the place where the armed fault strikes.
pub fn fault_point() {
    rt::seam();
    let hit = rt::quiet(|| {
        let p = plan();
        p.n += 1;
        if p.n == p.at {
            p.fired = true;
            return true;
        }
        false
    });
    if hit {
        inject();
    }
}
#[inline(never)]
pub fn inject() -> ! {
    std::panic::panic_any(Injected)
}

// ---------------------------------------------------------------- values

const SPECIAL: [u32; 64] = [
    0x0000_0000, 0x8000_0000, 0x3f80_0000, 0xbf80_0000, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000, 0xffc0_0000,
    0x0000_0001, 0x8000_0001, 0x007f_ffff, 0x0080_0000, 0x7f7f_ffff, 0xff7f_ffff, 0x3400_0000, 0x4049_0fdb,
    0x3fc9_0fdb, 0x40c9_0fdb, 0xc049_0fdb, 0xbfc9_0fdb, 0x3f00_0000, 0xbf00_0000, 0x3fc0_0000, 0x4020_0000,
    0x4b00_0000, 0x4b80_0000, 0x4f00_0000, 0x4f80_0000, 0xcf00_0000, 0x42b1_7218, 0x42b1_8000, 0x42b2_0000,
    0xc2ae_ac50, 0xc2b0_0000, 0x42fe_0000, 0x4300_0000, 0x3f35_04f3, 0x3eff_ffff, 0x3f7f_ffff, 0x3f80_0001,
    0x4000_0000, 0xc000_0000, 0x4040_0000, 0x4080_0000, 0x40a0_0000, 0x4120_0000, 0x42c8_0000, 0x447a_0000,
    0x4e6e_6b28, 0x5f00_0000, 0x5f80_0000, 0x1f80_0000, 0x2000_0000, 0x3727_c5ac, 0x358637bd, 0x3dcc_cccd,
    0x3e4c_cccd, 0x402d_f854, 0x3f31_7218, 0x4013_5d8e, 0x4ac0_0001, 0x3780_0000, 0x7e80_0000, 0x0d80_0000,
];

/// A float's bits.
pub fn fbits(r: &mut Rng) -> u32 {
    match r.below(10) {
        0 | 1 => *r.pick(&SPECIAL),
        2 => r.u32(),
        3 => (r.range(-40, 40) as f32).to_bits(),
        4 => (r.range(-40, 40) as f32 * 0.25).to_bits(),
        5 => ((r.unit() * 2.0 - 1.0) as f32).to_bits(),
        6 => ((r.unit() * 2.0 - 1.0) as f32 * 100.0).to_bits(),
        7 => ((r.unit() * 20.0 - 10.0) as f32).to_bits(),
        8 => {
            let e = r.range(-44, 38) as i32;
            (((r.unit() * 2.0 - 1.0) * 10f64.powi(e)) as f32).to_bits()
        }
        _ => {
            let s = *r.pick(&SPECIAL);
            near(r, s)
        }
    }
}
pub fn fbits_no_nan(r: &mut Rng) -> u32 {
    loop {
        let b = fbits(r);
        if !f32::from_bits(b).is_nan() {
            return b;
        }
    }
}
/// A value that differs a little from `x`, in one of several senses.
pub fn near(r: &mut Rng, x: u32) -> u32 {
    match r.below(8) {
        0 => x.wrapping_add(1 + r.below(3) as u32),
        1 => x.wrapping_sub(1 + r.below(3) as u32),
        2 => x ^ 0x8000_0000,
        3 => x ^ (1 << r.below(32)),
        4 => (x & 0xffff_0000) | (r.u32() & 0xffff),
        5 => (x & 0x0000_ffff) | (r.u32() & 0xffff_0000),
        6 => x.wrapping_add(0x0080_0000),
        _ => x,
    }
}
pub fn ibits(r: &mut Rng) -> u32 {
    match r.below(8) {
        0 => *r.pick(&[0, 1, 2, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff]),
        1 => r.u32(),
        2 => r.range(-128, 127) as u32,
        _ => r.range(-12, 12) as u32,
    }
}
pub fn nbits(r: &mut Rng) -> u32 {
    match r.below(8) {
        0 => *r.pick(&[0x8000_0000, 0x8000_0001, 0x7fff_ffff, 0x7fff_fffe, 0, 1, u32::MAX, 0x4000_0000, 0xc000_0000]),
        1 => r.u32(),
        2 => r.range(-200, 200) as u32,
        _ => r.range(-9, 9) as u32,
    }
}
pub fn word(r: &mut Rng, kind: u8) -> u32 {
    match kind {
        b'f' => fbits(r),
        b'i' => ibits(r),
        b'n' => nbits(r),
        _ => r.u32() & 0xff,
    }
}
pub fn words(r: &mut Rng, kinds: &[u8]) -> Vec<u64> {
    // Often of one magnitude, or repeated, so that arguments relate.
    let same = r.chance(1, 6);
    let mut v: Vec<u64> = vec![];
    for (i, k) in kinds.iter().enumerate() {
        if same && i > 0 && kinds[0] == *k {
            v.push(near(r, v[0] as u32) as u64);
        } else {
            v.push(word(r, *k) as u64);
        }
    }
    v
}
/// Finite, moderate value.
pub fn fmod(r: &mut Rng) -> f32 {
    match r.below(4) {
        0 => r.range(-20, 20) as f32,
        1 => (r.unit() * 2.0 - 1.0) as f32,
        2 => (r.unit() * 2000.0 - 1000.0) as f32,
        _ => r.range(-4000, 4000) as f32 * 0.125,
    }
}
pub fn same(a: f32, b: f32) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}
pub fn canon(a: f32) -> u32 {
    if a.is_nan() {
        0x7fc0_0000
    } else {
        a.to_bits()
    }
}

// ---------------------------------------------------------------- schedules

/// A seeded schedule for `n` tasks; `scale` is the typical number of
/// scheduling points of one call.
pub fn schedule(r: &mut Rng, n: usize, scale: u64, stalls: bool) -> Vec<Sw> {
    let mut v = vec![];
    let style = r.below(6);
    let len = 1 + r.below(60);
    let mut cur = r.below(n as u64) as u8;
    let mut i = 0;
    while i < len {
        i += 1;
        let (kind, q) = match style {
            // Fine-grained round robin / random.
            0 => (SW_STEPS, 1 + r.below(6)),
            1 => (SW_STEPS, r.logu(scale * 4)),
            // Few, far apart switches at uniformly random points.
            2 => (SW_STEPS, 1 + r.below(scale * 8)),
            // Switch right after accesses to shared state.
            3 => (SW_SHARED, 1 + r.below(5)),
            // Interrupts: task 0 is suspended while another runs to its end.
            4 => {
                v.push(Sw { task: 0, kind: if r.chance(1, 3) { SW_SHARED } else { SW_STEPS }, q: r.logu(scale * 2) as u32 });
                v.push(Sw { task: (1 + r.below(n.max(2) as u64 - 1)) as u8, kind: SW_STEPS, q: 1_000_000 });
                continue;
            }
            _ => {
                if r.chance(1, 2) {
                    (SW_SHARED, 1 + r.below(3))
                } else {
                    (SW_STEPS, r.logu(scale * 2))
                }
            }
        };
        let kind = if stalls && r.chance(1, 24) {
            if kind == SW_SHARED || r.chance(1, 3) {
                SW_STALL_SHARED
            } else {
                SW_STALL
            }
        } else {
            kind
        };
        v.push(Sw { task: cur, kind, q: q as u32 });
        cur = r.below(n as u64) as u8;
    }
    v
}

pub fn show_sched(s: &Scenario, l: &mut Vec<String>) {
    if s.sched.is_empty() {
        return;
    }
    let mut t = String::from("schedule:");
    for w in s.sched.iter().take(40) {
        let k = match w.kind {
            SW_STEPS => "points",
            SW_SHARED => "shared accesses",
            SW_STALL => "points then stopped for ever",
            _ => "shared accesses then stopped for ever",
        };
        t.push_str(&format!(" task {} for {} {};", w.task, w.q, k));
    }
    l.push(t);
}
pub fn fshow(b: u64) -> String {
    format!("{:e}", f32::from_bits(b as u32))
}
pub fn var0(_c: u32) -> usize {
    0
}
pub fn var_none(_c: u32) -> usize {
    usize::MAX
}

/// Spawns one fiber per task, runs the schedule, accounts for it in the four
/// counters from `base` (preemptions, stalls, shared accesses, futex waits).
pub fn run_tasks(s: &Scenario, base: usize, f: fn(usize, &'static Op)) -> rt::End {
    for (t, ops) in s.tasks.iter().enumerate() {
        let ops: &'static Vec<Op> = unsafe { &*(ops as *const Vec<Op>) };
        rt::spawn(Box::new(move || {
            for o in ops {
                f(t, o)
            }
        }));
    }
    let e = rt::run(&s.sched);
    engine::count(base, rt::switches());
    engine::count(base + 1, e.stalled);
    engine::count(base + 2, rt::shared_accesses());
    engine::count(base + 3, rt::blocked());
    e
}

/// Readings of every size for a sweep.
pub fn grain(h: u64) -> f32 {
    let m = (h >> 8) as u32;
    match h & 7 {
        0 | 1 => f32::from_bits(m),
        2 | 3 => f32::from_bits(m & 0x807f_ffff | (87 + (m >> 24) % 80) << 23),
        4 => 1.0 + (m as i32 as f32) * 2f32.powi(-32 - (h >> 40) as i32 % 20),
        5 => (m % 4001) as f32 - 2000.0,
        6 => ((m % 4001) as f32 - 2000.0) / (1 << (h >> 40 & 15)) as f32,
        _ => f32::from_bits(m & 0x8000_0000 | ((m >> 4) & 0xff) << 23 | ((h >> 40) & 3) as u32 * 0x20_0000),
    }
}
