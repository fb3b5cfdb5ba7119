//! The simulated machine: cooperative contexts ("fibers") on one OS thread,
//! with a scheduling point before every basic block, load and store of the
//! instrumented code and at every harness seam (stream reads, sink writes,
//! component arithmetic, callbacks). Which context runs, and for how many
//! scheduling points, is decided only by the scenario's schedule.
//!
//! This crate is not instrumented; the callbacks below are called by the
//! instrumented crates (micromath and mmops).

use crate::scen::{Sw, SW_SHARED, SW_STALL, SW_STALL_SHARED};
use crate::sys;

pub const NONE: usize = usize::MAX;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    Ready,
    Waiting(usize),
    Stalled,
    Diverged,
    Done,
}

pub struct Fiber {
    sp: usize,
    pub st: St,
    own: u64,
    limit: u64,
    trace: u64,
    active: bool,
    pub total: u64,
    base: usize,
    low: usize,
    f: Option<Box<dyn FnOnce()>>,
}

#[derive(PartialEq, Clone, Copy)]
enum Q {
    Off,
    Steps,
    Shared,
}

struct Rt {
    fibers: Vec<Fiber>,
    cur: usize,
    active: bool,
    own: u64,
    limit: u64,
    /// Hash of the places the current call passed, while watched.
    trace: u64,
    watch: bool,
    /// Largest stack a call may use while stacks are measured (0: they are not).
    deep: usize,
    /// Stack pointer where the current call began, and the lowest since.
    base: usize,
    low: usize,
    on_deep: fn(usize),
    on_heap: fn(usize),
    heap_gone: bool,
    qkind: Q,
    q: u64,
    sched_sp: usize,
    lo: usize,
    len: usize,
    on_limit: fn(usize),
    pub steps: u64,
    pub shared: u64,
    pub switches: u64,
    pub blocked: u64,
    hash: u64,
    crash_at: u64,
    on_crash: fn(),
}

static mut RT: Rt = Rt {
    fibers: Vec::new(),
    cur: NONE,
    active: false,
    own: 0,
    limit: u64::MAX,
    trace: 0,
    watch: false,
    deep: 0,
    base: 0,
    low: 0,
    on_deep: |_| {},
    on_heap: |_| {},
    heap_gone: false,
    qkind: Q::Off,
    q: 0,
    sched_sp: 0,
    lo: 0,
    len: 0,
    on_limit: |_| {},
    steps: 0,
    shared: 0,
    switches: 0,
    blocked: 0,
    hash: 0x1234_5678_9abc_def0,
    crash_at: u64::MAX,
    on_crash: || {},
};

#[inline(always)]
fn rt() -> &'static mut Rt {
    unsafe { &mut *std::ptr::addr_of_mut!(RT) }
}

std::arch::global_asm!(
    ".globl mm_switch",
    "mm_switch:",
    "push rbp",
    "push rbx",
    "push r12",
    "push r13",
    "push r14",
    "push r15",
    "mov [rdi], rsp",
    "mov rsp, rsi",
    "pop r15",
    "pop r14",
    "pop r13",
    "pop r12",
    "pop rbx",
    "pop rbp",
    "ret",
);
extern "C" {
    fn mm_switch(save: *mut usize, to: usize);
}

/// Finds the program's writable static memory, so that accesses to state
/// shared between contexts can be told from stack accesses.
#[inline(never)]
pub fn init() {
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
    let exe = std::fs::read_link("/proc/self/exe").map(|p| p.to_string_lossy().into_owned()).unwrap_or_default();
    let (mut lo, mut hi) = (usize::MAX, 0);
    let mut last_exe_end = 0;
    for l in maps.lines() {
        let mut it = l.split_whitespace();
        let (range, perm) = (it.next().unwrap_or(""), it.next().unwrap_or(""));
        let (a, b) = range.split_once('-').unwrap_or(("0", "0"));
        let (a, b) = (usize::from_str_radix(a, 16).unwrap_or(0), usize::from_str_radix(b, 16).unwrap_or(0));
        let path = it.nth(3).unwrap_or("");
        // The .bss is an anonymous mapping right behind the program's data.
        let mine = path == exe || (path.is_empty() && a == last_exe_end);
        if mine {
            last_exe_end = b;
            if perm.starts_with("rw") {
                lo = lo.min(a);
                hi = hi.max(b);
            }
        }
    }
    if lo < hi {
        rt().lo = lo;
        rt().len = hi - lo;
    }
}

#[inline(always)]
fn step(addr: usize, place: usize) {
    let r = rt();
    if !r.active {
        return;
    }
    r.steps += 1;
    r.own += 1;
    if r.watch {
        r.trace = (r.trace ^ place as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(23);
    }
    if r.deep != 0 {
        let sp = stack_pointer();
        if sp < r.low {
            r.low = sp;
            if r.base - sp > r.deep {
                too_deep();
            }
        }
    }
    if r.steps >= r.crash_at {
        crash();
    }
    let shared = addr.wrapping_sub(r.lo) < r.len;
    if shared {
        r.shared += 1;
    }
    if r.own > r.limit {
        over_limit();
    }
    match r.qkind {
        Q::Off => {}
        Q::Steps => tick(),
        Q::Shared => {
            if shared {
                tick()
            }
        }
    }
}

#[inline(always)]
fn stack_pointer() -> usize {
    let sp: usize;
    unsafe { std::arch::asm!("mov {}, rsp", out(reg) sp, options(nomem, nostack, preserves_flags)) };
    sp
}

#[cold]
#[inline(never)]
fn too_deep() {
    let r = rt();
    if std::thread::panicking() {
        return;
    }
    r.active = false;
    (r.on_deep)(r.base - r.low);
    r.active = true;
}

/// From here on the stack used by every call is measured; a call that uses
/// more than `limit` bytes is reported.
pub fn measure_stack(limit: usize, f: fn(usize)) {
    let r = rt();
    r.deep = limit;
    r.on_deep = f;
}
/// Stack used so far by the call of the current context, at its deepest.
#[inline(never)]
pub fn stack_used() -> usize {
    let r = rt();
    r.base - r.low
}
/// A call made inside a call (by the caller's own code): it has a stack of
/// its own to account for.
#[inline(never)]
pub fn nest<T>(f: impl FnOnce() -> T) -> T {
    let r = rt();
    let (b, l) = (r.base, r.low);
    r.base = stack_pointer();
    r.low = r.base;
    let x = f();
    let r = rt();
    r.base = b;
    r.low = l;
    x
}
/// From here on the heap is gone: a call that asks for memory is reported.
pub fn no_heap(f: fn(usize)) {
    let r = rt();
    r.heap_gone = true;
    r.on_heap = f;
}

/// The process's allocator; it tells who asks for memory inside a call.
pub struct Heap;
impl Heap {
    #[inline(always)]
    fn asked(n: usize) {
        let r = rt();
        if r.heap_gone && r.active && !std::thread::panicking() {
            r.active = false;
            (r.on_heap)(n);
            r.active = true;
        }
    }
}
unsafe impl std::alloc::GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        Heap::asked(l.size());
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        Heap::asked(l.size());
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        Heap::asked(n);
        std::alloc::System.realloc(p, l, n)
    }
}
#[global_allocator]
static HEAP: Heap = Heap;

#[inline(always)]
fn tick() {
    let r = rt();
    if r.q > 1 {
        r.q -= 1;
    } else {
        preempt();
    }
}

#[cold]
#[inline(never)]
fn preempt() {
    let r = rt();
    if r.cur == NONE || std::thread::panicking() {
        return; // tried again at the next scheduling point
    }
    switch_out();
}

#[cold]
#[inline(never)]
fn over_limit() {
    let r = rt();
    if r.cur == NONE {
        r.active = false;
        (r.on_limit)(NONE);
        return;
    }
    if std::thread::panicking() {
        return;
    }
    let c = r.cur;
    r.active = false;
    (r.on_limit)(c);
    r.active = true;
    r.fibers[c].st = St::Diverged;
    switch_out();
}

fn switch_out() {
    let r = rt();
    let c = r.cur;
    {
        let f = &mut r.fibers[c];
        f.own = r.own;
        f.trace = r.trace;
        f.limit = r.limit;
        f.active = r.active;
        f.base = r.base;
        f.low = r.low;
    }
    r.active = false;
    let save = std::ptr::addr_of_mut!(r.fibers[c].sp);
    unsafe { mm_switch(save, rt().sched_sp) };
    // Resumed: the scheduler restored own/limit/active.
}

macro_rules! cb {
    ($($n:ident),*) => { $( #[no_mangle] pub unsafe extern "C" fn $n(p: *const u8) { step(p as usize, p as usize) } )* }
}
cb!(
    __sanitizer_cov_load1,
    __sanitizer_cov_load2,
    __sanitizer_cov_load4,
    __sanitizer_cov_load8,
    __sanitizer_cov_load16,
    __sanitizer_cov_store1,
    __sanitizer_cov_store2,
    __sanitizer_cov_store4,
    __sanitizer_cov_store8,
    __sanitizer_cov_store16
);
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *const u32) {
    step(0, g as usize)
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(_a: *const u32, _b: *const u32) {}

/// std's blocking primitives reach the kernel through libc's `syscall`
/// symbol. A futex wait inside a simulated call must not block the one OS
/// thread: it becomes a scheduling point that returns spuriously, and costs
/// steps, so a context that can never be woken runs over its step limit.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    const FUTEX: i64 = 202;
    if n == FUTEX && rt().active && matches!(b & 0x7f, 0 | 9) {
        rt().blocked += 1;
        for _ in 0..64 {
            step(0, 0);
        }
        return 0;
    }
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    if r < 0 && r > -4096 {
        *sys::__errno_location() = (-r) as i32;
        return -1;
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    step(0, 0);
    0
}

/// Starts a library call: scheduling points are counted from here.
#[inline(never)]
pub fn op_begin(limit: u64) {
    let r = rt();
    r.own = 0;
    r.trace = 0;
    r.limit = limit;
    r.base = stack_pointer();
    r.low = r.base;
    r.active = true;
}
/// Ends a library call; returns the steps it took.
#[inline(never)]
pub fn op_end() -> u64 {
    let r = rt();
    r.active = false;
    let n = r.own;
    if r.cur != NONE {
        let c = r.cur;
        r.fibers[c].total += n;
    }
    n
}
/// From here on, what every call passes (branches taken, addresses read and
/// written) is hashed: what an observer of its time and of the caches sees.
pub fn watch() {
    rt().watch = true;
}
/// Hash of what the call that ended last in this context passed.
#[inline(never)]
pub fn trace() -> u64 {
    rt().trace
}
/// Own steps of the current call so far.
#[inline(never)]
pub fn own() -> u64 {
    rt().own
}
#[cold]
#[inline(never)]
fn crash() {
    let r = rt();
    r.active = false;
    r.crash_at = u64::MAX;
    (r.on_crash)();
}
/// The simulated machine loses power at scheduling point `at`, counted over
/// all contexts.
#[inline(never)]
pub fn set_crash(at: u64, f: fn()) {
    let r = rt();
    r.crash_at = r.steps.saturating_add(at);
    r.on_crash = f;
}
/// Accounts for what a child process executed.
#[inline(never)]
pub fn absorb(steps: u64, shared: u64, switches: u64, h: u64) {
    let r = rt();
    r.steps += steps;
    r.shared += shared;
    r.switches += switches;
    note(h);
}
/// Called when a call exceeds its limit (with the fiber, or NONE).
#[inline(never)]
pub fn set_on_limit(f: fn(usize)) {
    rt().on_limit = f;
}

/// A harness seam inside a library call (stream read, sink write, component
/// arithmetic, callback): a scheduling point.
#[inline(never)]
pub fn seam() {
    let r = rt();
    r.steps += 1;
    r.own += 1;
    if r.steps >= r.crash_at {
        crash();
    }
    if r.own > r.limit {
        let was = r.active;
        over_limit();
        rt().active = was;
    }
    if r.qkind == Q::Steps && r.cur != NONE {
        tick();
    }
}

/// Runs `f` with scheduling points off (harness code called from inside an
/// instrumented library call).
pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
    let was = set_active(false);
    let x = f();
    set_active(was);
    x
}

#[inline(never)]
fn set_active(to: bool) -> bool {
    let r = rt();
    let was = r.active;
    r.active = to;
    was
}

/// Blocks the current fiber until `wake(key)`.
#[inline(never)]
pub fn wait(key: usize) {
    let r = rt();
    if r.cur == NONE {
        return;
    }
    let c = r.cur;
    r.fibers[c].st = St::Waiting(key);
    switch_out();
}
#[inline(never)]
pub fn wake(key: usize) {
    for f in rt().fibers.iter_mut() {
        if f.st == St::Waiting(key) {
            f.st = St::Ready;
        }
    }
}

#[inline(never)]
pub fn cur() -> usize {
    rt().cur
}
#[inline(never)]
pub fn steps() -> u64 {
    rt().steps
}
#[inline(never)]
pub fn shared_accesses() -> u64 {
    rt().shared
}
#[inline(never)]
pub fn switches() -> u64 {
    rt().switches
}
#[inline(never)]
pub fn blocked() -> u64 {
    rt().blocked
}
#[inline(never)]
pub fn note(x: u64) {
    let r = rt();
    r.hash = crate::rng::mix(r.hash ^ x);
}
#[inline(never)]
pub fn hash() -> u64 {
    rt().hash
}
#[inline(never)]
pub fn state(i: usize) -> St {
    rt().fibers[i].st
}

extern "C" fn trampoline() -> ! {
    let c = rt().cur;
    let f = rt().fibers[c].f.take().unwrap();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    if r.is_err() {
        crate::engine::harness_error(&format!("task {} panicked outside a library call: {}", c, crate::engine::last_panic()));
    }
    rt().fibers[c].st = St::Done;
    switch_out();
    unreachable!()
}

const STACK: usize = 512 * 1024;

#[inline(never)]
pub fn spawn(f: Box<dyn FnOnce()>) {
    unsafe {
        let base = sys::mmap(std::ptr::null_mut(), STACK, sys::PROT_RW, sys::MAP_PRIVATE_ANON, -1, 0);
        if base as isize == -1 {
            crate::engine::harness_error("no memory for a stack");
        }
        sys::mprotect(base, 4096, 0);
        let top = (base as usize + STACK) & !15;
        let sp = top - 16 - 48;
        *((top - 8) as *mut usize) = 0;
        *((top - 16) as *mut usize) = trampoline as usize;
        for i in 0..6 {
            *((sp + 8 * i) as *mut usize) = 0;
        }
        rt().fibers.push(Fiber { sp, st: St::Ready, own: 0, trace: 0, limit: u64::MAX, active: false, total: 0, base: 0, low: 0, f: Some(f) });
    }
}

pub struct End {
    pub deadlock: bool,
    pub stalled: u64,
    pub diverged: u64,
}

/// Runs all fibers to the end under the given schedule; afterwards the
/// remaining ones run to completion, lowest number first.
#[inline(never)]
pub fn run(sched: &[Sw]) -> End {
    let n = rt().fibers.len();
    let mut i = 0;
    loop {
        let mut pick = None;
        while i < sched.len() && n > 0 {
            let w = sched[i];
            i += 1;
            let t = w.task as usize % n;
            if rt().fibers[t].st == St::Ready {
                pick = Some((t, w));
                break;
            }
        }
        if pick.is_none() {
            for t in 0..n {
                if rt().fibers[t].st == St::Ready {
                    pick = Some((t, Sw { task: t as u8, kind: 0, q: u32::MAX }));
                    break;
                }
            }
        }
        let Some((t, w)) = pick else { break };
        let r = rt();
        let unlimited = w.q == u32::MAX;
        r.q = if unlimited { u64::MAX } else { w.q.max(1) as u64 };
        r.qkind = if w.kind == SW_SHARED || w.kind == SW_STALL_SHARED { Q::Shared } else { Q::Steps };
        r.cur = t;
        {
            let f = &r.fibers[t];
            r.own = f.own;
            r.trace = f.trace;
            r.limit = f.limit;
            r.active = f.active;
            r.base = f.base;
            r.low = f.low;
        }
        let to = r.fibers[t].sp;
        unsafe { mm_switch(std::ptr::addr_of_mut!(RT.sched_sp), to) };
        let r = rt();
        r.cur = NONE;
        r.qkind = Q::Off;
        r.active = false;
        let f = &mut r.fibers[t];
        let mid = f.active && f.st == St::Ready;
        if mid {
            r.switches += 1;
            let x = (t as u64) << 48 ^ f.total << 16 ^ f.own;
            r.hash = crate::rng::mix(r.hash ^ x);
            if w.kind == SW_STALL || w.kind == SW_STALL_SHARED {
                f.st = St::Stalled;
            }
        }
    }
    let mut e = End { deadlock: false, stalled: 0, diverged: 0 };
    for f in rt().fibers.iter() {
        match f.st {
            St::Waiting(_) => e.deadlock = true,
            St::Stalled => e.stalled += 1,
            St::Diverged => e.diverged += 1,
            _ => {}
        }
    }
    e
}

/// Drops all fibers (their stacks are leaked; the process is about to end).
#[inline(never)]
pub fn reset() {
    rt().fibers.clear();
}
