//! The few libc functions the simulator needs, declared by hand (no crates).
#![allow(non_camel_case_types)]
pub type c_int = i32;
pub type c_long = i64;
pub type c_void = u8;
extern "C" {
    pub fn fork() -> c_int;
    pub fn waitpid(pid: c_int, status: *mut c_int, options: c_int) -> c_int;
    pub fn _exit(code: c_int) -> !;
    pub fn kill(pid: c_int, sig: c_int) -> c_int;
    pub fn mmap(a: *mut c_void, len: usize, prot: c_int, flags: c_int, fd: c_int, off: i64) -> *mut c_void;
    pub fn mprotect(a: *mut c_void, len: usize, prot: c_int) -> c_int;
    pub fn alarm(s: u32) -> u32;
    pub fn dlopen(f: *const u8, flags: c_int) -> *mut c_void;
    pub fn dlsym(h: *mut c_void, n: *const u8) -> *mut c_void;
    pub fn dlerror() -> *const i8;
    pub fn __errno_location() -> *mut c_int;
    pub fn setrlimit(r: c_int, l: *const [u64; 2]) -> c_int;
    pub fn prctl(o: c_int, a: u64, b: u64, c: u64, d: u64) -> c_int;
}
pub const PROT_RW: c_int = 3;
pub const MAP_SHARED_ANON: c_int = 0x21;
pub const MAP_PRIVATE_ANON: c_int = 0x22;
pub const RLIMIT_CPU: c_int = 0;
pub const RLIMIT_CORE: c_int = 4;

pub fn shared<T>(n: usize) -> *mut T {
    unsafe {
        let len = (std::mem::size_of::<T>() * n + 4095) & !4095;
        let p = mmap(std::ptr::null_mut(), len, PROT_RW, MAP_SHARED_ANON, -1, 0);
        if p as isize == -1 {
            eprintln!("mmap failed");
            std::process::exit(2);
        }
        p as *mut T
    }
}
