//! One replica's build of the library: the operation catalogue behind a C
//! interface, compiled without any instrumentation in each configuration.
use std::panic::{catch_unwind, set_hook};

#[no_mangle]
pub extern "C" fn mm_init() -> usize {
    set_hook(Box::new(|_| {}));
    mmops::count()
}

/// Number of result words, or -1 when the operation panicked.
#[no_mangle]
pub unsafe extern "C" fn mm_apply(code: usize, args: *const u32, out: *mut u32) -> i32 {
    let a = &*(args as *const [u32; mmops::MAX_ARGS]);
    let r = catch_unwind(|| {
        let mut o = mmops::Out::new();
        (mmops::op(code).f)(a, &mut o);
        o
    });
    give(r.ok(), out)
}

#[no_mangle]
pub unsafe extern "C" fn mm_stream(k: usize, v: *const f32, n: usize, out: *mut u32) -> i32 {
    let s = std::slice::from_raw_parts(v, n);
    let r = catch_unwind(|| {
        let mut o = mmops::Out::new();
        // The count of samples in units of 32768, beyond what 31 bits hold.
        if k >= 0x1_0000 && n == 1 {
            mmops::giant((k as u64) << 15, s[0], &mut o);
        } else {
            mmops::stream(k, s, &mut o);
        }
        o
    });
    give(r.ok(), out)
}

unsafe fn give(o: Option<mmops::Out>, out: *mut u32) -> i32 {
    match o {
        None => -1,
        Some(o) => {
            for (i, w) in o.w.iter().enumerate() {
                *out.add(i) = *w;
            }
            o.n as i32
        }
    }
}
