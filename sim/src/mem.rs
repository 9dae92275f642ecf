//! Bytes that code under test moves and compares through the C library: part of what a call costs.
//! (Rust's slices and strings come here; each function goes on to the C library's own.)

use crate::host;
use libc::{c_char, c_int, c_void};

pub static mut BYTES: u64 = 0;

static mut REAL: [*mut c_void; 4] = [std::ptr::null_mut(); 4];

#[inline(always)]
unsafe fn real(i: usize, name: &[u8]) -> *mut c_void {
    if REAL[i].is_null() {
        REAL[i] = libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const c_char);
    }
    REAL[i]
}

#[inline(always)]
fn count(n: usize) {
    if n >= 16 && host::simulated().is_some() {
        unsafe { BYTES += n as u64 }
    }
}

type Move = unsafe extern "C" fn(*mut c_void, *const c_void, usize) -> *mut c_void;
type Compare = unsafe extern "C" fn(*const c_void, *const c_void, usize) -> c_int;

#[no_mangle]
pub unsafe extern "C" fn memcpy(d: *mut c_void, s: *const c_void, n: usize) -> *mut c_void {
    count(n);
    std::mem::transmute::<*mut c_void, Move>(real(0, b"memcpy\0"))(d, s, n)
}
#[no_mangle]
pub unsafe extern "C" fn memmove(d: *mut c_void, s: *const c_void, n: usize) -> *mut c_void {
    count(n);
    std::mem::transmute::<*mut c_void, Move>(real(1, b"memmove\0"))(d, s, n)
}
#[no_mangle]
pub unsafe extern "C" fn memcmp(a: *const c_void, b: *const c_void, n: usize) -> c_int {
    count(n);
    std::mem::transmute::<*mut c_void, Compare>(real(2, b"memcmp\0"))(a, b, n)
}
#[no_mangle]
pub unsafe extern "C" fn bcmp(a: *const c_void, b: *const c_void, n: usize) -> c_int {
    count(n);
    std::mem::transmute::<*mut c_void, Compare>(real(3, b"bcmp\0"))(a, b, n)
}
