//! Counts the bytes that precompiled code copies, compares, searches or decodes on
//! behalf of the crate under test. build.rs makes the linker divert the functions to these wrappers.
#![allow(dead_code)]
use std::cell::Cell;
use std::ffi::c_void;

thread_local! {
    static TOUCHED: Cell<u64> = const { Cell::new(0) };
}

#[inline(always)]
pub fn touched(n: usize) {
    TOUCHED.with(|t| t.set(t.get().wrapping_add(n as u64)))
}

/// Bytes touched by this thread so far
pub fn count() -> u64 {
    TOUCHED.with(|t| t.get())
}

extern "C" {
    fn __real_memcpy(to: *mut c_void, from: *const c_void, n: usize) -> *mut c_void;
    fn __real_memmove(to: *mut c_void, from: *const c_void, n: usize) -> *mut c_void;
    fn __real_memset(to: *mut c_void, value: i32, n: usize) -> *mut c_void;
    fn __real_memcmp(a: *const c_void, b: *const c_void, n: usize) -> i32;
    fn __real_bcmp(a: *const c_void, b: *const c_void, n: usize) -> i32;
}

#[no_mangle]
unsafe extern "C" fn __wrap_memcpy(to: *mut c_void, from: *const c_void, n: usize) -> *mut c_void {
    touched(n);
    __real_memcpy(to, from, n)
}
#[no_mangle]
unsafe extern "C" fn __wrap_memmove(to: *mut c_void, from: *const c_void, n: usize) -> *mut c_void {
    touched(n);
    __real_memmove(to, from, n)
}
#[no_mangle]
unsafe extern "C" fn __wrap_memset(to: *mut c_void, value: i32, n: usize) -> *mut c_void {
    touched(n);
    __real_memset(to, value, n)
}
#[no_mangle]
unsafe extern "C" fn __wrap_memcmp(a: *const c_void, b: *const c_void, n: usize) -> i32 {
    touched(n);
    __real_memcmp(a, b, n)
}
#[no_mangle]
unsafe extern "C" fn __wrap_bcmp(a: *const c_void, b: *const c_void, n: usize) -> i32 {
    touched(n);
    __real_bcmp(a, b, n)
}

fn extent_memchr(text: &[u8], r: &Option<usize>) -> usize {
    r.map_or(text.len(), |i| i + 1)
}
fn extent_memrchr(text: &[u8], r: &Option<usize>) -> usize {
    r.map_or(text.len(), |i| text.len() - i)
}
fn extent_from_utf8(text: &[u8], r: &Result<&str, core::str::Utf8Error>) -> usize {
    match r {
        Ok(_) => text.len(),
        Err(e) => e.valid_up_to() + 1,
    }
}
fn extent_count_chars(text: &str, _: &usize) -> usize {
    text.len()
}
fn extent_count_chars_general(text: &[u8], _: &usize) -> usize {
    text.len()
}
fn extent_parse_f64(text: &str, _: &Result<f64, core::num::ParseFloatError>) -> usize {
    text.len()
}

include!(concat!(env!("OUT_DIR"), "/wraps.rs"));
