//! The harness interface: opaque to the compiler, supplied natively by
//! shim.c and symbolically by the engine.
#![allow(dead_code)]
#[repr(C)]
pub struct Entry(pub *const u8, pub extern "C" fn());
unsafe impl Sync for Entry {}
mod raw {
    unsafe extern "C" {
        pub fn sym_bytes(p: *mut u8, n: usize);
        pub fn sym_assume(c: bool);
        pub fn sym_assert(c: bool, code: u64);
        pub fn sym_conc(x: u64) -> u64;
        pub fn sym_note(p: *const u8, n: usize);
        pub fn sym_reach(k: u64);
        pub fn sym_param(i: u64) -> u64;
        pub fn sym_panic_ok(b: bool);
        pub fn sym_stdin(p: *const u8, n: usize);
        pub fn sym_file_put(n: *const u8, nl: usize, p: *const u8, l: usize);
        pub fn sym_file_get(n: *const u8, nl: usize, p: *mut u8, cap: usize) -> i64;
        pub fn sym_io_chunk(n: usize);
        pub fn sym_io_fault(m: u64, n: u64) -> u64;
        pub fn shim_main(c: i32, v: *const *const u8, t: *const super::Entry, n: usize) -> i32;
    }
}
/// `n` arbitrary bytes
pub fn bytes(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    unsafe { raw::sym_bytes(v.as_mut_ptr(), n) };
    v
}
pub fn byte() -> u8 {
    let mut b = 0u8;
    unsafe { raw::sym_bytes(&mut b, 1) };
    b
}
/// an arbitrary byte from the set
pub fn pick(set: &[u8]) -> u8 {
    let b = byte();
    let mut ok = false;
    for x in set {
        ok |= b == *x;
    }
    assume(ok);
    b
}
/// an arbitrary number below n, as a concrete value (one path per value)
pub fn choose(n: usize) -> usize {
    let b = byte();
    assume((b as usize) < n);
    conc(b as u64) as usize
}
pub fn assume(c: bool) {
    unsafe { raw::sym_assume(c) }
}
pub fn check(c: bool, code: u64) {
    unsafe { raw::sym_assert(c, code) }
}
pub fn conc(x: u64) -> u64 {
    unsafe { raw::sym_conc(x) }
}
pub fn note(b: &[u8]) {
    unsafe { raw::sym_note(b.as_ptr(), b.len()) }
}
pub fn reach(k: u64) {
    unsafe { raw::sym_reach(k) }
}
pub fn param(i: u64) -> usize {
    unsafe { raw::sym_param(i) as usize }
}
pub fn panic_ok(b: bool) {
    unsafe { raw::sym_panic_ok(b) }
}
pub fn stdin(b: &[u8]) {
    unsafe { raw::sym_stdin(b.as_ptr(), b.len()) }
}
pub fn io_chunk(n: usize) {
    unsafe { raw::sym_io_chunk(n) }
}
/// from now on up to n of the calls that read or write may be interrupted
/// (m & 1), short (m & 2) or fail (m & 4), any of them; how many failed before
pub fn io_fault(m: usize, n: usize) -> usize {
    unsafe { raw::sym_io_fault(m as u64, n as u64) as usize }
}
pub fn file_put(name: &str, b: &[u8]) {
    unsafe { raw::sym_file_put(name.as_ptr(), name.len(), b.as_ptr(), b.len()) }
}
pub fn file_get(name: &str) -> Option<Vec<u8>> {
    let mut v = vec![0u8; 4096];
    let n = unsafe { raw::sym_file_get(name.as_ptr(), name.len(), v.as_mut_ptr(), v.len()) };
    if n < 0 {
        return None;
    }
    if n as usize > v.len() {
        v = vec![0u8; n as usize];
        unsafe { raw::sym_file_get(name.as_ptr(), name.len(), v.as_mut_ptr(), v.len()) };
    }
    v.truncate(n as usize);
    Some(v)
}
pub fn start(argc: i32, argv: *const *const u8, table: &'static [Entry]) -> i32 {
    unsafe { raw::shim_main(argc, argv, table.as_ptr(), table.len()) }
}
/// defines the harness functions and the table of them
#[macro_export]
macro_rules! harness {
    ($($name:ident $body:block)*) => {
        $(#[unsafe(no_mangle)] #[inline(never)] pub extern "C" fn $name() $body)*
        pub static TABLE: &[$crate::sym::Entry] = &[$($crate::sym::Entry(concat!(stringify!($name), "\0").as_ptr(), $name)),*];
    };
}
