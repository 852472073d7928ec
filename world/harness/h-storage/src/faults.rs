//! Stopping the process at a chosen point, without stopping it: the calls that change files are routed
//! through here, and from the chosen one on they fail on this thread, so the directory stays as a crash
//! there would leave it. Only calls made by the armed thread are touched.
use std::cell::Cell;
use std::ffi::{c_char, c_int, c_long, c_void, CStr};

thread_local! {
    static LEFT: Cell<i64> = const { Cell::new(-1) };
    static DEAD: Cell<bool> = const { Cell::new(false) };
    static TEAR: Cell<u64> = const { Cell::new(0) };
    static ONCE: Cell<bool> = const { Cell::new(false) };
    /// the call before this one changed a table's metadata file: a crash is not placed inside a rewriting of it
    static META: Cell<bool> = const { Cell::new(false) };
}
extern "C" { fn syscall(n: c_long, ...) -> c_long; fn __errno_location() -> *mut c_int; }

/// from the `left`-th file-changing call on, every such call of this thread fails; a log or part write that is
/// the first to fail still puts `tear` thousandths of its bytes on disk
pub fn arm(left: u64, tear: u64) { LEFT.set(left as i64); DEAD.set(false); TEAR.set(tear); ONCE.set(false); META.set(false); }
/// only the `left`-th file-changing call of this thread fails
pub fn arm_once(left: u64) { LEFT.set(left as i64); DEAD.set(false); TEAR.set(0); ONCE.set(true); META.set(false); }
/// stops interfering; true if a call was made to fail
pub fn disarm() -> bool { LEFT.set(-1); TEAR.set(0); let d = DEAD.get(); DEAD.set(false); d }

enum Go { Yes, No, Part(u64) }
fn go() -> Go {
    if DEAD.get() { return if ONCE.get() { Go::Yes } else { Go::No }; }
    match LEFT.get() { n if n < 0 => Go::Yes, 0 => { DEAD.set(true); let t = TEAR.get(); if t > 0 { Go::Part(t) } else { Go::No } } n => { LEFT.set(n - 1); Go::Yes } }
}
fn fail() -> c_int { unsafe { *__errno_location() = 5 }; -1 }
fn plain() -> bool { META.set(false); !matches!(go(), Go::Yes) }
/// inside a rewriting of the metadata file
fn within(name: &[u8]) -> bool { let m = name.ends_with(b"/metadata"); let w = m && META.get() && !DEAD.get(); META.set(m); w }
fn name_of(fd: c_int, buf: &mut [u8; 512]) -> &[u8] { let p = format!("/proc/self/fd/{fd}\0"); let k = unsafe { syscall(89, p.as_ptr(), buf.as_mut_ptr(), 511 as c_long) }; &buf[..k.max(0) as usize] }

#[no_mangle] pub extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    let mut n = n;
    if fd > 2 && (LEFT.get() >= 0 || DEAD.get()) {
        let mut name = [0u8; 512];
        let name = name_of(fd, &mut name);
        if !within(name) { match go() {
            Go::Yes => {}
            Go::No => return fail() as isize,
            Go::Part(t) => {
                if name.ends_with(b".log") || name.ends_with(b".parquet") { n = (n as u64 * t / 1000) as usize; if n > 0 { unsafe { syscall(1, fd as c_long, buf, n) }; } }
                return fail() as isize;
            }
        } }
    }
    unsafe { syscall(1, fd as c_long, buf, n) as isize }
}
#[no_mangle] pub extern "C" fn open64(path: *const c_char, flags: c_int, mode: u32) -> c_int {
    // O_CREAT, O_TRUNC: only when that changes something on disk
    if (LEFT.get() >= 0 || DEAD.get()) && (flags & 0o1100 != 0) {
        let p = unsafe { CStr::from_ptr(path) };
        let there = unsafe { syscall(21, p.as_ptr(), 0 as c_long) } == 0;
        if (flags & 0o1000 != 0 || !there) && plain() { return fail(); }
    }
    unsafe { syscall(2, path, flags as c_long, mode as c_long) as c_int }
}
#[no_mangle] pub extern "C" fn unlink(path: *const c_char) -> c_int { if plain() { return fail(); } unsafe { syscall(87, path) as c_int } }
#[no_mangle] pub extern "C" fn ftruncate64(fd: c_int, n: i64) -> c_int { if LEFT.get() >= 0 || DEAD.get() { let mut b = [0u8; 512]; if !within(name_of(fd, &mut b)) && !matches!(go(), Go::Yes) { return fail(); } } unsafe { syscall(77, fd as c_long, n) as c_int } }
#[no_mangle] pub extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int { if plain() { return fail(); } unsafe { syscall(82, a, b) as c_int } }
#[no_mangle] pub extern "C" fn mkdir(p: *const c_char, m: u32) -> c_int { if plain() { return fail(); } unsafe { syscall(83, p, m as c_long) as c_int } }
