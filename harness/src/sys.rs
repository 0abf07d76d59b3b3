//! Counts system calls that wait or do I/O on a watched thread (by defining the C library's
//! entry points in this executable and passing them on to the kernel).
use std::cell::Cell;

thread_local! {
    static WATCH: Cell<bool> = const { Cell::new(false) };
    static IO: Cell<u64> = const { Cell::new(0) };
    static WAIT: Cell<u64> = const { Cell::new(0) };
}
/// Returns the numbers of (I/O, waiting) calls of this thread while `f` runs.
pub fn watch<R>(f: impl FnOnce() -> R) -> (R, u64, u64) {
    IO.with(|c| c.set(0));
    WAIT.with(|c| c.set(0));
    WATCH.with(|w| w.set(true));
    let r = f();
    WATCH.with(|w| w.set(false));
    (r, IO.with(|c| c.get()), WAIT.with(|c| c.get()))
}

#[cfg(feature = "interpose")]
mod inter {
    use super::*;
    fn io() {
        let _ = WATCH.try_with(|w| {
            if w.get() {
                let _ = IO.try_with(|c| c.set(c.get() + 1));
            }
        });
    }
    fn wait() {
        let _ = WATCH.try_with(|w| {
            if w.get() {
                let _ = WAIT.try_with(|c| c.set(c.get() + 1));
            }
        });
    }
    extern "C" {
        fn __errno_location() -> *mut i32;
    }
    unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
        let r: i64;
        std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
            in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
        if r < 0 && r > -4096 {
            *__errno_location() = -r as i32;
            -1
        } else {
            r
        }
    }
    #[no_mangle]
    pub unsafe extern "C" fn write(fd: i32, p: *const u8, n: usize) -> isize {
        io();
        raw(1, fd as i64, p as i64, n as i64, 0, 0, 0) as isize
    }
    #[no_mangle]
    pub unsafe extern "C" fn writev(fd: i32, p: *const u8, n: i32) -> isize {
        io();
        raw(20, fd as i64, p as i64, n as i64, 0, 0, 0) as isize
    }
    #[no_mangle]
    pub unsafe extern "C" fn read(fd: i32, p: *mut u8, n: usize) -> isize {
        io();
        raw(0, fd as i64, p as i64, n as i64, 0, 0, 0) as isize
    }
    #[no_mangle]
    pub unsafe extern "C" fn open64(p: *const u8, flags: i32, mode: u32) -> i32 {
        io();
        raw(257, -100, p as i64, flags as i64, mode as i64, 0, 0) as i32
    }
    #[no_mangle]
    pub unsafe extern "C" fn nanosleep(a: *const u8, b: *mut u8) -> i32 {
        wait();
        raw(35, a as i64, b as i64, 0, 0, 0, 0) as i32
    }
    #[no_mangle]
    pub unsafe extern "C" fn clock_nanosleep(c: i32, f: i32, a: *const u8, b: *mut u8) -> i32 {
        wait();
        // (returns the error instead of setting errno)
        if raw(230, c as i64, f as i64, a as i64, b as i64, 0, 0) < 0 {
            *__errno_location()
        } else {
            0
        }
    }
    #[no_mangle]
    pub unsafe extern "C" fn sched_yield() -> i32 {
        wait();
        raw(24, 0, 0, 0, 0, 0, 0) as i32
    }
    #[no_mangle]
    pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
        // a futex wait; waking others does not block
        if n == 202 && matches!(b & 0x7f, 0 | 9 | 6 | 11) {
            wait();
        }
        raw(n, a, b, c, d, e, f)
    }
}
