//! Counting allocator: per thread allocation events while a thread is being watched, and a
//! budget that turns an absurd request into a recorded event.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static WATCH: Cell<bool> = const { Cell::new(false) };
    static EVENTS: Cell<u64> = const { Cell::new(0) };
    static TRAP: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

pub struct Counting;

#[inline]
fn ev(_what: u8) {
    let _ = WATCH.try_with(|w| {
        if w.get() {
            let n = EVENTS.with(|e| {
                e.set(e.get() + 1);
                e.get()
            });
            if n == 1 {
                w.set(false);
                if TRAP.with(|t| t.get()) {
                    let bt = std::backtrace::Backtrace::force_capture();
                    eprintln!("ALLOC EVENT {}\n{}", _what, bt);
                }
                w.set(true);
            }
        }
    });
}
static GLOBAL_LIVE: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
/// Bytes the whole process holds.
pub fn process_bytes() -> i64 {
    GLOBAL_LIVE.load(std::sync::atomic::Ordering::Relaxed)
}
#[inline]
fn live(d: i64) {
    GLOBAL_LIVE.fetch_add(d, std::sync::atomic::Ordering::Relaxed);
    let _ = LIVE.try_with(|l| {
        l.set(l.get() + d);
        let v = l.get();
        let _ = PEAK.try_with(|p| {
            if p.get() < v {
                p.set(v);
                if v > 3 << 30 && d > 0 {
                    too_much();
                }
            }
        });
    });
}

thread_local! { static TRIPPED: Cell<bool> = const { Cell::new(false) }; }
/// A single case never needs gigabytes: stop before the machine runs out of memory.
#[cold]
fn too_much() {
    if TRIPPED.try_with(|t| t.replace(true)).unwrap_or(true) {
        return;
    }
    if std::env::var("ALLOC_TRAP").is_ok() {
        eprintln!("TOO MUCH\n{}", std::backtrace::Backtrace::force_capture());
    }
    crate::core::out_of_memory();
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        ev(1);
        live(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        ev(1);
        live(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        ev(2);
        live(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        ev(3);
        live(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

/// Runs `f` and returns how often this thread allocated or freed meanwhile.
pub fn watch<R>(f: impl FnOnce() -> R) -> (R, u64) {
    TRAP.with(|t| t.set(std::env::var("ALLOC_TRAP").is_ok()));
    EVENTS.with(|e| e.set(0));
    WATCH.with(|w| w.set(true));
    let r = f();
    WATCH.with(|w| w.set(false));
    (r, EVENTS.with(|e| e.get()))
}
/// Pauses watching, for harness code that is called back from the watched code.
pub fn pause<R>(f: impl FnOnce() -> R) -> R {
    let o = WATCH.with(|w| w.replace(false));
    let r = f();
    WATCH.with(|w| w.set(o));
    r
}
/// Runs `f` and returns the largest growth of this thread's live bytes meanwhile.
pub fn peak<R>(f: impl FnOnce() -> R) -> (R, i64) {
    let base = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(base));
    let r = f();
    (r, PEAK.with(|p| p.get()) - base)
}
/// Net bytes this thread has allocated.
pub fn live_bytes() -> i64 {
    LIVE.with(|l| l.get())
}
/// Memory is accounted per case: other threads may free what this one allocated.
pub fn case_start() {
    LIVE.with(|l| l.set(0));
    PEAK.with(|p| p.set(0));
}
