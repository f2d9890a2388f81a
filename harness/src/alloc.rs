//! Counts the bytes that are allocated, per thread and (on demand) altogether.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::Relaxed};

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
}
static ON: AtomicBool = AtomicBool::new(false);
static ALL: AtomicI64 = AtomicI64::new(0);

pub struct Counting;

fn add(n: i64) {
    let _ = LIVE.try_with(|l| l.set(l.get().wrapping_add(n)));
    if ON.load(Relaxed) {
        ALL.fetch_add(n, Relaxed);
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

/// Bytes this thread has allocated and not given back.
pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}
/// From now on the bytes of all threads are counted (or no longer).
pub fn count_all(on: bool) {
    ALL.store(0, Relaxed);
    ON.store(on, Relaxed);
}
pub fn live_all() -> i64 {
    ALL.load(Relaxed)
}
