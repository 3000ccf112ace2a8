//! Counts what is allocated, for the monitors of memory.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::Relaxed};

pub struct Counting;
static ON: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
static COUNT: AtomicU64 = AtomicU64::new(0);

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ON.load(Relaxed) {
            let v = LIVE.fetch_add(l.size() as i64, Relaxed) + l.size() as i64;
            PEAK.fetch_max(v, Relaxed);
            COUNT.fetch_add(1, Relaxed);
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ON.load(Relaxed) {
            LIVE.fetch_sub(l.size() as i64, Relaxed);
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if ON.load(Relaxed) {
            let d = n as i64 - l.size() as i64;
            let v = LIVE.fetch_add(d, Relaxed) + d;
            PEAK.fetch_max(v, Relaxed);
            COUNT.fetch_add(1, Relaxed);
        }
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static A: Counting = Counting;

/// start counting from here
pub fn reset() -> i64 {
    ON.store(true, Relaxed);
    let v = LIVE.load(Relaxed);
    PEAK.store(v, Relaxed);
    COUNT.store(0, Relaxed);
    v
}
/// most bytes live since, and number of allocations
pub fn peak(since: i64) -> (i64, u64) {
    (PEAK.load(Relaxed) - since, COUNT.load(Relaxed))
}
/// bytes live, of those allocated while counting
pub fn live() -> i64 {
    ON.store(true, Relaxed);
    LIVE.load(Relaxed)
}
