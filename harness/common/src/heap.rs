//! Counts the heap: live bytes and their peak, from the moment `watch` is called.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::Relaxed};

static ON: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
static CALLS: AtomicU64 = AtomicU64::new(0);

struct Counting;

fn changed(by: i64) {
    let now = LIVE.fetch_add(by, Relaxed) + by;
    if by > 0 {
        CALLS.fetch_add(1, Relaxed);
        PEAK.fetch_max(now, Relaxed);
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if ON.load(Relaxed) && !p.is_null() {
            changed(l.size() as i64);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if ON.load(Relaxed) && !p.is_null() {
            changed(l.size() as i64);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        if ON.load(Relaxed) {
            changed(-(l.size() as i64));
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, size: usize) -> *mut u8 {
        let q = System.realloc(p, l, size);
        if ON.load(Relaxed) && !q.is_null() {
            changed(size as i64 - l.size() as i64);
        }
        q
    }
}

#[global_allocator]
static COUNTING: Counting = Counting;

pub fn watch() {
    ON.store(true, Relaxed);
}

/// Until `watch` is called again.
pub fn pause() {
    ON.store(false, Relaxed);
}

pub fn live() -> i64 {
    LIVE.load(Relaxed)
}

/// Allocations made so far.
pub fn allocations() -> u64 {
    CALLS.load(Relaxed)
}

/// Starts measuring a new peak and returns the level it starts from.
pub fn mark() -> i64 {
    let now = live();
    PEAK.store(now, Relaxed);
    now
}

/// The highest level since `mark`.
pub fn peak() -> i64 {
    PEAK.load(Relaxed)
}
