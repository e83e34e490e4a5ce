//! Counts what is allocated, so that the peak during one operation can be told.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Counting;

static NOW: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
/// More than this at once is never what a case needs; it is refused and the process ends.
const LIMIT: usize = 3 << 30;

fn grow(n: usize) -> bool {
    let now = NOW.fetch_add(n, Relaxed) + n;
    PEAK.fetch_max(now, Relaxed);
    now <= LIMIT
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if grow(l.size()) {
            System.alloc(l)
        } else {
            std::ptr::null_mut()
        }
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        NOW.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }

    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !grow(n) {
            return std::ptr::null_mut();
        }
        let q = System.realloc(p, l, n);
        NOW.fetch_sub(l.size(), Relaxed);
        q
    }
}

/// Runs `f` and returns how far the allocated bytes rose above what they were before.
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let before = NOW.load(Relaxed);
    PEAK.store(before, Relaxed);
    let r = f();
    (r, PEAK.load(Relaxed).saturating_sub(before))
}
