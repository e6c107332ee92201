//! Global allocator that watches the memory taken by the code under test.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

pub struct Counting;
static CUR: AtomicU64 = AtomicU64::new(0);
static PEAK: AtomicU64 = AtomicU64::new(0);
static LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);

fn grow(n: u64) -> bool {
    let c = CUR.fetch_add(n, Relaxed) + n;
    if c > LIMIT.load(Relaxed) {
        CUR.fetch_sub(n, Relaxed);
        return false;
    }
    PEAK.fetch_max(c, Relaxed);
    true
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !grow(l.size() as u64) {
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        if p.is_null() {
            CUR.fetch_sub(l.size() as u64, Relaxed);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !grow(l.size() as u64) {
            return std::ptr::null_mut();
        }
        let p = System.alloc_zeroed(l);
        if p.is_null() {
            CUR.fetch_sub(l.size() as u64, Relaxed);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        CUR.fetch_sub(l.size() as u64, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n as u64 > l.size() as u64 && !grow(n as u64 - l.size() as u64) {
            return std::ptr::null_mut();
        }
        let q = System.realloc(p, l, n);
        if q.is_null() {
            if n as u64 > l.size() as u64 {
                CUR.fetch_sub(n as u64 - l.size() as u64, Relaxed);
            }
        } else if (n as u64) < l.size() as u64 {
            CUR.fetch_sub(l.size() as u64 - n as u64, Relaxed);
        }
        q
    }
}

pub fn current() -> u64 {
    CUR.load(Relaxed)
}
/// Start a new measure: forget the peak seen so far
pub fn reset_peak() -> u64 {
    let c = CUR.load(Relaxed);
    PEAK.store(c, Relaxed);
    c
}
pub fn peak() -> u64 {
    PEAK.load(Relaxed)
}
/// Above that many bytes an allocation fails, which aborts the worker (and not the machine)
pub fn set_limit(n: u64) {
    LIMIT.store(n, Relaxed);
}
