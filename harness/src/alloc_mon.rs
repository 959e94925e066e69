//! Allocation monitor: a counting global allocator. `measure` reports the peak number of bytes
//! that were live during a call on top of what was live before it. A hard ceiling turns runaway
//! allocation into an abort that the orchestrator attributes to the case being run.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Counting;

static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static CALLS: AtomicUsize = AtomicUsize::new(0);
const CEILING: usize = 2 << 30;

fn add(n: usize) {
    let live = LIVE.fetch_add(n, Relaxed) + n;
    if live > PEAK.load(Relaxed) {
        PEAK.store(live, Relaxed);
    }
    CALLS.fetch_add(1, Relaxed);
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if LIVE.load(Relaxed).saturating_add(l.size()) > CEILING {
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if LIVE.load(Relaxed).saturating_add(l.size()) > CEILING {
            return std::ptr::null_mut();
        }
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            add(l.size());
        }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if new > l.size() && LIVE.load(Relaxed).saturating_add(new - l.size()) > CEILING {
            return std::ptr::null_mut();
        }
        let q = System.realloc(p, l, new);
        if !q.is_null() {
            if new >= l.size() {
                add(new - l.size());
            } else {
                LIVE.fetch_sub(l.size() - new, Relaxed);
            }
        }
        q
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Usage {
    /// Highest number of bytes live at once during the call, beyond those live before it.
    pub peak: usize,
    /// Number of allocation calls (a work measure that does not depend on the machine's load).
    pub calls: usize,
}

pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Usage) {
    let before = LIVE.load(Relaxed);
    PEAK.store(before, Relaxed);
    let calls = CALLS.load(Relaxed);
    let out = f();
    let usage = Usage { peak: PEAK.load(Relaxed).saturating_sub(before), calls: CALLS.load(Relaxed) - calls };
    (out, usage)
}
