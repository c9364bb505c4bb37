//! Global allocator that watches single allocation requests of the executing body.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

/// A request larger than this fails (and so aborts the process, which the parent reports).
const HARD_LIMIT: usize = 4 << 30;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static PEAK: Cell<usize> = const { Cell::new(0) };
}

pub struct Watch;

#[inline]
fn seen(size: usize) -> bool {
    if size < 1 << 16 {
        return true;
    }
    ON.with(|on| {
        if on.get() {
            PEAK.with(|p| p.set(p.get().max(size)));
            size <= HARD_LIMIT
        } else {
            true
        }
    })
}

unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !seen(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !seen(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !seen(n) {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}

pub fn begin() {
    PEAK.with(|p| p.set(0));
    ON.with(|o| o.set(true));
}
pub fn end() {
    ON.with(|o| o.set(false));
}
/// Largest single request (of 64 KiB or more) since the execution began.
pub fn peak() -> usize {
    PEAK.with(|p| p.get())
}
