//! Instrumented allocator: counts what each thread holds and has asked for.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
}

pub struct Counting;

fn note(plus: usize, minus: usize) {
    let _ = LIVE.try_with(|l| l.set(l.get() + plus as i64 - minus as i64));
    if plus > 0 {
        let _ = TOTAL.try_with(|t| t.set(t.get() + plus as u64));
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            note(l.size(), 0);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            note(l.size(), 0);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        note(0, l.size());
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            note(n, l.size());
        }
        q
    }
}

/// Bytes this thread allocated and didn't free (may be negative: freed for others).
pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}

/// Bytes this thread asked for so far.
pub fn total() -> u64 {
    TOTAL.with(|t| t.get())
}
