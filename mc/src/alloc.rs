//! Counting allocator: live bytes and peak live bytes of the current thread, so that a check can
//! bound what one execution of the code under test allocates.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static CUR: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static BIGGEST: Cell<usize> = const { Cell::new(0) };
}

fn add(n: i64) {
    let _ = CUR.try_with(|c| {
        let v = c.get() + n;
        c.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
}

fn big(n: usize) {
    if n > 1 << 16 {
        let _ = BIGGEST.try_with(|b| {
            if n > b.get() {
                b.set(n)
            }
        });
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        big(l.size());
        if !p.is_null() {
            add(l.size() as i64);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        big(l.size());
        if !p.is_null() {
            add(l.size() as i64);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        add(-(l.size() as i64));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        big(n);
        if !q.is_null() {
            add(n as i64 - l.size() as i64);
        }
        q
    }
}

/// Live bytes of this thread.
pub fn live() -> i64 {
    CUR.with(|c| c.get())
}

/// Start measuring a new peak from here; returns the baseline.
pub fn reset_peak() -> i64 {
    let v = live();
    PEAK.with(|p| p.set(v));
    BIGGEST.with(|b| b.set(0));
    v
}

/// Count from nothing.
pub fn zero() {
    CUR.with(|c| c.set(0));
    reset_peak();
}

pub fn peak() -> i64 {
    PEAK.with(|p| p.get())
}

pub fn biggest() -> usize {
    BIGGEST.with(|b| b.get())
}
