//! An allocator which counts the bytes in use per thread.
//!
//! Only differences within one thread are looked at, around code that gives no memory to others.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PAUSED: Cell<bool> = const { Cell::new(false) };
}

fn add(n: i64) {
    let _ = LIVE.try_with(|l| {
        if !PAUSED.try_with(|p| p.get()).unwrap_or(false) {
            l.set(l.get() + n);
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let p = System.alloc(layout);
        if !p.is_null() {
            add(layout.size() as i64);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(layout);
        if !p.is_null() {
            add(layout.size() as i64);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        System.dealloc(p, layout);
        add(-(layout.size() as i64));
    }
    unsafe fn realloc(&self, p: *mut u8, layout: Layout, size: usize) -> *mut u8 {
        let q = System.realloc(p, layout, size);
        if !q.is_null() {
            add(size as i64 - layout.size() as i64);
        }
        q
    }
}

#[global_allocator]
static COUNTING: Counting = Counting;

/// Bytes allocated less bytes freed by this thread.
pub fn live() -> i64 { LIVE.with(|l| l.get()) }

/// What the harness keeps for itself (its pools of static texts) does not count.
pub fn uncounted<T>(f: impl FnOnce() -> T) -> T {
    let before = PAUSED.with(|p| p.replace(true));
    let out = f();
    PAUSED.with(|p| p.set(before));
    out
}
