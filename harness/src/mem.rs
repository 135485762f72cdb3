//! Counts the live heap memory of the current thread.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static BYTES: Cell<i64> = const { Cell::new(0) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
    static EVENTS: Cell<u64> = const { Cell::new(0) };
}

fn add(bytes: i64, blocks: i64) {
    let _ = BYTES.try_with(|b| b.set(b.get() + bytes));
    let _ = BLOCKS.try_with(|b| b.set(b.get() + blocks));
    let _ = EVENTS.try_with(|b| b.set(b.get() + 1));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size() as i64, 1);
        }
        p
    }

    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            add(l.size() as i64, 1);
        }
        p
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64), -1);
        System.dealloc(p, l)
    }

    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            add(n as i64 - l.size() as i64, 0);
        }
        q
    }
}

/// Live bytes, live blocks and allocator calls of this thread.
pub fn now() -> (i64, i64, u64) {
    (BYTES.with(|b| b.get()), BLOCKS.with(|b| b.get()), EVENTS.with(|b| b.get()))
}
