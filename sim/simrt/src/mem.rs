//! Heap accounting: what the code under test has allocated and not freed.  What the harness allocates
//! while it records (inside a `Harness` scope) does not count.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};

static LIVE: AtomicI64 = AtomicI64::new(0);
thread_local! {
    static DEPTH: Cell<u32> = const { Cell::new(0) };
}

pub struct Harness(());
impl Harness {
    #[inline]
    pub fn enter() -> Harness {
        DEPTH.with(|d| d.set(d.get() + 1));
        Harness(())
    }
}
impl Drop for Harness {
    #[inline]
    fn drop(&mut self) {
        DEPTH.with(|d| d.set(d.get() - 1));
    }
}

pub fn live() -> i64 {
    LIVE.load(Relaxed)
}
#[inline]
fn count(n: i64) {
    if DEPTH.try_with(|d| d.get()).unwrap_or(1) == 0 {
        LIVE.fetch_add(n, Relaxed);
    }
}

pub struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}
