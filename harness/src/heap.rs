//! Watches the Rust heap while code under test runs: the largest block it was asked for.
use std::cell::Cell;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};
static ON: AtomicBool = AtomicBool::new(false);
static MAX: AtomicUsize = AtomicUsize::new(0);
thread_local! { static SKIP: Cell<bool> = const { Cell::new(false) }; }
fn note(n: usize) {
    if ON.load(Relaxed) && !SKIP.with(|s| s.get()) {
        MAX.fetch_max(n, Relaxed);
    }
}
/// Runs the harness's own code inside a watched call.
pub fn unwatched<R>(f: impl FnOnce() -> R) -> R {
    let was = SKIP.with(|s| s.replace(true));
    let r = f();
    SKIP.with(|s| s.set(was));
    r
}
pub struct Watch;
unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n);
        System.realloc(p, l, n)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc_zeroed(l)
    }
}
pub fn reset() {
    MAX.store(0, Relaxed);
}
/// Counts only while on: around calls into the code under test.
pub fn on(b: bool) {
    ON.store(b, Relaxed)
}
pub fn max() -> usize {
    MAX.load(Relaxed)
}
