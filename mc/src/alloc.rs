//! Counting allocator: how much memory the code under verification holds at
//! its peak, per thread, and a hard cap so that a runaway conversion ends.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static CUR: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}
const CAP: i64 = 1 << 30;
pub struct Counting;
fn add(n: i64) -> bool {
    if ON.with(|o| o.get()) {
        let c = CUR.with(|c| {
            c.set(c.get() + n);
            c.get()
        });
        PEAK.with(|p| p.set(p.get().max(c)));
        if n > 0 {
            crate::sched::point();
        }
        return c <= CAP;
    }
    true
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !add(l.size() as i64) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // both blocks exist while the contents are copied
        if !add(n as i64) {
            return std::ptr::null_mut();
        }
        add(-(l.size() as i64));
        System.realloc(p, l, n)
    }
}
pub fn start() {
    CUR.with(|c| c.set(0));
    PEAK.with(|c| c.set(0));
    ON.with(|o| o.set(true));
}
pub fn stop() -> u64 {
    ON.with(|o| o.set(false));
    PEAK.with(|p| p.get()).max(0) as u64
}
