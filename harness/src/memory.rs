//! Counts the memory a thread has allocated, to see how much a call needs at most.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}

fn count(change: isize) {
    // the thread may be on its way out
    let _ = LIVE.try_with(|live| {
        let now = live.get() + change;
        live.set(now);
        let _ = PEAK.try_with(|peak| peak.set(peak.get().max(now)));
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        count(layout.size() as isize);
        System.alloc(layout)
    }

    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        count(layout.size() as isize);
        System.alloc_zeroed(layout)
    }

    unsafe fn realloc(&self, block: *mut u8, layout: Layout, size: usize) -> *mut u8 {
        count(size as isize - layout.size() as isize);
        System.realloc(block, layout, size)
    }

    unsafe fn dealloc(&self, block: *mut u8, layout: Layout) {
        count(-(layout.size() as isize));
        System.dealloc(block, layout)
    }
}

/// Runs `f`; also gives by how many bytes the memory in use grew at most meanwhile
pub fn peak_of<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let before = LIVE.with(|live| live.get());
    PEAK.with(|peak| peak.set(before));
    let result = f();
    let peak = PEAK.with(|peak| peak.get());
    (result, (peak - before).max(0) as usize)
}

/// Runs `f`; also gives by how many bytes the memory in use has grown after it
pub fn growth_of<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let before = LIVE.with(|live| live.get());
    let result = f();
    let after = LIVE.with(|live| live.get());
    (result, (after - before).max(0) as usize)
}
