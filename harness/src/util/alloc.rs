//! A counting allocator: how much memory a call asks for, per thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static LARGEST: Cell<usize> = const { Cell::new(0) };
    static TOTAL: Cell<usize> = const { Cell::new(0) };
}

fn up(n: usize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n as isize;
        l.set(v);
        PEAK.with(|p| p.set(p.get().max(v)));
        LARGEST.with(|p| p.set(p.get().max(n)));
        TOTAL.with(|p| p.set(p.get().wrapping_add(n)));
    });
}
fn down(n: usize) {
    let _ = LIVE.try_with(|l| l.set(l.get() - n as isize));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        up(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        up(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        down(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        down(l.size());
        up(n);
        System.realloc(p, l, n)
    }
}

#[derive(Debug, Clone, Copy)]
pub struct Mem {
    /// highest amount alive at once, above what was alive before
    pub peak: usize,
    /// the largest single request
    pub largest: usize,
    /// everything that was requested
    pub total: usize,
}

pub fn measure<R>(f: impl FnOnce() -> R) -> (R, Mem) {
    let base = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(base));
    LARGEST.with(|p| p.set(0));
    let t0 = TOTAL.with(|t| t.get());
    let r = f();
    let m = Mem {
        peak: (PEAK.with(|p| p.get()) - base).max(0) as usize,
        largest: LARGEST.with(|p| p.get()),
        total: TOTAL.with(|t| t.get()).wrapping_sub(t0),
    };
    (r, m)
}
