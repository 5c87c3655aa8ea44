//! Counting allocator: how many bytes does this thread hold, and how many did it hold at most?
use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::Cell,
};

pub struct Counting;

thread_local! {
    static HELD: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}

fn add(n: isize) {
    HELD.with(|h| {
        let x = h.get() + n;
        h.set(x);
        PEAK.with(|p| {
            if x > p.get() {
                p.set(x)
            }
        });
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // (The old and the new block may exist at the same time.)
        add(n as isize);
        let r = System.realloc(p, l, n);
        add(-(l.size() as isize));
        r
    }
}

/// What the code called through `call` holds.
#[derive(Default)]
pub struct Account {
    pub held: isize,
    pub peak: isize,
}

impl Account {
    /// Everything `f` allocates and does not free is held by the code under test.
    pub fn call<R>(&mut self, f: impl FnOnce() -> R) -> R {
        let before = HELD.with(|h| h.get());
        PEAK.with(|p| p.set(before));
        let r = f();
        let after = HELD.with(|h| h.get());
        let top = PEAK.with(|p| p.get());
        self.peak = self.peak.max(self.held + top - before);
        self.held += after - before;
        r
    }
}
