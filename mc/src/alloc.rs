//! Counting allocator: bytes live on this thread, and their peak.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};

pub struct Counting;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static ARMED: Cell<bool> = const { Cell::new(false) };
}

/// set when an execution allocated beyond all bounds; the watchdog reports it
pub static RUNAWAY: AtomicBool = AtomicBool::new(false);
const CEILING: isize = 6 << 30;

fn add(n: isize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
        if v > CEILING && ARMED.try_with(|a| a.get()).unwrap_or(false) {
            RUNAWAY.store(true, SeqCst);
            loop {
                std::thread::park();
            }
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as isize);
        let q = System.realloc(p, l, n);
        add(-(l.size() as isize));
        q
    }
}

/// live bytes now; the peak starts again from here
pub fn mark() -> isize {
    let l = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(l));
    l
}
pub fn peak_since(mark: isize) -> isize {
    PEAK.with(|p| p.get()) - mark
}
pub fn live_since(mark: isize) -> isize {
    LIVE.with(|l| l.get()) - mark
}
/// arms the ceiling for one execution on this thread
pub fn arm(on: bool) {
    LIVE.with(|l| l.set(0));
    ARMED.with(|a| a.set(on));
}
