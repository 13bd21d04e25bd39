//! Counting allocator: bounds what one library call may allocate. Exceeding the hard budget parks
//! the thread forever, which the watchdog reports like a hang (it would otherwise take the machine
//! down); the peak of each call is available to the oracles.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

pub const HARD: i64 = 768 << 20;

pub fn enter() {
    LIVE.with(|c| c.set(0));
    PEAK.with(|c| c.set(0));
    ON.with(|c| c.set(true));
}
pub fn leave() {
    ON.with(|c| c.set(false));
}
/// Peak of bytes allocated over what was live on entry, in the latest library call.
pub fn last_peak() -> i64 {
    PEAK.with(|c| c.get())
}

/// What the latest library call took and did not give back (less than zero: the other way round).
pub fn last_live() -> i64 {
    LIVE.with(|c| c.get())
}

/// Both of them, to be taken over by another thread.
pub fn of_last() -> (i64, i64) {
    (last_live(), last_peak())
}
pub fn set_last((live, peak): (i64, i64)) {
    LIVE.with(|c| c.set(live));
    PEAK.with(|c| c.set(peak));
}

fn add(n: i64) {
    let _ = ON.try_with(|on| {
        if on.get() {
            let live = LIVE.with(|c| {
                let v = c.get().saturating_add(n);
                c.set(v);
                v
            });
            PEAK.with(|c| {
                if live > c.get() {
                    c.set(live)
                }
            });
            if live > HARD {
                loop {
                    std::thread::park();
                }
            }
        }
    });
}

/// More than any machine has: the allocation fails, as it would for real.
const IMPOSSIBLE: usize = 1 << 40;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() >= IMPOSSIBLE {
            return std::ptr::null_mut();
        }
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() >= IMPOSSIBLE {
            return std::ptr::null_mut();
        }
        add(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n >= IMPOSSIBLE {
            return std::ptr::null_mut();
        }
        add(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}
