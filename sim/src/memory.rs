//! The memory each thread holds, has held at most and has requested in total: the allocator of the
//! simulator keeps account.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static HELD: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static MOST: Cell<i64> = const { Cell::new(i64::MAX) };
    static REQUESTED: Cell<u64> = const { Cell::new(0) };
}

fn took(n: usize) {
    let _ = HELD.try_with(|held| {
        let now = held.get() + n as i64;
        held.set(now);
        let _ = PEAK.try_with(|peak| {
            if now > peak.get() {
                peak.set(now)
            }
        });
    });
    let _ = REQUESTED.try_with(|r| r.set(r.get() + n as u64));
}

fn gave(n: usize) {
    let _ = HELD.try_with(|held| held.set(held.get() - n as i64));
}

/// More than this nobody gets while measured; a process that is refused memory ends.
const LIMIT: i64 = 2 << 30;

fn too_much(n: usize) -> bool {
    let most = MOST.try_with(|m| m.get()).unwrap_or(i64::MAX);
    most != i64::MAX && HELD.try_with(|held| held.get().saturating_add(n as i64) > most).unwrap_or(false)
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        if too_much(layout.size()) {
            return std::ptr::null_mut();
        }
        let p = System.alloc(layout);
        if !p.is_null() {
            took(layout.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        if too_much(layout.size()) {
            return std::ptr::null_mut();
        }
        let p = System.alloc_zeroed(layout);
        if !p.is_null() {
            took(layout.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        System.dealloc(p, layout);
        gave(layout.size());
    }
    unsafe fn realloc(&self, p: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        if too_much(new_size) {
            return std::ptr::null_mut();
        }
        let q = System.realloc(p, layout, new_size);
        if !q.is_null() {
            // Both may exist for a moment
            took(new_size);
            gave(layout.size());
        }
        q
    }
}

/// What this thread holds now.
pub fn held() -> i64 {
    HELD.with(|h| h.get())
}

#[derive(Clone, Copy, Debug)]
pub struct Use {
    /// More than at the start, at most.
    pub peak: u64,
    /// In total.
    pub requested: u64,
}

/// What `f` needs.
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Use) {
    let before = held();
    PEAK.with(|p| p.set(before));
    let requested = REQUESTED.with(|r| r.get());
    MOST.with(|m| m.set(before + LIMIT));
    let v = f();
    MOST.with(|m| m.set(i64::MAX));
    let used = Use {
        peak: (PEAK.with(|p| p.get()) - before).max(0) as u64,
        requested: REQUESTED.with(|r| r.get()) - requested,
    };
    (v, used)
}
