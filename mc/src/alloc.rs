//! Counts the bytes each thread has allocated, for the checks on memory.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;
thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
}
/// `n` more bytes live, after a request for `asked` bytes.
fn add(n: isize, asked: usize) {
    let _ = TOTAL.try_with(|t| t.set(t.get() + asked as u64));
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size() as isize, l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            add(l.size() as isize, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        add(-(l.size() as isize), 0);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            add(n as isize - l.size() as isize, n);
        }
        q
    }
}

/// Bytes this thread has allocated and not freed.
pub fn live() -> isize {
    LIVE.with(|l| l.get())
}
/// The most bytes this thread had allocated at once while `f` ran, beyond
/// what it had allocated before.
pub fn peak<T>(f: impl FnOnce() -> T) -> (isize, T) {
    let base = live();
    let outer = PEAK.with(|p| p.replace(base));
    let r = f();
    let v = PEAK.with(|p| p.get());
    PEAK.with(|p| p.set(v.max(outer)));
    (v - base, r)
}
/// The bytes this thread asked for in all while `f` ran.
pub fn total<T>(f: impl FnOnce() -> T) -> (u64, T) {
    let base = TOTAL.with(|t| t.get());
    let r = f();
    (TOTAL.with(|t| t.get()) - base, r)
}
