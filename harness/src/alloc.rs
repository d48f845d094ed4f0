//! Counting allocator: measures the memory a case uses on its own thread, and refuses single huge allocations, so that
//! a decoder trusting a declared count fails (aborts, which the supervisor reports) instead of exhausting the sandbox.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering};
pub struct Counting;
thread_local! {
    static CUR: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}
/// No single allocation may be bigger than this.
pub const SINGLE_CAP: usize = 3 << 30;
static GLOBAL_CUR: AtomicUsize = AtomicUsize::new(0);
/// All of the process may not use more than this.
const TOTAL_CAP: usize = 14 << 30;
fn add(n: isize) {
    let _ = CUR.try_with(|c| {
        let v = c.get() + n;
        c.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > SINGLE_CAP || GLOBAL_CUR.load(Ordering::Relaxed) + l.size() > TOTAL_CAP {
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        if !p.is_null() {
            GLOBAL_CUR.fetch_add(l.size(), Ordering::Relaxed);
            add(l.size() as isize);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > SINGLE_CAP || GLOBAL_CUR.load(Ordering::Relaxed) + l.size() > TOTAL_CAP {
            return std::ptr::null_mut();
        }
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            GLOBAL_CUR.fetch_add(l.size(), Ordering::Relaxed);
            add(l.size() as isize);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        GLOBAL_CUR.fetch_sub(l.size(), Ordering::Relaxed);
        add(-(l.size() as isize));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if new > SINGLE_CAP || (new > l.size() && GLOBAL_CUR.load(Ordering::Relaxed) + (new - l.size()) > TOTAL_CAP) {
            return std::ptr::null_mut();
        }
        let q = System.realloc(p, l, new);
        if !q.is_null() {
            GLOBAL_CUR.fetch_add(new, Ordering::Relaxed);
            GLOBAL_CUR.fetch_sub(l.size(), Ordering::Relaxed);
            add(new as isize - l.size() as isize);
        }
        q
    }
}
/// Runs *f*, and returns the most memory its thread held at a time above what it held before.
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let base = CUR.with(|c| c.get());
    PEAK.with(|p| p.set(base));
    let r = f();
    let peak = PEAK.with(|p| p.get());
    (r, (peak - base).max(0) as usize)
}
