//! Counting allocator: per-thread live/peak byte counts, so a case can bound what a call allocated.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicIsize, Ordering};
pub struct Counting;
thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static LARGEST: Cell<usize> = const { Cell::new(0) };
}
/// bytes held by the whole process, counted while TRACK is set
static NET: AtomicIsize = AtomicIsize::new(0);
static TRACK: AtomicBool = AtomicBool::new(false);
pub fn track() {
    TRACK.store(true, Ordering::SeqCst);
}
pub fn net() -> isize {
    NET.load(Ordering::SeqCst)
}
fn add(n: usize) {
    if TRACK.load(Ordering::Relaxed) {
        NET.fetch_add(n as isize, Ordering::Relaxed);
    }
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n as isize;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
    let _ = LARGEST.try_with(|p| {
        if n > p.get() {
            p.set(n)
        }
    });
}
fn sub(n: usize) {
    if TRACK.load(Ordering::Relaxed) {
        NET.fetch_sub(n as isize, Ordering::Relaxed);
    }
    let _ = LIVE.try_with(|l| l.set(l.get() - n as isize));
}
/// A backstop for the sandbox's memory: a worker that wants more than this is refused, which the
/// program under test sees as running out of memory.
const BACKSTOP: usize = 3 << 30;
fn refuse(n: usize) -> bool {
    n > BACKSTOP || LIVE.try_with(|l| l.get().max(0) as usize + n > BACKSTOP).unwrap_or(false)
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if refuse(l.size()) {
            add(l.size());
            sub(l.size());
            return std::ptr::null_mut();
        }
        add(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if refuse(l.size()) {
            add(l.size());
            sub(l.size());
            return std::ptr::null_mut();
        }
        add(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() && refuse(n - l.size()) {
            add(n);
            sub(n);
            return std::ptr::null_mut();
        }
        add(n);
        sub(l.size());
        System.realloc(p, l, n)
    }
}
/// Run `f`, returning (result, peak bytes above the starting level, largest single request)
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, usize, usize) {
    let base = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(base));
    LARGEST.with(|p| p.set(0));
    let r = f();
    let peak = PEAK.with(|p| p.get());
    let largest = LARGEST.with(|p| p.get());
    (r, (peak - base).max(0) as usize, largest)
}
