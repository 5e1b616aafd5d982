//! Counting allocator (feature `count`): live bytes, peak and total, for the memory monitors.
#[cfg(feature = "count")]
mod imp {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
    pub static LIVE: AtomicU64 = AtomicU64::new(0);
    pub static PEAK: AtomicU64 = AtomicU64::new(0);
    pub static TOTAL: AtomicU64 = AtomicU64::new(0);
    pub static CALLS: AtomicU64 = AtomicU64::new(0);
    struct Counting;
    fn add(n: usize) {
        let l = LIVE.fetch_add(n as u64, Relaxed) + n as u64;
        TOTAL.fetch_add(n as u64, Relaxed);
        CALLS.fetch_add(1, Relaxed);
        if l > PEAK.load(Relaxed) {
            PEAK.store(l, Relaxed);
        }
    }
    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            add(l.size());
            System.alloc(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            LIVE.fetch_sub(l.size() as u64, Relaxed);
            System.dealloc(p, l)
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            LIVE.fetch_sub(l.size() as u64, Relaxed);
            add(n);
            System.realloc(p, l, n)
        }
    }
    #[global_allocator]
    static A: Counting = Counting;
    pub fn live() -> u64 {
        LIVE.load(Relaxed)
    }
    pub fn total() -> u64 {
        TOTAL.load(Relaxed)
    }
    pub fn reset_peak() {
        PEAK.store(LIVE.load(Relaxed), Relaxed);
    }
    pub fn peak() -> u64 {
        PEAK.load(Relaxed)
    }
}
#[cfg(feature = "count")]
pub use imp::*;
