//! Counting allocator: live bytes and blocks of the process, with a cap.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};

pub struct Counting;

pub static LIVE_BYTES: AtomicI64 = AtomicI64::new(0);
pub static LIVE_BLOCKS: AtomicI64 = AtomicI64::new(0);
pub static TOTAL_BLOCKS: AtomicU64 = AtomicU64::new(0);
pub static TOTAL_BYTES: AtomicU64 = AtomicU64::new(0);
pub static PEAK: AtomicI64 = AtomicI64::new(0);
pub static CAP: AtomicI64 = AtomicI64::new(i64::MAX);

pub const CAP_EXIT: i32 = 71;

fn add(n: usize) {
    let now = LIVE_BYTES.fetch_add(n as i64, Relaxed) + n as i64;
    LIVE_BLOCKS.fetch_add(1, Relaxed);
    TOTAL_BLOCKS.fetch_add(1, Relaxed);
    TOTAL_BYTES.fetch_add(n as u64, Relaxed);
    if now > PEAK.load(Relaxed) {
        PEAK.store(now, Relaxed);
    }
    if now > CAP.load(Relaxed) {
        unsafe { libc::_exit(CAP_EXIT) }
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE_BYTES.fetch_sub(l.size() as i64, Relaxed);
        LIVE_BLOCKS.fetch_sub(1, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            add(l.size());
        }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            LIVE_BYTES.fetch_sub(l.size() as i64, Relaxed);
            LIVE_BLOCKS.fetch_sub(1, Relaxed);
            add(n);
        }
        q
    }
}

pub fn live() -> (i64, i64) {
    (LIVE_BYTES.load(Relaxed), LIVE_BLOCKS.load(Relaxed))
}
