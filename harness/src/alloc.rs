//! Global allocator that counts live bytes and stops the process when a case
//! exceeds its memory allowance. The limit is a deterministic function of what
//! the code under test asks for, not of the machine.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::*};

pub struct Counting;

static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);
static TRACK: AtomicBool = AtomicBool::new(false);
static ARMED: AtomicBool = AtomicBool::new(false);

/// Written when the limit is exceeded; points into shared memory when one is set.
static NOTE: AtomicUsize = AtomicUsize::new(0);

pub fn set_note(p: *mut u64) {
    NOTE.store(p as usize, SeqCst);
}

/// Bytes allocated now.
pub fn live() -> usize {
    LIVE.load(SeqCst)
}

/// The most bytes allocated at once while `f` ran, beyond those before it.
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let before = LIVE.load(SeqCst);
    PEAK.store(before, SeqCst);
    TRACK.store(true, SeqCst);
    let out = f();
    TRACK.store(false, SeqCst);
    (out, PEAK.load(SeqCst).saturating_sub(before))
}

/// Allow `extra` bytes beyond what is live now.
pub fn arm(extra: usize) {
    let live = LIVE.load(SeqCst);
    LIMIT.store(live.saturating_add(extra), SeqCst);
    ARMED.store(true, SeqCst);
}

pub fn disarm() {
    ARMED.store(false, SeqCst);
    LIMIT.store(usize::MAX, SeqCst);
}

fn over(size: usize) -> ! {
    let p = NOTE.load(SeqCst) as *mut u64;
    if !p.is_null() {
        unsafe {
            p.write_volatile(1);
            p.add(1).write_volatile(size as u64);
        }
    }
    unsafe { libc::_exit(97) }
}

#[inline]
fn add(n: usize) {
    let now = LIVE.fetch_add(n, Relaxed).wrapping_add(n);
    if TRACK.load(Relaxed) {
        PEAK.fetch_max(now, Relaxed);
    }
    if now > LIMIT.load(Relaxed) && ARMED.load(Relaxed) {
        over(n);
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if new > l.size() {
            add(new - l.size());
        } else {
            LIVE.fetch_sub(l.size() - new, Relaxed);
        }
        System.realloc(p, l, new)
    }
}
