//! An allocator that counts the memory in use, and refuses absurd requests.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Counting;

static NOW: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
/// everything ever asked for, however briefly (a growing request counts with its new size:
/// the allocator may have to copy)
static ALL: AtomicUsize = AtomicUsize::new(0);
/// one request above this fails (the process then aborts, which the driver reports)
const MOST: usize = 1 << 30;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > MOST {
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        if !p.is_null() {
            ALL.fetch_add(l.size(), Relaxed);
            let n = NOW.fetch_add(l.size(), Relaxed) + l.size();
            PEAK.fetch_max(n, Relaxed);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        NOW.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if new > MOST {
            return std::ptr::null_mut();
        }
        let q = System.realloc(p, l, new);
        if !q.is_null() {
            ALL.fetch_add(new, Relaxed);
            let n = NOW.fetch_add(new, Relaxed) + new;
            NOW.fetch_sub(l.size(), Relaxed);
            PEAK.fetch_max(n - l.size(), Relaxed);
        }
        q
    }
}

pub fn start() -> usize {
    let n = NOW.load(Relaxed);
    PEAK.store(n, Relaxed);
    n
}

/// most memory in use since start, beyond what was in use then
pub fn peak(base: usize) -> usize {
    PEAK.load(Relaxed).saturating_sub(base)
}

/// everything asked for so far
pub fn all() -> usize {
    ALL.load(Relaxed)
}

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}
extern "C" {
    fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
}

/// processor time of this thread in milliseconds: what other processes do does not count
pub fn cpu_ms() -> usize {
    let mut t = Timespec { sec: 0, nsec: 0 };
    let rc = unsafe { clock_gettime(3, &mut t) };
    assert_eq!(rc, 0);
    t.sec as usize * 1000 + t.nsec as usize / 1_000_000
}
