//! The allocator of the harness.

/// Counts live memory. No case needs more than a few hundred MB, so whatever
/// asks for more than [`MEMORY`] allocates without bound: the process ends
/// there, by a signal and with a message that tells it from a machine that
/// really ran out of memory.
pub struct Counting;

const MEMORY: usize = 3 << 30;
static LIVE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
static TOTAL: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

impl Counting {
    #[inline]
    fn take(n: usize) {
        use std::sync::atomic::Ordering::Relaxed;
        TOTAL.fetch_add(n, Relaxed);
        if n > MEMORY || LIVE.fetch_add(n, Relaxed) > MEMORY {
            use std::io::Write;
            let _ = std::io::stderr().write_all(b"more than 3 GB of memory requested\n");
            std::process::abort();
        }
    }
    #[inline]
    fn give(n: usize) {
        LIVE.fetch_sub(n, std::sync::atomic::Ordering::Relaxed);
    }
}

// SAFETY: everything is delegated to the system's allocator.
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        Self::take(l.size());
        std::alloc::System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        Self::take(l.size());
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        Self::give(l.size());
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        Self::take(n);
        Self::give(l.size());
        std::alloc::System.realloc(p, l, n)
    }
}

/// Bytes allocated right now (0 where another allocator is used).
pub fn live() -> usize {
    LIVE.load(std::sync::atomic::Ordering::Relaxed)
}

/// Bytes allocated so far, whether freed since or not.
pub fn total() -> usize {
    TOTAL.load(std::sync::atomic::Ordering::Relaxed)
}
