//! The harness's global allocator: the system allocator plus (a) a fill pattern, chosen per thread,
//! written into fresh blocks, and (b) guard bytes after every block, checked when it is released.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering};

const GUARD: usize = 32;
const G: u8 = 0xC3;

thread_local! {
    static FILL: Cell<(bool, u64)> = const { Cell::new((false, 0)) };
    static BROKEN: Cell<u64> = const { Cell::new(0) };
}
pub static BROKEN_ALL: AtomicU64 = AtomicU64::new(0);

pub struct Guarded;

unsafe impl GlobalAlloc for Guarded {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let Ok(big) = Layout::from_size_align(l.size() + GUARD, l.align()) else { return std::ptr::null_mut() };
        let p = System.alloc(big);
        if p.is_null() {
            return p;
        }
        std::ptr::write_bytes(p.add(l.size()), G, GUARD);
        let (on, pat) = FILL.with(|f| f.get());
        if on {
            let b = pat.to_le_bytes();
            let mut i = 0;
            while i + 8 <= l.size() {
                std::ptr::copy_nonoverlapping(b.as_ptr(), p.add(i), 8);
                i += 8;
            }
            while i < l.size() {
                *p.add(i) = b[i % 8];
                i += 1;
            }
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        for i in 0..GUARD {
            if *p.add(l.size() + i) != G {
                BROKEN.with(|b| b.set(b.get() + 1));
                BROKEN_ALL.fetch_add(1, Ordering::SeqCst);
                break;
            }
        }
        let big = Layout::from_size_align_unchecked(l.size() + GUARD, l.align());
        let (on, pat) = FILL.with(|f| f.get());
        if on {
            std::ptr::write_bytes(p, (pat >> 56) as u8 ^ 0x55, l.size());
        }
        System.dealloc(p, big)
    }
}

/// Run `f` with every fresh block on this thread filled with `pat` (repeated).
pub fn filled<T, F: FnOnce() -> T>(pat: u64, f: F) -> T {
    struct Reset((bool, u64));
    impl Drop for Reset {
        fn drop(&mut self) {
            FILL.with(|f| f.set(self.0));
        }
    }
    let _r = Reset(FILL.with(|f| f.replace((true, pat))));
    f()
}

/// Guard bytes found overwritten on this thread since the last call.
pub fn broken() -> u64 {
    BROKEN.with(|b| b.replace(0))
}
