//! Global allocator that can bound what the current thread allocates while real decoding code runs.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Guard;
thread_local! {
    static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
    static USED: Cell<u64> = const { Cell::new(0) };
}
#[inline]
fn account(n: usize) {
    let _ = LIMIT.try_with(|l| {
        let lim = l.get();
        if lim != u64::MAX {
            let _ = USED.try_with(|u| {
                let t = u.get().saturating_add(n as u64);
                u.set(t);
                if t > lim {
                    l.set(u64::MAX);
                    crate::explore::report_fatal(&format!(
                        "allocations out of proportion to the input: {t} bytes requested in one decode (limit {lim})"
                    ));
                }
            });
        }
    });
}
unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        account(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        account(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        account(n.saturating_sub(l.size()));
        System.realloc(p, l, n)
    }
}
/// Run `f` with the thread's allocations limited to `limit` bytes in total.
pub fn limited<T>(limit: u64, f: impl FnOnce() -> T) -> T {
    USED.with(|u| u.set(0));
    LIMIT.with(|l| l.set(limit));
    let r = f();
    LIMIT.with(|l| l.set(u64::MAX));
    r
}
pub fn clear() {
    LIMIT.with(|l| l.set(u64::MAX));
}
