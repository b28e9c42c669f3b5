//! A global allocator that counts the blocks and bytes the current thread holds.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static BYTES: Cell<i64> = const { Cell::new(0) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let _ = BYTES.try_with(|c| c.set(c.get() + layout.size() as i64));
        let _ = BLOCKS.try_with(|c| c.set(c.get() + 1));
        let _ = TOTAL.try_with(|c| c.set(c.get() + 1));
        System.alloc(layout)
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        let _ = BYTES.try_with(|c| c.set(c.get() - layout.size() as i64));
        let _ = BLOCKS.try_with(|c| c.set(c.get() - 1));
        System.dealloc(ptr, layout)
    }
}

/// (bytes, blocks) held now.
pub fn live() -> (i64, i64) {
    (BYTES.with(|c| c.get()), BLOCKS.with(|c| c.get()))
}

/// Blocks ever allocated.
pub fn allocations() -> u64 {
    TOTAL.with(|c| c.get())
}
