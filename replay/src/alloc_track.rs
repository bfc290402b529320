// Allocator that poisons fresh memory and checks that every block is released
// once and with the layout it was allocated with.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
pub struct Tracking;
pub static BAD: AtomicUsize = AtomicUsize::new(0);   // mismatched releases
pub static LIVE: AtomicUsize = AtomicUsize::new(0);  // live blocks
const MAGIC: usize = 0x5AFE_B10C_5AFE_B10C;
const FREED: usize = 0xDEAD_B10C_DEAD_B10C;
fn pre(align: usize) -> usize { if align > 32 { align } else { 32 } }
unsafe impl GlobalAlloc for Tracking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = pre(l.align());
        let Ok(full) = Layout::from_size_align(l.size() + p, l.align().max(16)) else { return std::ptr::null_mut() };
        let base = System.alloc(full);
        if base.is_null() { return base; }
        let user = base.add(p);
        let h = user.cast::<usize>();
        h.sub(1).write(MAGIC);
        h.sub(2).write(l.size());
        h.sub(3).write(l.align());
        std::ptr::write_bytes(user, 0xA5, l.size().min(1 << 20));
        LIVE.fetch_add(1, Ordering::Relaxed);
        user
    }
    unsafe fn dealloc(&self, user: *mut u8, l: Layout) {
        let p = pre(l.align());
        let h = user.cast::<usize>();
        let ok = h.sub(1).read() == MAGIC && h.sub(2).read() == l.size() && h.sub(3).read() == l.align();
        if !ok { BAD.fetch_add(1, Ordering::Relaxed); return; }
        h.sub(1).write(FREED);
        LIVE.fetch_sub(1, Ordering::Relaxed);
        std::ptr::write_bytes(user, 0x5A, l.size().min(1 << 20));
        System.dealloc(user.sub(p), Layout::from_size_align_unchecked(l.size() + p, l.align().max(16)));
    }
}
