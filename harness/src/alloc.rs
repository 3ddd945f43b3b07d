//! Checking allocator (native flavour): size/double-free/overrun/write-after-free detection, quarantine, leak counting.
//! Under sanitizers and Miri only the counting remains, their own allocators do the checking.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::*};

pub struct Mon;

/// Blocks and bytes counted as belonging to the case under test.
pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static LIVE_BYTES: AtomicI64 = AtomicI64::new(0);
pub static TOTAL: AtomicU64 = AtomicU64::new(0);
pub static QUARANTINED: AtomicU64 = AtomicU64::new(0);

thread_local! { static UNTRACKED: Cell<u32> = const { Cell::new(0) }; }

/// Runs harness bookkeeping whose allocations outlive the case.
pub fn untracked<R>(f: impl FnOnce() -> R) -> R {
    struct G;
    impl Drop for G { fn drop(&mut self) { UNTRACKED.with(|u| u.set(u.get() - 1)); } }
    UNTRACKED.with(|u| u.set(u.get() + 1));
    let _g = G;
    f()
}

fn tracked() -> bool { UNTRACKED.try_with(|u| u.get() == 0).unwrap_or(false) }

const HEAD: usize = 32;
const TAIL: usize = 8;
const MAGIC_LIVE: u64 = 0x5afe_b10c_a11c_a7ed;
const MAGIC_DEAD: u64 = 0xdead_b10c_f4ee_d000;
const MAGIC_TAIL: u64 = 0x7a11_7a11_7a11_7a11;
const POISON: u8 = 0xDD;
const FRESH: u8 = 0xA5;
const RING: usize = 1 << 12;
const MAX_POISON: usize = 1 << 12;

struct Ring { at: usize, buf: [(usize, usize, usize); RING] }
static LOCK: AtomicBool = AtomicBool::new(false);
static mut QUARANTINE: Ring = Ring { at: 0, buf: [(0, 0, 0); RING] };

fn bad(what: &str, ptr: usize, a: usize, b: usize) -> ! { crate::ctx::report_raw("allocator", what, ptr as u64, a as u64, b as u64) }

unsafe fn layout_of(size: usize, align: usize) -> (Layout, usize) {
    let al = align.max(16);
    let off = HEAD.max(al); // user pointer offset, multiple of al
    (Layout::from_size_align_unchecked(off + size + TAIL, al), off)
}

#[cfg(feature = "checked_alloc")]
unsafe impl GlobalAlloc for Mon {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let (full, off) = layout_of(l.size(), l.align());
        let base = System.alloc(full);
        if base.is_null() { return base; }
        let p = base.add(off);
        let h = p.sub(HEAD) as *mut u64;
        let t = tracked();
        h.write(MAGIC_LIVE);
        h.add(1).write(l.size() as u64);
        h.add(2).write(l.align() as u64);
        h.add(3).write(t as u64);
        std::ptr::write_bytes(p, FRESH, l.size().min(MAX_POISON));
        (p.add(l.size()) as *mut u64).write_unaligned(MAGIC_TAIL);
        if t { LIVE.fetch_add(1, Relaxed); LIVE_BYTES.fetch_add(l.size() as i64, Relaxed); TOTAL.fetch_add(1, Relaxed); }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let h = p.sub(HEAD) as *mut u64;
        let magic = h.read();
        if magic == MAGIC_DEAD { bad("double free", p as usize, l.size(), l.align()); }
        if magic != MAGIC_LIVE { bad("free of a block that was never allocated or whose header was overwritten", p as usize, l.size(), l.align()); }
        if h.add(1).read() != l.size() as u64 || h.add(2).read() != l.align() as u64 {
            bad("free with a wrong layout", p as usize, l.size(), l.align());
        }
        if (p.add(l.size()) as *mut u64).read_unaligned() != MAGIC_TAIL { bad("write past the end of a block", p as usize, l.size(), l.align()); }
        if h.add(3).read() == 1 { LIVE.fetch_sub(1, Relaxed); LIVE_BYTES.fetch_sub(l.size() as i64, Relaxed); }
        h.write(MAGIC_DEAD);
        std::ptr::write_bytes(p, POISON, l.size().min(MAX_POISON));
        if l.size() > 1 << 14 { release((p as usize, l.size(), l.align())); return; }
        while LOCK.compare_exchange_weak(false, true, Acquire, Relaxed).is_err() { std::hint::spin_loop(); }
        let q = &mut *std::ptr::addr_of_mut!(QUARANTINE);
        let at = q.at;
        let old = q.buf[at];
        q.buf[at] = (p as usize, l.size(), l.align());
        q.at = (at + 1) % RING;
        LOCK.store(false, Release);
        if old.0 != 0 { release(old); }
    }
}

#[allow(dead_code)]
unsafe fn release((p, size, align): (usize, usize, usize)) {
    let p = p as *mut u8;
    if (p.sub(HEAD) as *mut u64).read() != MAGIC_DEAD { bad("write to the header of a freed block", p as usize, size, align); }
    for i in 0..size.min(MAX_POISON) {
        if p.add(i).read() != POISON { bad("write to a freed block", p as usize, size, i); }
    }
    QUARANTINED.fetch_add(1, Relaxed);
    (p.sub(HEAD) as *mut u64).write(0);
    let (full, off) = layout_of(size, align);
    System.dealloc(p.sub(off), full);
}

#[cfg(not(feature = "checked_alloc"))]
unsafe impl GlobalAlloc for Mon {
    // Only counts. Blocks allocated untracked must be told apart on free: a header would defeat the sanitizers'
    // layout checks, so tracking is global here and the leak verdict is left to LeakSanitizer / Miri.
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { System.alloc_zeroed(l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { System.realloc(p, l, n) }
}

pub fn live() -> i64 { LIVE.load(Relaxed) }
pub fn live_bytes() -> i64 { LIVE_BYTES.load(Relaxed) }

/// Verifies every quarantined block (called at the end of every case batch).
pub fn verify_quarantine() {
    #[cfg(feature = "checked_alloc")]
    unsafe {
        while LOCK.compare_exchange_weak(false, true, Acquire, Relaxed).is_err() { std::hint::spin_loop(); }
        let q = &mut *std::ptr::addr_of_mut!(QUARANTINE);
        let mut broken = None;
        for &(p, size, align) in q.buf.iter() {
            if p == 0 { continue; }
            let p = p as *mut u8;
            if (p.sub(HEAD) as *mut u64).read() != MAGIC_DEAD { broken = Some(("write to the header of a freed block", p as usize, size, align)); break; }
            if let Some(i) = (0..size.min(MAX_POISON)).find(|i| p.add(*i).read() != POISON) { broken = Some(("write to a freed block", p as usize, size, i)); break; }
        }
        LOCK.store(false, Release);
        if let Some((w, p, a, b)) = broken { bad(w, p, a, b); }
    }
}
