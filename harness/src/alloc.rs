//! Monitoring allocator: per-thread counts of calls, live blocks and live bytes;
//! redzones, poison on allocation and on release, and a check that every block is
//! released once with the layout it was requested with.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, AtomicU8, Ordering::Relaxed};

thread_local! {
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static FREES: Cell<u64> = const { Cell::new(0) };
    static LIVE_BLOCKS: Cell<i64> = const { Cell::new(0) };
    static LIVE_BYTES: Cell<i64> = const { Cell::new(0) };
}
/// Number of heap faults seen and the kind of the first one.
pub static FAULTS: AtomicU64 = AtomicU64::new(0);
pub static FAULT_KIND: AtomicU8 = AtomicU8::new(0);
pub static POISON: AtomicU8 = AtomicU8::new(0xA5);
/// Blocks checked on release (evidence that the monitor observed something).
pub static CHECKED: AtomicU64 = AtomicU64::new(0);

pub fn fault_name() -> &'static str {
    match FAULT_KIND.load(Relaxed) {
        0 => "none",
        1 => "block released with a size or alignment other than requested",
        2 => "write before the start of a heap block",
        3 => "write past the end of a heap block",
        4 => "release of a block that is not live (double release or invalid pointer)",
        _ => "?",
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Stat {
    pub calls: u64,
    pub frees: u64,
    pub blocks: i64,
    pub bytes: i64,
}
pub fn stat() -> Stat {
    Stat {
        calls: CALLS.with(|c| c.get()),
        frees: FREES.with(|c| c.get()),
        blocks: LIVE_BLOCKS.with(|c| c.get()),
        bytes: LIVE_BYTES.with(|c| c.get()),
    }
}
fn on_alloc(n: usize) {
    let _ = CALLS.try_with(|c| c.set(c.get() + 1));
    let _ = LIVE_BLOCKS.try_with(|c| c.set(c.get() + 1));
    let _ = LIVE_BYTES.try_with(|c| c.set(c.get() + n as i64));
}
fn on_free(n: usize) {
    let _ = FREES.try_with(|c| c.set(c.get() + 1));
    let _ = LIVE_BLOCKS.try_with(|c| c.set(c.get() - 1));
    let _ = LIVE_BYTES.try_with(|c| c.set(c.get() - n as i64));
}

pub struct Mon;

#[cfg(feature = "plain_alloc")]
unsafe impl GlobalAlloc for Mon {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        on_alloc(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        on_free(l.size());
        System.dealloc(p, l)
    }
}

#[cfg(not(feature = "plain_alloc"))]
mod guarded {
    use super::*;
    const Z: usize = 64; // redzone on each side; the front one holds the header
    const MAGIC: u64 = 0x4150_494E_545F_4F4B;
    const DEAD: u64 = 0x4445_4144_4445_4144;
    const RZ: u8 = 0xC7;

    fn fault(k: u8) {
        FAULTS.fetch_add(1, Relaxed);
        let _ = FAULT_KIND.compare_exchange(0, k, Relaxed, Relaxed);
    }
    fn outer(l: Layout) -> (Layout, usize) {
        let al = l.align().max(16);
        let front = Z.max(al);
        (unsafe { Layout::from_size_align_unchecked(front + l.size() + Z, al) }, front)
    }
    unsafe impl GlobalAlloc for Mon {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            let (o, f) = outer(l);
            let p = System.alloc(o);
            if p.is_null() {
                return p;
            }
            let u = p.add(f);
            std::ptr::write_bytes(u.sub(Z), RZ, Z);
            let h = u.sub(Z) as *mut u64;
            h.write(MAGIC);
            h.add(1).write(l.size() as u64);
            h.add(2).write(l.align() as u64);
            std::ptr::write_bytes(u, POISON.load(Relaxed), l.size());
            std::ptr::write_bytes(u.add(l.size()), RZ, Z);
            on_alloc(l.size());
            u
        }
        unsafe fn dealloc(&self, u: *mut u8, l: Layout) {
            let h = u.sub(Z) as *mut u64;
            if h.read() != MAGIC {
                fault(4);
                return; // leak it rather than corrupt the real heap
            }
            CHECKED.fetch_add(1, Relaxed);
            let (size, align) = (h.add(1).read() as usize, h.add(2).read() as usize);
            if size != l.size() || align != l.align() {
                fault(1);
            }
            let l = Layout::from_size_align_unchecked(size, align);
            if (24..Z).any(|i| *u.sub(Z).add(i) != RZ) {
                fault(2);
            }
            if (0..Z).any(|i| *u.add(size + i) != RZ) {
                fault(3);
            }
            h.write(DEAD);
            std::ptr::write_bytes(u, 0xDD, size);
            on_free(size);
            let (o, f) = outer(l);
            System.dealloc(u.sub(f), o)
        }
    }
}

#[global_allocator]
static A: Mon = Mon;
