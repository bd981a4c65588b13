//! Global allocator of the harness: counts live and peak bytes per thread (C21) and can switch to a
//! lock-free bump arena so that a preempted thread never holds an allocator lock (C20).

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::*};

pub struct Counting;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    // free blocks of 2^5 .. 2^14 bytes: the malloc arenas would serialize the worker threads
    static FREE: [Cell<*mut u8>; CLASSES] = const { [const { Cell::new(std::ptr::null_mut()) }; CLASSES] };
}
const CLASSES: usize = 10;

fn class(l: Layout) -> usize {
    if l.align() > 16 {
        return CLASSES;
    }
    (l.size().max(32).next_power_of_two().trailing_zeros() - 5) as usize
}
unsafe fn take(l: Layout) -> *mut u8 {
    let k = class(l);
    if k < CLASSES {
        let p = FREE.try_with(|f| {
            let p = f[k].get();
            if !p.is_null() {
                f[k].set(unsafe { *(p as *mut *mut u8) });
            }
            p
        });
        return match p {
            Ok(p) if !p.is_null() => p,
            _ => unsafe { System.alloc(Layout::from_size_align_unchecked(32 << k, 16)) },
        };
    }
    unsafe { System.alloc(l) }
}
unsafe fn give(p: *mut u8, l: Layout) {
    let k = class(l);
    if k < CLASSES {
        let r = FREE.try_with(|f| unsafe {
            *(p as *mut *mut u8) = f[k].get();
            f[k].set(p);
        });
        if r.is_err() {
            unsafe { System.dealloc(p, Layout::from_size_align_unchecked(32 << k, 16)) }
        }
        return;
    }
    unsafe { System.dealloc(p, l) }
}
static BUMP: AtomicBool = AtomicBool::new(false);
static ARENA: AtomicUsize = AtomicUsize::new(0);
static NEXT: AtomicUsize = AtomicUsize::new(0);
const ARENA_SIZE: usize = 1 << 30;

#[inline]
fn add(n: isize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        if n > 0 {
            let _ = PEAK.try_with(|p| {
                if v > p.get() {
                    p.set(v)
                }
            });
        }
    });
}

/// start measuring on this thread; returns the current live bytes
pub fn start() -> isize {
    let v = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(v));
    v
}
/// bytes allocated since then and not given back
pub fn live_since(base: isize) -> isize {
    LIVE.with(|l| l.get()) - base
}
pub fn peak_since(base: isize) -> isize {
    PEAK.with(|p| p.get()) - base
}

/// from now on (in this process) allocate from the bump arena only
pub fn use_arena() {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            ARENA_SIZE,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        ARENA.store(p as usize, SeqCst);
        NEXT.store(p as usize, SeqCst);
        BUMP.store(true, SeqCst);
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if BUMP.load(Relaxed) {
            let a = l.align().max(16);
            let n = (l.size() + a + 15) & !15;
            let p = NEXT.fetch_add(n, SeqCst);
            if p + n > ARENA.load(Relaxed) + ARENA_SIZE {
                return std::ptr::null_mut();
            }
            return ((p + a - 1) & !(a - 1)) as *mut u8;
        }
        add(l.size() as isize);
        unsafe { take(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let a = ARENA.load(Relaxed);
        if a != 0 && (p as usize) >= a && (p as usize) < a + ARENA_SIZE {
            return;
        }
        if BUMP.load(Relaxed) {
            return; // from before the switch: never touch the system allocator again
        }
        add(-(l.size() as isize));
        unsafe { give(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let a = ARENA.load(Relaxed);
        if BUMP.load(Relaxed) || (a != 0 && (p as usize) >= a && (p as usize) < a + ARENA_SIZE) {
            unsafe {
                let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
                if !q.is_null() {
                    std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                    self.dealloc(p, l);
                }
                return q;
            }
        }
        // both blocks may be alive while copying
        add(n as isize);
        let nl = unsafe { Layout::from_size_align_unchecked(n, l.align()) };
        let (k, m) = (class(l), class(nl));
        let q = if k < CLASSES && k == m {
            p
        } else if k >= CLASSES && m >= CLASSES {
            unsafe { System.realloc(p, l, n) }
        } else {
            unsafe {
                let q = take(nl);
                if !q.is_null() {
                    std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                    give(p, l);
                }
                q
            }
        };
        add(-(l.size() as isize));
        q
    }
}
