//! Allocator used by the checker: freed memory is poisoned and kept back for a
//! while (so a use after free is a crash or a visible corruption, not luck), and
//! bytes allocated by the current execution can be measured.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

const Q: usize = 96;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static POS: Cell<usize> = const { Cell::new(0) };
    static RING: [Cell<(usize, usize, usize)>; Q] = const { [const { Cell::new((0, 0, 1)) }; Q] };
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static SMALL: Cell<(isize, isize)> = const { Cell::new((0, 0)) };
    static LIMIT: Cell<isize> = const { Cell::new(isize::MAX) };
}

pub struct A;

/// the transport's pages apart
fn small(n: usize, d: isize) {
    if n < 12_000 {
        let _ = SMALL.try_with(|v| {
            let (a, b) = v.get();
            v.set((a + d * n as isize, b + d))
        });
    }
}

/// bytes and blocks this thread holds, but for the pages of transport buffers
pub fn held() -> (isize, isize) {
    SMALL.with(|l| l.get())
}


/// start / stop the quarantine of this thread
pub fn quarantine(on: bool) {
    let _ = ON.try_with(|x| x.set(on));
    if !on {
        let _ = RING.try_with(|r| {
            for c in r {
                let (p, s, a) = c.replace((0, 0, 1));
                if p != 0 {
                    unsafe { System.dealloc(p as *mut u8, Layout::from_size_align_unchecked(s, a)) }
                }
            }
        });
    }
}

/// bytes allocated at most by `f`, above the level at its start; allocations
/// beyond `limit` fail the process (as they would on a small machine)
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, isize) {
    let base = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(base));
    let r = f();
    (r, PEAK.with(|p| p.get()) - base)
}

pub fn set_limit(n: isize) {
    LIMIT.with(|l| l.set(n))
}

unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = LIVE.try_with(|v| {
            let n = v.get() + l.size() as isize;
            v.set(n);
            let _ = PEAK.try_with(|p| {
                if n > p.get() {
                    p.set(n)
                }
            });
        });
        small(l.size(), 1);
        if l.size() > 1 << 20 && LIMIT.try_with(|x| (l.size() as isize) > x.get()).unwrap_or(false) {
            return std::ptr::null_mut();
        }
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|v| v.set(v.get() - l.size() as isize));
        small(l.size(), -1);
        let on = ON.try_with(|x| x.get()).unwrap_or(false);
        if on && l.size() <= 1 << 16 {
            unsafe { std::ptr::write_bytes(p, 0xE7, l.size()) };
            let old = RING.try_with(|r| {
                let i = POS.with(|x| {
                    let i = x.get();
                    x.set((i + 1) % Q);
                    i
                });
                r[i].replace((p as usize, l.size(), l.align()))
            });
            if let Ok((p, s, a)) = old {
                if p != 0 {
                    unsafe { System.dealloc(p as *mut u8, Layout::from_size_align_unchecked(s, a)) }
                }
                return;
            }
        }
        unsafe { System.dealloc(p, l) }
    }
}
