//! Checking global allocator: layout contract, guard bytes, poison on free, quarantine, leak count,
//! allocation-failure injection.  Only blocks requested while `TRACK` is on (i.e. from inside a library
//! call) are attributed to the library.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Checked;

const MAGIC: u64 = 0x5AFE_B10C_5AFE_B10C;
const FREED: u64 = 0xDEAD_B10C_DEAD_B10C;
const TAIL: usize = 32;
const HEAD: usize = 64;
const FILL_MAX: usize = 32 * 1024;
const QN: usize = 48;
const NREC: usize = 256;

#[repr(C)]
struct Hdr {
    magic: u64,
    size: usize,
    align: usize,
    tracked: u64,
    pad: [u8; 32],
}

pub const E_ZERO: u32 = 1;
pub const E_LAYOUT: u32 = 2;
pub const E_HEADGUARD: u32 = 4;
pub const E_TAILGUARD: u32 = 8;
pub const E_DOUBLEFREE: u32 = 16;
pub const E_UAFWRITE: u32 = 32;
pub const E_BADALIGN: u32 = 64;

pub fn err_text(e: u32) -> String {
    let mut v = Vec::new();
    for (b, s) in [
        (E_ZERO, "zero-sized allocation requested from the allocator"),
        (E_LAYOUT, "block released or resized with a layout different from its allocation"),
        (E_HEADGUARD, "memory before a block was overwritten"),
        (E_TAILGUARD, "memory after a block was overwritten"),
        (E_DOUBLEFREE, "release of a pointer that is not a live block"),
        (E_UAFWRITE, "write to a released block"),
        (E_BADALIGN, "invalid alignment requested"),
    ] {
        if e & b != 0 {
            v.push(s);
        }
    }
    v.join("; ")
}

thread_local! {
    static TRACK: Cell<bool> = const { Cell::new(false) };
    static ERR: Cell<u32> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static LIVE_BYTES: Cell<i64> = const { Cell::new(0) };
    static REQS: Cell<u64> = const { Cell::new(0) };
    static FAIL_AT: Cell<i64> = const { Cell::new(-1) };
    static FAIL_ALL: Cell<bool> = const { Cell::new(false) };
    static FAIL_MINALIGN: Cell<usize> = const { Cell::new(0) };
    static FAILED: Cell<u64> = const { Cell::new(0) };
    /// Region from which library blocks are taken: begin, end, next free address (0: not in use).
    static ARENA: Cell<(usize, usize, usize)> = const { Cell::new((0, 0, 0)) };
    static Q: Cell<[(usize, usize, usize); QN]> = const { Cell::new([(0, 0, 0); QN]) };
    static QI: Cell<usize> = const { Cell::new(0) };
    static REC: Cell<[usize; NREC]> = const { Cell::new([0; NREC]) };
    static RECN: Cell<usize> = const { Cell::new(NREC + 1) };
    static QUARANTINE: Cell<bool> = const { Cell::new(true) };
    static INSIDE: Cell<u32> = const { Cell::new(0) };
    static STEP: Cell<bool> = const { Cell::new(false) };
}
/// The calling thread is inside the allocator.
pub fn inside() -> bool {
    INSIDE.with(|c| c.get()) != 0
}
/// Single steps (the trap flag) are to be switched on again when the allocator is left.
pub fn step_again() {
    STEP.with(|c| c.set(true));
}
pub fn step_never() {
    STEP.with(|c| c.set(false));
}
struct Inside;
impl Inside {
    #[inline]
    fn enter() -> Inside {
        let _ = INSIDE.try_with(|c| c.set(c.get() + 1));
        Inside
    }
}
impl Drop for Inside {
    #[inline]
    fn drop(&mut self) {
        let _ = INSIDE.try_with(|c| c.set(c.get() - 1));
        if STEP.try_with(|c| c.get()).unwrap_or(false) && !inside() {
            STEP.with(|c| c.set(false));
            unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") };
        }
    }
}

/// Runs `f` as a library call.
#[inline]
pub fn lib<R>(f: impl FnOnce() -> R) -> R {
    struct G(bool);
    impl Drop for G {
        fn drop(&mut self) {
            TRACK.with(|t| t.set(self.0));
        }
    }
    let _g = G(TRACK.with(|t| t.replace(true)));
    f()
}
/// Runs `f` as harness code called back from the library (destructors, predicates).
#[inline]
pub fn user<R>(f: impl FnOnce() -> R) -> R {
    struct G(bool);
    impl Drop for G {
        fn drop(&mut self) {
            TRACK.with(|t| t.set(self.0));
        }
    }
    let _g = G(TRACK.with(|t| t.replace(false)));
    f()
}
pub fn take_err() -> u32 {
    ERR.with(|e| e.replace(0))
}
pub fn live_blocks() -> i64 {
    LIVE.with(|e| e.get())
}
pub fn live_bytes() -> i64 {
    LIVE_BYTES.with(|e| e.get())
}
pub fn requests() -> u64 {
    REQS.with(|e| e.get())
}
/// Fail the n-th (0-based) library allocation request with alignment >= `minalign` from now on.
pub fn fail_at(n: i64, minalign: usize, all_after: bool) {
    FAIL_AT.with(|c| c.set(n));
    FAIL_MINALIGN.with(|c| c.set(minalign));
    FAIL_ALL.with(|c| c.set(all_after));
    FAILED.with(|c| c.set(0));
}
pub fn failed() -> u64 {
    FAILED.with(|c| c.get())
}
/// From now on library blocks come from the region; blocks in it are never given back to the system.
/// With `on` false the region stays known, but no more blocks are taken from it.
pub fn arena(begin: usize, end: usize, on: bool) {
    ARENA.with(|c| {
        c.set((begin, end, if on { begin } else { 0 }))
    });
}
/// Stops taking blocks from the region; yields the first address not used.
pub fn arena_off() -> usize {
    ARENA.with(|c| {
        let (b, e, n) = c.get();
        c.set((b, e, 0));
        n
    })
}
unsafe fn give_back(base: *mut u8, total: usize, align: usize) {
    let (b, e, _) = ARENA.try_with(|c| c.get()).unwrap_or((0, 0, 0));
    if (base as usize) < b || base as usize >= e {
        System.dealloc(base, Layout::from_size_align_unchecked(total, align));
    }
}
/// Begins to record the blocks handed to the library.
pub fn record() {
    RECN.with(|c| c.set(0));
}
/// Ends the recording; yields the addresses in order of request.
pub fn recorded() -> Vec<usize> {
    let n = RECN.with(|c| c.replace(NREC + 1)).min(NREC);
    let a = REC.with(|c| c.get());
    user(|| a[..n].to_vec())
}
pub fn set_quarantine(on: bool) {
    QUARANTINE.with(|c| c.set(on));
}
#[inline]
fn note(e: u32) {
    let _ = ERR.try_with(|c| c.set(c.get() | e));
}

unsafe impl GlobalAlloc for Checked {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let _inside = Inside::enter();
        let tracked = TRACK.try_with(|t| t.get()).unwrap_or(false);
        if tracked {
            REQS.with(|c| c.set(c.get() + 1));
            if layout.size() == 0 {
                note(E_ZERO);
            }
            let n = FAIL_AT.with(|c| c.get());
            if n >= 0 && layout.align() >= FAIL_MINALIGN.with(|c| c.get()) {
                if n == 0 {
                    if !FAIL_ALL.with(|c| c.get()) {
                        FAIL_AT.with(|c| c.set(-1));
                    }
                    FAILED.with(|c| c.set(c.get() + 1));
                    return core::ptr::null_mut();
                }
                FAIL_AT.with(|c| c.set(n - 1));
            }
        }
        if !layout.align().is_power_of_two() {
            note(E_BADALIGN);
            return core::ptr::null_mut();
        }
        let align = layout.align().max(16);
        let pad = align.max(HEAD);
        let total = match pad.checked_add(layout.size()).and_then(|x| x.checked_add(TAIL)) {
            Some(t) if t < (1usize << 40) => t,
            _ => return core::ptr::null_mut(),
        };
        let (ab, ae, an) = if tracked { ARENA.with(|c| c.get()) } else { (0, 0, 0) };
        let base = if an != 0 {
            let at = (an + align - 1) & !(align - 1);
            if at + total > ae {
                core::ptr::null_mut()
            } else {
                ARENA.with(|c| c.set((ab, ae, at + total)));
                at as *mut u8
            }
        } else {
            System.alloc(Layout::from_size_align_unchecked(total, align))
        };
        if base.is_null() {
            return base;
        }
        let p = base.add(pad);
        let h = p.sub(HEAD) as *mut Hdr;
        (*h).magic = MAGIC;
        (*h).size = layout.size();
        (*h).align = layout.align();
        (*h).tracked = tracked as u64;
        (*h).pad = [0xA5; 32];
        if tracked {
            let n = RECN.with(|c| c.get());
            if n < NREC {
                *(REC.with(|c| c.as_ptr()) as *mut usize).add(n) = p as usize;
                RECN.with(|c| c.set(n + 1));
            }
            if layout.size() <= FILL_MAX {
                core::ptr::write_bytes(p, 0xCD, layout.size());
            }
            LIVE.with(|c| c.set(c.get() + 1));
            LIVE_BYTES.with(|c| c.set(c.get() + layout.size() as i64));
        }
        core::ptr::write_bytes(p.add(layout.size()), 0xA5, TAIL);
        p
    }

    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        let _inside = Inside::enter();
        let h = p.sub(HEAD) as *mut Hdr;
        if (*h).magic != MAGIC {
            note(if (*h).magic == FREED { E_DOUBLEFREE } else { E_HEADGUARD | E_DOUBLEFREE });
            return;
        }
        if (*h).size != layout.size() || (*h).align != layout.align() {
            note(E_LAYOUT);
        }
        let size = (*h).size;
        let tracked = (*h).tracked != 0;
        if (*h).pad != [0xA5; 32] {
            note(E_HEADGUARD);
        }
        let tail = core::slice::from_raw_parts(p.add(size), TAIL);
        if tail.iter().any(|b| *b != 0xA5) {
            note(E_TAILGUARD);
        }
        (*h).magic = FREED;
        let align = (*h).align.max(16);
        let pad = align.max(HEAD);
        let base = p.sub(pad);
        let total = pad + size + TAIL;
        if tracked {
            let _ = LIVE.try_with(|c| c.set(c.get() - 1));
            let _ = LIVE_BYTES.try_with(|c| c.set(c.get() - size as i64));
            if size <= FILL_MAX && QUARANTINE.try_with(|c| c.get()).unwrap_or(false) {
                core::ptr::write_bytes(p, 0xDD, size);
                let i = QI.with(|c| c.get());
                QI.with(|c| c.set((i + 1) % QN));
                let qp = Q.with(|q| q.as_ptr()) as *mut (usize, usize, usize);
                let old = *qp.add(i);
                *qp.add(i) = (base as usize, total, align);
                if old.0 != 0 {
                    evict(old);
                }
                return;
            }
        }
        give_back(base, total, align);
    }
}

unsafe fn evict(old: (usize, usize, usize)) {
    let (b, total, align) = old;
    let pad = align.max(HEAD);
    let p = (b + pad) as *const u8;
    let size = total - pad - TAIL;
    // compare in words for speed
    let s = core::slice::from_raw_parts(p, size);
    let (a, m, c) = s.align_to::<u64>();
    if a.iter().chain(c).any(|x| *x != 0xDD) || m.iter().any(|x| *x != 0xDDDD_DDDD_DDDD_DDDD) {
        note(E_UAFWRITE);
    }
    give_back(b as *mut u8, total, align);
}

/// Empties the calling thread's quarantine, checking that nothing wrote to released blocks.
pub fn flush_quarantine() {
    for i in 0..QN {
        unsafe {
            let qp = Q.with(|q| q.as_ptr()) as *mut (usize, usize, usize);
            let old = *qp.add(i);
            *qp.add(i) = (0, 0, 0);
            if old.0 != 0 {
                evict(old);
            }
        }
    }
}
