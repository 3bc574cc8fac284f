//! The allocator seam: a global allocator that knows every block.
//!
//! Every block carries a header (size, alignment, who allocated it) and a tail canary. Blocks
//! allocated while tracking is on for the calling thread are put in a list; freed ones are filled
//! with a poison byte and kept in quarantine until the end of the run. This makes the following
//! observable, exactly and at the same step in every replay, instead of being undefined behaviour:
//! double frees, frees of foreign pointers, frees with another layout than the allocation's,
//! writes past the end, writes after free, reads after free (the poison is read) and leaks.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};

pub const POISON: u8 = 0xF5;
const FRESH: u8 = 0xA7;
const CANARY: u8 = 0x5C;
const TAIL: usize = 16;
const LIVE: u64 = 0x51_4c49_5645_0001;
const FREED: u64 = 0x51_4652_4545_0002;

#[repr(C)]
struct Header {
    size: usize,
    align: usize,
    base: *mut u8,
    total: usize,
    prev: *mut Header,
    next: *mut Header,
    seq: u64,
    tracked: u64,
    magic: u64,
    pad: u64,
}
const H: usize = std::mem::size_of::<Header>();

pub struct Track;

static LOCK: AtomicBool = AtomicBool::new(false);
struct Lists {
    live: *mut Header,
    dead: *mut Header,
    n_live: usize,
    n_dead: usize,
    dead_bytes: usize,
    seq: u64,
}
static mut LISTS: Lists = Lists {
    live: std::ptr::null_mut(),
    dead: std::ptr::null_mut(),
    n_live: 0,
    n_dead: 0,
    dead_bytes: 0,
    seq: 0,
};

fn locked<R>(f: impl FnOnce(&mut Lists) -> R) -> R {
    crate::step::calm(|| {
        while LOCK.swap(true, Acquire) {
            std::hint::spin_loop();
        }
        #[allow(static_mut_refs)]
        let r = f(unsafe { &mut *std::ptr::addr_of_mut!(LISTS) });
        LOCK.store(false, Release);
        r
    })
}

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static FREES: Cell<u64> = const { Cell::new(0) };
    static BIGGEST: Cell<usize> = const { Cell::new(0) };
}

// First error of the run: kind, and two operands.
static ERR_KIND: AtomicUsize = AtomicUsize::new(0);
static ERR_A: AtomicU64 = AtomicU64::new(0);
static ERR_B: AtomicU64 = AtomicU64::new(0);
pub static TOTAL_ALLOCS: AtomicU64 = AtomicU64::new(0);

fn error(kind: usize, a: u64, b: u64) {
    if ERR_KIND.compare_exchange(0, kind, SeqCst, SeqCst).is_ok() {
        ERR_A.store(a, SeqCst);
        ERR_B.store(b, SeqCst);
    }
}

unsafe fn unlink(head: &mut *mut Header, h: *mut Header) {
    if (*h).prev.is_null() {
        *head = (*h).next;
    } else {
        (*(*h).prev).next = (*h).next;
    }
    if !(*h).next.is_null() {
        (*(*h).next).prev = (*h).prev;
    }
}
unsafe fn push(head: &mut *mut Header, h: *mut Header) {
    (*h).prev = std::ptr::null_mut();
    (*h).next = *head;
    if !(*head).is_null() {
        (**head).prev = h;
    }
    *head = h;
}

unsafe impl GlobalAlloc for Track {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        crate::step::calm(|| self.alloc_(l))
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        crate::step::calm(|| self.dealloc_(p, l))
    }

    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = self.alloc(l);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0, l.size());
        }
        p
    }

    // Always moves, so that stale pointers into the old block are noticed.
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let q = self.alloc(Layout::from_size_align_unchecked(new, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
            self.dealloc(p, l);
        }
        q
    }
}

impl Track {
    unsafe fn alloc_(&self, l: Layout) -> *mut u8 {
        let on = ON.try_with(|c| c.get()).unwrap_or(false);
        if on {
            let _ = BIGGEST.try_with(|c| c.set(c.get().max(l.size())));
            let _ = ALLOCS.try_with(|c| c.set(c.get() + 1));
            crate::sched::yield_in_allocator();
        }
        if l.size() > (1 << 33) {
            error(6, l.size() as u64, 0);
            return std::ptr::null_mut();
        }
        let align = l.align().max(16);
        let off = (H + align - 1) / align * align;
        let total = off + l.size() + TAIL;
        let base = System.alloc(Layout::from_size_align_unchecked(total, align));
        if base.is_null() {
            return base;
        }
        let p = base.add(off);
        let h = p.sub(H) as *mut Header;
        h.write(Header {
            size: l.size(),
            align: l.align(),
            base,
            total,
            prev: std::ptr::null_mut(),
            next: std::ptr::null_mut(),
            seq: 0,
            tracked: on as u64,
            magic: LIVE,
            pad: align as u64,
        });
        std::ptr::write_bytes(p.add(l.size()), CANARY, TAIL);
        if on {
            if l.size() <= 1 << 20 {
                std::ptr::write_bytes(p, FRESH, l.size());
            }
            TOTAL_ALLOCS.fetch_add(1, Relaxed);
            locked(|g| {
                g.seq += 1;
                (*h).seq = g.seq;
                push(&mut g.live, h);
                g.n_live += 1;
            });
        }
        p
    }

    unsafe fn dealloc_(&self, p: *mut u8, l: Layout) {
        if ON.try_with(|c| c.get()).unwrap_or(false) {
            let _ = FREES.try_with(|c| c.set(c.get() + 1));
            crate::sched::yield_in_allocator();
        }
        if (p as usize) < 65536 || (p as usize) % 8 != 0 && l.align() >= 8 {
            return error(2, l.size() as u64, l.align() as u64);
        }
        // An allocation is at least 16-aligned here, whatever was asked.
        if (p as usize) % 16 != 0 {
            return error(2, l.size() as u64, l.align() as u64);
        }
        let h = p.sub(H) as *mut Header;
        match (*h).magic {
            LIVE => {}
            FREED => return error(1, (*h).size as u64, (*h).align as u64),
            _ => return error(2, l.size() as u64, l.align() as u64),
        }
        if (*h).size != l.size() || (*h).align != l.align() {
            error(
                3,
                ((*h).size as u64) << 16 | (*h).align as u64,
                (l.size() as u64) << 16 | l.align() as u64,
            );
        }
        if !canary_ok(h) {
            error(4, (*h).size as u64, (*h).align as u64);
        }
        if (*h).tracked == 1 {
            (*h).magic = FREED;
            std::ptr::write_bytes(p, POISON, (*h).size);
            locked(|g| {
                unlink(&mut g.live, h);
                g.n_live -= 1;
                push(&mut g.dead, h);
                g.n_dead += 1;
                g.dead_bytes += (*h).total;
            });
        } else {
            (*h).magic = 0;
            System.dealloc(
                (*h).base,
                Layout::from_size_align_unchecked((*h).total, (*h).pad as usize),
            );
        }
    }
}

unsafe fn canary_ok(h: *mut Header) -> bool {
    let p = (h as *mut u8).add(H).add((*h).size);
    (0..TAIL).all(|i| *p.add(i) == CANARY)
}

/// Tracking on this thread for the duration of `f`.
pub fn tracked<R>(f: impl FnOnce() -> R) -> R {
    set(true, f)
}
/// What the harness itself allocates, even below the code under test.
pub fn untracked<R>(f: impl FnOnce() -> R) -> R {
    crate::step::calm(|| set(false, f))
}
fn set<R>(on: bool, f: impl FnOnce() -> R) -> R {
    struct G(bool);
    impl Drop for G {
        fn drop(&mut self) {
            ON.with(|c| c.set(self.0))
        }
    }
    let _g = G(ON.with(|c| c.replace(on)));
    f()
}
pub fn is_on() -> bool {
    ON.with(|c| c.get())
}

/// (allocations, frees) of this thread so far, tracked ones only.
pub fn counts() -> (u64, u64) {
    (ALLOCS.with(|c| c.get()), FREES.with(|c| c.get()))
}
pub fn reset_biggest() {
    BIGGEST.with(|c| c.set(0))
}
pub fn biggest() -> usize {
    BIGGEST.with(|c| c.get())
}
pub fn live_count() -> usize {
    locked(|g| g.n_live)
}

/// Is `p` inside a live (Some(true)) or a freed (Some(false)) tracked block?
#[allow(dead_code)]
pub fn block_state(p: *const u8) -> Option<bool> {
    locked(|g| unsafe {
        for (head, alive) in [(g.live, true), (g.dead, false)] {
            let mut h = head;
            while !h.is_null() {
                let start = (h as *const u8).add(H);
                if p >= start && p < start.add((*h).size.max(1)) {
                    return Some(alive);
                }
                h = (*h).next;
            }
        }
        None
    })
}

pub enum Fault {
    Memory(String),
    Leak(String),
}

fn describe(kind: usize, a: u64, b: u64) -> String {
    match kind {
        1 => format!("double free of a block of {a} bytes (align {b})"),
        2 => format!("free of a pointer that is not a heap block (layout given: size {a}, align {b})"),
        3 => format!(
            "free with another layout: allocated size {} align {}, freed as size {} align {}",
            a >> 16, a & 0xffff, b >> 16, b & 0xffff
        ),
        4 => format!("write past the end of a block of {a} bytes"),
        5 => format!("write to a freed block of {a} bytes"),
        6 => format!("allocation of {a} bytes requested"),
        _ => format!("memory error {kind}"),
    }
}

/// The first memory error so far in this run, if any.
pub fn memory_error() -> Option<String> {
    match ERR_KIND.load(SeqCst) {
        0 => None,
        k => Some(describe(k, ERR_A.load(SeqCst), ERR_B.load(SeqCst))),
    }
}

/// End of a run: empties the quarantine, forgets what still lives; what was wrong, if anything.
pub fn end_of_run(leaks_matter: bool) -> Option<Fault> {
    let mut leaked: [(u64, usize); 4] = [(0, 0); 4];
    let mut n = 0usize;
    locked(|g| unsafe {
        let mut h = g.dead;
        while !h.is_null() {
            let next = (*h).next;
            let p = (h as *mut u8).add(H);
            if (0..(*h).size).any(|i| *p.add(i) != POISON) {
                error(5, (*h).size as u64, 0);
            }
            if !canary_ok(h) {
                error(4, (*h).size as u64, 0);
            }
            (*h).magic = 0;
            System.dealloc(
                (*h).base,
                Layout::from_size_align_unchecked((*h).total, (*h).pad as usize),
            );
            h = next;
        }
        g.dead = std::ptr::null_mut();
        g.n_dead = 0;
        g.dead_bytes = 0;
        let mut h = g.live;
        while !h.is_null() {
            let next = (*h).next;
            if !canary_ok(h) {
                error(4, (*h).size as u64, 0);
            }
            (*h).tracked = 0;
            leaked[n % 4] = ((*h).seq, (*h).size);
            n += 1;
            h = next;
        }
        g.live = std::ptr::null_mut();
        g.n_live = 0;
        g.seq = 0;
    });
    let err = memory_error();
    ERR_KIND.store(0, SeqCst);
    if let Some(e) = err {
        return Some(Fault::Memory(e));
    }
    if n > 0 && leaks_matter {
        let mut s: Vec<_> = leaked.iter().take(n.min(4)).collect();
        s.sort();
        return Some(Fault::Leak(format!(
            "{n} block(s) never freed; last seen (allocation number, size): {s:?}"
        )));
    }
    None
}

/// Turns tracking on or off for good on this thread (set-up of simulated threads).
pub fn set_on(on: bool) {
    ON.with(|c| c.set(on))
}
