//! Preemption between any two machine instructions of the code under test: the processor's own
//! single-step trap counts instructions, and after the number the run drew, the simulated
//! thread stalls there and the scheduler decides who goes on. Only instructions of this
//! program's own text are counted, outside of the harness and of the allocator, so that the
//! count is the same in every execution of the same run.

use crate::{ctx, sched, track};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};

thread_local! {
    /// Instructions left until the preemption; 0: not stepping.
    static LEFT: Cell<u32> = const { Cell::new(0) };
    /// Calm places to leave first, and what to set LEFT to then.
    static SKIP: Cell<(u32, u32)> = const { Cell::new((0, 0)) };
    static WASTED: Cell<u32> = const { Cell::new(0) };
    static STALLED: Cell<bool> = const { Cell::new(false) };
    static CALM: Cell<u32> = const { Cell::new(0) };
}
static RUN: AtomicBool = AtomicBool::new(false);
static TEXT: (AtomicUsize, AtomicUsize) = (AtomicUsize::new(0), AtomicUsize::new(0));

#[cfg(all(target_arch = "x86_64", target_os = "linux"))]
mod cpu {
    use super::*;

    #[repr(C)]
    struct SigAction {
        f: usize,
        mask: [u64; 16],
        flags: i32,
        restorer: usize,
    }
    extern "C" {
        fn sigaction(sig: i32, new: *const SigAction, old: *mut SigAction) -> i32;
        static __executable_start: u8;
        static etext: u8;
    }
    const SIGTRAP: i32 = 5;
    const SA_SIGINFO: i32 = 4;
    const SA_RESTART: i32 = 0x1000_0000;
    /// A trap inside of the handler must not end the process.
    const SA_NODEFER: i32 = 0x4000_0000;
    /// Of ucontext_t: the general registers follow flags, link and stack.
    const GREGS: usize = 40;
    const RIP: usize = GREGS + 16 * 8;
    const EFL: usize = GREGS + 17 * 8;
    const TF: u64 = 0x100;

    pub fn install() {
        unsafe {
            TEXT.0.store(std::ptr::addr_of!(__executable_start) as usize, Relaxed);
            TEXT.1.store(std::ptr::addr_of!(etext) as usize, Relaxed);
            let a = SigAction { f: trap as usize, mask: [0; 16], flags: SA_SIGINFO | SA_RESTART | SA_NODEFER, restorer: 0 };
            sigaction(SIGTRAP, &a, std::ptr::null_mut());
        }
    }
    #[inline(always)]
    pub fn on() {
        unsafe { std::arch::asm!("pushfq", "or dword ptr [rsp], 0x100", "popfq") }
    }
    #[inline(always)]
    pub fn off() {
        unsafe { std::arch::asm!("pushfq", "and dword ptr [rsp], 0xfffffeff", "popfq") }
    }

    /// What the instruction at `ip` reads, modifies and writes in memory without a lock, if it does: (address, size).
    unsafe fn unlocked_update(ip: *const u8, context: *const u8) -> Option<(usize, usize)> {
        // rax rcx rdx rbx rsp rbp rsi rdi r8..r15, as gregs_t orders them
        const ORDER: [usize; 16] = [13, 14, 12, 11, 15, 10, 9, 8, 0, 1, 2, 3, 4, 5, 6, 7];
        let reg = |n: usize| *(context.add(GREGS + 8 * ORDER[n]) as *const usize);
        let mut i = 0;
        let at = |i: usize| *ip.add(i);
        let (mut rex, mut half) = (0u8, false);
        if at(i) == 0x66 {
            half = true;
            i += 1;
        }
        if at(i) & 0xf0 == 0x40 {
            rex = at(i);
            i += 1;
        }
        let op = at(i);
        let modrm = at(i + 1);
        let ext = modrm >> 3 & 7;
        // immediate operands of add, or, adc, sbb, and, sub, xor; inc, dec; the same with a register
        let (byte, imm) = match op {
            0x80 if ext != 7 => (true, 1),
            0x81 if ext != 7 => (false, if half { 2 } else { 4 }),
            0x83 if ext != 7 => (false, 1),
            0xfe if ext <= 1 => (true, 0),
            0xff if ext <= 1 => (false, 0),
            0x00 | 0x08 | 0x20 | 0x28 | 0x30 => (true, 0),
            0x01 | 0x09 | 0x21 | 0x29 | 0x31 => (false, 0),
            _ => return None,
        };
        let size = if byte { 1 } else if rex & 8 != 0 { 8 } else if half { 2 } else { 4 };
        let (mode, rm) = (modrm >> 6, (modrm & 7) as usize);
        i += 2;
        if mode == 3 {
            return None;
        }
        let mut addr = 0usize;
        let mut relative = false;
        let mut disp = [0usize, 1, 4][mode as usize];
        if rm == 4 {
            let sib = at(i);
            i += 1;
            let index = (sib >> 3 & 7) as usize | ((rex & 2) as usize) << 2;
            if index != 4 {
                addr = reg(index) << (sib >> 6);
            }
            if sib & 7 == 5 && mode == 0 {
                disp = 4;
            } else {
                addr = addr.wrapping_add(reg((sib & 7) as usize | ((rex & 1) as usize) << 3));
            }
        } else if rm == 5 && mode == 0 {
            disp = 4;
            relative = true;
        } else {
            addr = reg(rm | ((rex & 1) as usize) << 3);
        }
        let d = match disp {
            0 => 0,
            1 => at(i) as i8 as isize,
            _ => (ip.add(i) as *const i32).read_unaligned() as isize,
        };
        addr = addr.wrapping_add(d as usize);
        if relative {
            addr = addr.wrapping_add(ip as usize + i + disp + imm);
        }
        // not on this thread's own stack
        let sp = reg(4);
        if addr >= sp.wrapping_sub(1 << 20) && addr < sp + (1 << 21) {
            return None;
        }
        Some((addr, size))
    }

    unsafe extern "C" fn trap(_sig: i32, _info: *const u8, context: *mut u8) {
        let flags = context.add(EFL) as *mut u64;
        let rip = *(context.add(RIP) as *const usize);
        let left = LEFT.with(|l| l.get());
        if left == 0 || CALM.with(|c| c.get()) != 0 || STALLED.with(|s| s.get()) {
            *flags &= !TF;
            return;
        }
        if rip < TEXT.0.load(Relaxed) || rip >= TEXT.1.load(Relaxed) || !track::is_on() {
            // a long way through other libraries: not worth it
            if WASTED.with(|w| w.replace(w.get() + 1)) > 5000 {
                LEFT.with(|l| l.set(0));
                *flags &= !TF;
            }
            return;
        }
        if std::thread::panicking() {
            LEFT.with(|l| l.set(0));
            *flags &= !TF;
            return;
        }
        LEFT.with(|l| l.set(left - 1));
        let update = unlocked_update(rip as *const u8, context);
        if left > 1 {
            // places worth stopping at more often than others: these, and atomic instructions
            if update.is_none() && *(rip as *const u8) != 0xf0 {
                return;
            }
            STALLED.with(|s| s.set(true));
            let stop = ctx::choose(4) == 3;
            STALLED.with(|s| s.set(false));
            if !stop {
                return;
            }
            LEFT.with(|l| l.set(0));
        }
        STALLED.with(|s| s.set(true));
        *flags &= !TF;
        match update {
            None => sched::stall(),
            // It may have read already when the others go on, and write only when they are done.
            Some((addr, size)) => {
                let mut saved = [0u8; 8];
                std::ptr::copy_nonoverlapping(addr as *const u8, saved.as_mut_ptr(), size);
                sched::stall();
                std::ptr::copy_nonoverlapping(saved.as_ptr(), addr as *mut u8, size);
            }
        }
        draw();
        STALLED.with(|s| s.set(false));
        if LEFT.with(|l| l.get()) != 0 {
            *flags |= TF;
        }
    }
}
#[cfg(not(all(target_arch = "x86_64", target_os = "linux")))]
mod cpu {
    pub fn install() {}
    pub fn on() {}
    pub fn off() {}
}

/// For the threads about to start: whether they may be preempted anywhere.
pub fn run(enabled: bool) {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(cpu::install);
    RUN.store(enabled, Relaxed);
}

/// One operation: perhaps it is to be preempted somewhere.
pub fn op<R>(f: impl FnOnce() -> R) -> R {
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            // first of all: no trap from here on
            CALM.with(|c| c.set(c.get() + 1));
            SKIP.with(|s| s.set((0, 0)));
            if LEFT.with(|l| l.replace(0)) != 0 {
                cpu::off();
            }
            CALM.with(|c| c.set(c.get() - 1));
        }
    }
    let _g = G;
    if RUN.load(Relaxed) && LEFT.with(|l| l.get()) == 0 {
        draw();
        if LEFT.with(|l| l.get()) != 0 {
            cpu::on();
        }
    }
    f()
}
/// After that many calls of the allocator or of the harness, that many instructions.
fn draw() {
    if ctx::choose(2) == 0 {
        return;
    }
    WASTED.with(|w| w.set(0));
    let skip = ctx::pick(12) as u32;
    let bound = [8, 20, 50, 120][ctx::pick(4)];
    let n = 1 + ctx::pick(bound) as u32;
    if skip == 0 {
        LEFT.with(|l| l.set(n));
    } else {
        SKIP.with(|s| s.set((skip, n)));
    }
}

/// The harness's own business, the allocator's too: not to be preempted.
#[inline]
pub fn calm<R>(f: impl FnOnce() -> R) -> R {
    struct G;
    impl Drop for G {
        #[inline]
        fn drop(&mut self) {
            let c = CALM.with(|c| {
                c.set(c.get() - 1);
                c.get()
            });
            if c == 0 {
                leave();
            }
        }
    }
    if CALM.with(|c| c.replace(c.get() + 1)) == 0 && LEFT.with(|l| l.get()) != 0 {
        cpu::off();
    }
    let _g = G;
    f()
}
#[inline]
fn leave() {
    let (skip, n) = SKIP.with(|s| s.get());
    if skip > 0 {
        SKIP.with(|s| s.set((skip - 1, n)));
        if skip == 1 {
            LEFT.with(|l| l.set(n));
        }
    }
    if LEFT.with(|l| l.get()) != 0 && !STALLED.with(|s| s.get()) {
        cpu::on();
    }
}
