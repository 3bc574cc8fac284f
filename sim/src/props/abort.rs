//! X01: a panic never leaves an exported function: the process ends there.
//!
//! Each run starts this program again as a child that calls exported functions which panic in some
//! way, somewhere, under some caller; what the child still says and how it ends is the history.

use super::Prop;
use crate::ctx::*;
use crate::exports::*;
use crate::track::untracked;
use crate::{check, ev};
use std::io::{Read, Write};
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};

#[derive(Clone, Copy, Debug, PartialEq)]
struct Plan {
    /// Which exported function.
    call: u64,
    /// How it panics; 0: not at all.
    kind: u64,
    /// Who calls it.
    from: u64,
    /// For async functions: at which point.
    when: u64,
    /// Ordinary calls before.
    before: u64,
    /// The panic hook: silent, the default one, or one that is busy itself.
    hook: u64,
    n: u64,
}
const CALLS: [&str; 9] = [
    "vx_blow", "vx_blow_renamed", "vx_blow_unit", "vx_blow_async", "vx_bomb_free", "vx_blow_through", "vx_blow_caught",
    "vx_echo_color", "vx_echo_nest",
];
const CAUGHT: u64 = 6;
const FROM: [&str; 6] = ["the main thread", "another thread", "a caller that catches panics", "a destructor during a panic", "C++ that catches exceptions", "a callback of another exported function"];
/// Ordinary, then the standard error is a full disk, then a pipe nobody reads.
const STDERR: [&str; 3] = ["read", "full disk", "broken pipe"];

impl Plan {
    fn args(&self) -> Vec<String> {
        [self.call, self.kind, self.from, self.when, self.before, self.hook, self.n].iter().map(u64::to_string).collect()
    }
    fn parse(a: &[&str]) -> Option<Plan> {
        let v: Vec<u64> = a.iter().map(|x| x.parse().ok()).collect::<Option<_>>()?;
        let [call, kind, from, when, before, hook, n] = v[..] else { return None };
        Some(Plan { call, kind, from, when, before, hook, n })
    }
    /// Arguments that do not exist in Rust: in builds with debug assertions they are refused.
    fn corrupted(&self) -> bool {
        self.call >= 7
    }
    fn dies(&self) -> bool {
        self.kind != 0 && self.call != CAUGHT
    }
    /// What the call gives, when it comes back.
    fn result(&self) -> u64 {
        let n = self.n as u32;
        let one_more = n.wrapping_add(1) as u64;
        match self.call {
            0 | 3 | 4 | 5 => one_more,
            1 => digest_of(&make_of::<VxNest>(n as u64)),
            2 => 0,
            CAUGHT => n.wrapping_add((self.kind != 0) as u32 * 100) as u64,
            7 => VxColor::Blue as u64,
            _ => digest_of(&make_of::<VxNest>(n as u64)),
        }
    }
}

// As foreign code declares them, but for telling the compiler that a panic may come out: then it can.
mod foreign {
    use super::*;
    use safer_ffi::layout::CLayoutOf;
    extern "C-unwind" {
        pub fn vx_blow(kind: u8, n: u32) -> u32;
        pub fn vx_blow_renamed(kind: u8, n: u32) -> VxNest;
        pub fn vx_blow_unit(kind: u8);
        pub fn vx_blow_async(kind: u8, when: u8, n: u32) -> u32;
        pub fn vx_bomb_new(kind: u8) -> *mut u8;
        pub fn vx_bomb_free(bomb: *mut u8, n: u32) -> u32;
        pub fn vx_blow_through(f: unsafe extern "C-unwind" fn(u8, u32) -> u32, kind: u8, n: u32) -> u32;
        pub fn vx_blow_caught(kind: u8, n: u32) -> u32;
        pub fn vx_echo_color(c: u8) -> u8;
        pub fn vx_echo_nest(c: CLayoutOf<VxNest>) -> CLayoutOf<VxNest>;
    }
}

fn say(s: &str) {
    let _ = std::io::stdout().write_all(s.as_bytes());
    let _ = std::io::stdout().flush();
}

fn call(p: Plan) -> u64 {
    let (k, n) = (p.kind as u8, p.n as u32);
    unsafe {
        match p.call {
            0 => foreign::vx_blow(k, n) as u64,
            1 => digest_of(&foreign::vx_blow_renamed(k, n)),
            2 => {
                foreign::vx_blow_unit(k);
                0
            }
            3 => foreign::vx_blow_async(k, p.when as u8, n) as u64,
            4 => foreign::vx_bomb_free(foreign::vx_bomb_new(k), n) as u64,
            5 => foreign::vx_blow_through(foreign::vx_blow, k, n) as u64,
            6 => foreign::vx_blow_caught(k, n) as u64,
            7 => foreign::vx_echo_color(if k == 0 { VxColor::Blue as u8 } else { 100 + k }) as u64,
            _ => {
                use safer_ffi::layout::into_raw;
                let mut c = into_raw(make_of::<VxNest>(n as u64));
                if k != 0 {
                    let at = match p.when {
                        0 => std::ptr::addr_of_mut!(c.tag).cast::<u8>(),
                        1 => std::ptr::addr_of_mut!(c.mix.e).cast::<u8>(),
                        _ => std::ptr::addr_of_mut!(c.sign).cast::<u8>(),
                    };
                    *at = 50 + k;
                }
                let r = foreign::vx_echo_nest(c);
                digest_of(&safer_ffi::layout::from_raw::<VxNest>(r).expect("an invalid value came out"))
            }
        }
    }
}

extern "C" fn call_plan(env: *mut std::ffi::c_void) -> u32 {
    let p = unsafe { *(env as *const Plan) };
    say(&format!("RESULT {}\n", call(p)));
    0
}
unsafe extern "C-unwind" fn again(_: u8, n: u32) -> u32 {
    let p = *NESTED.get().unwrap();
    say(&format!("RESULT {}\n", call(p)));
    n
}
static NESTED: std::sync::OnceLock<Plan> = std::sync::OnceLock::new();

/// In the child.
pub fn case(args: &[&str]) -> i32 {
    extern "C" {
        fn setrlimit(what: i32, to: *const [u64; 2]) -> i32;
    }
    // No core files.
    unsafe { setrlimit(4, &[0, 0]) };
    let Some(p) = Plan::parse(args) else { return 2 };
    match p.hook {
        0 => std::panic::set_hook(Box::new(|_| {})),
        1 => {
            let _ = std::panic::take_hook();
        }
        _ => std::panic::set_hook(Box::new(|i| {
            let s = std::thread::spawn({
                let i = i.to_string();
                move || i.len()
            });
            let _ = s.join();
        })),
    }
    for i in 0..p.before {
        let q = Plan { call: (p.call + i) % CALLS.len() as u64, kind: 0, ..p };
        say(&format!("OK {}\n", (call(q) == q.result()) as u8));
    }
    say("BEFORE\n");
    match p.from {
        0 => say(&format!("RESULT {}\n", call(p))),
        1 => {
            let r = std::thread::spawn(move || say(&format!("RESULT {}\n", call(p)))).join();
            say(if r.is_ok() { "" } else { "CAME OUT OF THE THREAD\n" });
        }
        2 => {
            let r = std::panic::catch_unwind(|| say(&format!("RESULT {}\n", call(p))));
            say(if r.is_ok() { "" } else { "WAS CAUGHT\n" });
        }
        3 => {
            struct OnDrop(Plan);
            impl Drop for OnDrop {
                fn drop(&mut self) {
                    say(&format!("RESULT {}\n", call(self.0)));
                }
            }
            let r = std::panic::catch_unwind(move || {
                let _d = OnDrop(p);
                std::panic::resume_unwind(Box::new("another panic"));
            });
            say(if r.is_err() { "" } else { "LOST PANIC\n" });
        }
        4 => {
            let Ok(peer) = super::peer::peer() else { return 3 };
            let mut out = 0;
            let r = peer.call_catching(call_plan, &p as *const Plan as _, &mut out);
            say(if r == 0 { "" } else { "WAS CAUGHT IN C++\n" });
        }
        _ => {
            let _ = NESTED.set(p);
            unsafe { foreign::vx_blow_through(again, 0, 7) };
        }
    }
    say("AFTER\n");
    0
}

fn x01() {
    untracked(|| {
        // Compiled once, before any child needs it.
        if let Err(e) = super::peer::peer() {
            return violate("unusable-header", e.clone());
        }
        steps(3, 2, one)
    })
}
fn one() {
    let mut p = Plan {
        call: pick(CALLS.len()) as u64,
        kind: 0,
        from: pick(FROM.len()) as u64,
        when: choose(3),
        before: choose(4),
        hook: choose(3),
        n: pick_of(&[0, 1, 77, u32::MAX as u64]),
    };
    if chance(5, 6) {
        p.kind = 1 + choose(7);
    }
    if p.corrupted() && !cfg!(debug_assertions) {
        p.kind = 0;
    }
    let err = pick(4).saturating_sub(1);
    if p.kind != 0 {
        fault(if p.corrupted() { "corrupted argument" } else { "panic in an exported function" });
    }
    if err != 0 {
        fault("standard error fails");
    }
    let what = format!("{} (panic {}, at {}) called by {}, standard error: {}, hook {}", CALLS[p.call as usize], p.kind, p.when, FROM[p.from as usize], STDERR[err], p.hook);
    ev!("{what}, after {} calls", p.before);

    let mut c = Command::new(std::env::current_exe().unwrap());
    c.args(["case", "abort"]).args(p.args()).stdin(Stdio::null()).stdout(Stdio::piped()).env_remove("SIM_RECORD").env_remove("RUST_BACKTRACE");
    match err {
        0 => {
            c.stderr(Stdio::piped());
        }
        1 => {
            c.stderr(std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap());
        }
        _ => {
            use std::os::fd::FromRawFd;
            extern "C" {
                fn pipe2(fds: *mut [i32; 2], flags: i32) -> i32;
            }
            let mut fds = [0; 2];
            assert!(unsafe { pipe2(&mut fds, 0o2000000) } == 0, "no pipe");
            let (r, w) = unsafe { (std::fs::File::from_raw_fd(fds[0]), std::fs::File::from_raw_fd(fds[1])) };
            drop(r);
            c.stderr(w);
        }
    }
    let mut child = c.spawn().expect("cannot start a child");
    drop(c);
    // Both are short: no deadlock by reading one after the other.
    let t0 = std::time::Instant::now();
    let status = loop {
        if let Some(s) = child.try_wait().expect("cannot wait for the child") {
            break s;
        }
        if t0.elapsed().as_secs() > 30 {
            let _ = child.kill();
            let _ = child.wait();
            return violate("hang", format!("{what}: still running after half a minute"));
        }
        std::thread::sleep(std::time::Duration::from_micros(300));
    };
    let (mut out, mut told) = (String::new(), vec![]);
    let _ = child.stdout.take().unwrap().read_to_string(&mut out);
    if let Some(mut e) = child.stderr.take() {
        let _ = e.read_to_end(&mut told);
    }
    let told = String::from_utf8_lossy(&told);
    let mut said: Vec<&str> = out.lines().collect();
    let n = said.iter().take_while(|l| **l == "OK 1").count();
    if !check!(n as u64 == p.before, "wrong-result", "{what}: {n} of {} ordinary calls gave the right result: {out:?}", p.before) {
        return;
    }
    said.drain(..n);
    let result = format!("RESULT {}", p.result());
    if p.dies() {
        probe("ended by a panic");
        if !check!(said == ["BEFORE"], "panic-crossed", "{what}: the process went on after the panic: {out:?}") {
            return;
        }
        if !check!(matches!(status.signal(), Some(4..=6)), "not-aborted", "{what}: ended with {status:?}") {
            return;
        }
        if err == 0 && p.from != 3 {
            check!(told.contains(CALLS[p.call as usize]) || p.call == 5 && told.contains("vx_blow"), "not-reported", "{what}: the function is not named in {told:?}");
        }
    } else {
        probe("came back");
        let want = [&["BEFORE", &*result, "AFTER"][..]].concat();
        if !check!(said == want && status.success(), "ended", "{what}: ended with {status:?} after {out:?} where {want:?} was due: {told:?}") {}
    }
}

pub static PROPS: [Prop; 1] = [Prop {
    id: "X01",
    title: "A panic in an exported function ends the process there, and is reported",
    run: x01,
    quick_runs: 4_000,
    thorough_runs: 120_000,
    warm_up: 0,
    wall_cap: 120,
    rule: "one run = one seed: 1-3 child processes; in each, some ordinary calls of exported functions, then one that panics in one of 7 ways (or does not) under one of 6 callers, with a standard error that works or fails; distinct = different sequences of plans",
    real: "the #[ffi_export] expansions with their guard, the abort, the header compiled by g++ for the C++ caller, a process per case",
    stub: "what the exported functions do, the callers, the state of the standard error",
    assumptions: &["panics unwind (panic = \"unwind\")", "Linux signals"],
}];
