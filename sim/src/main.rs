//! Deterministic simulation of safer_ffi: one seed is one exactly repeatable execution.
//! See /verif/DESIGN.md.
#![allow(dead_code)]

mod ctx;
mod drive;
mod exports;
mod props;
mod sched;
mod step;
mod track;

use std::panic::{catch_unwind, AssertUnwindSafe};

#[global_allocator]
static ALLOC: track::Track = track::Track;

pub fn payload(e: &(dyn std::any::Any + Send)) -> String {
    track::untracked(|| {
        if let Some(s) = e.downcast_ref::<&'static str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "<other payload>".to_string()
        }
    })
}

/// Runs `f`; a panic comes back as its message.
pub fn attempt<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(e) if sched::is_abort(&*e) => std::panic::resume_unwind(e),
        Err(e) => {
            let s = payload(&*e);
            drop(e);
            Err(s)
        }
    }
}
/// The panics that scenarios inject carry this prefix.
pub const INJECTED: &str = "injected:";
pub fn inject(what: &str) -> ! {
    let s = track::untracked(|| format!("{INJECTED}{what}"));
    // Not `panic!`: no hook, no message formatting by the machinery.
    std::panic::resume_unwind(track::untracked(|| Box::new(s)))
}

pub struct RunResult {
    pub ctx: Box<ctx::Ctx>,
}

/// One run of one property, from its source of choices.
pub fn run_once(prop: &props::Prop, src: ctx::Source, trace: bool) -> RunResult {
    ctx::begin(src, trace);
    track::end_of_run(false);
    let r = track::tracked(|| catch_unwind(AssertUnwindSafe(|| (prop.run)())));
    if let Err(e) = r {
        if !sched::is_abort(&*e) {
            ctx::violate("unexpected-panic", payload(&*e));
        }
        std::mem::forget(e);
        ctx::leaks_ok();
    }
    let leaks_matter = ctx::with(|c| !c.leaks_ok && c.violation.is_none());
    match track::end_of_run(leaks_matter) {
        Some(track::Fault::Memory(m)) => ctx::violate("memory", m),
        Some(track::Fault::Leak(m)) => ctx::violate("leak", m),
        None => {}
    }
    RunResult { ctx: ctx::finish() }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    std::panic::set_hook(Box::new(|_| {}));
    let code = drive::main(&args);
    std::process::exit(code);
}
