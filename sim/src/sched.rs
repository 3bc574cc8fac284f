//! Simulated threads: real OS threads of which exactly one holds the baton. Who runs next is
//! decided by the run's choice source at every yield point, never by the operating system.

use crate::ctx;
use crate::{step, track};
use std::cell::Cell;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::time::Duration;

type Cond = Box<dyn Fn() -> bool + Send>;

#[derive(Default)]
struct State {
    current: Option<usize>,
    done: Vec<bool>,
    waiting: Vec<Option<Cond>>,
    aborting: bool,
    steps: u64,
    /// The operating system's name of each thread.
    os: Vec<String>,
}
struct Shared {
    m: Mutex<State>,
    cv: Condvar,
    max_steps: u64,
}
struct SimAbort;
#[derive(Clone, Copy, PartialEq)]
enum How {
    Ordinary,
    Allocator,
    Stall,
}

/// One in so many calls of the allocator is a scheduling point (0: none), as long as the budget lasts.
static FINE: AtomicU64 = AtomicU64::new(0);
static CALLS: AtomicU64 = AtomicU64::new(0);
const BUDGET: u64 = 300;
static SHARED: Mutex<Option<Arc<Shared>>> = Mutex::new(None);
thread_local! { static TID: Cell<Option<usize>> = const { Cell::new(None) }; }

pub fn tid() -> usize {
    TID.with(|c| c.get()).map_or(0, |t| t + 1)
}

fn lock(s: &Shared) -> std::sync::MutexGuard<'_, State> {
    s.m.lock().unwrap_or_else(|p| p.into_inner())
}

impl Shared {
    /// Chooses who runs next; `me` first among the candidates, so that 0 = no switch.
    fn next(&self, st: &State, me: Option<usize>) -> Option<usize> {
        let mut cands: Vec<usize> = (0..st.done.len())
            .filter(|&i| !st.done[i] && st.waiting[i].as_ref().map_or(true, |c| c()))
            .collect();
        if let Some(me) = me {
            if let Some(k) = cands.iter().position(|&i| i == me) {
                cands.remove(k);
                cands.insert(0, me);
            }
        }
        match cands.len() {
            0 => None,
            n => Some(cands[ctx::sched_choose(n)]),
        }
    }

    /// Where unwinding is not possible, the next ordinary point ends the thread of an aborted run.
    fn switch(&self, me: usize, cond: Option<Cond>, how: How) -> bool {
        let quiet = how != How::Ordinary;
        let abort_self = || if !quiet { abort_self() };
        let mut st = self.turn(lock(self), me);
        if st.aborting {
            drop(st);
            abort_self();
            return false;
        }
        st.steps += 1;
        if st.steps > self.max_steps {
            ctx::violate("no-progress", "the run did not end within its step budget");
            st.aborting = true;
            drop(st);
            abort_self();
            return false;
        }
        st.waiting[me] = cond;
        match self.next(&st, Some(me)) {
            None => {
                ctx::violate("deadlock", "every simulated thread waits for another one");
                st.aborting = true;
                drop(st);
                abort_self();
                return false;
            }
            Some(n) if n == me => {
                st.waiting[me] = None;
                return false;
            }
            Some(n) => {
                ctx::with(|c| c.switches += 1);
                if how == How::Stall {
                    crate::ev!("thread {} stalls, thread {} goes on", me + 1, n + 1);
                }
                st.current = Some(n);
                self.cv.notify_all();
            }
        }
        st = self.turn(st, me);
        st.waiting[me] = None;
        let ab = st.aborting;
        drop(st);
        if ab {
            abort_self();
        }
        true
    }

    /// Waits for this thread's turn.
    ///
    /// Whoever runs may come to a lock of the code under test, whose holder is stalled: it then sleeps
    /// outside of the scheduler, and another thread has to go on.
    fn turn<'s>(&'s self, mut st: MutexGuard<'s, State>, me: usize) -> MutexGuard<'s, State> {
        let mut asleep = 0;
        let mut seen = (st.current, st.steps);
        while st.current != Some(me) {
            let (g, late) = self.cv.wait_timeout(st, Duration::from_millis(50)).unwrap_or_else(|p| p.into_inner());
            st = g;
            let now = (st.current, st.steps);
            if now != seen || !late.timed_out() {
                seen = now;
                asleep = 0;
                continue;
            }
            let Some(c) = st.current else { continue };
            let futex = std::fs::read_to_string(format!("/proc/{}/syscall", st.os[c])).map_or(false, |s| s.starts_with("202 "));
            asleep = if futex { asleep + 1 } else { 0 };
            if asleep >= 4 {
                asleep = 0;
                let free = (0..st.done.len()).find(|&i| i != c && !st.done[i] && st.waiting[i].as_ref().map_or(true, |f| f()));
                if let Some(i) = free {
                    ctx::probe("a thread sleeps in a lock");
                    st.current = Some(i);
                    self.cv.notify_all();
                }
            }
        }
        st
    }

    fn finish(&self, me: usize) {
        let mut st = self.turn(lock(self), me);
        st.done[me] = true;
        if st.aborting {
            // one after the other, still
            st.current = st.done.iter().position(|d| !*d);
            self.cv.notify_all();
            return;
        }
        if st.done.iter().all(|d| *d) {
            st.current = None;
        } else {
            match self.next(&st, None) {
                Some(n) => st.current = Some(n),
                None => {
                    ctx::violate("deadlock", "every remaining simulated thread waits");
                    st.aborting = true;
                    st.current = st.done.iter().position(|d| !*d);
                }
            }
        }
        self.cv.notify_all();
    }
}

fn abort_self() {
    // Never unwind out of a destructor that runs because of a panic.
    if !std::thread::panicking() {
        resume_unwind(Box::new(SimAbort));
    }
}

fn shared() -> Option<Arc<Shared>> {
    track::untracked(|| SHARED.lock().unwrap_or_else(|p| p.into_inner()).clone())
}

/// A point at which another simulated thread may run. No-op outside of simulated threads.
pub fn yield_point() {
    track::untracked(|| {
        if let (Some(me), Some(s)) = (TID.with(|c| c.get()), shared()) {
            s.switch(me, None, How::Ordinary);
        }
    })
}
/// The allocator is a scheduling point too, in the runs that chose so: it is called in the middle of the library's own code.
pub fn yield_in_allocator() {
    let every = FINE.load(Relaxed);
    if every == 0 || !TID.try_with(|c| c.get().is_some()).unwrap_or(false) {
        return;
    }
    // one simulated thread runs at a time: the count is as deterministic as the run
    let n = CALLS.fetch_add(1, Relaxed);
    if n % every == 0 && n / every < BUDGET {
        track::untracked(|| {
            if let (Ok(Some(me)), Some(s)) = (TID.try_with(|c| c.get()), shared()) {
                s.switch(me, None, How::Allocator);
            }
        })
    }
}
/// The same in the middle of anything, from the handler of the processor's trap.
pub fn stall() {
    track::untracked(|| {
        if let (Ok(Some(me)), Some(s)) = (TID.try_with(|c| c.get()), shared()) {
            if s.switch(me, None, How::Stall) {
                ctx::fault("thread stalled in the middle of an operation");
            }
        }
    })
}
/// Parks this simulated thread until `cond` holds.
pub fn wait_until(cond: impl Fn() -> bool + Send + 'static) {
    track::untracked(|| {
        if let (Some(me), Some(s)) = (TID.with(|c| c.get()), shared()) {
            s.switch(me, Some(Box::new(cond)), How::Ordinary);
        }
    })
}

/// Runs the bodies as simulated threads, to completion.
/// `anywhere`: some runs preempt them in the middle of their operations (see `step`).
pub fn run_threads<'a>(bodies: Vec<Box<dyn FnOnce() + Send + 'a>>, max_steps: u64, anywhere: bool) {
    let on = track::is_on();
    track::untracked(|| {
        let n = bodies.len();
        if n == 0 {
            return;
        }
        let s = Arc::new(Shared {
            m: Mutex::new(State {
                done: vec![false; n],
                waiting: (0..n).map(|_| None).collect(),
                os: vec![String::new(); n],
                ..State::default()
            }),
            cv: Condvar::new(),
            max_steps,
        });
        *SHARED.lock().unwrap_or_else(|p| p.into_inner()) = Some(s.clone());
        CALLS.store(0, Relaxed);
        FINE.store(if n > 1 && ctx::chance(1, 3) { [1, 3, 40, 1500][ctx::pick(4)] } else { 0 }, Relaxed);
        step::run(anywhere && n > 1 && ctx::chance(1, 6));
        std::thread::scope(|scope| {
            for (i, body) in bodies.into_iter().enumerate() {
                let s = s.clone();
                scope.spawn(move || {
                    {
                        let os = std::fs::read_link("/proc/thread-self").map_or(String::new(), |p| p.display().to_string());
                        let mut st = lock(&s);
                        st.os[i] = os;
                        let st = s.turn(st, i);
                        if st.aborting {
                            drop(st);
                            drop(body);
                            s.finish(i);
                            return;
                        }
                    }
                    TID.with(|c| c.set(Some(i)));
                    // First use of the panic counter & co. stays out of the books.
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        track::set_on(on);
                        body()
                    }));
                    track::set_on(false);
                    if let Err(e) = r {
                        if !e.is::<SimAbort>() {
                            ctx::violate(
                                "unexpected-panic",
                                format!("thread {i}: {}", crate::payload(&*e)),
                            );
                        }
                    }
                    TID.with(|c| c.set(None));
                    s.finish(i);
                });
            }
            {
                let mut st = lock(&s);
                st.current = s.next(&st, None);
                s.cv.notify_all();
                while !st.done.iter().all(|d| *d) {
                    st = s.cv.wait(st).unwrap_or_else(|p| p.into_inner());
                }
            }
        });
        FINE.store(0, Relaxed);
        step::run(false);
        *SHARED.lock().unwrap_or_else(|p| p.into_inner()) = None;
    })
}
pub fn is_abort(e: &(dyn std::any::Any + Send)) -> bool {
    e.is::<SimAbort>()
}
