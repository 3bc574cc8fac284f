//! Asynchronous work over the FFI boundary: F01 (executors), F02 (failing executors), F03 (wakers
//! handed to foreign code), F04 (the tokio adaptor).
//!
//! `SimExec` is an executor behind the code's own seam, `FfiFutureExecutor`: which task is polled
//! next, when an event or a timer fires, spurious polls and wakes, dropped tasks and a crashing
//! executor are all decisions of the run's choice source.

use super::obj::{self, Token};
use super::Prop;
use crate::ctx::*;
use crate::track::untracked;
use crate::{attempt, check, ev, sched};
use safer_ffi::dyn_traits::futures::*;
use safer_ffi::dyn_traits::{DropGlue, ErasedTy, ImplDropGlue, ReprCTrait};
use safer_ffi::layout;
use safer_ffi::prelude::*;
use safer_ffi::ptr::NonNullOwned;
use std::ffi::c_void;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Wake, Waker};

type Fut = VirtualPtr<dyn 'static + Send + FfiFuture>;
type Exec = VirtualPtr<dyn 'static + Send + Sync + FfiFutureExecutor>;
type Action = repr_c::Box<dyn 'static + Send + FnMut()>;

// What a C program links against.
safer_ffi::ffi_export_future_helpers!();
type WakerFn = repr_c::Arc<dyn 'static + Send + Sync + Fn()>;
extern "C" {
    fn rust_future_task_context_wake(ctx: *const c_void);
    fn rust_future_task_context_get_waker(ctx: *const c_void) -> <WakerFn as ReprC>::CLayout;
}
fn c_wake(ctx: *const c_void) {
    unsafe { rust_future_task_context_wake(ctx) }
}
fn c_get_waker(ctx: *const c_void) -> WakerFn {
    unsafe { layout::from_raw_unchecked(rust_future_task_context_get_waker(ctx)) }
}

// --- the world ------------------------------------------------------------------------------------

#[derive(Default)]
struct Task {
    fut: Option<Fut>,
    action: Option<Action>,
    running: bool,
    woken: bool,
    over: bool,
    lost: bool,
    joiners: Vec<Joiner>,
}
enum Joiner {
    Rust(Waker),
    C(WakerFn),
}
impl Joiner {
    fn wake(self) {
        match self {
            Joiner::Rust(w) => match choose(2) {
                0 => w.wake(),
                _ => w.wake_by_ref(),
            },
            Joiner::C(f) => f.call(),
        }
    }
}
struct Event {
    at: u64,
    fired: bool,
    gone: bool,
    waiter: Option<Joiner>,
}
#[derive(Default)]
struct World {
    tasks: Vec<Task>,
    roots: Vec<bool>,
    events: Vec<Event>,
    now: u64,
    crashed: bool,
    faulty: bool,
    steps: u64,
    entered: i64,
    budget: u64,
}
static WORLD: Mutex<Option<World>> = Mutex::new(None);
fn world<R>(f: impl FnOnce(&mut World) -> R) -> R {
    untracked(|| f(WORLD.lock().unwrap_or_else(|p| p.into_inner()).get_or_insert_with(World::default)))
}

struct TaskWaker(usize);
impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        let id = self.0;
        ev!("wake task {id}");
        world(|w| w.tasks[id].woken = true);
        sched::yield_point();
    }
}
struct RootWaker(usize);
impl Wake for RootWaker {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        let id = self.0;
        ev!("wake root {id}");
        world(|w| w.roots[id] = true);
        sched::yield_point();
    }
}

/// What can happen next.
#[derive(Clone, Copy, Debug)]
enum Next {
    Root,
    Poll(usize),
    Block(usize),
    Fire(usize),
    Clock,
}
fn possible(w: &World, root: Option<usize>) -> Vec<Next> {
    let mut v = vec![];
    if root.map_or(false, |r| w.roots[r]) {
        v.push(Next::Root);
    }
    for (i, t) in w.tasks.iter().enumerate() {
        if t.fut.is_some() && t.woken && !t.running {
            v.push(Next::Poll(i));
        }
        if t.action.is_some() {
            v.push(Next::Block(i));
        }
    }
    let mut earliest = u64::MAX;
    for (i, e) in w.events.iter().enumerate() {
        if !e.fired && !e.gone {
            if e.at <= w.now {
                v.push(Next::Fire(i));
            } else {
                earliest = earliest.min(e.at);
            }
        }
    }
    if earliest != u64::MAX {
        v.push(Next::Clock);
    }
    v
}

/// Ends task `id`: destroys what is left of it and wakes who waits for it, in either order.
fn end_task(id: usize, fut: Option<Fut>) {
    let order = choose(2);
    let mut fut = fut;
    if order == 0 {
        drop(fut.take());
    }
    let js = world(|w| {
        w.tasks[id].over = true;
        w.tasks[id].running = false;
        std::mem::take(&mut w.tasks[id].joiners)
    });
    let mut js = js.into_iter().collect::<std::collections::VecDeque<_>>();
    while let Some(j) = untracked(|| js.pop_front()) {
        j.wake();
    }
    untracked(|| drop(js));
    drop(fut);
}

fn poll_task(id: usize) {
    let Some(mut fut) = world(|w| {
        let t = &mut w.tasks[id];
        let f = t.fut.take();
        if f.is_some() {
            t.woken = false;
            t.running = true;
        }
        f
    }) else {
        return;
    };
    ev!("poll task {id}");
    let waker = Waker::from(Arc::new(TaskWaker(id)));
    let r = Pin::new(&mut fut).dyn_poll(&mut Context::from_waker(&waker));
    drop(waker);
    sched::yield_point();
    match r {
        PollFuture::Completed => {
            ev!("task {id} completed");
            end_task(id, Some(fut))
        }
        PollFuture::Pending => {
            let back = world(|w| {
                let t = &mut w.tasks[id];
                if w.crashed {
                    t.lost = true;
                    return Some(fut);
                }
                t.running = false;
                t.fut = Some(fut);
                None
            });
            if let Some(fut) = back {
                end_task(id, Some(fut));
            }
        }
    }
}

fn run_action(id: usize) {
    let Some(mut a) = world(|w| w.tasks[id].action.take()) else { return };
    ev!("run blocking task {id}");
    a.call();
    drop(a);
    end_task(id, None);
}

/// The executor loses a task that is not running right now.
fn lose(id: usize) {
    let (f, a) = world(|w| {
        let t = &mut w.tasks[id];
        (if t.running { None } else { t.fut.take() }, t.action.take())
    });
    if f.is_some() || a.is_some() {
        ev!("task {id} lost");
        world(|w| w.tasks[id].lost = true);
        drop(a);
        end_task(id, f);
    }
}
fn lose_all() {
    for id in 0..world(|w| w.tasks.len()) {
        lose(id);
    }
}

/// One step of the executor, on behalf of whoever drives it. None: nothing can happen.
fn step(root: Option<usize>) -> Option<Next> {
    let (n, faulty, over_budget) = world(|w| {
        w.steps += 1;
        (possible(w, root), w.faulty && !w.crashed, w.steps > w.budget)
    });
    if over_budget {
        violate("no-progress", "the tasks do not complete within the step budget");
        return None;
    }
    if n.is_empty() {
        untracked(|| drop(n));
        return None;
    }
    let what = n[sched_choose(n.len())];
    untracked(|| drop(n));
    if faulty && chance(1, 24) {
        if choose(3) == 0 {
            fault("executor shut down");
            ev!("shut down");
            world(|w| w.crashed = true);
            lose_all();
            return Some(what);
        }
        let k = world(|w| w.tasks.len());
        if k > 0 {
            fault("task dropped by its executor");
            lose(pick(k));
            return Some(Next::Clock);
        }
    }
    if chance(1, 12) {
        // A poll nobody asked for.
        let k = world(|w| w.tasks.len());
        if k > 0 {
            let id = pick(k);
            if world(|w| w.tasks[id].fut.is_some() && !w.tasks[id].woken) {
                fault("spurious poll");
                poll_task(id);
            }
        }
    }
    match what {
        Next::Root => {}
        Next::Poll(id) => poll_task(id),
        Next::Block(id) => run_action(id),
        Next::Fire(i) => {
            ev!("event {i} fires");
            if let Some(j) = world(|w| {
                w.events[i].fired = true;
                w.events[i].waiter.take()
            }) {
                j.wake();
            }
        }
        Next::Clock => {
            let dt = world(|w| {
                let at = w.events.iter().filter(|e| !e.fired && !e.gone && e.at > w.now).map(|e| e.at).min().unwrap_or(w.now);
                let dt = at - w.now;
                w.now = at;
                dt
            });
            advance(dt);
            ev!("clock +{dt}");
        }
    }
    Some(what)
}

/// Parks until something can happen. False: nothing ever will.
fn park(root: Option<usize>) -> bool {
    if sched::tid() == 0 {
        return false;
    }
    sched::wait_until(move || world(|w| w.crashed || !possible(w, root).is_empty()));
    !failed()
}

// --- the executor -----------------------------------------------------------------------------------

struct SimExec {
    tok: Token,
}
struct Entered {
    tok: Token,
}
impl Drop for Entered {
    fn drop(&mut self) {
        self.tok.touch("leave");
        world(|w| w.entered -= 1);
    }
}
struct Join(usize);
impl Future for Join {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let j = Joiner::Rust(cx.waker().clone());
        join_poll(self.0, j)
    }
}
fn join_poll(id: usize, j: Joiner) -> Poll<()> {
    let rest = world(|w| {
        if w.tasks[id].over {
            Some(j)
        } else {
            w.tasks[id].joiners.push(j);
            None
        }
    });
    match rest {
        Some(j) => {
            drop(j);
            Poll::Ready(())
        }
        None => Poll::Pending,
    }
}

/// A future that a C program wrote: its own object, its own function table.
struct CFuture {
    kind: CKind,
    polls: AtomicU64,
    released: AtomicBool,
    done: AtomicBool,
    busy: AtomicBool,
}
enum CKind {
    Join(usize),
    Event(usize),
    /// Wakes its task through the context while it is polled, this many times.
    Yield(u64),
}
static C_FUTURES: Mutex<Vec<Arc<CFuture>>> = Mutex::new(Vec::new());
fn c_futures<R>(f: impl FnOnce(&mut Vec<Arc<CFuture>>) -> R) -> R {
    untracked(|| f(&mut C_FUTURES.lock().unwrap_or_else(|p| p.into_inner())))
}
fn c_future_at(p: *mut c_void, what: &str) -> Option<Arc<CFuture>> {
    let f = c_futures(|v| v.iter().find(|f| Arc::as_ptr(f) as *mut c_void == p).cloned());
    if !check!(f.is_some(), "foreign-pointer", "{what} of a future that is not the peer's") {
        return None;
    }
    check!(!f.as_ref().unwrap().released.load(SeqCst), "use-after-release", "{what} of a released foreign future");
    f
}
unsafe extern "C" fn cf_release(p: *mut c_void) {
    if let Some(f) = c_future_at(p, "release") {
        f.released.store(true, SeqCst);
        probe("foreign future released");
        if let CKind::Event(e) = f.kind {
            event_gone(e);
        }
        untracked(|| drop(f));
    }
}
unsafe extern "C" fn cf_poll(p: *mut c_void, ctx: *const c_void) -> i8 {
    let Some(f) = c_future_at(p, "poll") else { return 0 };
    check!(!f.done.load(SeqCst), "polled-after-completion", "a foreign future was polled after its completion");
    check!(!f.busy.swap(true, SeqCst), "concurrent-poll", "a foreign future is polled by two threads at once");
    f.polls.fetch_add(1, SeqCst);
    sched::yield_point();
    let r = match f.kind {
        CKind::Yield(n) => {
            if f.polls.load(SeqCst) > n {
                Poll::Ready(())
            } else {
                if choose(2) == 0 {
                    c_wake(ctx);
                } else {
                    let w = c_get_waker(ctx);
                    if choose(2) == 0 {
                        let w2 = w.clone();
                        drop(w);
                        w2.call();
                    } else {
                        w.call();
                    }
                }
                Poll::Pending
            }
        }
        CKind::Join(id) => join_poll(id, Joiner::C(c_get_waker(ctx))),
        CKind::Event(e) => event_poll(e, Joiner::C(c_get_waker(ctx))),
    };
    f.busy.store(false, SeqCst);
    if r.is_ready() {
        f.done.store(true, SeqCst);
    }
    untracked(|| drop(f));
    if r.is_ready() { 0 } else { -1 }
}
/// The function table as the generated header declares it.
#[repr(C)]
struct CVTable {
    release: unsafe extern "C" fn(*mut c_void),
    poll: unsafe extern "C" fn(*mut c_void, *const c_void) -> i8,
}
static C_VTABLE: CVTable = CVTable { release: cf_release, poll: cf_poll };
fn c_future(kind: CKind) -> Fut {
    let f = untracked(|| {
        Arc::new(CFuture {
            kind,
            polls: AtomicU64::new(0),
            released: AtomicBool::new(false),
            done: AtomicBool::new(false),
            busy: AtomicBool::new(false),
        })
    });
    let p = Arc::as_ptr(&f) as *mut ErasedTy;
    c_futures(|v| v.push(f));
    unsafe {
        let vt: <dyn 'static + Send + FfiFuture as ReprCTrait>::VTable = std::mem::transmute_copy(&C_VTABLE);
        VirtualPtr::from_raw_parts(NonNullOwned::from(std::ptr::NonNull::new_unchecked(p)), vt)
    }
}

fn join_future(id: usize) -> Fut {
    if choose(3) == 0 {
        c_future(CKind::Join(id))
    } else {
        Box::pin(Join(id)).into()
    }
}
thread_local! {
    /// The task this thread added last.
    static LAST: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
fn add_task(fut: Option<Fut>, action: Option<Action>) -> usize {
    let mut rest = None;
    let id = world(|w| {
        let mut t = Task { woken: true, ..Task::default() };
        if w.crashed {
            t.over = true;
            t.lost = true;
            rest = Some((fut, action));
        } else {
            t.fut = fut;
            t.action = action;
        }
        w.tasks.push(t);
        w.tasks.len() - 1
    });
    ev!("task {id} added");
    LAST.with(|l| l.set(id));
    drop(rest);
    id
}
impl FfiFutureExecutor for SimExec {
    fn dyn_spawn(&self, future: Fut) -> Fut {
        self.tok.touch("spawn");
        let id = add_task(Some(future), None);
        sched::yield_point();
        join_future(id)
    }
    fn dyn_spawn_blocking(&self, action: Action) -> Fut {
        self.tok.touch("spawn_blocking");
        let id = add_task(None, Some(action));
        sched::yield_point();
        join_future(id)
    }
    fn dyn_block_on(&self, mut future: VirtualPtr<dyn '_ + FfiFuture>) {
        self.tok.touch("block_on");
        let me = world(|w| {
            w.roots.push(true);
            w.roots.len() - 1
        });
        let waker = Waker::from(Arc::new(RootWaker(me)));
        loop {
            sched::yield_point();
            if failed() || world(|w| w.crashed) {
                return;
            }
            let poll = match step(Some(me)) {
                Some(Next::Root) => true,
                Some(_) => chance(1, 16),
                None => {
                    if failed() {
                        return;
                    }
                    if !park(Some(me)) {
                        violate("lost-wakeup", "the awaited future is pending, and nothing is left that would wake it");
                        return;
                    }
                    false
                }
            };
            if poll && !world(|w| w.crashed) {
                world(|w| w.roots[me] = false);
                ev!("poll root {me}");
                let r = Pin::new(&mut future).dyn_poll(&mut Context::from_waker(&waker));
                if r == PollFuture::Completed {
                    ev!("root {me} completed");
                    return;
                }
            }
        }
    }
    fn dyn_enter(&self) -> VirtualPtr<dyn '_ + DropGlue> {
        self.tok.touch("enter");
        world(|w| w.entered += 1);
        Box::new(ImplDropGlue(Entered { tok: Token::new("entered scope") })).into()
    }
}

// --- leaf futures -----------------------------------------------------------------------------------

fn event_new(at: u64) -> usize {
    world(|w| {
        let at = w.now + at;
        w.events.push(Event { at, fired: false, gone: false, waiter: None });
        w.events.len() - 1
    })
}
fn event_poll(e: usize, j: Joiner) -> Poll<()> {
    let (r, rest) = world(|w| {
        let ev = &mut w.events[e];
        if ev.fired {
            (Poll::Ready(()), Some(j))
        } else {
            // the latest waker counts
            (Poll::Pending, ev.waiter.replace(j))
        }
    });
    drop(rest);
    r
}
fn event_gone(e: usize) {
    let j = world(|w| {
        w.events[e].gone = true;
        w.events[e].waiter.take()
    });
    drop(j);
}
struct EventFut(usize);
impl Future for EventFut {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        sched::yield_point();
        event_poll(self.0, Joiner::Rust(cx.waker().clone()))
    }
}
impl Drop for EventFut {
    fn drop(&mut self) {
        event_gone(self.0)
    }
}
struct Yield(u64);
impl Future for Yield {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 == 0 {
            return Poll::Ready(());
        }
        self.0 -= 1;
        match choose(3) {
            0 => cx.waker().wake_by_ref(),
            1 => cx.waker().clone().wake(),
            _ => {
                cx.waker().wake_by_ref();
                cx.waker().wake_by_ref();
            }
        }
        Poll::Pending
    }
}

/// Watches over a future: pinned in place, polled by one thread at a time, never after its end.
struct Watched<F> {
    fut: F,
    tok: Token,
    at: usize,
    done: bool,
    busy: AtomicBool,
}
fn watched<F: Future>(fut: F) -> Watched<F> {
    Watched { fut, tok: Token::new("task"), at: 0, done: false, busy: AtomicBool::new(false) }
}
impl<F: Future> Future for Watched<F> {
    type Output = F::Output;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        let here = &*self as *const Self as usize;
        let this = unsafe { self.get_unchecked_mut() };
        this.tok.touch("poll");
        check!(!this.busy.swap(true, SeqCst), "concurrent-poll", "task {} is polled by two threads at once", this.tok.id);
        check!(!this.done, "polled-after-completion", "task {} was polled after its completion", this.tok.id);
        check!(this.at == 0 || this.at == here, "moved", "task {} moved between two polls", this.tok.id);
        this.at = here;
        let r = unsafe { Pin::new_unchecked(&mut this.fut) }.poll(cx);
        this.busy.store(false, SeqCst);
        this.done |= r.is_ready();
        this.tok.touch("after poll");
        r
    }
}
impl<F> Drop for Watched<F> {
    fn drop(&mut self) {
        check!(!*self.busy.get_mut(), "early-drop", "task {} destroyed while it is polled", self.tok.id);
        if !self.done && expected() {
            violate("dropped-unfinished", format!("task {} was destroyed before its completion, by nobody's decision", self.tok.id));
        }
    }
}
/// Everything that was handed over is to be completed.
fn expected() -> bool {
    !failed() && world(|w| !w.faulty && !w.crashed)
}
/// Goes into an action: it is called before it is destroyed, once.
struct ToRun(u32);
impl ToRun {
    fn now(&mut self) {
        self.0 += 1;
        check!(self.0 == 1, "run-twice", "a blocking task is run {} times", self.0);
    }
}
impl Drop for ToRun {
    fn drop(&mut self) {
        if self.0 == 0 && expected() {
            violate("dropped-unfinished", "a blocking task was destroyed before it ran, by nobody's decision");
        }
    }
}

// --- F01, F02: workloads ------------------------------------------------------------------------------

/// Results that tasks promise: what the awaiter must see.
fn word(n: u64) -> u64 {
    mix(n, 0xF01)
}

/// `awaits`: may wait for spawned tasks inside of tasks (their loss would be a panic in there).
fn script(depth: u64, exec: Exec, awaits: bool) -> Pin<Box<dyn Future<Output = ()> + Send>> {
    Box::pin(async move {
        let n = choose(4);
        for _ in 0..n {
            if failed() {
                return;
            }
            sched::yield_point();
            let many = depth == 0 || world(|w| w.tasks.len() > 40);
            match choose(if many { 5 } else { 11 }) {
                0 => Yield(1 + choose(3)).await,
                1 => EventFut(event_new(0)).await,
                2 => EventFut(event_new(1 + choose(1000))).await,
                3 => c_future(CKind::Event(event_new(choose(3)))).into_future().await,
                4 => c_future(CKind::Yield(choose(3))).into_future().await,
                5 => {
                    // detached
                    let fut = spawn_some(depth - 1, &exec, awaits);
                    drop(fut);
                }
                6 => {
                    let (n, exec2) = (choose(1 << 20), exec.clone());
                    let tok = Token::new("captured");
                    let id = tok.id;
                    let nested = awaits && choose(3) == 0;
                    let mut to_run = ToRun(0);
                    let join = exec.spawn_blocking(move || {
                        to_run.now();
                        tok.touch("blocking");
                        sched::yield_point();
                        if nested {
                            let x = exec2.block_on(script(0, exec2.clone(), awaits));
                            let () = x;
                        }
                        (word(n), tok)
                    });
                    if choose(4) == 0 {
                        // its result is nobody's
                        if choose(2) == 0 {
                            sched::yield_point();
                        }
                        drop(join);
                        continue;
                    }
                    match join.await {
                        Ok((x, tok)) => {
                            tok.touch("result of a blocking task");
                            check!(x == word(n) && tok.id == id, "wrong-result", "a blocking task's result is not what it returned");
                        }
                        Err(_) => {
                            check!(world(|w| w.faulty), "lost-result", "a blocking task was cancelled by nobody");
                            probe("blocking task reported cancelled");
                            obj::expect_dead(id, "after its blocking task was cancelled");
                        }
                    }
                }
                7 if awaits => {
                    let a = spawn_some(depth - 1, &exec, awaits);
                    let b = spawn_some(depth - 1, &exec, awaits);
                    let (a, b) = futures::future::join(a, b).await;
                    a.check();
                    b.check();
                }
                8 if awaits => {
                    // whoever is first; the other's handle is dropped
                    let a = spawn_some(depth - 1, &exec, awaits);
                    let b = EventFut(event_new(choose(2)));
                    futures::pin_mut!(a);
                    match futures::future::select(a, b).await {
                        futures::future::Either::Left((r, _)) => r.check(),
                        futures::future::Either::Right(_) => {}
                    }
                }
                _ if awaits => spawn_some(depth - 1, &exec, awaits).await.check(),
                _ => Yield(1).await,
            }
        }
    })
}

enum Got {
    Word { want: u64, got: u64 },
    Tok { id: usize, got: Token },
    Unit { id: usize },
    Big { n: u8, got: Box<[u8; 300]> },
}
impl Got {
    fn check(self) {
        match self {
            Got::Word { want, got } => {
                check!(want == got, "wrong-result", "a task returned {want}, its awaiter got {got}");
            }
            Got::Tok { id, got } => {
                got.touch("result");
                check!(id == got.id, "wrong-result", "a task returned value {id}, its awaiter got {}", got.id);
                drop(got);
                obj::expect_dead(id, "after its awaiter dropped it");
            }
            Got::Unit { id } => {
                check!(obj::uses(id) == 1, "wrong-result", "a task is reported complete that did not come to its end");
            }
            Got::Big { n, got } => {
                check!(got.iter().all(|b| *b == n), "wrong-result", "a task's large result changed on its way");
            }
        }
    }
}
fn spawn_some(depth: u64, exec: &Exec, awaits: bool) -> Pin<Box<dyn Future<Output = Got> + Send>> {
    let body = script(depth, exec.clone(), awaits);
    match choose(5) {
        0 | 1 => {
            let n = choose(1 << 30);
            let join = exec.spawn(watched(async move {
                body.await;
                word(n)
            }));
            Box::pin(async move { Got::Word { want: word(n), got: join.await } })
        }
        2 => {
            let tok = Token::new("result");
            let id = tok.id;
            let join = exec.spawn(watched(async move {
                body.await;
                tok
            }));
            Box::pin(async move { Got::Tok { id, got: join.await } })
        }
        3 => {
            let tok = Token::new("captured");
            let id = tok.id;
            let join = exec.spawn(watched(async move {
                body.await;
                tok.touch("end");
            }));
            Box::pin(async move {
                join.await;
                Got::Unit { id }
            })
        }
        _ => {
            let n = choose(256) as u8;
            let join = exec.spawn(watched(async move {
                let big = Box::new([n; 300]);
                body.await;
                big
            }));
            Box::pin(async move { Got::Big { n, got: join.await } })
        }
    }
}

fn fresh(faulty: bool) -> (Exec, usize) {
    obj::reset();
    world(|w| {
        *w = World { faulty, budget: 20_000, ..World::default() };
    });
    c_futures(|v| v.clear());
    let e = SimExec { tok: Token::new("executor") };
    let id = e.tok.id;
    (Arc::new(e).into(), id)
}
/// Ends the world: nothing of any task is left.
fn close(exec: Exec, exec_id: usize, run_on: bool) {
    if run_on && !failed() {
        // Once nothing new arrives, everything that was spawned completes.
        while step(None).is_some() {
            if failed() {
                return;
            }
        }
        let left = world(|w| w.tasks.iter().filter(|t| !t.over).count());
        check!(left == 0, "no-progress", "{left} spawned tasks are pending, and nothing is left that would wake them");
    }
    if failed() {
        leaks_ok();
        return;
    }
    world(|w| w.crashed = true);
    lose_all();
    let (tasks, events) = world(|w| (std::mem::take(&mut w.tasks), std::mem::take(&mut w.events)));
    drop(tasks);
    drop(events);
    obj::expect_live(exec_id, "while its handle exists");
    drop(exec);
    obj::expect_dead(exec_id, "after its last handle was dropped");
    check!(world(|w| w.entered) == 0, "drop-count", "{} entered scopes were not left", world(|w| w.entered));
    let left = c_futures(|v| v.iter().filter(|f| !f.released.load(SeqCst)).count());
    check!(left == 0, "leak", "{left} foreign futures were not released");
    obj::all_dead();
    c_futures(|v| v.clear());
    world(|w| *w = World::default());
}

fn f01() {
    let (exec, exec_id) = fresh(false);
    let n = 1 + pick(3);
    {
        let exec = &exec;
        obj::threads_anywhere(n, 4, 2, || {
            if failed() {
                return;
            }
            match choose(6) {
                0 => {
                    // scopes nest, and end in any order
                    let a = exec.enter();
                    check!(world(|w| w.entered) > 0, "wrong-call", "entering did not reach the executor");
                    let b = exec.enter();
                    sched::yield_point();
                    if choose(2) == 0 {
                        drop(a);
                        drop(b);
                    } else {
                        drop(b);
                        drop(a);
                    }
                }
                1 => {
                    // not awaited at all
                    let e2 = exec.clone();
                    drop(spawn_some(2, &e2, true));
                }
                2 => {
                    // driven by hand, given up at some point
                    let mut join = spawn_some(2, exec, true);
                    let me = world(|w| {
                        w.roots.push(true);
                        w.roots.len() - 1
                    });
                    let waker = Waker::from(Arc::new(RootWaker(me)));
                    for _ in 0..choose(30) {
                        sched::yield_point();
                        if world(|w| std::mem::replace(&mut w.roots[me], false)) {
                            if let Poll::Ready(g) = join.as_mut().poll(&mut Context::from_waker(&waker)) {
                                g.check();
                                break;
                            }
                        }
                        if step(None).is_none() {
                            break;
                        }
                    }
                }
                _ => {
                    // a future that borrows from its surroundings
                    let tok = Token::new("borrowed by a root");
                    let id = tok.id;
                    let mut local = 0;
                    let want = choose(1000);
                    let r = exec.block_on(watched(async {
                        tok.touch("root");
                        script(2, exec.clone(), true).await;
                        local += want;
                        tok.touch("root, later");
                        word(want)
                    }));
                    check!(r == word(want) && local == want, "wrong-result", "block_on returned something else than its future");
                    obj::expect_live(id, "after block_on borrowed it");
                }
            }
        });
    }
    let run_on = choose(4) != 0;
    close(exec, exec_id, run_on);
}

/// Drives `fut` by hand, and the executor with it. Panics of `fut` come back as messages.
fn drive<R>(mut fut: Pin<Box<dyn Future<Output = R> + Send>>) -> Result<R, String> {
    let me = world(|w| {
        w.roots.push(true);
        w.roots.len() - 1
    });
    let waker = Waker::from(Arc::new(RootWaker(me)));
    loop {
        sched::yield_point();
        if failed() {
            return Err("given up".into());
        }
        if world(|w| std::mem::replace(&mut w.roots[me], false)) || chance(1, 16) {
            ev!("poll root {me}");
            match attempt(|| fut.as_mut().poll(&mut Context::from_waker(&waker))) {
                Ok(Poll::Pending) => {}
                Ok(Poll::Ready(r)) => return Ok(r),
                Err(e) => return Err(e),
            }
        }
        if world(|w| w.roots[me]) {
            continue;
        }
        if step(Some(me)).is_none() && !failed() && !world(|w| w.roots[me]) && !park(Some(me)) {
            violate("lost-wakeup", "the awaited task is gone, and its awaiter was not told");
        }
    }
}

fn f02() {
    let (exec, exec_id) = fresh(true);
    let n = 1 + pick(2);
    {
        let exec = &exec;
        obj::threads_anywhere(n, 5, 3, || {
            if failed() {
                return;
            }
            match choose(5) {
                0 => drop(spawn_some(1, exec, false)),
                1 => {
                    let tok = Token::new("captured");
                    let id = tok.id;
                    let join = exec.spawn_blocking(move || {
                        tok.touch("blocking");
                        sched::yield_point();
                        tok
                    });
                    let task = LAST.with(|l| l.get());
                    match drive(Box::pin(join)) {
                        Ok(Ok(t)) => {
                            t.touch("result");
                            check!(t.id == id, "wrong-result", "a blocking task's result is not what it returned");
                        }
                        Ok(Err(_)) => {
                            probe("blocking task reported cancelled");
                            check!(world(|w| w.tasks[task].lost), "lost-result", "a blocking task was reported cancelled although it was not lost");
                            obj::expect_dead(id, "after its blocking task was cancelled");
                        }
                        Err(e) if failed() => drop(e),
                        Err(e) => {
                            violate("unexpected-panic", format!("awaiting a blocking task: {e}"));
                        }
                    }
                }
                2 => {
                    let want = choose(1000);
                    let tok = Token::new("captured by a root");
                    let id = tok.id;
                    let r = attempt(|| {
                        exec.block_on(watched(async move {
                            tok.touch("root");
                            script(1, exec.clone(), false).await;
                            word(want)
                        }))
                    });
                    let crashed = world(|w| w.crashed);
                    match r {
                        Ok(x) => {
                            check!(x == word(want), "wrong-result", "block_on returned something else than its future");
                        }
                        Err(e) if failed() => drop(e),
                        Err(e) => {
                            check!(crashed, "unexpected-panic", "block_on panicked: {e}");
                            probe("block_on reported an incomplete future");
                        }
                    }
                    if !failed() {
                        obj::expect_dead(id, "after block_on");
                    }
                }
                _ => {
                    let join = spawn_some(1, exec, false);
                    let task = LAST.with(|l| l.get());
                    match drive(join) {
                        Ok(g) => g.check(),
                        Err(e) if failed() => drop(e),
                        Err(e) => {
                            check!(world(|w| w.tasks[task].lost), "unexpected-panic", "awaiting a task panicked although it was not lost: {e}");
                            probe("lost task reported");
                        }
                    }
                }
            }
        });
    }
    close(exec, exec_id, false);
}

// --- F03: wakers handed to foreign code -------------------------------------------------------------

/// A waker whose every reference and wake is counted.
struct Count {
    refs: AtomicI64,
    wakes: AtomicI64,
}
static COUNTS: Mutex<Vec<&'static Count>> = Mutex::new(Vec::new());
fn count(i: usize) -> &'static Count {
    untracked(|| {
        let mut v = COUNTS.lock().unwrap_or_else(|p| p.into_inner());
        while v.len() <= i {
            v.push(Box::leak(Box::new(Count { refs: AtomicI64::new(0), wakes: AtomicI64::new(0) })));
        }
        v[i]
    })
}
static COUNT_VT: RawWakerVTable = RawWakerVTable::new(
    |p| {
        let c = unsafe { &*(p as *const Count) };
        check!(c.refs.load(SeqCst) > 0, "use-after-free", "a waker is cloned after its last reference was dropped");
        sched::yield_point();
        c.refs.fetch_add(1, SeqCst);
        RawWaker::new(p, &COUNT_VT)
    },
    |p| {
        let c = unsafe { &*(p as *const Count) };
        check!(c.refs.load(SeqCst) > 0, "use-after-free", "a waker is woken after its last reference was dropped");
        c.wakes.fetch_add(1, SeqCst);
        c.refs.fetch_sub(1, SeqCst);
    },
    |p| {
        let c = unsafe { &*(p as *const Count) };
        check!(c.refs.load(SeqCst) > 0, "use-after-free", "a waker is woken after its last reference was dropped");
        sched::yield_point();
        c.wakes.fetch_add(1, SeqCst);
    },
    |p| {
        let c = unsafe { &*(p as *const Count) };
        let n = c.refs.fetch_sub(1, SeqCst);
        check!(n > 0, "double-drop", "a waker's reference is dropped twice");
    },
);
struct WSlot {
    f: WakerFn,
    of: usize,
    owners: &'static AtomicI64,
}
static WPOOL: obj::Pool<WSlot> = obj::Pool::new();
static WOWN: Mutex<(Vec<&'static AtomicI64>, usize)> = Mutex::new((Vec::new(), 0));
fn w_owner() -> &'static AtomicI64 {
    untracked(|| {
        let mut g = WOWN.lock().unwrap_or_else(|p| p.into_inner());
        let i = g.1;
        g.1 += 1;
        if i == g.0.len() {
            g.0.push(Box::leak(Box::new(AtomicI64::new(0))));
        }
        g.0[i].store(1, SeqCst);
        g.0[i]
    })
}
fn woken(i: usize, by: i64, what: &str, f: impl FnOnce()) {
    // Other threads may wake the same task meanwhile: at least `by`; alone: exactly.
    let before = count(i).wakes.load(SeqCst);
    f();
    let got = count(i).wakes.load(SeqCst) - before;
    check!(got >= by, "lost-wakeup", "{what}: task {i} was woken {got} times instead of {by}");
    untracked(|| WAKES.lock().unwrap_or_else(|p| p.into_inner())[i] += by);
}
static WAKES: Mutex<[i64; 4]> = Mutex::new([0; 4]);

fn f03() {
    obj::reset();
    untracked(|| WOWN.lock().unwrap_or_else(|p| p.into_inner()).1 = 0);
    *WAKES.lock().unwrap_or_else(|p| p.into_inner()) = [0; 4];
    let tasks = 1 + pick(4);
    // The executor's own reference to each task.
    let own: Vec<Waker> = untracked(|| {
        (0..tasks)
            .map(|i| {
                let c = count(i);
                c.refs.store(1, SeqCst);
                c.wakes.store(0, SeqCst);
                unsafe { Waker::from_raw(RawWaker::new(c as *const Count as *const (), &COUNT_VT)) }
            })
            .collect()
    });
    let n = 1 + pick(3);
    obj::threads_anywhere(n, 12, 8, || match choose(7) {
        0 | 1 => {
            let i = pick(own.len());
            let mut ctx = Context::from_waker(&own[i]);
            let p = &mut ctx as *mut Context<'_> as *const c_void;
            ev!("get waker of {i}");
            let f = c_get_waker(p);
            WPOOL.put(WSlot { f, of: i, owners: w_owner() });
        }
        2 => {
            let i = pick(own.len());
            let mut ctx = Context::from_waker(&own[i]);
            let p = &mut ctx as *mut Context<'_> as *const c_void;
            ev!("wake {i} through its context");
            woken(i, 1, "through the context", || c_wake(p));
        }
        3 => {
            if let Some(s) = WPOOL.take() {
                ev!("clone waker of {}", s.of);
                let f = s.f.clone();
                s.owners.fetch_add(1, SeqCst);
                sched::yield_point();
                WPOOL.put(WSlot { f, of: s.of, owners: s.owners });
                WPOOL.put(s);
            }
        }
        4 => {
            if let Some(s) = WPOOL.take() {
                ev!("drop waker of {}", s.of);
                drop(s.f);
                s.owners.fetch_sub(1, SeqCst);
            }
        }
        _ => {
            if let Some(s) = WPOOL.take() {
                let k = 1 + choose(2) as i64;
                ev!("call waker of {}, {k} times", s.of);
                woken(s.of, k, "through a waker", || {
                    for _ in 0..k {
                        s.f.call();
                        sched::yield_point();
                    }
                });
                WPOOL.put(s);
            }
        }
    });
    if failed() {
        leaks_ok();
        WPOOL.drain(|s| std::mem::forget(s));
        std::mem::forget(own);
        return;
    }
    for i in 0..tasks {
        let (w, want) = (count(i).wakes.load(SeqCst), untracked(|| WAKES.lock().unwrap_or_else(|p| p.into_inner())[i]));
        check!(w == want, "wrong-wakeup", "task {i} was woken {w} times, by {want} calls");
    }
    // Wakers outlive the task's own reference.
    let early = choose(2) == 0;
    if early {
        untracked(|| drop(own));
        WPOOL.drain(|s| {
            let of = s.of;
            let before = count(of).wakes.load(SeqCst);
            s.f.call();
            check!(count(of).wakes.load(SeqCst) == before + 1, "lost-wakeup", "a waker that outlives the executor's handle does not wake");
            drop(s.f);
        });
    } else {
        WPOOL.drain(|s| drop(s.f));
        untracked(|| drop(own));
    }
    for i in 0..tasks {
        let r = count(i).refs.load(SeqCst);
        check!(r == 0, "leak", "{r} references to the waker of task {i} are left");
    }
}

// --- F04: tokio ---------------------------------------------------------------------------------------

struct Inline;
impl FfiFutureExecutor for Inline {
    fn dyn_spawn(&self, _: Fut) -> Fut {
        unreachable!()
    }
    fn dyn_spawn_blocking(&self, _: Action) -> Fut {
        unreachable!()
    }
    fn dyn_block_on(&self, future: VirtualPtr<dyn '_ + FfiFuture>) {
        futures::executor::block_on(future.into_future())
    }
}
fn in_reactor() -> bool {
    tokio::runtime::Handle::try_current().is_ok()
}
fn fire(e: usize) {
    ev!("event {e} fires");
    if let Some(j) = world(|w| {
        w.events[e].fired = true;
        w.events[e].waiter.take()
    }) {
        j.wake();
    }
}
fn unfired() -> Vec<usize> {
    world(|w| (0..w.events.len()).filter(|e| !w.events[*e].fired && !w.events[*e].gone).collect())
}
/// An awaiter that is polled by hand.
struct Kept {
    join: Pin<Box<dyn Future<Output = Got> + Send>>,
    root: usize,
}
impl Kept {
    fn new(join: Pin<Box<dyn Future<Output = Got> + Send>>) -> Kept {
        let root = world(|w| {
            w.roots.push(true);
            w.roots.len() - 1
        });
        Kept { join, root }
    }
    /// None: still pending.
    fn poll(&mut self) -> Option<Result<Got, String>> {
        let waker = Waker::from(Arc::new(RootWaker(self.root)));
        world(|w| w.roots[self.root] = false);
        match attempt(|| self.join.as_mut().poll(&mut Context::from_waker(&waker))) {
            Ok(Poll::Pending) => None,
            Ok(Poll::Ready(g)) => Some(Ok(g)),
            Err(e) => Some(Err(e)),
        }
    }
}

fn f04() {
    obj::reset();
    world(|w| *w = World { budget: 20_000, ..World::default() });
    c_futures(|v| v.clear());
    // what the thread, and the process, keep for themselves
    untracked(|| {
        futures::executor::block_on(async {});
        let e: Exec = Arc::new(Inline).into();
        e.block_on_within_tokio_reactor(async {});
    });
    let rt = untracked(|| tokio::runtime::Builder::new_current_thread().max_blocking_threads(1).build().unwrap());
    let shared = choose(2) == 0;
    let exec: Exec = if shared { Arc::new(rt.handle().clone()).into() } else { Box::new(rt.handle().clone()).into() };
    let kept: Mutex<Vec<Kept>> = Mutex::new(untracked(|| Vec::with_capacity(64)));
    let keep = |j| {
        let k = Kept::new(j);
        let mut v = kept.lock().unwrap();
        if v.len() < 64 {
            v.push(k)
        }
    };
    steps(10, 6, || {
        if failed() {
            return;
        }
        match choose(10) {
            0 => {
                check!(!in_reactor(), "wrong-call", "a runtime is entered before entering it");
                let a = exec.enter();
                check!(in_reactor(), "wrong-call", "entering the executor does not enter its runtime");
                {
                    let _b = exec.enter();
                    check!(in_reactor(), "wrong-call", "entering the executor does not enter its runtime");
                }
                check!(in_reactor(), "wrong-call", "leaving an inner scope left the outer one too");
                drop(a);
                check!(!in_reactor(), "wrong-call", "the runtime is still entered after leaving it");
                ev!("entered and left");
            }
            1 => {
                // One real thread runs them in order; nothing else happens meanwhile.
                let (open, gate) = untracked(std::sync::mpsc::channel::<()>);
                let first = exec.spawn_blocking(move || {
                    untracked(|| {
                        let _ = gate.recv();
                        drop(gate);
                    })
                });
                let k = 1 + choose(3);
                let (mut joins, mut ids) = untracked(|| (Vec::with_capacity(4), Vec::with_capacity(4)));
                for _ in 0..k {
                    let tok = Token::new("captured");
                    let (id, n) = (tok.id, choose(1000));
                    let mut to_run = ToRun(0);
                    let j = exec.spawn_blocking(move || {
                        to_run.now();
                        tok.touch("blocking");
                        (word(n), tok)
                    });
                    ids.push(id);
                    if choose(3) == 0 {
                        ev!("blocking task detached");
                        drop(j);
                    } else {
                        joins.push((id, n, j));
                    }
                }
                let last = exec.spawn_blocking(|| ());
                untracked(|| {
                    let _ = open.send(());
                    drop(open);
                });
                check!(futures::executor::block_on(last).is_ok(), "lost-result", "a blocking task was cancelled by nobody");
                check!(futures::executor::block_on(first).is_ok(), "lost-result", "a blocking task was cancelled by nobody");
                while !joins.is_empty() {
                    let (id, n, j) = joins.remove(pick(joins.len()));
                    match futures::executor::block_on(j) {
                        Ok((x, tok)) => {
                            tok.touch("result");
                            check!(x == word(n) && tok.id == id, "wrong-result", "a blocking task's result is not what it returned");
                        }
                        Err(_) => violate("lost-result", "a blocking task was cancelled by nobody"),
                    }
                }
                for id in &ids {
                    obj::expect_dead(*id, "after its blocking task and its awaiter are done");
                }
                untracked(|| drop((joins, ids)));
                ev!("{k} blocking tasks done");
            }
            2 => {
                let n = choose(1000);
                let mut local = 0;
                let r = exec.block_on(watched(async {
                    local += 1;
                    for _ in 0..choose(3) {
                        Yield(1 + choose(2)).await;
                        c_future(CKind::Yield(choose(3))).into_future().await;
                        check!(in_reactor(), "wrong-call", "block_on does not enter its runtime");
                        local += 1;
                    }
                    word(n)
                }));
                check!(r == word(n) && local > 0, "wrong-result", "block_on returned something else than its future");
                check!(!in_reactor(), "wrong-call", "the runtime is still entered after block_on");
                ev!("block_on done");
            }
            3 => {
                // An executor that is not tokio's, and futures that need tokio.
                let sim: Exec = Arc::new(SimExec { tok: Token::new("executor") }).into();
                let n = choose(1000);
                let inner = move |k: u64| async move {
                    for _ in 0..k {
                        check!(in_reactor(), "wrong-call", "a task within a tokio reactor does not see it");
                        Yield(1 + choose(2)).await;
                        c_future(CKind::Yield(choose(3))).into_future().await;
                    }
                    check!(in_reactor(), "wrong-call", "a task within a tokio reactor does not see it");
                    word(n)
                };
                let (a, b, c) = (choose(3), choose(3), choose(2));
                let r = sim.block_on_within_tokio_reactor(watched(async {
                    let j = sim.spawn_within_tokio_reactor(watched(inner(a)));
                    let mine = inner(b).await;
                    let theirs = if c == 0 { j.await } else { word(n) };
                    check!(theirs == word(n), "wrong-result", "a task within a tokio reactor returned something else");
                    mine
                }));
                check!(r == word(n), "wrong-result", "block_on_within_tokio_reactor returned something else than its future");
                while step(None).is_some() && !failed() {}
                check!(!in_reactor(), "wrong-call", "a runtime is entered that was left");
                ev!("within a tokio reactor");
            }
            4 | 5 => {
                // Tasks that wait for what happens later, if ever.
                for _ in 0..1 + choose(2) {
                    let j = tokio_task(&exec, 1, true);
                    if choose(2) == 0 {
                        ev!("task detached");
                        drop(j);
                    } else {
                        keep(j);
                    }
                }
            }
            6 => {
                let v = unfired();
                if !v.is_empty() {
                    fire(v[pick(v.len())]);
                }
            }
            7 => {
                rt.block_on(Yield(1 + choose(3)));
                ev!("runtime ran");
            }
            8 => {
                let i = pick(kept.lock().unwrap().len());
                let k = {
                    let mut v = kept.lock().unwrap();
                    if v.is_empty() { None } else { Some(v.remove(i)) }
                };
                if let Some(mut k) = k {
                    match (choose(3), k.poll()) {
                        (_, Some(Ok(g))) => {
                            ev!("kept task done");
                            g.check()
                        }
                        (_, Some(Err(e))) => violate("unexpected-panic", format!("awaiting a task: {e}")),
                        (0, None) => {
                            ev!("handle dropped later");
                            drop(k)
                        }
                        (_, None) => kept.lock().unwrap().push(k),
                    }
                }
            }
            _ => {
                let k = 1 + choose(4);
                rt.block_on(async {
                    let mut joins = vec![];
                    for _ in 0..k {
                        joins.push(tokio_task(&exec, 2, false));
                    }
                    while !joins.is_empty() {
                        let j = joins.remove(pick(joins.len()));
                        match choose(4) {
                            0 => drop(j),
                            _ => j.await.check(),
                        }
                    }
                });
                ev!("{k} tasks joined");
            }
        }
    });
    let mut kept = kept.into_inner().unwrap();
    if choose(2) == 0 && !failed() {
        // Once everything that is waited for has happened, everything completes.
        let mut rounds = 0;
        while obj::live("task") > 0 && !failed() {
            let v = unfired();
            for e in &v {
                fire(*e);
            }
            untracked(|| drop(v));
            rt.block_on(Yield(1));
            rounds += 1;
            if rounds > 500 {
                violate("no-progress", "spawned tasks do not complete, though all they waited for has happened");
            }
        }
        if !failed() {
            probe("everything completed before the runtime went");
        }
        for k in &mut kept {
            if failed() {
                break;
            }
            match k.poll() {
                Some(Ok(g)) => g.check(),
                Some(Err(e)) => violate("unexpected-panic", format!("awaiting a completed task: {e}")),
                None => violate("lost-wakeup", "a task completed, and its awaiter is pending"),
            }
        }
        kept.clear();
    }
    // What is still pending goes with the runtime.
    world(|w| w.crashed = true);
    let handles = exec.clone_or_keep(choose(2) == 0);
    let before: Vec<bool> = kept.iter_mut().map(|k| choose(2) == 0 && k.poll().is_none()).collect();
    fault("runtime shut down");
    untracked(|| drop(rt));
    if !failed() {
        check!(obj::live("task") == 0, "leak", "{} tasks outlive their runtime", obj::live("task"));
    }
    let told = kept.len();
    for (k, waiting) in kept.iter_mut().zip(&before) {
        if failed() {
            break;
        }
        check!(!waiting || world(|w| w.roots[k.root]), "lost-wakeup", "the runtime is gone, and nobody woke the awaiter of its task");
        if *waiting || choose(2) == 0 {
            match k.poll() {
                Some(Ok(g)) => g.check(),
                Some(Err(_)) => probe("lost task reported"),
                None => violate("lost-wakeup", "the runtime is gone, and the awaiter of its task was not told"),
            }
        }
    }
    ev!("runtime gone, {told} awaiters left");
    drop(kept);
    if choose(2) == 0 && !failed() {
        // Too late.
        let tok = Token::new("captured");
        let id = tok.id;
        let mut late = Box::pin(exec.spawn_blocking(move || drop(tok)));
        let me = Waker::from(Arc::new(TaskWaker(add_task(None, None))));
        match attempt(|| late.as_mut().poll(&mut Context::from_waker(&me))) {
            Ok(Poll::Ready(Ok(()))) => violate("wrong-result", "a runtime that is gone ran a blocking task"),
            Ok(Poll::Pending) => violate("lost-wakeup", "a blocking task for a runtime that is gone stays pending"),
            Ok(Poll::Ready(Err(_))) => probe("blocking task reported cancelled"),
            Err(e) => violate("unexpected-panic", format!("awaiting a blocking task of a runtime that is gone: {e}")),
        }
        drop(late);
        drop(me);
        obj::expect_dead(id, "after its blocking task was refused");
        let mut late = Kept::new(tokio_task(&exec, 0, false));
        match late.poll() {
            Some(Ok(_)) => violate("wrong-result", "a runtime that is gone ran a task"),
            None => violate("lost-wakeup", "a task for a runtime that is gone stays pending"),
            Some(Err(_)) => probe("lost task reported"),
        }
    }
    drop(handles);
    drop(exec);
    if failed() {
        leaks_ok();
        return;
    }
    let (tasks, events) = world(|w| (std::mem::take(&mut w.tasks), std::mem::take(&mut w.events)));
    drop(tasks);
    drop(events);
    obj::all_dead();
    let left = c_futures(|v| v.iter().filter(|f| !f.released.load(SeqCst)).count());
    check!(left == 0, "leak", "{left} foreign futures were not released");
    c_futures(|v| v.clear());
    world(|w| *w = World::default());
}
trait CloneOrKeep: Sized {
    fn clone_or_keep(&self, yes: bool) -> Option<Self>;
}
impl CloneOrKeep for Exec {
    fn clone_or_keep(&self, yes: bool) -> Option<Exec> {
        yes.then(|| self.clone())
    }
}
/// `waits`: for events, which may never happen.
fn tokio_task(exec: &Exec, depth: u64, waits: bool) -> Pin<Box<dyn Future<Output = Got> + Send>> {
    let e2 = exec.clone();
    let body = async move {
        for _ in 0..choose(4) {
            check!(in_reactor(), "wrong-call", "a task of the runtime does not see it");
            match choose(if depth == 0 { 4 } else { 6 }) {
                0 => Yield(1 + choose(3)).await,
                1 => c_future(CKind::Yield(choose(3))).into_future().await,
                2 if waits => EventFut(event_new(0)).await,
                3 if waits => c_future(CKind::Event(event_new(0))).into_future().await,
                2 | 3 => {}
                4 => drop(tokio_task(&e2, depth - 1, waits)),
                _ => tokio_task(&e2, depth - 1, waits).await.check(),
            }
        }
    };
    let body: Pin<Box<dyn Future<Output = ()> + Send>> = Box::pin(body);
    match choose(3) {
        0 => {
            let tok = Token::new("result");
            let id = tok.id;
            let join = exec.spawn(watched(async move {
                body.await;
                tok
            }));
            Box::pin(async move { Got::Tok { id, got: join.await } })
        }
        1 => {
            let n = choose(1 << 30);
            let join = exec.spawn(watched(async move {
                body.await;
                word(n)
            }));
            Box::pin(async move { Got::Word { want: word(n), got: join.await } })
        }
        _ => {
            let tok = Token::new("captured");
            let id = tok.id;
            let join = exec.spawn(watched(async move {
                body.await;
                tok.touch("end");
            }));
            Box::pin(async move {
                join.await;
                Got::Unit { id }
            })
        }
    }
}

const REAL: &str = "FfiFuture/FfiFutureExecutor and their vtables, VirtualPtr<dyn FfiFuture(Executor)>::{spawn, spawn_blocking, block_on, enter, into_future}, PollFuture, the exported waker helpers, repr_c::Arc<dyn Fn()>, the futures oneshot channel";
const STUB: &str = "the executor (task queue, clock, timers, events), foreign futures, the thread scheduler";
pub static PROPS: [Prop; 4] = [
    Prop {
        id: "F01",
        title: "Spawned and awaited work completes exactly once with its own result",
        run: f01,
        quick_runs: 150_000,
        thorough_runs: 2_000_000,
        warm_up: 2,
        wall_cap: 90,
        rule: "one run = one seed: 1-3 simulated threads block on, spawn (nested up to 3 deep, awaited, selected, detached, given up), spawn_blocking and enter on one simulated executor; every decision of which task is polled, which event or timer fires and which thread runs is drawn; distinct = different event log; runs without operations do not count",
        real: REAL,
        stub: STUB,
        assumptions: &["the simulated executor keeps an executor's contract: it polls every woken task again, never two threads at once"],
    },
    Prop {
        id: "F02",
        title: "Work that its executor drops is reported to its awaiter",
        run: f02,
        quick_runs: 150_000,
        thorough_runs: 2_000_000,
        warm_up: 2,
        wall_cap: 90,
        rule: "one run = one seed: as F01, with an executor that drops single tasks and shuts down at arbitrary steps; awaiters are driven by hand so that their panics are observed; distinct = different event log",
        real: REAL,
        stub: STUB,
        assumptions: &["tasks whose loss would panic inside another task are left out: that unwinds through a C function"],
    },
    Prop {
        id: "F03",
        title: "Wakers handed to foreign code wake their task only, and are not leaked",
        run: f03,
        quick_runs: 200_000,
        thorough_runs: 2_500_000,
        warm_up: 2,
        wall_cap: 90,
        rule: "one run = one seed: 1-3 simulated threads obtain, call, clone and drop wakers of 1-4 tasks through the exported functions, with a scheduling point inside every clone and wake; distinct = different event log",
        real: "ffi_export_future_helpers!, repr_c::Arc<dyn Fn()>",
        stub: "the tasks' wakers (counted), the thread scheduler",
        assumptions: &[],
    },
    Prop {
        id: "F04",
        title: "A tokio runtime behind the executor interface runs work to completion, once",
        run: f04,
        quick_runs: 150_000,
        thorough_runs: 4_000_000,
        warm_up: 4,
        wall_cap: 90,
        rule: "one run = one seed: a current-thread tokio runtime behind the executor interface; spawned, nested, detached, given-up and awaited tasks, some of them waiting for events that come later or never, queued and detached blocking tasks, block_on, enter, work within a tokio reactor on an executor that is not tokio's; the runtime goes with work pending, and is called afterwards; distinct = different event log",
        real: "the tokio Handle adaptor, tokio's current-thread scheduler, everything of F01",
        stub: "foreign futures",
        assumptions: &["blocking tasks run while nothing else does, one at a time, so that tokio's own thread adds no nondeterminism"],
    },
];
