//! Closures that cross the FFI boundary: C01 (boxed), C02 (shared), C03 (borrowed).
//!
//! Rust closures and closures made by a simulated foreign peer (its own environment, its own
//! function pointers) in handles that simulated threads call, clone, send across the boundary and
//! release, with scheduling points inside the calls and inside the foreign functions.

use super::obj::{self, Pool, Token, Zero};
use super::Prop;
use crate::ctx::*;
use crate::track::untracked;
use crate::{attempt, check, ev, sched};
use safer_ffi::closure::*;
use safer_ffi::layout;
use safer_ffi::prelude::*;
use std::ffi::c_void;
use std::mem::{size_of, transmute_copy, ManuallyDrop};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

// --- arguments -------------------------------------------------------------------------------

trait Arg: ReprC + Copy {
    fn gen() -> Self;
    fn bits(self) -> u64;
}
macro_rules! ints {($($t:ty),*) => {$(
    impl Arg for $t {
        fn gen() -> $t {
            match choose(4) { 0 => 0, 1 => <$t>::MAX, 2 => <$t>::MIN, _ => choose(u32::MAX as u64) as $t }
        }
        fn bits(self) -> u64 { self as i128 as u64 }
    }
)*}}
ints!(u8, u16, u32, u64, i8, i16, i32, i64, usize);
impl Arg for bool {
    fn gen() -> bool {
        choose(2) == 1
    }
    fn bits(self) -> u64 {
        self as u64
    }
}
impl Arg for f64 {
    fn gen() -> f64 {
        match choose(4) {
            0 => 0.0,
            1 => -0.0,
            2 => f64::MIN_POSITIVE,
            _ => choose(1 << 40) as f64 / 3.0,
        }
    }
    fn bits(self) -> u64 {
        self.to_bits()
    }
}
fn fold(id: usize, calls: u64, args: &[u64]) -> u64 {
    args.iter().fold(mix(id as u64, calls), |h, a| mix(h, *a))
}

// --- environments ----------------------------------------------------------------------------

#[repr(align(64))]
struct Wide(Token);

/// What a closure captures. Its shape decides size and alignment of the environment.
enum Shape {
    Plain,
    WideAligned,
    Large,
}
fn shape() -> Shape {
    match choose(3) {
        0 => Shape::Plain,
        1 => Shape::WideAligned,
        _ => Shape::Large,
    }
}

/// Foreign environments: freed by the peer's own function, counted.
struct Peer {
    id: usize,
    refs: AtomicI64,
    calls: AtomicU64,
    retains: AtomicU64,
    releases: AtomicU64,
}
static PEERS: Mutex<Vec<Box<Peer>>> = Mutex::new(Vec::new());
fn peers<R>(f: impl FnOnce(&mut Vec<Box<Peer>>) -> R) -> R {
    untracked(|| f(&mut PEERS.lock().unwrap_or_else(|p| p.into_inner())))
}
fn peer_new() -> (usize, *mut c_void) {
    peers(|v| {
        let id = 1_000_000 + v.len();
        v.push(Box::new(Peer {
            id,
            refs: AtomicI64::new(1),
            calls: AtomicU64::new(0),
            retains: AtomicU64::new(0),
            releases: AtomicU64::new(0),
        }));
        (v.len() - 1, &**v.last().unwrap() as *const Peer as *mut c_void)
    })
}
fn peer(env: *mut c_void, what: &str) -> Option<&'static Peer> {
    let known = peers(|v| v.iter().any(|p| &**p as *const Peer as *mut c_void == env));
    if !check!(known, "foreign-environment", "{what} got an environment pointer that is not the peer's") {
        return None;
    }
    let p: &'static Peer = unsafe { &*(env as *const Peer) };
    check!(p.refs.load(SeqCst) > 0, "use-after-free", "{what} of foreign closure {} after its release", p.id);
    Some(p)
}
unsafe extern "C" fn p_retain(env: *mut c_void) {
    if let Some(p) = peer(env, "retain") {
        sched::yield_point();
        p.retains.fetch_add(1, SeqCst);
        p.refs.fetch_add(1, SeqCst);
        sched::yield_point();
    }
}
unsafe extern "C" fn p_release(env: *mut c_void) {
    if let Some(p) = peer(env, "release") {
        sched::yield_point();
        p.releases.fetch_add(1, SeqCst);
        if p.refs.fetch_sub(1, SeqCst) == 1 {
            ev!("foreign closure {} freed", p.id);
            probe("foreign closure freed");
        }
        sched::yield_point();
    }
}

fn body(tok: &Token, calls: &mut u64, args: &[u64]) -> u64 {
    tok.touch("call");
    *calls += 1;
    sched::yield_point();
    tok.touch("call, later");
    fold(tok.id, *calls, args)
}
fn body_shared(tok: &Token, args: &[u64]) -> u64 {
    tok.touch("call");
    sched::yield_point();
    tok.touch("call, later");
    fold(tok.id, 0, args)
}

// The C side's view of the structures.
#[repr(C)]
#[derive(Clone, Copy)]
struct CBox {
    env: *mut c_void,
    call: *const c_void,
    free: Option<unsafe extern "C" fn(*mut c_void)>,
}
#[repr(C)]
#[derive(Clone, Copy)]
struct CArc {
    env: *mut c_void,
    call: *const c_void,
    release: Option<unsafe extern "C" fn(*mut c_void)>,
    retain: Option<unsafe extern "C" fn(*mut c_void)>,
}
fn c_view<T, C: Copy>(t: T) -> C {
    assert_eq!(size_of::<T>(), size_of::<C>(), "layout of a C structure");
    unsafe { transmute_copy::<_, C>(&ManuallyDrop::new(t)) }
}
fn rust_view<C: Copy, T>(c: C) -> T {
    assert_eq!(size_of::<T>(), size_of::<C>(), "layout of a C structure");
    unsafe { transmute_copy::<_, T>(&c) }
}

macro_rules! arities {($(
    $n:literal $Box:ident $Arc:ident $Ref:ident $boxed:ident $shared:ident $p_call:ident ( $($a:ident : $t:ty),* )
)*) => {
    $(
    unsafe extern "C" fn $p_call(env: *mut c_void $(, $a: $t)*) -> u64 {
        match peer(env, "call") {
            None => 0,
            Some(p) => {
                let n = p.calls.fetch_add(1, SeqCst) + 1;
                sched::yield_point();
                check!(p.refs.load(SeqCst) > 0, "use-after-free", "foreign closure {} released during a call", p.id);
                // shared closures: the number of the call depends on the schedule, leave it out
                let _ = n;
                fold(p.id, 0, &[$($a.bits()),*])
            }
        }
    }
    )*

    pub enum AnyBox { $( $Box($Box<u64 $(, $t)*>), )* }
    impl AnyBox {
        fn rust(n: u64, how: u64) -> (AnyBox, usize) {
            match n {
                $( $n => {
                    let tok = Token::new("environment");
                    let id = tok.id;
                    let mut calls = 0u64;
                    let f: $Box<u64 $(, $t)*> = match shape() {
                        Shape::Plain => {
                            let f = Box::new(move |$($a: $t),*| body(&tok, &mut calls, &[$($a.bits()),*]));
                            if how == 0 { $Box::new(f) } else { f.into() }
                        }
                        Shape::WideAligned => {
                            let w = Wide(tok);
                            let f = Box::new(move |$($a: $t),*| { let w = &w; body(&w.0, &mut calls, &[$($a.bits()),*]) });
                            if how == 0 { $Box::new(f) } else { f.into() }
                        }
                        Shape::Large => {
                            let pad = [id as u64; 40];
                            let z = Zero::new();
                            let f = Box::new(move |$($a: $t),*| {
                                let _z = &z;
                                check!(pad.iter().all(|p| *p == tok.id as u64), "corruption", "environment {} changed", tok.id);
                                body(&tok, &mut calls, &[$($a.bits()),*])
                            });
                            if how == 0 { $Box::new(f) } else { f.into() }
                        }
                    };
                    (AnyBox::$Box(f), id)
                } )*
                _ => unreachable!(),
            }
        }
        /// A zero-sized environment with a destructor: its address means nothing.
        fn zero(n: u64) -> AnyBox {
            match n {
                $( $n => {
                    let z = Zero::new();
                    AnyBox::$Box(Box::new(move |$($a: $t),*| { let _z = &z; fold(7, 0, &[$($a.bits()),*]) }).into())
                } )*
                _ => unreachable!(),
            }
        }
        /// An environment without a destructor: only its memory can leak. `how` 0: it is empty.
        fn plain(n: u64, how: u64) -> (AnyBox, usize) {
            let id = plain_new();
            match n {
                $( $n => match how {
                    0 => (AnyBox::$Box(Box::new(|$($a: $t),*| fold(EMPTY, 0, &[$($a.bits()),*])).into()), EMPTY),
                    1 => {
                        let mut calls = 0u64;
                        (AnyBox::$Box(Box::new(move |$($a: $t),*| { calls += 1; fold(id, calls, &[$($a.bits()),*]) }).into()), id)
                    }
                    _ => {
                        let mut calls = [id as u64; 25];
                        (AnyBox::$Box($Box::new(Box::new(move |$($a: $t),*| {
                            check!(calls[1..].iter().all(|c| *c == id as u64), "corruption", "environment {id} changed");
                            calls[0] += 1;
                            fold(id, calls[0] - id as u64, &[$($a.bits()),*])
                        }))), id)
                    }
                } )*
                _ => unreachable!(),
            }
        }
        fn foreign(n: u64, missing: u64) -> (AnyBox, usize, *mut c_void) {
            let (i, env) = peer_new();
            let free = if missing & 1 == 0 { Some(p_release as unsafe extern "C" fn(*mut c_void)) } else { None };
            match n {
                $( $n => {
                    let call = if missing & 2 == 0 { $p_call as *const c_void } else { std::ptr::null() };
                    (AnyBox::$Box(rust_view(CBox { env, call, free })), i, env)
                } )*
                _ => unreachable!(),
            }
        }
        /// One call with fresh arguments. (result, hash of the arguments as the model sees them)
        fn call(&mut self, id: usize, calls: u64) -> (u64, u64) {
            match self {
                $( AnyBox::$Box(f) => {
                    $( let $a = <$t as Arg>::gen(); )*
                    (f.call($($a),*), fold(id, calls, &[$($a.bits()),*]))
                } )*
            }
        }
        /// What a C caller does: through the structure's function pointer.
        fn call_from_c(&mut self, id: usize, calls: u64) -> (u64, u64) {
            match self {
                $( AnyBox::$Box(f) => {
                    $( let $a = <$t as Arg>::gen(); )*
                    let c: CBox = unsafe { transmute_copy(f) };
                    let call: unsafe extern "C" fn(*mut c_void $(, <$t as ReprC>::CLayout)*) -> u64 = unsafe { std::mem::transmute(c.call) };
                    (unsafe { call(c.env $(, layout::into_raw($a))*) }, fold(id, calls, &[$($a.bits()),*]))
                } )*
            }
        }
        /// Across the boundary and back.
        fn cross(self) -> AnyBox {
            match self {
                $( AnyBox::$Box(f) => {
                    let raw = unsafe { layout::into_raw(f) };
                    sched::yield_point();
                    AnyBox::$Box(unsafe { layout::from_raw_unchecked(raw) })
                } )*
            }
        }
        /// Released by C: through the structure's function pointer.
        fn free_from_c(self) {
            match self {
                $( AnyBox::$Box(f) => {
                    let c: CBox = c_view(f);
                    unsafe { (c.free.unwrap())(c.env) }
                } )*
            }
        }
    }

    pub enum AnyArc { $( $Arc($Arc<u64 $(, $t)*>), )* }
    impl AnyArc {
        fn rust(n: u64, how: u64) -> (AnyArc, usize) {
            match n {
                $( $n => {
                    let tok = Token::new("shared environment");
                    let id = tok.id;
                    let f: $Arc<u64 $(, $t)*> = match shape() {
                        Shape::WideAligned => {
                            let w = Wide(tok);
                            let f = Arc::new(move |$($a: $t),*| { let w = &w; body_shared(&w.0, &[$($a.bits()),*]) });
                            if how == 0 { $Arc::new(f) } else { f.into() }
                        }
                        _ => {
                            let f = Arc::new(move |$($a: $t),*| body_shared(&tok, &[$($a.bits()),*]));
                            if how == 0 { $Arc::new(f) } else { f.into() }
                        }
                    };
                    (AnyArc::$Arc(f), id)
                } )*
                _ => unreachable!(),
            }
        }
        /// Environments without a destructor, and empty ones with one.
        fn plain(n: u64, how: u64) -> (AnyArc, usize) {
            let id = plain_new();
            match n {
                $( $n => match how {
                    0 => (AnyArc::$Arc(Arc::new(|$($a: $t),*| fold(EMPTY, 0, &[$($a.bits()),*])).into()), EMPTY),
                    1 => {
                        let z = Zero::new();
                        (AnyArc::$Arc(Arc::new(move |$($a: $t),*| { let _z = &z; fold(EMPTY, 0, &[$($a.bits()),*]) }).into()), EMPTY)
                    }
                    _ => (AnyArc::$Arc($Arc::new(Arc::new(move |$($a: $t),*| { sched::yield_point(); fold(id, 0, &[$($a.bits()),*]) }))), id),
                } )*
                _ => unreachable!(),
            }
        }
        fn foreign(n: u64, retain: bool) -> (AnyArc, usize) {
            let (i, env) = peer_new();
            let retain = if retain { Some(p_retain as unsafe extern "C" fn(*mut c_void)) } else { None };
            match n {
                $( $n => (AnyArc::$Arc(rust_view(CArc { env, call: $p_call as *const c_void, release: Some(p_release), retain })), i), )*
                _ => unreachable!(),
            }
        }
        fn call(&self, id: usize) -> (u64, u64) {
            match self {
                $( AnyArc::$Arc(f) => {
                    $( let $a = <$t as Arg>::gen(); )*
                    (f.call($($a),*), fold(id, 0, &[$($a.bits()),*]))
                } )*
            }
        }
        fn call_from_c(&self, id: usize) -> (u64, u64) {
            match self {
                $( AnyArc::$Arc(f) => {
                    $( let $a = <$t as Arg>::gen(); )*
                    let c: CArc = unsafe { transmute_copy(f) };
                    let call: unsafe extern "C" fn(*mut c_void $(, <$t as ReprC>::CLayout)*) -> u64 = unsafe { std::mem::transmute(c.call) };
                    (unsafe { call(c.env $(, layout::into_raw($a))*) }, fold(id, 0, &[$($a.bits()),*]))
                } )*
            }
        }
        fn dup(&self) -> AnyArc {
            match self { $( AnyArc::$Arc(f) => AnyArc::$Arc(f.clone()), )* }
        }
        /// What a C owner does: calls `retain`, copies the structure.
        fn dup_from_c(&self) -> AnyArc {
            match self {
                $( AnyArc::$Arc(f) => {
                    let c: CArc = unsafe { transmute_copy(f) };
                    unsafe { (c.retain.unwrap())(c.env) };
                    AnyArc::$Arc(rust_view(c))
                } )*
            }
        }
        fn cross(self) -> AnyArc {
            match self {
                $( AnyArc::$Arc(f) => {
                    let raw = unsafe { layout::into_raw(f) };
                    sched::yield_point();
                    AnyArc::$Arc(unsafe { layout::from_raw_unchecked(raw) })
                } )*
            }
        }
        fn free_from_c(self) {
            match self {
                $( AnyArc::$Arc(f) => {
                    let c: CArc = c_view(f);
                    unsafe { (c.release.unwrap())(c.env) }
                } )*
            }
        }
    }

    /// Lends a closure that owns its state: what calls change in it is there for the lender's own
    /// calls, and for the next loan.
    fn lend_moved(n: u64, times: u64, how: u64) {
        match n {
            $( $n => {
                let (tok, mut mine) = (if how == 0 { Some(Token::new("lent environment")) } else { None }, 0u64);
                let id = tok.as_ref().map_or(EMPTY, |t| t.id);
                let mut owned = |f: &mut dyn FnMut($($t),*) -> u64, calls: &mut u64| {
                    for _ in 0..choose(3) {
                        $( let $a = <$t as Arg>::gen(); )*
                        *calls += 1;
                        let r = f($($a),*);
                        check!(r == fold(id, *calls, &[$($a.bits()),*]), "lost-effect", "the lender's call {calls} of closure {id} returned something else");
                    }
                };
                macro_rules! go {($f:ident) => {{
                    let mut calls = 0u64;
                    for _ in 0..2 {
                        owned(&mut $f, &mut calls);
                        let mut h: $Ref<'_, u64 $(, $t)*> = $Ref::new(&mut $f);
                        for _ in 0..times {
                            sched::yield_point();
                            $( let $a = <$t as Arg>::gen(); )*
                            calls += 1;
                            let r = h.call($($a),*);
                            check!(r == fold(id, calls, &[$($a.bits()),*]), "wrong-call", "call {calls} of lent closure {id} returned something else");
                        }
                    }
                    owned(&mut $f, &mut calls);
                }}}
                match tok {
                    Some(tok) => {
                        let mut f = move |$($a: $t),*| -> u64 { tok.touch("call"); mine += 1; fold(tok.id, mine, &[$($a.bits()),*]) };
                        go!(f);
                        obj::expect_live(id, "after the loans");
                    }
                    None => {
                        let mut f = move |$($a: $t),*| -> u64 { mine += 1; fold(EMPTY, mine, &[$($a.bits()),*]) };
                        go!(f);
                    }
                }
                if id != EMPTY {
                    obj::expect_dead(id, "after its owner's drop");
                }
            } )*
            _ => unreachable!(),
        }
    }

    /// Lends a closure and calls it through the handle a few times. (calls made, sum of results)
    fn lend(n: u64, times: u64, cross: bool) {
        match n {
            $( $n => {
                let tok = Token::new("lent environment");
                let id = tok.id;
                let mut calls = 0u64;
                let mut total = 0u64;
                let mut f = |$($a: $t),*| -> u64 {
                    tok.touch("call");
                    calls += 1;
                    sched::yield_point();
                    let r = fold(tok.id, calls, &[$($a.bits()),*]);
                    total = total.wrapping_add(r);
                    r
                };
                let mut sum = 0u64;
                {
                    let mut h: $Ref<'_, u64 $(, $t)*> = $Ref::new(&mut f);
                    for i in 0..times {
                        if cross && i == times / 2 {
                            let raw = unsafe { layout::into_raw(h) };
                            sched::yield_point();
                            h = unsafe { layout::from_raw_unchecked(raw) };
                        }
                        $( let $a = <$t as Arg>::gen(); )*
                        let r = h.call($($a),*);
                        check!(r == fold(id, i + 1, &[$($a.bits()),*]), "wrong-call", "call {} of lent closure {id} returned something else", i + 1);
                        sum = sum.wrapping_add(r);
                    }
                }
                obj::expect_live(id, "after the loan");
                check!(calls == times && total == sum, "lost-effect", "lent closure {id} saw {calls} of {times} calls");
                drop(tok);
                obj::expect_dead(id, "after its owner's drop");
            } )*
            _ => unreachable!(),
        }
    }
}}
arities! {
    0 BoxDynFnMut0 ArcDynFn0 RefDynFnMut0 b0 s0 pc0 ()
    1 BoxDynFnMut1 ArcDynFn1 RefDynFnMut1 b1 s1 pc1 (a: u8)
    2 BoxDynFnMut2 ArcDynFn2 RefDynFnMut2 b2 s2 pc2 (a: u64, b: u64)
    3 BoxDynFnMut3 ArcDynFn3 RefDynFnMut3 b3 s3 pc3 (a: i16, b: f64, c: i16)
    4 BoxDynFnMut4 ArcDynFn4 RefDynFnMut4 b4 s4 pc4 (a: u32, b: u32, c: u32, d: bool)
    5 BoxDynFnMut5 ArcDynFn5 RefDynFnMut5 b5 s5 pc5 (a: u8, b: u8, c: u8, d: u8, e: u64)
    6 BoxDynFnMut6 ArcDynFn6 RefDynFnMut6 b6 s6 pc6 (a: u64, b: i8, c: u64, d: i8, e: u64, f: i8)
    7 BoxDynFnMut7 ArcDynFn7 RefDynFnMut7 b7 s7 pc7 (a: u16, b: u16, c: u16, d: u16, e: u16, f: u16, g: f64)
    8 BoxDynFnMut8 ArcDynFn8 RefDynFnMut8 b8 s8 pc8 (a: u64, b: u64, c: u64, d: u64, e: u64, f: u64, g: u64, h: u64)
    9 BoxDynFnMut9 ArcDynFn9 RefDynFnMut9 b9 s9 pc9 (a: i32, b: i32, c: i64, d: i32, e: usize, f: u8, g: f64, h: i32, i: bool)
}

// --- closures that take and return owned values ------------------------------------------------

type Echo = repr_c::Box<dyn 'static + Send + FnMut(repr_c::Vec<u8>, u64) -> repr_c::Vec<u8>>;
type Sink = repr_c::Arc<dyn 'static + Send + Sync + Fn(repr_c::Box<Token>)>;

fn owned_values() {
    let tok = Token::new("environment");
    let id = tok.id;
    if choose(2) == 0 {
        let mut f: Echo = Box::new(move |v: repr_c::Vec<u8>, n: u64| -> repr_c::Vec<u8> {
            tok.touch("call");
            let mut v: Vec<u8> = v.into();
            v.push(n as u8);
            v.into()
        })
        .into();
        let mut model: Vec<u8> = vec![];
        for _ in 0..pick(5) {
            let n = choose(256);
            sched::yield_point();
            let got: Vec<u8> = f.call(model.clone().into(), n).into();
            model.push(n as u8);
            check!(got == model, "wrong-call", "environment {id}: an owned argument did not come back as returned");
            model = got;
        }
        drop(f);
    } else {
        let f: Sink = Arc::new(move |b: repr_c::Box<Token>| {
            tok.touch("call");
            b.touch("argument");
            sched::yield_point();
        })
        .into();
        for _ in 0..pick(4) {
            let g = if choose(2) == 0 { Some(f.clone()) } else { None };
            let arg = Token::new("argument");
            let a = arg.id;
            g.as_ref().unwrap_or(&f).call(Box::new(arg).into());
            obj::expect_dead(a, "after the call that consumed it");
            obj::expect_live(id, "after a call");
        }
        drop(f);
    }
    obj::expect_dead(id, "after the drop of its closure");
}

// --- C01 ---------------------------------------------------------------------------------------

#[derive(Clone, Copy)]
enum Env {
    Rust(usize),
    Peer(usize),
    Zero,
    /// Nothing that could be seen destroyed: the books of the allocator have to tell.
    Plain(usize),
}
const EMPTY: usize = 5_000_000;
static PLAIN: AtomicU64 = AtomicU64::new(0);
fn plain_new() -> usize {
    2_000_000 + PLAIN.fetch_add(1, SeqCst) as usize
}
struct BoxSlot {
    f: AnyBox,
    env: Env,
    calls: u64,
    missing: u64,
}
static BOXES: Pool<BoxSlot> = Pool::new();

fn peer_of<R>(i: usize, f: impl FnOnce(&Peer) -> R) -> R {
    peers(|v| f(&v[i]))
}
fn model(env: Env, calls: u64) -> (usize, u64) {
    match env {
        Env::Rust(id) => (id, calls),
        Env::Peer(i) => (1_000_000 + i, 0),
        Env::Zero => (7, 0),
        Env::Plain(EMPTY) => (EMPTY, 0),
        Env::Plain(id) => (id, calls),
    }
}
fn live(env: Env, when: &str) {
    match env {
        Env::Rust(id) => obj::expect_live(id, when),
        Env::Peer(i) => {
            let r = peer_of(i, |p| p.refs.load(SeqCst));
            check!(r > 0, "early-drop", "{when}: foreign closure {i} was released");
        }
        Env::Zero | Env::Plain(_) => {}
    }
}
fn dead(env: Env, when: &str) {
    match env {
        Env::Rust(id) => obj::expect_dead(id, when),
        Env::Peer(i) => {
            let (r, n) = peer_of(i, |p| (p.retains.load(SeqCst), p.releases.load(SeqCst)));
            check!(n == r + 1, "drop-count", "{when}: foreign closure {i} retained {r} and released {n} times");
        }
        Env::Zero | Env::Plain(_) => {}
    }
}

fn c01_step(ops: &[usize]) {
    let op = if BOXES.len() == 0 { 0 } else { ops[pick(ops.len())] };
    match op {
        0 => {
            let n = choose(10);
            let slot = match choose(5) {
                4 => {
                    let (f, id) = AnyBox::plain(n, choose(3));
                    BoxSlot { f, env: Env::Plain(id), calls: 0, missing: 0 }
                }
                0 | 1 => {
                    let (f, id) = AnyBox::rust(n, choose(2));
                    BoxSlot { f, env: Env::Rust(id), calls: 0, missing: 0 }
                }
                2 => BoxSlot { f: AnyBox::zero(n), env: Env::Zero, calls: 0, missing: 0 },
                _ => {
                    let missing = if chance(1, 5) { 1 + choose(3) } else { 0 };
                    let (f, i, _) = AnyBox::foreign(n, missing);
                    if missing != 0 {
                        fault("foreign closure lacks a function");
                    }
                    BoxSlot { f, env: Env::Peer(i), calls: 0, missing }
                }
            };
            ev!("create arity {n}");
            live(slot.env, "created");
            BOXES.put(slot);
        }
        1 | 2 => {
            let Some(mut s) = BOXES.take() else { return };
            let (id, calls) = model(s.env, s.calls + 1);
            if s.missing & 2 != 0 {
                let r = attempt(|| s.f.call(id, calls));
                check!(r.is_err(), "missing-function", "a call through a missing function returned");
                ev!("call {id}: refused");
                probe("call without function refused");
            } else {
                s.calls += 1;
                let (got, want) = if op == 1 { s.f.call(id, calls) } else { s.f.call_from_c(id, calls) };
                ev!("call {id} -> {got:x}");
                check!(got == want, "wrong-call", "call {calls} of closure {id} returned something else");
                live(s.env, "after a call");
            }
            BOXES.put(s);
        }
        3 => {
            let Some(mut s) = BOXES.take() else { return };
            if s.missing != 0 {
                BOXES.put(s);
                return;
            }
            s.f = s.f.cross();
            ev!("crossed");
            live(s.env, "after crossing the boundary");
            BOXES.put(s);
        }
        4 | 5 => {
            let Some(s) = BOXES.take() else { return };
            live(s.env, "before its release");
            let zeros = obj::zero_live();
            if s.missing & 1 != 0 {
                let r = attempt(|| drop(s.f));
                check!(r.is_err(), "missing-function", "a release through a missing function returned");
                let n = if let Env::Peer(i) = s.env { peer_of(i, |p| p.releases.load(SeqCst)) } else { 0 };
                check!(n == 0, "drop-count", "released nonetheless");
                probe("release without function refused");
                return;
            }
            if op == 4 {
                drop(s.f)
            } else {
                s.f.free_from_c()
            }
            ev!("released");
            dead(s.env, "after its release");
            if let Env::Zero = s.env {
                // another thread may have made or dropped some meanwhile: exact without threads
                if sched::tid() == 0 {
                    check!(obj::zero_live() + 1 == zeros, "drop-count", "the zero-sized environment of a released closure was not destroyed once");
                }
            }
        }
        _ => owned_values(),
    }
}
fn c01() {
    obj::reset();
    peers(|v| v.clear());
    PLAIN.store(0, SeqCst);
    let n = 1 + pick(3);
    let mut ops = obj::swarm(7, &[0, 1, 4]);
    ops.push(1);
    ev!("threads {n} ops {ops:?}");
    obj::threads_anywhere(n, 20, 10, || c01_step(&ops));
    if !failed() {
        BOXES.drain(|s| {
            if s.missing & 1 != 0 {
                std::mem::forget(s.f);
                return;
            }
            drop(s.f);
            dead(s.env, "at the end");
        });
    }
    if !failed() {
        obj::all_dead();
    } else {
        BOXES.drain(|s| std::mem::forget(s));
        leaks_ok();
    }
}

// --- C02 ---------------------------------------------------------------------------------------

struct ArcSlot {
    f: AnyArc,
    env: Env,
    clonable: bool,
    owners: &'static AtomicI64,
}
static ARCS: Pool<ArcSlot> = Pool::new();
/// Owner counts, by the model. Leaked per process in small number: reused across runs.
static OWNERS: Mutex<(Vec<&'static AtomicI64>, usize)> = Mutex::new((Vec::new(), 0));
fn owners_new() -> &'static AtomicI64 {
    untracked(|| {
        let mut g = OWNERS.lock().unwrap_or_else(|p| p.into_inner());
        let i = g.1;
        g.1 += 1;
        if i == g.0.len() {
            g.0.push(Box::leak(Box::new(AtomicI64::new(0))));
        }
        g.0[i].store(1, SeqCst);
        g.0[i]
    })
}

fn c02_step(ops: &[usize]) {
    let op = if ARCS.len() == 0 { 0 } else { ops[pick(ops.len())] };
    match op {
        0 => {
            let n = choose(10);
            let slot = match choose(5) {
                4 => {
                    let (f, id) = AnyArc::plain(n, choose(3));
                    ArcSlot { f, env: Env::Plain(id), clonable: true, owners: owners_new() }
                }
                0 => {
                    let retain = choose(3) != 2;
                    if !retain {
                        fault("foreign closure lacks a function");
                    }
                    let (f, i) = AnyArc::foreign(n, retain);
                    ArcSlot { f, env: Env::Peer(i), clonable: retain, owners: owners_new() }
                }
                _ => {
                    let (f, id) = AnyArc::rust(n, choose(2));
                    ArcSlot { f, env: Env::Rust(id), clonable: true, owners: owners_new() }
                }
            };
            ev!("create arity {n}");
            live(slot.env, "created");
            ARCS.put(slot);
        }
        1 | 2 => {
            let Some(s) = ARCS.take() else { return };
            let (id, _) = model(s.env, 0);
            let (got, want) = if op == 1 { s.f.call(id) } else { s.f.call_from_c(id) };
            ev!("call {id} -> {got:x}");
            check!(got == want, "wrong-call", "a call of closure {id} returned something else");
            live(s.env, "after a call");
            ARCS.put(s);
        }
        3 | 4 => {
            let Some(s) = ARCS.take() else { return };
            if !s.clonable {
                let before = if let Env::Peer(i) = s.env { peer_of(i, |p| p.refs.load(SeqCst)) } else { 0 };
                let r = attempt(|| std::mem::forget(s.f.dup()));
                check!(r.is_err(), "missing-function", "a closure without a retain function was cloned");
                let after = if let Env::Peer(i) = s.env { peer_of(i, |p| p.refs.load(SeqCst)) } else { 0 };
                check!(before == after, "drop-count", "a refused clone changed the owner count");
                probe("clone without retain refused");
            } else {
                // counted before: the clone exists at some point during the call
                s.owners.fetch_add(1, SeqCst);
                let f = if op == 3 { s.f.dup() } else { s.f.dup_from_c() };
                ev!("cloned");
                live(s.env, "after a clone");
                ARCS.put(ArcSlot { f, env: s.env, clonable: true, owners: s.owners });
            }
            ARCS.put(s);
        }
        5 => {
            let Some(mut s) = ARCS.take() else { return };
            s.f = s.f.cross();
            live(s.env, "after crossing the boundary");
            ARCS.put(s);
        }
        6 | 7 => {
            let Some(s) = ARCS.take() else { return };
            live(s.env, "before its release");
            if op == 6 {
                drop(s.f)
            } else {
                s.f.free_from_c()
            }
            let left = s.owners.fetch_sub(1, SeqCst) - 1;
            ev!("released, {left} left");
            if left == 0 {
                dead(s.env, "after the release of its last handle");
            } else {
                // another thread may be in the middle of releasing what is left
                if sched::tid() == 0 {
                    live(s.env, "while handles are left");
                }
            }
        }
        _ => owned_values(),
    }
}
fn c02() {
    obj::reset();
    peers(|v| v.clear());
    PLAIN.store(0, SeqCst);
    untracked(|| OWNERS.lock().unwrap_or_else(|p| p.into_inner()).1 = 0);
    let n = 1 + pick(3);
    let mut ops = obj::swarm(9, &[0, 1, 3, 6]);
    ops.extend([1, 3, 6]);
    ev!("threads {n} ops {ops:?}");
    obj::threads_anywhere(n, 20, 10, || c02_step(&ops));
    if !failed() {
        ARCS.drain(|s| {
            live(s.env, "at the end, while handles are left");
            drop(s.f);
            if s.owners.fetch_sub(1, SeqCst) == 1 {
                dead(s.env, "at the end");
            }
        });
    }
    if !failed() {
        obj::all_dead();
    } else {
        ARCS.drain(|s| std::mem::forget(s));
        leaks_ok();
    }
}

// --- C03 ---------------------------------------------------------------------------------------

fn c03() {
    obj::reset();
    peers(|v| v.clear());
    PLAIN.store(0, SeqCst);
    let n = 1 + pick(3);
    ev!("threads {n}");
    obj::threads_anywhere(n, 8, 4, || {
        let (n, times) = (choose(10), choose(6));
        let cross = choose(2) == 1;
        ev!("lend arity {n} times {times} cross {cross}");
        if choose(3) == 0 {
            lend_moved(n, times, choose(4));
        } else {
            lend(n, times, cross);
        }
    });
    if failed() {
        leaks_ok();
    } else {
        obj::all_dead();
    }
}

const REAL: &str = "safer_ffi::closure (all arities), repr_c::{Box,Arc} of closures, layout conversions of the handles, compiled with and without debug assertions";
const STUB: &str = "the foreign peer (its closures' environments, call, retain and release functions), callers on the C side, the thread scheduler, the allocator's bookkeeping";
const ASSUME: &[&str] = &[
    "threads switch between operations, at callbacks, at allocations and between any two instructions of the program's own text, outside of libc",
    "a non-atomic read-modify-write instruction may lose what others wrote meanwhile; atomic ones are indivisible",
    "no panic crosses a C function pointer: that is undefined behaviour by the language's rules",
];
const RULE: &str = "one run = one seed: 1-3 simulated threads over a pool of handles, up to 60 operations (create from Rust or by the foreign peer, call from Rust or C, clone, cross the boundary, release from Rust or C), a scheduling decision before every operation, inside calls, foreign functions and destructors; distinct = different event log; runs without operations do not count";

pub const PROPS: &[Prop] = &[
    Prop { id: "C01", title: "An owned closure runs its own environment and frees it exactly once", run: c01, quick_runs: 150_000, thorough_runs: 6_000_000, warm_up: 3, wall_cap: 300, rule: RULE, real: REAL, stub: STUB, assumptions: ASSUME },
    Prop { id: "C02", title: "A shared closure lives until its last handle is released", run: c02, quick_runs: 150_000, thorough_runs: 6_000_000, warm_up: 3, wall_cap: 300, rule: RULE, real: REAL, stub: STUB, assumptions: ASSUME },
    Prop { id: "C03", title: "A borrowed closure runs its lender's closure and never frees it", run: c03, quick_runs: 200_000, thorough_runs: 6_000_000, warm_up: 3, wall_cap: 300, rule: RULE, real: REAL, stub: STUB, assumptions: ASSUME },
];
