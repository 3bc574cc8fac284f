//! Owned containers that cross the FFI boundary: O01 (ownership and contents), O02 (panics of user
//! code in the middle of their operations).
//!
//! Simulated threads exchange and use containers; a model holds what each must contain. Element
//! clones, element destructors and the closures passed to the containers panic where the run
//! decides so.

use super::obj::{self, Pool, Token, Zero};
use super::Prop;
use crate::ctx::*;
use crate::track::untracked;
use crate::{attempt, check, ev, inject, sched, INJECTED};
use safer_ffi::layout;
use safer_ffi::option::TaggedOption;
use safer_ffi::prelude::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};

// --- elements -----------------------------------------------------------------------------------

/// Counts down to an injected panic; below zero: none.
static CLONE_BOMB: AtomicI64 = AtomicI64::new(-1);
static DROP_BOMB: AtomicI64 = AtomicI64::new(-1);
fn tick(b: &AtomicI64) -> bool {
    b.load(SeqCst) >= 0 && b.fetch_sub(1, SeqCst) == 0
}

/// An element: a counted value, and the number that the model knows.
#[derive_ReprC]
#[repr(opaque)]
#[derive(Debug)]
pub struct El {
    tok: Token,
    val: u64,
}
fn el(val: u64) -> El {
    El { tok: Token::new("element"), val }
}
impl Clone for El {
    fn clone(&self) -> El {
        self.tok.touch("clone");
        if tick(&CLONE_BOMB) {
            inject("clone");
        }
        sched::yield_point();
        el(self.val)
    }
}
impl Drop for El {
    fn drop(&mut self) {
        if tick(&DROP_BOMB) && !std::thread::panicking() {
            inject("drop");
        }
    }
}
trait Elem: Sized + Clone + ReprC + 'static {
    const NAME: &'static str;
    fn make(val: u64) -> Self;
    fn seen(&self, what: &str) -> u64;
}
impl Elem for El {
    const NAME: &'static str = "objects";
    fn make(val: u64) -> El {
        el(val)
    }
    fn seen(&self, what: &str) -> u64 {
        self.tok.touch(what);
        self.val
    }
}
macro_rules! num_elem {($($t:ty),*) => {$(
    impl Elem for $t {
        const NAME: &'static str = stringify!($t);
        fn make(val: u64) -> $t { val as $t }
        fn seen(&self, _: &str) -> u64 { *self as u64 }
    }
)*}}
num_elem!(u8, u16, u64);
#[derive_ReprC]
#[repr(C)]
#[derive(Clone, Debug)]
pub struct Pair {
    a: u8,
    b: u64,
    c: u16,
}
impl Elem for Pair {
    const NAME: &'static str = "pairs";
    fn make(val: u64) -> Pair {
        Pair { a: val as u8, b: val, c: !val as u16 }
    }
    fn seen(&self, what: &str) -> u64 {
        check!(self.a == self.b as u8 && self.c == !self.b as u16, "corruption", "{what}: an element changed");
        self.b
    }
}
#[derive_ReprC]
#[repr(opaque)]
#[derive(Clone)]
pub struct Nil(Zero);
impl Elem for Nil {
    const NAME: &'static str = "zero-sized objects";
    fn make(_: u64) -> Nil {
        Nil(Zero::new())
    }
    fn seen(&self, _: &str) -> u64 {
        0
    }
}
fn mask<T: Elem>(v: u64) -> u64 {
    match T::NAME {
        "u8" => v as u8 as u64,
        "u16" => v as u16 as u64,
        "zero-sized objects" => 0,
        _ => v,
    }
}

type Model = Vec<u64>;
fn compare<T: Elem>(got: &[T], want: &Model, what: &str) -> bool {
    if !check!(got.len() == want.len(), "wrong-contents", "{what}: {} {} where {} are expected", got.len(), T::NAME, want.len()) {
        return false;
    }
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        let g = g.seen(what);
        if !check!(g == *w, "wrong-contents", "{what}: element {i} is {g}, not {w}") {
            return false;
        }
    }
    true
}
fn hash(x: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

// --- containers -----------------------------------------------------------------------------------

enum Con<T: Elem> {
    Vec(repr_c::Vec<T>),
    Slice(c_slice::Box<T>),
    Box(repr_c::Box<T>),
}
struct Slot<T: Elem> {
    c: Con<T>,
    m: Model,
}
enum Any {
    El(Slot<El>),
    U8(Slot<u8>),
    U16(Slot<u16>),
    U64(Slot<u64>),
    Pair(Slot<Pair>),
    Nil(Slot<Nil>),
}
unsafe impl Send for Any {}
static POOL: Pool<Any> = Pool::new();

fn fresh_rust<T: Elem>(max: usize) -> (Vec<T>, Model) {
    let n = pick(max + 1);
    let m: Model = (0..n).map(|_| mask::<T>(choose(1 << 20))).collect();
    let mut v: Vec<T> = match choose(3) {
        0 => Vec::with_capacity(n),
        1 => Vec::with_capacity(n + pick(9)),
        _ => Vec::new(),
    };
    v.extend(m.iter().map(|x| T::make(*x)));
    (v, m)
}
/// The fields that the header declares: where, how many, room for how many.
fn fields<T>(v: &repr_c::Vec<T>) -> [usize; 3] {
    unsafe { *(v as *const repr_c::Vec<T> as *const [usize; 3]) }
}
fn same_fields<T>(c: [usize; 3], v: &Vec<T>, what: &str) {
    // Rust has room for any number of elements without a size.
    let cap = if std::mem::size_of::<T>() == 0 { c[2] } else { v.capacity() };
    let r = [v.as_ptr() as usize, v.len(), cap];
    check!(c[1..] == r[1..], "wrong-contents", "{what}: length {} and capacity {} on one side, {} and {} on the other", c[1], c[2], r[1], r[2]);
    check!(c[0] == r[0], "wrong-contents", "{what}: the elements are elsewhere");
}
fn into_c<T>(v: Vec<T>) -> repr_c::Vec<T> {
    let r = std::mem::ManuallyDrop::new(unsafe { std::ptr::read(&v) });
    let c: repr_c::Vec<T> = v.into();
    same_fields(fields(&c), &r, "made from a Rust vector");
    c
}
fn into_rust<T>(c: repr_c::Vec<T>) -> Vec<T> {
    let f = fields(&c);
    let v: Vec<T> = c.into();
    same_fields(f, &v, "turned into a Rust vector");
    v
}
fn create<T: Elem>() -> Slot<T> {
    ev!("create {}", T::NAME);
    match choose(7) {
        0 => Slot { c: Con::Vec(repr_c::Vec::EMPTY), m: vec![] },
        1 => {
            let (v, m) = fresh_rust::<T>(6);
            Slot { c: Con::Slice(v.into_boxed_slice().into()), m }
        }
        2 => {
            let x = mask::<T>(choose(1 << 20));
            let c = if choose(2) == 0 { safer_ffi::boxed::Box_::new(T::make(x)) } else { Box::new(T::make(x)).into() };
            Slot { c: Con::Box(c), m: vec![x] }
        }
        3 => {
            let x = mask::<T>(choose(1 << 20));
            Slot { c: Con::Vec(safer_ffi::c_vec![T::make(x), T::make(x), T::make(x)]), m: vec![x; 3] }
        }
        4 => {
            let v: c_slice::Box<T> = Default::default();
            Slot { c: Con::Slice(v), m: vec![] }
        }
        _ => {
            let (v, m) = fresh_rust::<T>(7);
            Slot { c: Con::Vec(into_c(v)), m }
        }
    }
}
/// What a C program can do with a structure it was given by value: keep its bytes, hand them back.
fn cross<T: ReprC>(x: T) -> T {
    sched::yield_point();
    let raw = unsafe { layout::into_raw(x) };
    sched::yield_point();
    let copy = raw;
    unsafe { layout::from_raw_unchecked(copy) }
}
fn cross_opt<T: ReprC>(x: Option<T>) -> Option<T>
where
    Option<T>: ReprC,
{
    let some = x.is_some();
    let y = cross(x);
    check!(y.is_some() == some, "wrong-contents", "an optional value changed between there and not there");
    y
}

fn check_slot<T: Elem>(s: &Slot<T>, what: &str) {
    match &s.c {
        Con::Vec(v) => {
            compare(v, &s.m, what);
            compare(v.as_ref().as_slice(), &s.m, what);
        }
        Con::Slice(v) => {
            compare(v, &s.m, what);
            compare(v.as_slice(), &s.m, what);
            compare(v.as_ref().as_slice(), &s.m, what);
        }
        Con::Box(b) => {
            compare(std::slice::from_ref(&**b), &s.m, what);
        }
    }
}

/// `true`: from now on, and for the next operation only, a clone or destructor may panic.
fn arm() {
    match choose(3) {
        0 => CLONE_BOMB.store(choose(5) as i64, SeqCst),
        1 => DROP_BOMB.store(choose(5) as i64, SeqCst),
        _ => {}
    }
}
fn disarm() {
    CLONE_BOMB.store(-1, SeqCst);
    DROP_BOMB.store(-1, SeqCst);
}
/// Runs an operation in which user code may panic. Err: where it did.
fn guarded<R>(bombs: bool, what: &str, f: impl FnOnce() -> R) -> Result<R, &'static str> {
    if bombs {
        arm();
    }
    let r = attempt(f);
    disarm();
    match r {
        Ok(r) => Ok(r),
        Err(e) => {
            let kind = if e.ends_with("clone") {
                "panic in an element's clone"
            } else if e.ends_with("drop") {
                "panic in an element's destructor"
            } else {
                "panic in a closure"
            };
            if check!(e.starts_with(INJECTED), "unexpected-panic", "{what}: {e}") {
                fault(kind);
            }
            untracked(|| drop(e));
            Err(kind)
        }
    }
}

/// Something a Rust function does to the vector it is lent. The model follows.
fn edit<T: Elem>(v: &mut Vec<T>, m: &mut Model) {
    match choose(9) {
        0 | 1 => {
            let x = mask::<T>(choose(1 << 20));
            m.push(x);
            v.push(T::make(x));
        }
        2 => {
            m.pop();
            drop(v.pop());
        }
        3 => {
            let k = pick(v.len() + 1);
            m.truncate(k);
            v.truncate(k);
        }
        4 => v.reserve(pick(20)),
        5 => v.shrink_to_fit(),
        6 if !v.is_empty() => {
            let (i, j) = (pick(v.len()), pick(v.len()));
            m.swap(i, j);
            v.swap(i, j);
        }
        7 => {
            let (n, mm) = fresh_rust::<T>(5);
            let old_m = std::mem::replace(m, mm);
            drop(old_m);
            let old = std::mem::replace(v, n);
            drop(old);
        }
        _ => {
            let i = pick(v.len() + 1);
            let x = mask::<T>(choose(1 << 20));
            m.insert(i, x);
            v.insert(i, T::make(x));
        }
    }
}

fn act<T: Elem>(mut s: Slot<T>, bombs: bool) -> Vec<Slot<T>> {
    let mut out = vec![];
    match choose(13) {
        0 => {
            ev!("read");
            check_slot(&s, "reading");
        }
        1 => {
            // to the other side and back
            ev!("cross");
            s.c = match s.c {
                Con::Vec(v) => Con::Vec(if choose(3) == 0 { cross_opt(Some(v)).unwrap_or(repr_c::Vec::EMPTY) } else { cross(v) }),
                Con::Slice(v) => Con::Slice(if choose(3) == 0 { cross_opt(Some(v)).unwrap_or_default() } else { cross(v) }),
                Con::Box(b) => Con::Box(if choose(3) == 0 {
                    match cross_opt(Some(b)) {
                        Some(b) => b,
                        None => return out,
                    }
                } else {
                    cross(b)
                }),
            };
            check_slot(&s, "after crossing");
        }
        2 => {
            check!(cross_opt::<repr_c::Vec<T>>(None).is_none(), "wrong-contents", "nothing became something");
            check!(cross_opt::<c_slice::Box<T>>(None).is_none(), "wrong-contents", "nothing became something");
            check!(cross_opt::<repr_c::Box<T>>(None).is_none(), "wrong-contents", "nothing became something");
        }
        3 => {
            // over the plain Rust container and back, changed there
            ev!("to rust and back");
            s.c = match s.c {
                Con::Vec(v) => {
                    let mut v: Vec<T> = into_rust(v);
                    compare(&v, &s.m, "turned into a Rust vector");
                    for _ in 0..choose(3) {
                        edit(&mut v, &mut s.m);
                    }
                    if choose(4) == 0 { Con::Slice(v.into_boxed_slice().into()) } else { Con::Vec(into_c(v)) }
                }
                Con::Slice(v) => {
                    let b: Box<[T]> = v.into();
                    compare(&b, &s.m, "turned into a Rust boxed slice");
                    if choose(3) == 0 { Con::Vec(into_c(b.into_vec())) } else { Con::Slice(b.into()) }
                }
                Con::Box(b) => {
                    let b: Box<T> = b.into();
                    compare(std::slice::from_ref(&*b), &s.m, "turned into a Rust box");
                    if choose(4) == 0 { Con::Vec(into_c(vec![*b])) } else { Con::Box(b.into()) }
                }
            };
            check_slot(&s, "after going through Rust's own container");
        }
        4 | 5 => {
            ev!("clone");
            let c = guarded(bombs, "clone", || match &s.c {
                Con::Vec(v) => Con::Vec(v.clone()),
                Con::Slice(v) => Con::Slice(v.clone()),
                Con::Box(b) => Con::Box(b.clone()),
            });
            check_slot(&s, "after being cloned");
            if let Ok(c) = c {
                let copy = Slot { c, m: s.m.clone() };
                check_slot(&copy, "the clone");
                out.push(copy);
            }
        }
        6 => {
            // through the mutable views
            ev!("mutate");
            if !s.m.is_empty() {
                let i = pick(s.m.len());
                let x = mask::<T>(choose(1 << 20));
                let j = pick(s.m.len());
                s.m[i] = x;
                s.m.swap(i, j);
                let fresh = T::make(x);
                let old;
                match &mut s.c {
                    Con::Vec(v) => match choose(3) {
                        0 => {
                            old = std::mem::replace(&mut v[i], fresh);
                            v.swap(i, j);
                        }
                        1 => {
                            let sl = v.as_mut().as_slice();
                            old = std::mem::replace(&mut sl[i], fresh);
                            sl.swap(i, j);
                        }
                        _ => {
                            let mut sm = v.as_mut();
                            {
                                let mut again = sm.as_mut();
                                old = std::mem::replace(&mut again[i], fresh);
                            }
                            check!(sm.as_ref().len() == s.m.len(), "wrong-contents", "a reborrowed view has another length");
                            sm.swap(i, j);
                        }
                    },
                    Con::Slice(v) => match choose(3) {
                        0 => {
                            old = std::mem::replace(&mut v[i], fresh);
                            v.swap(i, j);
                        }
                        1 => {
                            let sl = v.as_slice_mut();
                            old = std::mem::replace(&mut sl[i], fresh);
                            sl.swap(i, j);
                        }
                        _ => {
                            let mut sm = v.as_mut();
                            old = std::mem::replace(&mut sm[i], fresh);
                            sm.swap(i, j);
                        }
                    },
                    Con::Box(b) => {
                        old = std::mem::replace(&mut **b, fresh);
                    }
                }
                drop(old);
                check_slot(&s, "after a mutation");
            }
        }
        7 => {
            // borrowed by a C function: pointer and length
            if let Con::Vec(v) = &mut s.c {
                ev!("lend");
                let r: c_slice::Ref<'_, T> = cross(v.as_ref());
                let mine = [r, r];
                compare(mine[1].as_slice(), &s.m, "a lent slice");
                check!(r.len() == s.m.len(), "wrong-contents", "a lent slice has another length");
                let m: c_slice::Mut<'_, T> = cross(v.as_mut());
                let back: c_slice::Ref<'_, T> = m.into();
                compare(back.as_slice(), &s.m, "a slice lent mutably");
                let raw: safer_ffi::slice::slice_raw<T> = back.into();
                compare(unsafe { raw.as_ref() }.as_slice(), &s.m, "a raw slice");
            }
        }
        8 | 9 | 10 => {
            if let Con::Vec(v) = &mut s.c {
                ev!("with_rust_mut");
                let m = &mut s.m;
                let token = choose(1 << 30);
                let before = fields(v);
                let after = &mut None;
                let r = guarded(bombs, "with_rust_mut", || {
                    v.with_rust_mut(|v| {
                        same_fields(before, v, "lent to a closure");
                        compare(v, m, "lent to a closure");
                        for _ in 0..choose(5) {
                            edit(v, m);
                            sched::yield_point();
                            if bombs && choose(6) == 0 {
                                inject("closure");
                            }
                        }
                        *after = Some([v.as_ptr() as usize, v.len(), v.capacity()]);
                        token
                    })
                });
                match r {
                    Ok(r) => {
                        check!(r == token, "wrong-result", "with_rust_mut returned something else than its closure");
                        if let Con::Vec(v) = &s.c {
                            let f = fields(v);
                            let same = after.map_or(false, |a| a[..2] == f[..2] && (a[2] == f[2] || std::mem::size_of::<T>() == 0));
                            check!(same, "wrong-contents", "a vector is not left as the closure left it");
                        }
                        check_slot(&s, "after with_rust_mut");
                    }
                    Err("panic in a closure") => check_slot(&s, "after a panic in the closure of with_rust_mut"),
                    Err(_) => {
                        // A destructor that panics in the middle leaves the length to std.
                        if let Con::Vec(v) = &s.c {
                            s.m = v.iter().map(|x| x.seen("after a panic in with_rust_mut")).collect();
                        }
                    }
                }
            }
        }
        11 => {
            ev!("drop");
            let _ = guarded(bombs, "drop", move || drop(s));
            return out;
        }
        _ => {
            // by value, out of the container and into another
            if let Con::Box(b) = s.c {
                ev!("box to slice");
                let b: Box<T> = b.into();
                s.c = Con::Slice((b as Box<T>).into_slice().into());
                check_slot(&s, "after leaving its box");
            }
        }
    }
    out.push(s);
    out
}

trait IntoSlice<T> {
    fn into_slice(self) -> Box<[T]>;
}
impl<T> IntoSlice<T> for Box<T> {
    fn into_slice(self) -> Box<[T]> {
        vec![*self].into_boxed_slice()
    }
}

/// Optionals with a flag of their own.
fn tagged() {
    ev!("tagged");
    let x = choose(1 << 20);
    let t: TaggedOption<repr_c::Box<El>> = Some(repr_c::Box::<El>::from(Box::new(el(x)))).into();
    let id = t.as_ref().map(|b| b.tok.id);
    let mut t = cross_tagged(t);
    if let Some(b) = t.as_mut() {
        b.val += 1;
    }
    let taken = if choose(2) == 0 { t.take() } else { std::mem::replace(&mut t, TaggedOption::None) };
    check!(t.as_ref().is_none(), "wrong-contents", "a tagged optional still has the value that was taken out");
    match taken.into_rust() {
        Some(b) => {
            b.tok.touch("tagged");
            check!(Some(b.tok.id) == id && b.val == x + 1, "wrong-contents", "a tagged optional has another value than put in");
        }
        None => violate("wrong-contents", "a tagged optional lost its value"),
    }
    let v: Vec<u8> = (0..pick(9) as u8).collect();
    let t: TaggedOption<repr_c::Vec<u8>> = TaggedOption::from(repr_c::Vec::from(v.clone()));
    match Option::from(cross(t)) {
        Some(w) => {
            let w: repr_c::Vec<u8> = w;
            check!(w[..] == v[..], "wrong-contents", "a tagged optional has another value than put in");
        }
        None => violate("wrong-contents", "a tagged optional lost its value"),
    }
    let none: TaggedOption<repr_c::Vec<u8>> = None.into();
    check!(cross(none).as_ref().is_none(), "wrong-contents", "a tagged optional gained a value");
    let n = choose(256) as u8;
    let some: TaggedOption<u8> = n.into();
    check!(Option::from(cross(some)) == Some(n), "wrong-contents", "a tagged optional has another value than put in");
}
fn cross_tagged<T>(t: TaggedOption<T>) -> TaggedOption<T> {
    sched::yield_point();
    t
}

fn compare_views() {
    // Views compare as what they view.
    let (a, ma) = fresh_rust::<u16>(4);
    let (b, mb) = if choose(3) == 0 { (a.clone(), ma.clone()) } else { fresh_rust::<u16>(4) };
    let (ra, rb): (c_slice::Ref<'_, u16>, c_slice::Ref<'_, u16>) = ((&a[..]).into(), (&b[..]).into());
    check!((ra == rb) == (ma == mb), "wrong-comparison", "slices {ma:?} and {mb:?}: equality");
    check!(ra.cmp(&rb) == ma.cmp(&mb), "wrong-comparison", "slices {ma:?} and {mb:?}: order");
    check!(ra.partial_cmp(&rb) == ma.partial_cmp(&mb), "wrong-comparison", "slices {ma:?} and {mb:?}: order");
    check!((hash(&ra) == hash(&rb)) == (ma == mb), "wrong-comparison", "slices {ma:?} and {mb:?}: hashes");
    let (ba, bb): (c_slice::Box<u16>, c_slice::Box<u16>) = (a.into_boxed_slice().into(), b.into_boxed_slice().into());
    check!((ba == bb) == (ma == mb), "wrong-comparison", "boxed slices {ma:?} and {mb:?}: equality");
    check!(ba.cmp(&bb) == ma.cmp(&mb), "wrong-comparison", "boxed slices {ma:?} and {mb:?}: order");
    check!((hash(&ba) == hash(&bb)) == (ma == mb), "wrong-comparison", "boxed slices {ma:?} and {mb:?}: hashes");
}
fn on(a: Any, bombs: bool) {
    macro_rules! each {($($V:ident)*) => {
        match a { $( Any::$V(s) => for s in act(s, bombs) { POOL.put(Any::$V(s)) }, )* }
    }}
    each!(El U8 U16 U64 Pair Nil)
}
fn new_any() -> Any {
    match choose(7) {
        0 | 1 => Any::El(create()),
        2 => Any::U8(create()),
        3 => Any::U16(create()),
        4 => Any::U64(create()),
        5 => Any::Pair(create()),
        _ => Any::Nil(create()),
    }
}
fn end(what: &str) {
    disarm();
    POOL.drain(|a| {
        macro_rules! each {($($V:ident)*) => {
            match &a { $( Any::$V(s) => check_slot(s, what), )* }
        }}
        each!(El U8 U16 U64 Pair Nil);
        drop(a);
    });
    if failed() {
        leaks_ok();
        return;
    }
    obj::all_dead();
}
fn o01() {
    obj::reset();
    disarm();
    let n = 1 + pick(3);
    obj::threads_anywhere(n, 16, 12, || {
        if POOL.len() == 0 || choose(5) == 0 {
            POOL.put(new_any());
        } else if choose(20) == 0 {
            if choose(2) == 0 {
                compare_views();
            } else {
                tagged();
            }
        } else if let Some(a) = POOL.take() {
            on(a, false);
        }
    });
    end("at the end");
}
fn o02() {
    obj::reset();
    disarm();
    steps(40, 24, || {
        if POOL.len() == 0 || choose(5) == 0 {
            let a = if choose(3) == 0 { Any::Nil(create()) } else { Any::El(create()) };
            POOL.put(a);
        } else if let Some(a) = POOL.take() {
            on(a, true);
        }
    });
    end("at the end");
}

const REAL: &str = "repr_c::{Vec, Box}, c_slice::{Box, Ref, Mut}, slice_raw, TaggedOption, Option<_> of these, with_rust_mut, layout::{into_raw, from_raw_unchecked}";
const STUB: &str = "the elements, the C side (which keeps the bytes of what it is given), the thread scheduler, the allocator's bookkeeping";
pub static PROPS: [Prop; 2] = [
    Prop {
        id: "O01",
        title: "Owned containers keep their contents and are freed once, as they were allocated",
        run: o01,
        quick_runs: 200_000,
        thorough_runs: 3_500_000,
        warm_up: 2,
        wall_cap: 90,
        rule: "one run = one seed: 1-3 simulated threads over a pool of containers (vectors, boxed slices, boxes; elements with and without destructors, zero-sized, padded), about 12-40 operations, a scheduling decision before every operation, element clone and boundary crossing; distinct = different event log; runs without operations do not count",
        real: REAL,
        stub: STUB,
        assumptions: &["a container is used by one thread at a time, as its type demands"],
    },
    Prop {
        id: "O02",
        title: "Panics in user code leave owned containers valid, and lose nothing",
        run: o02,
        quick_runs: 400_000,
        thorough_runs: 4_000_000,
        warm_up: 2,
        wall_cap: 90,
        rule: "one run = one seed: as O01 on one thread, with panics injected into element clones, element destructors and lent-to closures at arbitrary points; distinct = different event log",
        real: REAL,
        stub: STUB,
        assumptions: &["one injected panic per operation: a second one while unwinding ends the process by definition"],
    },
];
