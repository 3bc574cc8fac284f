//! Trait objects that cross the FFI boundary: V01 (ownership), V02 (dispatch), V03 (cloning).
//!
//! Virtual pointers made from every kind of pointer (`Box`, `Arc`, `Rc`, `&`, `&mut`, and pinned
//! ones) and virtual pointers made by a simulated foreign peer, used by simulated threads.

use super::obj::{self, Pool, Token, Zero};
use super::Prop;
use crate::ctx::*;
use crate::track::untracked;
use crate::{check, ev, sched};
use safer_ffi::dyn_traits::{DropGlue, DynDrop, ErasedTy, ImplDropGlue, ReprCTrait};
use safer_ffi::layout;
use safer_ffi::prelude::*;
use safer_ffi::ptr::{NonNullOwned, NonNullRef};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

fn fold(id: u64, salt: u64, args: &[u64]) -> u64 {
    args.iter().fold(mix(id, salt), |h, a| mix(h, *a))
}

// --- the traits --------------------------------------------------------------------------------

#[derive_ReprC(dyn)]
pub trait Visitor {
    fn visit(&mut self, n: u64) -> u64;
}

#[derive_ReprC(dyn, Clone)]
pub trait Shared {
    fn ident(&self) -> u64;
    fn origin(&self) -> u64;
    fn mix4(&self, a: u8, b: u64, c: i16, d: f64) -> u64;
    fn same_signature_1(&self, a: u64, b: u64) -> u64;
    fn same_signature_2(&self, a: u64, b: u64) -> u64;
    fn echo(&self, v: repr_c::Vec<u8>, n: u8) -> repr_c::Vec<u8>;
    fn host(&self, n: u64, v: VirtualPtr<dyn '_ + Visitor>) -> u64;
    fn defaulted(&self, n: u64) -> u64 {
        self.ident() + n
    }
}

#[derive_ReprC(dyn)]
pub trait Machine {
    fn step(&mut self, n: u64) -> u64;
    fn back(&mut self, n: u64) -> u64;
    fn total(&self) -> u64;
    fn object(&self) -> u64;
}

#[derive_ReprC(dyn)]
pub trait Pinned {
    fn step(self: Pin<&mut Self>, n: u64) -> u64;
    fn total(&self) -> u64;
}

#[derive_ReprC(dyn)]
pub trait Glue: Send + Sync {
    fn object(&self) -> u64;
}

type DynShared = VirtualPtr<dyn 'static + Send + Sync + Shared>;
type DynMachine = VirtualPtr<dyn 'static + Send + Sync + Machine>;

// --- the Rust objects ----------------------------------------------------------------------------

pub struct Obj {
    tok: Token,
    origin: u64,
}
#[repr(align(32))]
pub struct WideObj {
    tok: Token,
    origin: u64,
    pad: [u8; 77],
}
trait Make: Sized {
    fn make() -> (Self, usize);
}
impl Make for Obj {
    fn make() -> (Obj, usize) {
        let tok = Token::new("object");
        let id = tok.id;
        (Obj { origin: id as u64, tok }, id)
    }
}
impl Make for WideObj {
    fn make() -> (WideObj, usize) {
        let tok = Token::new("wide object");
        let id = tok.id;
        (WideObj { origin: id as u64, tok, pad: [id as u8; 77] }, id)
    }
}
impl Clone for Obj {
    fn clone(&self) -> Obj {
        self.tok.touch("clone");
        sched::yield_point();
        Obj { tok: Token::new("copied object"), origin: self.origin }
    }
}
impl Clone for WideObj {
    fn clone(&self) -> WideObj {
        self.tok.touch("clone");
        let tok = Token::new("copied wide object");
        WideObj { pad: [tok.id as u8; 77], tok, origin: self.origin }
    }
}
macro_rules! impl_shared {($T:ty $(, $more:item)*) => {
    impl Shared for $T {
        $($more)*
        fn ident(&self) -> u64 {
            self.tok.touch("ident");
            self.tok.id as u64
        }
        fn origin(&self) -> u64 {
            self.tok.touch("origin");
            self.origin
        }
        fn mix4(&self, a: u8, b: u64, c: i16, d: f64) -> u64 {
            self.tok.touch("mix4");
            sched::yield_point();
            self.tok.touch("mix4, later");
            fold(self.tok.id as u64, 4, &[a as u64, b, c as u64, d.to_bits()])
        }
        fn same_signature_1(&self, a: u64, b: u64) -> u64 {
            self.tok.touch("same_signature_1");
            fold(self.tok.id as u64, 1, &[a, b])
        }
        fn same_signature_2(&self, a: u64, b: u64) -> u64 {
            self.tok.touch("same_signature_2");
            fold(self.tok.id as u64, 2, &[a, b])
        }
        fn echo(&self, v: repr_c::Vec<u8>, n: u8) -> repr_c::Vec<u8> {
            self.tok.touch("echo");
            let mut v: Vec<u8> = v.into();
            v.push(n);
            v.push(self.tok.id as u8);
            v.into()
        }
        fn host(&self, n: u64, mut v: VirtualPtr<dyn '_ + Visitor>) -> u64 {
            self.tok.touch("host");
            let mut r = 0;
            for i in 0..n {
                r += v.visit(self.tok.id as u64 + i);
                sched::yield_point();
            }
            self.tok.touch("host, later");
            r
        }
    }
}}
impl_shared!(Obj);
impl_shared!(
    WideObj,
    fn defaulted(&self, n: u64) -> u64 {
        self.tok.touch("defaulted");
        self.tok.id as u64 + n + OVERRIDDEN
    }
);
/// What an object's own version of the method with a default adds to it.
const OVERRIDDEN: u64 = 1000;

// --- objects whose destruction cannot be seen: the counts and the allocator's books have to tell ---

const PLAIN: u64 = 1 << 40;
const EMPTY: u64 = 1 << 41;
static MADE: AtomicU64 = AtomicU64::new(0);
/// No destructor.
#[derive(Clone)]
pub struct PlainObj {
    id: u64,
    pad: [u16; 13],
}
impl PlainObj {
    fn make() -> PlainObj {
        let id = PLAIN + MADE.fetch_add(1, SeqCst);
        PlainObj { id, pad: [id as u16; 13] }
    }
}
/// No size either.
#[derive(Clone)]
pub struct EmptyObj;
/// No size, but a destructor.
#[derive(Clone)]
pub struct EmptyGuard(#[allow(dead_code)] Zero);
trait Id {
    fn id(&self) -> u64;
}
impl Id for PlainObj {
    fn id(&self) -> u64 {
        check!(self.pad.iter().all(|p| *p == self.id as u16), "corruption", "the contents of a plain object changed");
        self.id
    }
}
impl Id for EmptyObj {
    fn id(&self) -> u64 {
        EMPTY
    }
}
impl Id for EmptyGuard {
    fn id(&self) -> u64 {
        EMPTY
    }
}
macro_rules! impl_shared_plain {($T:ty $(, $more:item)*) => {
    impl Shared for $T {
        $($more)*
        fn ident(&self) -> u64 {
            sched::yield_point();
            self.id()
        }
        fn origin(&self) -> u64 {
            self.id()
        }
        fn mix4(&self, a: u8, b: u64, c: i16, d: f64) -> u64 {
            fold(self.id(), 4, &[a as u64, b, c as u64, d.to_bits()])
        }
        fn same_signature_1(&self, a: u64, b: u64) -> u64 {
            fold(self.id(), 1, &[a, b])
        }
        fn same_signature_2(&self, a: u64, b: u64) -> u64 {
            fold(self.id(), 2, &[a, b])
        }
        fn echo(&self, v: repr_c::Vec<u8>, n: u8) -> repr_c::Vec<u8> {
            let mut v: Vec<u8> = v.into();
            v.push(n);
            v.push(self.id() as u8);
            v.into()
        }
        fn host(&self, n: u64, mut v: VirtualPtr<dyn '_ + Visitor>) -> u64 {
            (0..n).map(|i| v.visit(self.id() + i)).sum()
        }
    }
}}
impl_shared_plain!(
    PlainObj,
    fn defaulted(&self, n: u64) -> u64 {
        self.id() + n + OVERRIDDEN
    }
);
impl_shared_plain!(EmptyObj);
impl_shared_plain!(EmptyGuard);
fn overrides(id: u64) -> bool {
    match id {
        EMPTY => false,
        PLAIN.. => true,
        FOREIGN.. => false,
        _ => obj::kind(id as usize).contains("wide"),
    }
}

pub struct Counter {
    tok: Token,
    total: u64,
}
impl Counter {
    fn make() -> (Counter, usize) {
        let tok = Token::new("machine");
        let id = tok.id;
        (Counter { tok, total: 0 }, id)
    }
}
impl Machine for Counter {
    fn step(&mut self, n: u64) -> u64 {
        self.tok.touch("step");
        self.total += n;
        sched::yield_point();
        self.total
    }
    fn back(&mut self, n: u64) -> u64 {
        self.tok.touch("back");
        self.total ^= n;
        self.total
    }
    fn total(&self) -> u64 {
        self.tok.touch("total");
        self.total
    }
    fn object(&self) -> u64 {
        self.tok.touch("object");
        self.tok.id as u64
    }
}
impl Pinned for Counter {
    fn step(self: Pin<&mut Self>, n: u64) -> u64 {
        let this = unsafe { self.get_unchecked_mut() };
        Machine::step(this, n)
    }
    fn total(&self) -> u64 {
        Machine::total(self)
    }
}
impl Glue for Counter {
    fn object(&self) -> u64 {
        Machine::object(self)
    }
}
struct Ears {
    tok: Token,
    heard: u64,
    calls: u64,
}
impl Visitor for Ears {
    fn visit(&mut self, n: u64) -> u64 {
        self.tok.touch("visit");
        self.heard += n;
        self.calls += 1;
        n
    }
}
/// No size, no address: only its destructor can be counted.
struct Nothing(Zero);
impl Machine for Nothing {
    fn step(&mut self, n: u64) -> u64 {
        let _ = &self.0;
        n + 1
    }
    fn back(&mut self, n: u64) -> u64 {
        n + 2
    }
    fn total(&self) -> u64 {
        3
    }
    fn object(&self) -> u64 {
        4
    }
}

// --- the foreign peer's objects --------------------------------------------------------------------

/// One foreign handle. Retaining makes another handle, at another address.
struct Handle {
    object: usize,
    released: AtomicI64,
}
struct Peers {
    handles: Vec<Box<Handle>>,
    calls: AtomicU64,
    objects: usize,
}
static PEERS: Mutex<Peers> = Mutex::new(Peers { handles: Vec::new(), calls: AtomicU64::new(0), objects: 0 });
fn peers<R>(f: impl FnOnce(&mut Peers) -> R) -> R {
    untracked(|| f(&mut PEERS.lock().unwrap_or_else(|p| p.into_inner())))
}
fn handle_new(object: usize) -> NonNullOwned<ErasedTy> {
    peers(|p| {
        p.handles.push(Box::new(Handle { object, released: AtomicI64::new(0) }));
        let h: &Handle = p.handles.last().unwrap();
        std::ptr::NonNull::from(h).cast::<ErasedTy>().into()
    })
}
fn handle(ptr: *const ErasedTy, what: &str) -> Option<&'static Handle> {
    let known = peers(|p| p.handles.iter().any(|h| &**h as *const Handle as usize == ptr as usize));
    if !check!(known, "foreign-pointer", "{what} got a pointer that is not the peer's") {
        return None;
    }
    let h: &'static Handle = unsafe { &*(ptr as *const Handle) };
    check!(h.released.load(SeqCst) == 0, "use-after-release", "{what} of a released handle of foreign object {}", h.object);
    Some(h)
}
const FOREIGN: u64 = 1 << 32;
unsafe extern "C" fn f_release(p: NonNullOwned<ErasedTy>) {
    if let Some(h) = handle(p.as_ptr(), "release") {
        sched::yield_point();
        let n = h.released.fetch_add(1, SeqCst) + 1;
        check!(n == 1, "double-release", "a handle of foreign object {} released twice", h.object);
        probe("foreign object released");
    }
}
unsafe extern "C" fn f_retain(p: NonNullRef<ErasedTy>) -> NonNullOwned<ErasedTy> {
    let h = handle(p.as_ptr(), "retain");
    sched::yield_point();
    handle_new(h.map_or(usize::MAX, |h| h.object))
}
unsafe extern "C" fn f_ident(p: NonNullRef<ErasedTy>) -> u64 {
    sched::yield_point();
    handle(p.as_ptr(), "ident").map_or(0, |h| FOREIGN + h.object as u64)
}
unsafe extern "C" fn f_origin(p: NonNullRef<ErasedTy>) -> u64 {
    handle(p.as_ptr(), "origin").map_or(0, |h| FOREIGN + h.object as u64)
}
unsafe extern "C" fn f_mix4(p: NonNullRef<ErasedTy>, a: u8, b: u64, c: i16, d: f64) -> u64 {
    sched::yield_point();
    handle(p.as_ptr(), "mix4").map_or(0, |h| fold(FOREIGN + h.object as u64, 4, &[a as u64, b, c as u64, d.to_bits()]))
}
unsafe extern "C" fn f_same1(p: NonNullRef<ErasedTy>, a: u64, b: u64) -> u64 {
    handle(p.as_ptr(), "same_signature_1").map_or(0, |h| fold(FOREIGN + h.object as u64, 1, &[a, b]))
}
unsafe extern "C" fn f_same2(p: NonNullRef<ErasedTy>, a: u64, b: u64) -> u64 {
    handle(p.as_ptr(), "same_signature_2").map_or(0, |h| fold(FOREIGN + h.object as u64, 2, &[a, b]))
}
type C<T> = <T as layout::ReprC>::CLayout;
unsafe extern "C" fn f_echo(p: NonNullRef<ErasedTy>, v: C<repr_c::Vec<u8>>, n: u8) -> C<repr_c::Vec<u8>> {
    let h = handle(p.as_ptr(), "echo");
    let v: repr_c::Vec<u8> = layout::from_raw_unchecked(v);
    let mut v: Vec<u8> = v.into();
    v.push(n);
    v.push(h.map_or(0, |h| h.object as u8));
    layout::into_raw(repr_c::Vec::from(v))
}
unsafe extern "C" fn f_host(p: NonNullRef<ErasedTy>, n: u64, v: C<VirtualPtr<dyn 'static + Visitor>>) -> u64 {
    let id = handle(p.as_ptr(), "host").map_or(0, |h| FOREIGN + h.object as u64);
    let mut v: VirtualPtr<dyn 'static + Visitor> = layout::from_raw_unchecked(v);
    (0..n).map(|i| v.visit(id + i)).sum()
}
unsafe extern "C" fn f_defaulted(p: NonNullRef<ErasedTy>, n: u64) -> u64 {
    handle(p.as_ptr(), "defaulted").map_or(0, |h| FOREIGN + h.object as u64 + n)
}
/// The table as a C program declares it.
#[repr(C)]
#[derive(Clone, Copy)]
struct CVTable {
    release: unsafe extern "C" fn(NonNullOwned<ErasedTy>),
    retain: unsafe extern "C" fn(NonNullRef<ErasedTy>) -> NonNullOwned<ErasedTy>,
    ident: unsafe extern "C" fn(NonNullRef<ErasedTy>) -> u64,
    origin: unsafe extern "C" fn(NonNullRef<ErasedTy>) -> u64,
    mix4: unsafe extern "C" fn(NonNullRef<ErasedTy>, u8, u64, i16, f64) -> u64,
    same1: unsafe extern "C" fn(NonNullRef<ErasedTy>, u64, u64) -> u64,
    same2: unsafe extern "C" fn(NonNullRef<ErasedTy>, u64, u64) -> u64,
    echo: unsafe extern "C" fn(NonNullRef<ErasedTy>, C<repr_c::Vec<u8>>, u8) -> C<repr_c::Vec<u8>>,
    host: unsafe extern "C" fn(NonNullRef<ErasedTy>, u64, C<VirtualPtr<dyn 'static + Visitor>>) -> u64,
    defaulted: unsafe extern "C" fn(NonNullRef<ErasedTy>, u64) -> u64,
}
/// A handle in the hands of a C program.
#[repr(C)]
#[derive(Clone, Copy)]
struct CShared {
    ptr: *mut ErasedTy,
    vtable: CVTable,
}
/// Calls the object as a C program does. None: it cannot, the structures differ.
fn c_shared(p: &DynShared) -> Option<CShared> {
    check!(std::mem::size_of::<DynShared>() == std::mem::size_of::<CShared>(), "vtable", "a virtual pointer has {} bytes", std::mem::size_of::<DynShared>())
        .then(|| unsafe { std::mem::transmute_copy(p) })
}
impl CShared {
    fn this(&self) -> NonNullRef<ErasedTy> {
        std::ptr::NonNull::new(self.ptr).unwrap().into()
    }
    fn retain(&self) -> CShared {
        CShared { ptr: unsafe { (self.vtable.retain)(self.this()).as_ptr() as *mut _ }, vtable: self.vtable }
    }
    fn release(self) {
        unsafe { (self.vtable.release)(std::ptr::NonNull::new(self.ptr).unwrap().into()) }
    }
}
impl Shared for CShared {
    fn ident(&self) -> u64 {
        unsafe { (self.vtable.ident)(self.this()) }
    }
    fn origin(&self) -> u64 {
        unsafe { (self.vtable.origin)(self.this()) }
    }
    fn mix4(&self, a: u8, b: u64, c: i16, d: f64) -> u64 {
        unsafe { (self.vtable.mix4)(self.this(), a, b, c, d) }
    }
    fn same_signature_1(&self, a: u64, b: u64) -> u64 {
        unsafe { (self.vtable.same1)(self.this(), a, b) }
    }
    fn same_signature_2(&self, a: u64, b: u64) -> u64 {
        unsafe { (self.vtable.same2)(self.this(), a, b) }
    }
    fn echo(&self, v: repr_c::Vec<u8>, n: u8) -> repr_c::Vec<u8> {
        unsafe { layout::from_raw_unchecked((self.vtable.echo)(self.this(), layout::into_raw(v), n)) }
    }
    fn host(&self, n: u64, v: VirtualPtr<dyn '_ + Visitor>) -> u64 {
        unsafe { (self.vtable.host)(self.this(), n, layout::into_raw(std::mem::transmute::<_, VirtualPtr<dyn 'static + Visitor>>(v))) }
    }
    fn defaulted(&self, n: u64) -> u64 {
        unsafe { (self.vtable.defaulted)(self.this(), n) }
    }
}
fn foreign() -> (DynShared, usize) {
    let object = peers(|p| {
        p.objects += 1;
        p.objects - 1
    });
    let c = CVTable {
        release: f_release,
        retain: f_retain,
        ident: f_ident,
        origin: f_origin,
        mix4: f_mix4,
        same1: f_same1,
        same2: f_same2,
        echo: f_echo,
        host: f_host,
        defaulted: f_defaulted,
    };
    type VTable = <dyn 'static + Send + Sync + Shared as ReprCTrait>::VTable;
    if !check!(
        std::mem::size_of::<VTable>() == std::mem::size_of::<CVTable>(),
        "vtable",
        "the table of a trait's functions has {} bytes: its eight methods, retain and release make {}",
        std::mem::size_of::<VTable>(),
        std::mem::size_of::<CVTable>()
    ) {
        return (Box::new(Obj::make().0).into(), object);
    }
    let vtable: VTable = unsafe { std::mem::transmute_copy(&c) };
    (unsafe { VirtualPtr::from_raw_parts(handle_new(object), vtable) }, object)
}
/// Handles of foreign object `o` that were not released.
fn foreign_live(o: usize) -> usize {
    peers(|p| p.handles.iter().filter(|h| h.object == o && h.released.load(SeqCst) == 0).count())
}

// --- shared objects: the pool ------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Debug)]
enum Src {
    Boxed,
    Counted,
    Foreign,
    PlainBoxed,
    PlainCounted,
}
/// The count of a shared object's owners, where something holds a weak handle to it.
type Count = Option<Arc<dyn Fn() -> usize + Send + Sync>>;
struct Slot {
    count: Count,
    p: DynShared,
    src: Src,
    /// Token, or foreign object.
    id: usize,
    origin: u64,
    owners: &'static AtomicI64,
}
static POOL: Pool<Slot> = Pool::new();
static OWNERS: Mutex<(Vec<&'static AtomicI64>, usize)> = Mutex::new((Vec::new(), 0));
fn owners_new() -> &'static AtomicI64 {
    untracked(|| {
        let mut g = OWNERS.lock().unwrap_or_else(|p| p.into_inner());
        let i = g.1;
        g.1 += 1;
        if i == g.0.len() {
            g.0.push(Box::leak(Box::new(AtomicI64::new(0))));
        }
        g.0[i].store(1, SeqCst);
        g.0[i]
    })
}
impl Slot {
    fn ident(&self) -> u64 {
        match self.src {
            Src::Foreign => FOREIGN + self.id as u64,
            Src::PlainBoxed | Src::PlainCounted => self.origin,
            _ => self.id as u64,
        }
    }
    fn live(&self, when: &str) {
        match self.src {
            Src::Foreign => {
                check!(foreign_live(self.id) > 0, "early-drop", "{when}: foreign object {} was released", self.id);
            }
            Src::PlainBoxed => {}
            Src::PlainCounted => {
                let n = self.count.as_ref().map_or(1, |c| c());
                check!(n > 0 && n < 1 << 20, "early-drop", "{when}: a plain object has {n} owners although it has handles");
            }
            _ => obj::expect_live(self.id, when),
        }
    }
}
fn counted<T: Shared + Clone + Send + Sync + 'static>(t: T) -> (DynShared, Count) {
    let a = Arc::new(t);
    let count: Count = if choose(2) == 0 {
        let w = Arc::downgrade(&a);
        Some(untracked(|| Arc::new(move || w.strong_count()) as Arc<dyn Fn() -> usize + Send + Sync>))
    } else {
        None
    };
    (a.into(), count)
}

fn create_shared() -> Slot {
    let mut count = None;
    let mut ident = None;
    let (p, src, id): (DynShared, _, _) = match choose(8) {
        5 => {
            let o = PlainObj::make();
            ident = Some(o.id);
            if choose(2) == 0 {
                (Box::new(o).into(), Src::PlainBoxed, 0)
            } else {
                let (p, c) = counted(o);
                count = c;
                (p, Src::PlainCounted, 0)
            }
        }
        6 => {
            ident = Some(EMPTY);
            match choose(2) {
                0 => (Box::new(EmptyObj).into(), Src::PlainBoxed, 0),
                _ => (Box::new(EmptyGuard(Zero::new())).into(), Src::PlainBoxed, 0),
            }
        }
        7 => {
            ident = Some(EMPTY);
            let (p, c) = if choose(2) == 0 { counted(EmptyObj) } else { counted(EmptyGuard(Zero::new())) };
            count = c;
            (p, Src::PlainCounted, 0)
        }
        0 => {
            let (o, id) = Obj::make();
            (Box::new(o).into(), Src::Boxed, id)
        }
        1 => {
            let (o, id) = WideObj::make();
            (Box::new(o).into(), Src::Boxed, id)
        }
        2 => {
            let (o, id) = Obj::make();
            (Arc::new(o).into(), Src::Counted, id)
        }
        3 => {
            let (o, id) = WideObj::make();
            (Arc::new(o).into(), Src::Counted, id)
        }
        _ => {
            let (p, o) = foreign();
            (p, Src::Foreign, o)
        }
    };
    let origin = ident.unwrap_or(if src == Src::Foreign { FOREIGN + id as u64 } else { id as u64 });
    ev!("create {src:?} {id}");
    Slot { count, p, src, id, origin, owners: owners_new() }
}

fn call_shared<P: Shared>(p: &P, id: u64, origin: u64) {
    match choose(8) {
        0 => {
            let r = p.ident();
            check!(r == id, "wrong-object", "a method of object {id} ran on object {r}");
        }
        1 => {
            let r = p.origin();
            check!(r == origin, "wrong-object", "object {id}: origin {r} instead of {origin}");
        }
        2 => {
            let (a, b, c, d) = (choose(256) as u8, choose(u64::MAX), choose(1 << 16) as i16, choose(1000) as f64 / 7.0);
            let r = p.mix4(a, b, c, d);
            check!(r == fold(id, 4, &[a as u64, b, c as u64, d.to_bits()]), "wrong-call", "object {id}: mix4 returned something else");
        }
        3 => {
            let (a, b) = (choose(100), choose(100));
            check!(p.same_signature_1(a, b) == fold(id, 1, &[a, b]), "wrong-call", "object {id}: same_signature_1 returned something else");
        }
        4 => {
            let (a, b) = (choose(100), choose(100));
            check!(p.same_signature_2(a, b) == fold(id, 2, &[a, b]), "wrong-call", "object {id}: same_signature_2 returned something else");
        }
        5 => {
            let v: Vec<u8> = (0..pick(40)).map(|i| i as u8).collect();
            let n = choose(256) as u8;
            let mut want = v.clone();
            want.push(n);
            want.push(id as u8);
            let got: Vec<u8> = p.echo(v.into(), n).into();
            check!(got == want, "wrong-call", "object {id}: echo returned something else");
        }
        6 => {
            let tok = Token::new("visitor");
            let vid = tok.id;
            let n = choose(4);
            let want: u64 = (0..n).map(|i| id + i).sum();
            let mut ears = Ears { tok, heard: 0, calls: 0 };
            if choose(2) == 0 {
                let r = p.host(n, (&mut ears).into());
                check!(r == want && ears.heard == want && ears.calls == n, "lost-effect", "object {id}: the visitor heard {} in {} calls, not {want} in {n}", ears.heard, ears.calls);
                obj::expect_live(vid, "after the loan");
                drop(ears);
            } else {
                let r = p.host(n, Box::new(ears).into());
                check!(r == want, "wrong-call", "object {id}: host returned {r}, not {want}");
            }
            obj::expect_dead(vid, "after the call it was given to");
        }
        _ => {
            let n = choose(100);
            let want = id + n + if overrides(id) { OVERRIDDEN } else { 0 };
            check!(p.defaulted(n) == want, "wrong-call", "object {id}: the method with a default returned something else");
        }
    }
}

fn shared_step(ops: &[usize]) {
    let op = if POOL.len() == 0 { 0 } else { ops[pick(ops.len())] };
    match op {
        0 => {
            let s = create_shared();
            s.live("created");
            POOL.put(s);
        }
        1 => {
            let Some(s) = POOL.take() else { return };
            if choose(3) == 0 {
                if let Some(c) = c_shared(&s.p) {
                    call_shared(&c, s.ident(), s.origin);
                }
            } else {
                call_shared(&s.p, s.ident(), s.origin);
            }
            s.live("after a call");
            POOL.put(s);
        }
        2 => {
            let Some(s) = POOL.take() else { return };
            let from_c = choose(4) == 0;
            let q = if from_c {
                let Some(c) = c_shared(&s.p) else { return POOL.put(s) };
                unsafe { std::mem::transmute_copy(&c.retain()) }
            } else {
                s.p.clone()
            };
            let got = q.ident();
            let t = match s.src {
                Src::Boxed => {
                    check!(got != s.id as u64, "clone", "the clone of boxed object {} is the object itself", s.id);
                    let o = q.origin();
                    check!(o == s.origin, "clone", "the clone of boxed object {} derives from {o}, not {}", s.id, s.origin);
                    obj::expect_live(got as usize, "cloned");
                    Slot { count: None, p: q, src: s.src, id: got as usize, origin: s.origin, owners: owners_new() }
                }
                Src::PlainBoxed => {
                    check!(got == s.origin, "clone", "the clone of plain object {} is object {got}", s.origin);
                    if s.origin != EMPTY {
                        check!(q.__ptr() != s.p.__ptr(), "clone", "the clone of a boxed plain object is the object itself");
                    }
                    Slot { count: None, p: q, src: s.src, id: s.id, origin: s.origin, owners: owners_new() }
                }
                _ => {
                    check!(got == s.ident(), "clone", "the clone of shared object {} is object {got}", s.ident());
                    s.owners.fetch_add(1, SeqCst);
                    Slot { count: s.count.clone(), p: q, src: s.src, id: s.id, origin: s.origin, owners: s.owners }
                }
            };
            ev!("clone {:?} {} -> {}", s.src, s.id, t.id);
            s.live("after being cloned");
            POOL.put(t);
            POOL.put(s);
        }
        3 => {
            let Some(s) = POOL.take() else { return };
            let Slot { count, p, src, id, origin, owners } = s;
            let raw = unsafe { layout::into_raw(p) };
            sched::yield_point();
            let p: DynShared = unsafe { layout::from_raw_unchecked(raw) };
            let s = Slot { count, p, src, id, origin, owners };
            s.live("after crossing the boundary");
            POOL.put(s);
        }
        4 => {
            let Some(s) = POOL.take() else { return };
            release(s);
        }
        5 => scoped(),
        6 => machines(),
        7 => glue(),
        _ => pinned(),
    }
}
fn release(s: Slot) {
    s.live("before its release");
    let Slot { count, p, src, id, owners, .. } = s;
    let before = if src == Src::Foreign { foreign_live(id) } else { 0 };
    match if choose(4) == 0 { c_shared(&p) } else { None } {
        Some(c) => {
            std::mem::forget(p);
            c.release();
        }
        None => drop(p),
    }
    let left = owners.fetch_sub(1, SeqCst) - 1;
    ev!("release {src:?} {id}, {left} left");
    if sched::tid() == 0 && src == Src::Foreign {
        check!(foreign_live(id) + 1 == before, "drop-count", "releasing a handle of foreign object {id} released {} handles", before - foreign_live(id));
    }
    if left == 0 {
        match src {
            Src::Foreign => {
                check!(foreign_live(id) == 0, "leak", "foreign object {id} keeps {} handles", foreign_live(id));
            }
            Src::PlainBoxed => {}
            Src::PlainCounted => {
                let n = count.as_ref().map_or(0, |c| c());
                check!(n == 0, "drop-count", "a plain object has {n} owners after the release of its last handle");
            }
            _ => obj::expect_dead(id, "after the release of its last handle"),
        }
    } else if sched::tid() == 0 {
        match src {
            Src::Boxed | Src::Counted => obj::expect_live(id, "while handles are left"),
            Src::PlainCounted => {
                if let Some(n) = count.as_ref().map(|c| c()) {
                    check!(n as i64 == left, "drop-count", "a plain object has {n} owners instead of {left}");
                }
            }
            _ => {}
        }
    }
    untracked(|| drop(count));
}

/// Pointers that do not own, or that do not leave their thread.
fn scoped() {
    match choose(4) {
        0 => {
            // a loan
            let (o, id) = Obj::make();
            {
                let a: VirtualPtr<dyn '_ + Shared> = (&o).into();
                let b = if choose(2) == 0 { Some(a.clone()) } else { None };
                for _ in 0..pick(3) {
                    call_shared(&a, id as u64, id as u64);
                }
                if choose(2) == 0 {
                    drop(a);
                    obj::expect_live(id, "after the release of a borrowing pointer");
                }
                if let Some(b) = b {
                    call_shared(&b, id as u64, id as u64);
                }
            }
            obj::expect_live(id, "after the loan");
            o.tok.touch("the lender");
            drop(o);
            obj::expect_dead(id, "after its owner's drop");
        }
        1 => {
            // Rc, with outside owners
            let (o, id) = WideObj::make();
            let rc = Rc::new(o);
            let outside = if choose(2) == 0 { Some(rc.clone()) } else { None };
            let weak = Rc::downgrade(&rc);
            let mut v: Vec<VirtualPtr<dyn 'static + Shared>> = vec![rc.into()];
            for _ in 0..pick(6) {
                match choose(3) {
                    0 if !v.is_empty() => {
                        let c = v[pick(v.len())].clone();
                        v.push(c);
                    }
                    1 if !v.is_empty() => drop(v.swap_remove(pick(v.len()))),
                    _ => {
                        if let Some(p) = v.first() {
                            call_shared(p, id as u64, id as u64);
                        }
                    }
                }
                let want = v.len() + outside.is_some() as usize;
                check!(weak.strong_count() == want, "drop-count", "object {id} has {} owners instead of {want}", weak.strong_count());
            }
            drop(v);
            check!(weak.strong_count() == outside.is_some() as usize, "drop-count", "object {id} has {} owners left", weak.strong_count());
            if outside.is_some() {
                obj::expect_live(id, "its Rc is held outside");
            }
            drop(outside);
            obj::expect_dead(id, "after the drop of all its owners");
        }
        2 => {
            // Arc, with outside owners
            let (o, id) = Obj::make();
            let arc = Arc::new(o);
            let p: DynShared = arc.clone().into();
            check!(Arc::strong_count(&arc) == 2, "drop-count", "object {id} has {} owners instead of 2", Arc::strong_count(&arc));
            let q = p.clone();
            check!(Arc::strong_count(&arc) == 3, "drop-count", "object {id} has {} owners instead of 3", Arc::strong_count(&arc));
            sched::yield_point();
            drop(p);
            check!(Arc::strong_count(&arc) == 2, "drop-count", "object {id} has {} owners instead of 2", Arc::strong_count(&arc));
            drop(arc);
            call_shared(&q, id as u64, id as u64);
            drop(q);
            obj::expect_dead(id, "after the drop of all its owners");
        }
        _ => {
            // Box, not thread-safe flavour; absent pointers
            let (o, id) = Obj::make();
            let p: VirtualPtr<dyn 'static + Shared> = Box::new(o).into();
            let some = Some(p);
            let raw = unsafe { layout::into_raw(some) };
            let back: Option<VirtualPtr<dyn 'static + Shared>> = unsafe { layout::from_raw_unchecked(raw) };
            check!(back.is_some(), "absent", "a pointer to object {id} crossed the boundary and became none");
            if let Some(p) = back {
                call_shared(&p, id as u64, id as u64);
            }
            obj::expect_dead(id, "after the drop of its box");
        }
    }
}

fn machine_ops<M: Machine>(m: &mut M, id: u64, total: &mut u64) {
    for _ in 0..pick(5) {
        let n = choose(1000);
        match choose(4) {
            0 => {
                *total += n;
                let r = m.step(n);
                check!(r == *total, "wrong-call", "machine {id}: step returned {r}, not {total}");
            }
            1 => {
                *total ^= n;
                let r = m.back(n);
                check!(r == *total, "wrong-call", "machine {id}: back returned {r}, not {total}");
            }
            2 => {
                let r = m.total();
                check!(r == *total, "lost-effect", "machine {id}: total is {r}, not {total}");
            }
            _ => {
                let r = m.object();
                check!(r == id, "wrong-object", "a method of machine {id} ran on object {r}");
            }
        }
        sched::yield_point();
    }
}
fn machines() {
    let mut total = 0;
    match choose(4) {
        0 => {
            let (c, id) = Counter::make();
            let mut p: DynMachine = Box::new(c).into();
            machine_ops(&mut p, id as u64, &mut total);
            let raw = unsafe { layout::into_raw(p) };
            let mut p: DynMachine = unsafe { layout::from_raw_unchecked(raw) };
            machine_ops(&mut p, id as u64, &mut total);
            obj::expect_live(id, "while its box is held");
            drop(p);
            obj::expect_dead(id, "after the drop of its box");
        }
        1 => {
            let (mut c, id) = Counter::make();
            for _ in 0..1 + pick(2) {
                let mut p: VirtualPtr<dyn '_ + Send + Sync + Machine> = (&mut c).into();
                machine_ops(&mut p, id as u64, &mut total);
                drop(p);
                obj::expect_live(id, "after the loan");
            }
            check!(c.total == total, "lost-effect", "machine {id}: its owner sees {} instead of {total}", c.total);
            drop(c);
            obj::expect_dead(id, "after its owner's drop");
        }
        2 => {
            // a virtual pointer behind a virtual pointer
            let (c, id) = Counter::make();
            let p: VirtualPtr<dyn 'static + Machine> = Box::new(c).into();
            let mut q: VirtualPtr<dyn 'static + Machine> = Box::new(p).into();
            machine_ops(&mut q, id as u64, &mut total);
            drop(q);
            obj::expect_dead(id, "after the drop of the outer pointer");
        }
        _ => {
            let before = obj::zero_live();
            let mut p: DynMachine = Box::new(Nothing(Zero::new())).into();
            let (a, b) = (choose(100), choose(100));
            let ok = p.step(a) == a + 1 && p.back(b) == b + 2 && p.total() == 3 && p.object() == 4;
            check!(ok, "wrong-call", "a method of a zero-sized object returned something else");
            drop(p);
            if sched::tid() == 0 {
                check!(obj::zero_live() == before, "drop-count", "a zero-sized object was not destroyed once");
            }
        }
    }
}
fn pinned() {
    let mut total = 0;
    let (mut c, id) = Counter::make();
    let mut go = |p: &mut VirtualPtr<dyn '_ + Send + Sync + Pinned>| {
        for _ in 0..1 + pick(3) {
            let n = choose(100);
            total += n;
            let r = Pin::new(&mut *p).step(n);
            check!(r == total, "wrong-call", "pinned machine {id}: step returned {r}, not {total}");
            let r = p.total();
            check!(r == total, "lost-effect", "pinned machine {id}: total is {r}, not {total}");
        }
    };
    if choose(2) == 0 {
        let mut p: VirtualPtr<dyn 'static + Send + Sync + Pinned> = Box::pin(c).into();
        go(&mut p);
        sched::yield_point();
        go(&mut p);
        drop(p);
    } else {
        {
            let mut p: VirtualPtr<dyn '_ + Send + Sync + Pinned> = unsafe { Pin::new_unchecked(&mut c) }.into();
            go(&mut p);
        }
        obj::expect_live(id, "after the loan");
        check!(c.total == total, "lost-effect", "pinned machine {id}: its owner sees {} instead of {total}", c.total);
        drop(c);
    }
    obj::expect_dead(id, "after the drop of its owner");
}
/// Opaque drop glue.
fn glue() {
    if choose(4) == 0 {
        // nothing to destroy, but memory to free
        let p: VirtualPtr<dyn 'static + DropGlue> = Box::new(ImplDropGlue([choose(9); 5])).into();
        let mut v = vec![DynDrop::new(choose(9)), DynDrop::new(())];
        v.push(v[choose(2) as usize].clone());
        sched::yield_point();
        drop((p, v));
        return;
    }
    let tok = Token::new("guarded value");
    let id = tok.id;
    match choose(3) {
        0 => {
            let mut v = vec![DynDrop::new(tok)];
            for _ in 0..pick(5) {
                sched::yield_point();
                if choose(2) == 0 {
                    let c = v[pick(v.len())].clone();
                    v.push(c);
                } else if v.len() > 1 {
                    drop(v.swap_remove(pick(v.len())));
                }
                obj::expect_live(id, "while drop guards are left");
            }
            drop(v);
        }
        1 => {
            let p: VirtualPtr<dyn 'static + DropGlue> = Box::new(ImplDropGlue(tok)).into();
            obj::expect_live(id, "while its guard is held");
            drop(p);
        }
        _ => {
            let c = Counter { tok, total: 0 };
            let p: VirtualPtr<dyn 'static + Send + Sync + Glue> = Arc::new(c).into();
            let r = p.object();
            check!(r == id as u64, "wrong-object", "a method of object {id} ran on object {r}");
            drop(p);
        }
    }
    obj::expect_dead(id, "after the drop of its last guard");
}

fn world(keep: &[usize], extra: &[usize]) {
    obj::reset();
    peers(|p| {
        p.handles.clear();
        p.objects = 0;
    });
    untracked(|| OWNERS.lock().unwrap_or_else(|p| p.into_inner()).1 = 0);
    MADE.store(0, SeqCst);
    let n = 1 + pick(3);
    let mut ops = obj::swarm(9, keep);
    ops.extend(extra);
    ev!("threads {n} ops {ops:?}");
    obj::threads_anywhere(n, 16, 9, || shared_step(&ops));
    if !failed() {
        POOL.drain(release);
    }
    if !failed() {
        obj::all_dead();
        let left = peers(|p| p.handles.iter().filter(|h| h.released.load(SeqCst) != 1).count());
        check!(left == 0, "leak", "{left} foreign handles were not released once");
    } else {
        POOL.drain(|s| std::mem::forget(s));
        leaks_ok();
    }
}
fn v01() {
    world(&[0, 2, 4, 5, 7], &[4, 5])
}
fn v02() {
    world(&[0, 1, 6, 8], &[1, 1, 6])
}
fn v03() {
    world(&[0, 2, 4], &[2, 2, 4, 5])
}

const REAL: &str = "safer_ffi::dyn_traits (virtual pointers, drop glue), the code that `derive_ReprC(dyn)` generates for seven traits, layout conversions, compiled with and without debug assertions";
const STUB: &str = "the objects, the foreign peer (its vtable, its objects), the thread scheduler, the allocator's bookkeeping";
const ASSUME: &[&str] = &[
    "threads switch between operations, at callbacks, at allocations and between any two instructions of the program's own text, outside of libc",
    "a non-atomic read-modify-write instruction may lose what others wrote meanwhile; atomic ones are indivisible",
    "no panic crosses a C function pointer: that is undefined behaviour by the language's rules",
];
const RULE: &str = "one run = one seed: 1-3 simulated threads over a pool of virtual pointers (from Box, Arc, Rc, &, &mut, Pin<Box>, Pin<&mut>, zero-sized and over-aligned values, and a foreign vtable whose retain returns a new handle), up to 50 operations, a scheduling decision before every operation and inside methods, destructors and foreign functions; distinct = different event log; runs without operations do not count";

pub const PROPS: &[Prop] = &[
    Prop { id: "V01", title: "A virtual pointer releases its object as the pointer it came from would", run: v01, quick_runs: 120_000, thorough_runs: 5_000_000, warm_up: 3, wall_cap: 300, rule: RULE, real: REAL, stub: STUB, assumptions: ASSUME },
    Prop { id: "V02", title: "A virtual call runs that object's method, with its arguments and effects", run: v02, quick_runs: 120_000, thorough_runs: 5_000_000, warm_up: 3, wall_cap: 300, rule: RULE, real: REAL, stub: STUB, assumptions: ASSUME },
    Prop { id: "V03", title: "Cloning a virtual pointer copies what is owned and shares what is shared", run: v03, quick_runs: 120_000, thorough_runs: 5_000_000, warm_up: 3, wall_cap: 300, rule: RULE, real: REAL, stub: STUB, assumptions: ASSUME },
];
