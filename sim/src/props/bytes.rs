//! Byte strings (`safer_ffi::bytes::Bytes`): B01..B05, B07.
//!
//! A pool of handles, each next to the plain byte vector it must equal. Simulated threads take
//! handles out of the pool, operate on them and put the results back. The storages behind the
//! handles are the simulator's: reference counts it implements itself (with a scheduling point
//! inside every retain and release), destructors it counts, borrowed buffers it takes back and
//! overwrites as soon as nothing may depend on them any more, heap blocks the allocator poisons.

use super::Prop;
use crate::ctx::*;
use crate::track::{self, untracked};
use crate::{attempt, check, ev, inject, sched, INJECTED};
use safer_ffi::bytes::{Bytes, BytesVt};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::io::Read;
use std::ops::Bound;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

type B = Bytes<'static>;
const MAX: usize = Bytes::<'static>::MAX_INLINE_SIZE;

// --- storages --------------------------------------------------------------------------------

/// What a custom retain/release pair is given as `owner`.
struct Custom {
    id: usize,
    data: Mutex<Vec<u8>>,
    ptr: usize,
    len: usize,
    capacity: usize,
    refs: AtomicI64,
    retains: AtomicU64,
    releases: AtomicU64,
    owns: bool,
    yields: bool,
}
fn custom(owner: *const (), capacity: usize, what: &str) -> Option<&'static Custom> {
    // Owners are kept until the end of the run, so that a call too many is seen and not suffered.
    let known = WORLD.with_owner(owner);
    if !check!(known.is_some(), "foreign-owner", "{what} called with an owner it was not given") {
        return None;
    }
    let c: &'static Custom = unsafe { &*(owner as *const Custom) };
    check!(
        capacity == c.capacity,
        "foreign-owner",
        "{what} of storage {} called with capacity {capacity}, not {}",
        c.id,
        c.capacity
    );
    Some(c)
}
unsafe extern "C" fn c_retain(owner: *const (), capacity: usize) {
    untracked(|| {
        if let Some(c) = custom(owner, capacity, "retain") {
            ev!("retain storage {}", c.id);
            if c.yields {
                sched::yield_point();
            }
            check!(c.refs.load(SeqCst) > 0 || !c.owns, "use-after-release", "retain of storage {} after its last release", c.id);
            c.retains.fetch_add(1, SeqCst);
            c.refs.fetch_add(1, SeqCst);
            if c.yields {
                sched::yield_point();
            }
        }
    })
}
unsafe extern "C" fn c_release(owner: *const (), capacity: usize) {
    untracked(|| {
        if let Some(c) = custom(owner, capacity, "release") {
            ev!("release storage {}", c.id);
            if c.yields {
                sched::yield_point();
            }
            c.releases.fetch_add(1, SeqCst);
            let left = c.refs.fetch_sub(1, SeqCst) - 1;
            check!(left >= 0, "over-release", "storage {} released more often than retained + 1", c.id);
            if left == 0 {
                probe("custom storage freed");
                ev!("storage {} freed", c.id);
                c.data.lock().unwrap().iter_mut().for_each(|b| *b = track::POISON);
            }
            if c.yields {
                sched::yield_point();
            }
        }
    })
}
static VT_BOTH: BytesVt = BytesVt { retain: Some(c_retain), release: Some(c_release) };
static VT_RELEASE: BytesVt = BytesVt { retain: None, release: Some(c_release) };
static VT_NONE: BytesVt = BytesVt { retain: None, release: None };
static VT_RETAIN: BytesVt = BytesVt { retain: Some(c_retain), release: None };

/// A user type behind an `Arc`, with its bytes inline or elsewhere, whose destructor is counted.
struct Counted {
    id: usize,
    data: Vec<u8>,
    drops: Arc<AtomicU64>,
    fail_as_ref: bool,
    /// Makes the start of the bytes differ from the start of the value.
    skip: usize,
}
impl AsRef<[u8]> for Counted {
    fn as_ref(&self) -> &[u8] {
        if self.fail_as_ref {
            inject("as_ref");
        }
        &self.data[self.skip..]
    }
}
impl Drop for Counted {
    fn drop(&mut self) {
        untracked(|| {
            ev!("drop storage {}", self.id);
            sched::yield_point();
            self.drops.fetch_add(1, SeqCst);
            self.data.iter_mut().for_each(|b| *b = track::POISON);
        })
    }
}
struct Inline {
    id: usize,
    pad: [u8; 3],
    data: [u8; 50],
    drops: Arc<AtomicU64>,
}
impl AsRef<[u8]> for Inline {
    fn as_ref(&self) -> &[u8] {
        &self.data
    }
}
impl Drop for Inline {
    fn drop(&mut self) {
        untracked(|| {
            ev!("drop storage {}", self.id);
            self.drops.fetch_add(1, SeqCst);
            self.data = [track::POISON; 50];
        })
    }
}

enum Witness {
    /// The simulator's own count of what must be one strong count per dependent handle.
    StdArc(Arc<[u8]>),
    StabbyArc(stabby::sync::ArcSlice<u8>),
    Drops(Arc<AtomicU64>),
    Custom(Box<Custom>),
    /// A borrowed buffer: taken back when no borrower is left.
    Lent(Option<Box<[u8]>>),
    None,
}
struct Storage {
    kind: &'static str,
    start: usize,
    len: usize,
    witness: Witness,
    reclaimed: bool,
}

/// A handle and what is known about it.
struct Slot {
    id: usize,
    b: B,
    model: Vec<u8>,
    /// The storage that its origin had (it may since have been copied out of it).
    origin: usize,
    /// It may depend on a borrowed storage.
    borrows: bool,
}

struct World {
    m: Mutex<Inner>,
}
#[derive(Default)]
struct Inner {
    storages: Vec<Storage>,
    pool: Vec<Arc<Slot>>,
    next_handle: usize,
    owners: Vec<usize>,
    /// (storage, borrows) of what threads hold at the moment, by handle id
    out: Vec<(usize, usize, bool)>,
    /// Operations that some thread is in the middle of.
    in_flight: usize,
}
static WORLD: World = World { m: Mutex::new(Inner { storages: vec![], pool: vec![], next_handle: 0, owners: vec![], out: vec![], in_flight: 0 }) };
impl World {
    fn with<R>(&self, f: impl FnOnce(&mut Inner) -> R) -> R {
        untracked(|| f(&mut self.m.lock().unwrap_or_else(|p| p.into_inner())))
    }
    fn with_owner(&self, o: *const ()) -> Option<()> {
        self.with(|w| w.owners.contains(&(o as usize)).then(|| ()))
    }
}

// A fixed pool of static data, with a recognisable pattern.
static STATIC: [u8; 160] = {
    let mut a = [0u8; 160];
    let mut i = 0;
    while i < 160 {
        a[i] = (i * 7 + 3) as u8;
        i += 1;
    }
    a
};
static STATIC_ARRAY: [u8; 45] = {
    let mut a = [0u8; 45];
    let mut i = 0;
    while i < 45 {
        a[i] = 200 - i as u8;
        i += 1;
    }
    a
};
static STATIC_STR: &str = "the quick brown fox jumps over the lazy dog, twice";

fn fresh_data(len: usize) -> Vec<u8> {
    let salt = choose(256) as u8;
    (0..len).map(|i| (i as u8).wrapping_mul(13).wrapping_add(salt) ^ 0x11).collect()
}

fn erase<'a>(b: Bytes<'a>) -> B {
    unsafe { std::mem::transmute(b) }
}

// --- the run's knobs -------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Focus {
    Content,
    Lifetime,
    Upgrade,
    Alloc,
    Read,
    Convert,
}

struct Knobs {
    focus: Focus,
    kinds: Vec<usize>,
    ops: Vec<usize>,
    yields: bool,
    faults: bool,
}

const KINDS: [&str; 19] = [
    "inline_slice", "static slice", "static array", "static str", "empty", "borrowed slice", "copied",
    "Arc<[u8]>", "Arc<T>", "Arc<inline T>", "Box<[u8]>", "Vec<u8>", "stabby ArcSlice", "stabby Arc<T>",
    "stabby BoxedSlice", "stabby Vec", "foreign retain+release", "foreign release only", "foreign borrowed",
];
const OPS: [&str; 17] = [
    "clone", "drop", "shrink_to", "subsliced", "split_at", "upgrade", "noalloc_upgrade", "noalloc_clone", "read",
    "into Arc<[u8]>", "into ArcSlice", "compare", "debug", "move", "roundtrip", "reclaim", "create",
];

fn swarm(n: usize, keep: &[usize]) -> Vec<usize> {
    // 0 = everything enabled
    let mut v: Vec<usize> = if choose(3) == 0 {
        (0..n).collect()
    } else {
        (0..n).filter(|i| keep.contains(i) || choose(2) == 0).collect()
    };
    if v.is_empty() {
        v = keep.to_vec();
    }
    v
}

// --- creation --------------------------------------------------------------------------------

fn create(k: &Knobs) {
    // a place of its own from the start, and lent already: other threads create and reclaim meanwhile
    let id = WORLD.with(|w| {
        w.storages.push(Storage { kind: "?", start: 0, len: 0, witness: Witness::None, reclaimed: false });
        let id = w.storages.len() - 1;
        w.out.push((usize::MAX - id, id, true));
        id
    });
    create_(k, id);
    done(usize::MAX - id);
}
fn create_(k: &Knobs, id: usize) {
    let kind = k.kinds[pick(k.kinds.len())];
    let name = KINDS[kind];
    let mut data = fresh_data(length(120));
    let mut borrows = false;
    let mut witness = Witness::None;
    let mut range = (0usize, 0usize);
    let (a0, _) = track::counts();
    let mut may_alloc = true;
    let b: B = match kind {
        0 => {
            may_alloc = false;
            let r = Bytes::inline_slice(&data);
            check!(r.is_some() == (data.len() <= MAX), "inline", "inline_slice of {} bytes: {}", data.len(), r.is_some());
            match r {
                Some(b) => b,
                None => return,
            }
        }
        1 => {
            may_alloc = false;
            let s = pick(60);
            let e = s + length(160 - s);
            data = STATIC[s..e].to_vec();
            let st: &'static [u8] = &STATIC[s..e];
            if choose(2) == 0 { Bytes::from_static(st) } else { st.into() }
        }
        2 => {
            may_alloc = false;
            data = STATIC_ARRAY.to_vec();
            (&STATIC_ARRAY).into()
        }
        3 => {
            may_alloc = false;
            data = STATIC_STR.as_bytes().to_vec();
            STATIC_STR.into()
        }
        4 => {
            may_alloc = false;
            data = vec![];
            if choose(2) == 0 { Bytes::empty() } else { Bytes::default() }
        }
        5 => {
            may_alloc = false;
            borrows = true;
            let l: Box<[u8]> = untracked(|| data.clone().into());
            range = (l.as_ptr() as usize, l.len());
            let b = erase(Bytes::from_slice(&l));
            witness = Witness::Lent(Some(l));
            if data.len() <= MAX {
                borrows = false; // inlined: free of the lender, as documented
            }
            b
        }
        6 => {
            may_alloc = data.len() > MAX;
            let mut tmp = untracked(|| data.clone());
            let b = Bytes::copied_from_slice(&tmp);
            tmp.iter_mut().for_each(|x| *x = track::POISON);
            untracked(|| drop(tmp));
            b
        }
        7 => {
            let a: Arc<[u8]> = data.clone().into();
            range = (a.as_ptr() as usize, a.len());
            witness = Witness::StdArc(a.clone());
            may_alloc = false;
            let c0 = track::counts().0;
            let b = a.into();
            check!(track::counts().0 == c0, "allocates", "Arc<[u8]> into Bytes allocates");
            b
        }
        8 | 13 => {
            let drops = Arc::new(AtomicU64::new(0));
            let skip = if data.is_empty() { 0 } else { pick(data.len().min(5)) };
            let mut fail = k.faults && choose(12) == 11;
            let owned = Counted { id, data: data.clone(), drops: drops.clone(), fail_as_ref: fail, skip };
            range = (owned.data.as_ptr() as usize, owned.data.len());
            data.drain(..skip);
            let r = if kind == 8 {
                let a = Arc::new(owned);
                attempt(|| a.into())
            } else {
                let a = stabby::sync::Arc::new(owned);
                attempt(|| a.into())
            };
            match r {
                Ok(b) => {
                    if fail {
                        // a build that asks for the bytes later only, or not at all
                        fail = false;
                    }
                    let _ = fail;
                    witness = Witness::Drops(drops);
                    b
                }
                Err(m) => {
                    fault("user callback panics (as_ref)");
                    check!(m.starts_with(INJECTED), "unexpected-panic", "conversion: {m}");
                    check!(drops.load(SeqCst) == 1, "drop-count", "storage {id} dropped {} times by a conversion that panics", drops.load(SeqCst));
                    ev!("create {name}: as_ref panics");
                    return;
                }
            }
        }
        9 => {
            let drops = Arc::new(AtomicU64::new(0));
            let mut d = [0u8; 50];
            data.resize(50, 7);
            d.copy_from_slice(&data);
            let a = Arc::new(Inline { id, pad: [1; 3], data: d, drops: drops.clone() });
            let _ = a.pad;
            range = (a.data.as_ptr() as usize, 50);
            witness = Witness::Drops(drops);
            a.into()
        }
        10 => {
            let b: Box<[u8]> = data.clone().into();
            b.into()
        }
        11 => {
            let mut v = Vec::with_capacity(data.len() + pick(40));
            v.extend_from_slice(&data);
            v.into()
        }
        12 => {
            let a: stabby::sync::ArcSlice<u8> = stabby::sync::ArcSlice::from(&data[..]);
            range = (a.as_slice().as_ptr() as usize, a.len());
            witness = Witness::StabbyArc(a.clone());
            a.into()
        }
        14 | 15 => {
            let mut v = stabby::vec::Vec::<u8>::new();
            for x in &data {
                v.push(*x);
            }
            if kind == 15 {
                v.into()
            } else {
                let b: stabby::boxed::BoxedSlice<u8> = v.into();
                b.into()
            }
        }
        _ => {
            may_alloc = false;
            let vt: &'static BytesVt = match kind {
                16 => &VT_BOTH,
                17 => &VT_RELEASE,
                _ => {
                    borrows = true;
                    if choose(2) == 0 { &VT_NONE } else { &VT_RETAIN }
                }
            };
            let capacity = choose(1 << 20) as usize;
            let c = untracked(|| {
                let buf = data.clone();
                Box::new(Custom {
                    id,
                    ptr: buf.as_ptr() as usize,
                    len: buf.len(),
                    data: Mutex::new(buf),
                    capacity,
                    refs: AtomicI64::new(1),
                    retains: AtomicU64::new(0),
                    releases: AtomicU64::new(0),
                    owns: !borrows,
                    yields: k.yields,
                })
            });
            let owner = &*c as *const Custom as *const ();
            WORLD.with(|w| w.owners.push(owner as usize));
            range = (c.ptr, c.len);
            let slice: &'static [u8] = unsafe { std::slice::from_raw_parts(c.ptr as *const u8, c.len) };
            let b = unsafe { Bytes::from_raw_parts(slice, owner, capacity, vt) };
            witness = Witness::Custom(c);
            b
        }
    };
    if !may_alloc && kind < 7 {
        check!(track::counts().0 - a0 <= harness_allocs(kind), "allocates", "creating from {name} allocates");
    }
    ev!("create {name} len {} as storage {id}", data.len());
    WORLD.with(|w| w.storages[id] = Storage { kind: name, start: range.0, len: range.1, witness, reclaimed: false });
    put(b, data, id, borrows);
}
/// What this file itself allocates (tracked) while it creates a handle of that kind: the data.
fn harness_allocs(kind: usize) -> u64 {
    match kind {
        1 | 2 | 3 => 1,
        _ => 0,
    }
}

fn put(b: B, model: Vec<u8>, origin: usize, borrows: bool) {
    let model = untracked(|| model.clone());
    let id = WORLD.with(|w| {
        w.next_handle += 1;
        w.next_handle
    });
    let s = untracked(|| Arc::new(Slot { id, b, model, origin, borrows }));
    verify(&s, "new");
    WORLD.with(|w| w.pool.push(s));
}

/// The central invariant: the handle reads as its model, and what it reads from is alive.
fn verify(s: &Slot, when: &str) {
    untracked(|| {
        let got = s.b.as_slice();
        check!(s.b.len() == s.model.len(), "length", "{when}: handle {} has length {}, not {}", s.id, s.b.len(), s.model.len());
        if got != &s.model[..] {
            violate(
                "content",
                format!("{when}: handle {} (from a {}) reads {:02x?}, must be {:02x?}", s.id,
                    WORLD.with(|w| w.storages.get(s.origin).map_or("?", |x| x.kind)), got, s.model),
            );
        }
        // Where does it point?
        let p = got.as_ptr() as usize;
        let inside_itself = p >= &s.b as *const B as usize && p < &s.b as *const B as usize + 40;
        WORLD.with(|w| {
            for (i, st) in w.storages.iter().enumerate() {
                if got.is_empty() || inside_itself || st.len == 0 || p < st.start || p >= st.start + st.len {
                    continue;
                }
                if i != s.origin && st.start != 0 {
                    // heap reuse is excluded by the quarantine; lent and foreign buffers live to the end
                    continue;
                }
                match &st.witness {
                    Witness::Custom(c) if c.owns => {
                        check!(c.refs.load(SeqCst) > 0, "use-after-release", "{when}: handle {} still reads storage {i}, released for good", s.id);
                    }
                    Witness::Drops(d) => {
                        check!(d.load(SeqCst) == 0, "use-after-release", "{when}: handle {} still reads storage {i}, dropped", s.id);
                    }
                    Witness::Lent(_) | Witness::Custom(_) => {
                        check!(s.borrows, "escape", "{when}: handle {} is free of its lender but reads the lender's buffer (storage {i})", s.id);
                    }
                    _ => {}
                }
            }
        });
    })
}

fn verify_all(when: &str) {
    let pool = WORLD.with(|w| w.pool.clone());
    untracked(|| {
        for s in &pool {
            verify(s, when);
        }
        drop(pool);
    });
    counts_in_bounds(when);
    if let Some(m) = track::memory_error() {
        violate("memory", m);
    }
}

/// One strong count per handle that reads the storage at least, per handle that came from it at most.
fn counts_in_bounds(when: &str) {
    WORLD.with(|w| {
        for (i, st) in w.storages.iter().enumerate() {
            let strong = match &st.witness {
                Witness::StdArc(a) => Arc::strong_count(a) as i64 - 1,
                Witness::StabbyArc(a) => stabby::sync::ArcSlice::strong_count(a) as i64 - 1,
                Witness::Custom(c) if c.owns => c.refs.load(SeqCst),
                _ => continue,
            };
            let inside = |b: &B| {
                let p = b.as_slice().as_ptr() as usize;
                !b.is_empty() && p >= st.start && p < st.start + st.len
            };
            let from_pool = |f: &dyn Fn(&Arc<Slot>) -> bool| w.pool.iter().filter(|s| f(s)).count() as i64;
            let least = from_pool(&|s| s.origin == i && inside(&s.b));
            let most = from_pool(&|s| s.origin == i);
            if strong < least || strong > most && w.in_flight == 0 {
                violate(
                    "reference-count",
                    format!("{when}: storage {i} ({}) has {strong} owners; handles reading it {least}, handles made from it {most}", st.kind),
                );
            }
        }
    })
}

// --- operations ------------------------------------------------------------------------------

fn take(exclusive: bool) -> Option<Arc<Slot>> {
    let n = WORLD.with(|w| w.pool.len());
    if n == 0 {
        return None;
    }
    let i = pick(n);
    WORLD.with(|w| {
        if i >= w.pool.len() {
            return None;
        }
        if exclusive {
            if Arc::strong_count(&w.pool[i]) != 1 {
                return None; // some thread is reading it
            }
            let s = w.pool.remove(i);
            w.out.push((s.id, s.origin, s.borrows));
            Some(s)
        } else {
            Some(w.pool[i].clone())
        }
    })
}
fn take_owned() -> Option<(usize, B, Vec<u8>, usize, bool)> {
    let s = take(true)?;
    untracked(|| match Arc::try_unwrap(s) {
        Ok(s) => Some((s.id, s.b, s.model, s.origin, s.borrows)),
        Err(_) => None,
    })
}
fn done(id: usize) {
    WORLD.with(|w| w.out.retain(|o| o.0 != id));
}
/// Gives a shared view back; whoever is last to let go drops the handle.
fn give_back(s: Arc<Slot>) {
    untracked(|| drop(s))
}

#[derive(Debug, Clone, Copy)]
enum R {
    Excl(usize, usize),
    Incl(usize, usize),
    From(usize),
    To(usize),
    ToIncl(usize),
    Full,
    After(usize, usize),
}
impl R {
    fn gen(len: usize) -> R {
        let hostile = choose(8) == 7;
        let (mut a, mut b) = (length(len), length(len));
        if choose(3) == 2 {
            b = len.saturating_sub(pick(4).min(len));
        }
        if !hostile && a > b {
            std::mem::swap(&mut a, &mut b);
        }
        if hostile {
            probe("hostile range");
            match pick(5) {
                0 => b = len + 1 + pick(3),
                1 => b = usize::MAX,
                2 => a = usize::MAX,
                3 => b = usize::MAX - 1,
                _ => {}
            }
        }
        match pick(7) {
            0 => R::Excl(a, b),
            1 => R::Incl(a, b),
            2 => R::From(a),
            3 => R::To(b),
            4 => R::ToIncl(b),
            5 => R::Full,
            _ => R::After(a, b),
        }
    }
    fn bounds(self) -> (Bound<usize>, Bound<usize>) {
        match self {
            R::Excl(a, b) => (Bound::Included(a), Bound::Excluded(b)),
            R::Incl(a, b) => (Bound::Included(a), Bound::Included(b)),
            R::From(a) => (Bound::Included(a), Bound::Unbounded),
            R::To(b) => (Bound::Unbounded, Bound::Excluded(b)),
            R::ToIncl(b) => (Bound::Unbounded, Bound::Included(b)),
            R::Full => (Bound::Unbounded, Bound::Unbounded),
            R::After(a, b) => (Bound::Excluded(a), Bound::Excluded(b)),
        }
    }
    /// Start and end in plain integers, if the range lies in 0..len.
    fn resolve(self, len: usize) -> Option<(usize, usize)> {
        let (a, b) = self.bounds();
        let a = match a {
            Bound::Included(i) => i as u128,
            Bound::Excluded(i) => i as u128 + 1,
            Bound::Unbounded => 0,
        };
        let b = match b {
            Bound::Included(i) => i as u128 + 1,
            Bound::Excluded(i) => i as u128,
            Bound::Unbounded => len as u128,
        };
        (a <= b && b <= len as u128).then(|| (a as usize, b as usize))
    }
}

fn op(k: &Knobs) {
    WORLD.with(|w| w.in_flight += 1);
    op_(k);
    WORLD.with(|w| w.in_flight -= 1);
}
fn op_(k: &Knobs) {
    let which = k.ops[pick(k.ops.len())];
    match OPS[which] {
        "create" => create(k),
        "clone" => {
            let Some(s) = take(false) else { return };
            let predicted = s.b.clone_will_allocate();
            let (a0, f0) = track::counts();
            let c = s.b.clone();
            let (a1, f1) = track::counts();
            ev!("clone {} (allocations {})", s.id, a1 - a0);
            check!(predicted == (a1 > a0), "allocation-promise", "clone of handle {} (len {}): clone_will_allocate is {predicted}, allocations made: {}", s.id, s.model.len(), a1 - a0);
            check!(f1 == f0, "allocation-promise", "clone frees memory");
            if predicted {
                probe("clone copies");
            }
            put(c, s.model.clone(), s.origin, s.borrows);
            give_back(s);
        }
        "noalloc_clone" => {
            let Some(s) = take(false) else { return };
            let would = s.b.clone_will_allocate();
            let (a0, _) = track::counts();
            let c = s.b.noalloc_clone();
            let (a1, _) = track::counts();
            ev!("noalloc_clone {}: {}", s.id, c.is_some());
            check!(a1 == a0, "allocation-promise", "noalloc_clone of handle {} allocates", s.id);
            check!(c.is_some() == !would, "allocation-promise", "noalloc_clone of handle {} (len {}) gives {}, clone_will_allocate is {would}", s.id, s.model.len(), c.is_some());
            if c.is_none() {
                probe("noalloc_clone refuses");
            }
            if let Some(c) = c {
                put(c, s.model.clone(), s.origin, s.borrows);
            }
            give_back(s);
        }
        "drop" => {
            let Some((id, b, m, ..)) = take_owned() else { return };
            ev!("drop {id}");
            drop(b);
            untracked(|| drop(m));
            done(id);
        }
        w @ ("shrink_to" | "subsliced") => {
            let Some((id, mut b, m, origin, borrows)) = take_owned() else { return };
            let r = R::gen(m.len());
            let want = r.resolve(m.len());
            ev!("{w} {id} (len {}) {r:?}", m.len());
            let (a0, _) = track::counts();
            let mut kept = None;
            let res = if w == "shrink_to" {
                let res = attempt(|| match r {
                    R::Excl(a, e) => b.shrink_to(a..e),
                    R::Incl(a, e) => b.shrink_to(a..=e),
                    R::From(a) => b.shrink_to(a..),
                    R::To(e) => b.shrink_to(..e),
                    R::ToIncl(e) => b.shrink_to(..=e),
                    R::Full => b.shrink_to(..),
                    R::After(..) => b.shrink_to(r.bounds()),
                });
                match res {
                    Ok(()) => Ok(b),
                    Err(msg) => {
                        kept = Some(b);
                        Err(msg)
                    }
                }
            } else {
                attempt(|| b.subsliced(r.bounds()))
            };
            let (a1, _) = track::counts();
            match (want, res) {
                (Some((s, e)), Ok(b)) => {
                    check!(a1 == a0, "allocation-promise", "{w} allocates");
                    let m2 = m[s..e].to_vec();
                    if m2.len() <= MAX && m.len() > MAX {
                        probe("shrunk into inline size");
                    }
                    put(b, m2, origin, borrows);
                }
                (Some(_), Err(msg)) => violate("refused", format!("{w} of handle {id} (len {}) to {r:?} panics: {msg}", m.len())),
                (None, Ok(_)) => violate("accepted", format!("{w} of handle {id} (len {}) to {r:?} does not panic", m.len())),
                (None, Err(_)) => {
                    probe("out of range refused");
                    // refused: the handle is as before
                    if let Some(b) = kept {
                        put(b, m.clone(), origin, borrows);
                    }
                }
            }
            untracked(|| drop(m));
            done(id);
        }
        "split_at" => {
            let Some((id, b, m, origin, borrows)) = take_owned() else { return };
            let i = if choose(8) == 7 { m.len() + 1 + pick(3) } else { length(m.len()) };
            let i = if choose(10) == 9 { m.len().saturating_sub(pick(MAX + 3)) } else { i };
            ev!("split_at {id} (len {}) {i}", m.len());
            match attempt(|| b.split_at(i)) {
                Err(msg) => violate("refused", format!("split_at({i}) of handle {id} (len {}) panics: {msg}", m.len())),
                Ok(Ok((l, r))) => {
                    if check!(i <= m.len(), "accepted", "split_at({i}) of handle {id} (len {}) succeeds", m.len()) {
                        put(l, m[..i].to_vec(), origin, borrows);
                        put(r, m[i..].to_vec(), origin, borrows);
                    }
                }
                Ok(Err(b)) => {
                    check!(i > m.len(), "refused", "split_at({i}) of handle {id} (len {}) is refused", m.len());
                    probe("split refused");
                    put(b, m.clone(), origin, borrows);
                }
            }
            untracked(|| drop(m));
            done(id);
        }
        "upgrade" => {
            let Some((id, b, m, origin, borrows)) = take_owned() else { return };
            let predicted = b.upgrade_will_allocate();
            let (a0, _) = track::counts();
            let u = b.upgrade();
            let (a1, _) = track::counts();
            ev!("upgrade {id} (allocations {})", a1 - a0);
            check!(predicted == (a1 > a0), "allocation-promise", "upgrade of handle {id} (len {}): upgrade_will_allocate is {predicted}, allocations made: {}", m.len(), a1 - a0);
            check!(!u.upgrade_will_allocate(), "allocation-promise", "an upgraded handle says that upgrading allocates");
            if borrows {
                probe("borrowed upgraded");
            }
            put(u, m.clone(), origin, false);
            untracked(|| drop(m));
            done(id);
        }
        "noalloc_upgrade" => {
            let Some((id, b, m, origin, borrows)) = take_owned() else { return };
            let would = b.upgrade_will_allocate();
            let (a0, _) = track::counts();
            let u = b.noalloc_upgrade();
            let (a1, _) = track::counts();
            ev!("noalloc_upgrade {id}: {}", u.is_ok());
            check!(a1 == a0, "allocation-promise", "noalloc_upgrade of handle {id} allocates");
            check!(u.is_ok() == !would, "allocation-promise", "noalloc_upgrade of handle {id} (len {}) gives {}, upgrade_will_allocate is {would}", m.len(), if u.is_ok() { "Ok" } else { "Err" });
            match u {
                Ok(u) => put(u, m.clone(), origin, false),
                Err(b) => {
                    probe("noalloc_upgrade refuses");
                    put(b, m.clone(), origin, borrows)
                }
            }
            untracked(|| drop(m));
            done(id);
        }
        "read" => {
            let Some((id, mut b, mut m, origin, borrows)) = take_owned() else { return };
            let mut buf = [0xEEu8; 140];
            let n = length(130);
            ev!("read {id} (len {}) into {n}", m.len());
            match attempt(|| b.read(&mut buf[..n])) {
                Ok(Ok(got)) => {
                    let want = n.min(m.len());
                    check!(got == want, "read", "read of handle {id} (len {}) into {n} gives {got}", m.len());
                    check!(buf[..want] == m[..want], "read", "read of handle {id} gives other bytes");
                    check!(buf[want..].iter().all(|x| *x == 0xEE), "read", "read of handle {id} writes past what it reports");
                    m.drain(..want);
                    put(b, m.clone(), origin, borrows);
                }
                Ok(Err(e)) => violate("read", format!("read of handle {id} fails: {e}")),
                Err(msg) => violate("refused", format!("read of handle {id} (len {}) into {n} panics: {msg}", m.len())),
            }
            untracked(|| drop(m));
            done(id);
        }
        w @ ("into Arc<[u8]>" | "into ArcSlice") => {
            let Some((id, b, m, origin, borrows)) = take_owned() else { return };
            let whole = WORLD.with(|w| {
                let st = &w.storages[origin];
                st.len == m.len() && st.start == b.as_slice().as_ptr() as usize
            });
            let (a0, _) = track::counts();
            if w == "into Arc<[u8]>" {
                let r: Result<Arc<[u8]>, B> = b.try_into();
                ev!("{w} {id}: {}", r.is_ok());
                match r {
                    Ok(a) => {
                        check!(a[..] == m[..], "content", "handle {id} converted into {w} reads otherwise");
                        check!(track::counts().0 == a0, "allocation-promise", "{w} allocates");
                        probe("converted into Arc<[u8]>");
                        WORLD.with(|w| {
                            if let Witness::StdArc(o) = &w.storages[origin].witness {
                                check!(!whole || Arc::ptr_eq(o, &a), "content", "handle {id} converts into another Arc");
                            }
                        });
                        if choose(2) == 0 {
                            put(a.into(), m.clone(), origin, false);
                        }
                    }
                    Err(b) => {
                        let kind = WORLD.with(|w| w.storages[origin].kind);
                        check!(!(whole && kind == "Arc<[u8]>"), "refused", "handle {id}, the whole of an Arc<[u8]>, does not convert back");
                        put(b, m.clone(), origin, borrows)
                    }
                }
            } else {
                let r: Result<stabby::sync::ArcSlice<u8>, B> = b.try_into();
                ev!("{w} {id}: {}", r.is_ok());
                match r {
                    Ok(a) => {
                        check!(a.as_slice() == &m[..], "content", "handle {id} converted into {w} reads otherwise");
                        check!(track::counts().0 == a0, "allocation-promise", "{w} allocates");
                        probe("converted into ArcSlice");
                        if choose(2) == 0 {
                            put(a.into(), m.clone(), origin, false);
                        }
                    }
                    Err(b) => {
                        let kind = WORLD.with(|w| w.storages[origin].kind);
                        check!(!(whole && kind == "stabby ArcSlice"), "refused", "handle {id}, the whole of an ArcSlice, does not convert back");
                        put(b, m.clone(), origin, borrows)
                    }
                }
            }
            untracked(|| drop(m));
            done(id);
        }
        "compare" => {
            let (Some(x), Some(y)) = (take(false), take(false)) else { return };
            ev!("compare {} {}", x.id, y.id);
            check!((x.b == y.b) == (x.model == y.model), "compare", "== of handles {} and {}", x.id, y.id);
            check!(x.b.cmp(&y.b) == x.model.cmp(&y.model), "compare", "cmp of handles {} and {}", x.id, y.id);
            check!(x.b.partial_cmp(&y.b) == x.model.partial_cmp(&y.model), "compare", "partial_cmp of handles {} and {}", x.id, y.id);
            check!(x.b == x.model && x.b == x.model.as_slice(), "compare", "handle {} is not equal to its bytes", x.id);
            let h = |b: &dyn Fn(&mut DefaultHasher)| {
                let mut s = DefaultHasher::new();
                b(&mut s);
                s.finish()
            };
            check!(h(&|s| x.b.hash(s)) == h(&|s| x.model[..].hash(s)), "compare", "hash of handle {} differs from its bytes'", x.id);
            let br: &[u8] = std::borrow::Borrow::borrow(&x.b);
            check!(br == &x.model[..] && x.b.as_ref() as &[u8] == &x.model[..] && &x.b[..] == &x.model[..] && x.b.is_empty() == x.model.is_empty(),
                "compare", "views of handle {} differ", x.id);
            give_back(x);
            give_back(y);
        }
        "debug" => {
            let Some(s) = take(false) else { return };
            let d = untracked(|| (format!("{:?}", s.b), format!("{:?}", s.model), format!("{:#?}", s.b)));
            ev!("debug {}", s.id);
            check!(d.0 == d.1, "debug", "handle {} prints as {}", s.id, d.0);
            let flags = (d.2.contains("owned: true"), d.2.contains("shared: true"));
            check!(flags == (!s.b.upgrade_will_allocate(), !s.b.clone_will_allocate()), "debug", "handle {} prints {flags:?}", s.id);
            untracked(|| drop(d));
            give_back(s);
        }
        "move" => {
            // through the heap and back, next to other values
            let Some((id, b, m, origin, borrows)) = take_owned() else { return };
            ev!("move {id}");
            let mut pair = Box::new((1u8, b, [2u8; 24]));
            let b = std::mem::take(&mut pair.1);
            drop(pair);
            put(b, m.clone(), origin, borrows);
            untracked(|| drop(m));
            done(id);
        }
        "roundtrip" => {
            // over the C layout and back, as through a foreign caller
            let Some((id, b, m, origin, borrows)) = take_owned() else { return };
            let raw = unsafe { safer_ffi::layout::into_raw(b) };
            let moved = raw;
            let back: Option<B> = unsafe { safer_ffi::layout::from_raw(moved) };
            ev!("roundtrip {id}");
            match back {
                Some(b) => put(b, m.clone(), origin, borrows),
                None => violate("refused", format!("handle {id} does not survive the C layout")),
            }
            untracked(|| drop(m));
            done(id);
        }
        "reclaim" => reclaim(),
        _ => unreachable!(),
    }
}

/// Lenders take back every buffer that no handle borrows any more, and overwrite it.
fn reclaim() {
    let freed = WORLD.with(|w| {
        let mut freed = vec![];
        for i in 0..w.storages.len() {
            let busy = w.pool.iter().any(|s| s.origin == i && s.borrows) || w.out.iter().any(|o| o.1 == i && o.2);
            let st = &mut w.storages[i];
            if busy || st.reclaimed {
                continue;
            }
            match &mut st.witness {
                Witness::Lent(l) => {
                    if let Some(l) = l {
                        l.iter_mut().for_each(|b| *b = track::POISON);
                    }
                }
                Witness::Custom(c) if !c.owns => {
                    c.data.lock().unwrap().iter_mut().for_each(|b| *b = track::POISON);
                }
                _ => continue,
            }
            st.reclaimed = true;
            freed.push(i);
        }
        freed
    });
    for i in &freed {
        fault("lender reclaims its buffer");
        ev!("reclaim storage {i}");
    }
    untracked(|| drop(freed));
    verify_all("after reclaim");
}

fn finale() {
    // The rest goes in an order of its own.
    loop {
        let n = WORLD.with(|w| w.pool.len());
        if n == 0 || failed() {
            break;
        }
        let s = take(true);
        if let Some(s) = s {
            let id = s.id;
            ev!("final drop {id}");
            match untracked(|| Arc::try_unwrap(s)) {
                Ok(Slot { b, model, .. }) => {
                    drop(b);
                    untracked(|| drop(model));
                }
                Err(_) => {}
            }
            done(id);
            verify_all("final");
        } else {
            break;
        }
    }
    if failed() {
        return;
    }
    WORLD.with(|w| {
        for (i, st) in w.storages.iter().enumerate() {
            match &st.witness {
                Witness::StdArc(a) => {
                    check!(Arc::strong_count(a) == 1 && Arc::weak_count(a) == 0, "leak", "storage {i} ({}) keeps {} owners at the end", st.kind, Arc::strong_count(a) - 1);
                }
                Witness::StabbyArc(a) => {
                    check!(stabby::sync::ArcSlice::is_unique(a), "leak", "storage {i} ({}) keeps owners at the end", st.kind);
                }
                Witness::Drops(d) => {
                    check!(d.load(SeqCst) == 1, "drop-count", "storage {i} ({}) dropped {} times", st.kind, d.load(SeqCst));
                }
                Witness::Custom(c) if c.owns => {
                    let (r, l) = (c.retains.load(SeqCst), c.releases.load(SeqCst));
                    check!(l == r + 1, "drop-count", "storage {i} ({}) retained {r} times, released {l} times", st.kind);
                }
                _ => {}
            }
        }
    });
}

fn clear() {
    let w = WORLD.with(std::mem::take);
    // Slots hold handles of the code under test: dropped in the books if the run was clean.
    let Inner { storages, pool, .. } = w;
    if failed() {
        std::mem::forget((storages, pool));
        leaks_ok();
    } else {
        for s in storages {
            match s.witness {
                Witness::Custom(c) => untracked(|| drop(c)),
                w => drop(w),
            }
        }
        untracked(|| drop(pool));
    }
}

fn world(focus: Focus) {
    WORLD.with(|w| *w = Inner::default());
    let (keep_kinds, keep_ops): (&[usize], &[usize]) = match focus {
        Focus::Content => (&[1, 7], &[2, 3, 4, 16]),
        Focus::Lifetime => (&[7, 8, 10, 12, 16], &[0, 1, 4, 16]),
        Focus::Upgrade => (&[5, 18, 10, 16], &[5, 6, 15, 16]),
        Focus::Alloc => (&[5, 10, 11, 18, 17, 0], &[0, 5, 6, 7, 16]),
        Focus::Read => (&[0, 1, 7], &[8, 16]),
        Focus::Convert => (&[7, 12, 6], &[9, 10, 0, 2, 16]),
    };
    let threads = if focus == Focus::Read { 1 } else { 1 + pick(3) };
    let k = Knobs {
        focus,
        kinds: swarm(KINDS.len(), keep_kinds),
        ops: swarm(OPS.len(), keep_ops),
        yields: choose(3) != 0,
        faults: choose(2) == 1,
    };
    let _ = k.focus;
    ev!("threads {threads} kinds {:?} ops {:?} yields {} faults {}", k.kinds, k.ops, k.yields, k.faults);
    for _ in 0..1 + pick(4) {
        span(|| create(&k));
    }
    if threads == 1 {
        steps(60, 24, || {
            op(&k);
            verify_all("after op");
        });
    } else {
        let bodies: Vec<Box<dyn FnOnce() + Send>> = (0..threads)
            .map(|_| {
                let k = &k;
                Box::new(move || {
                    steps(30, 12, || {
                        sched::yield_point();
                        crate::step::op(|| op(k));
                        verify_all("after op");
                    });
                }) as Box<dyn FnOnce() + Send + '_>
            })
            .collect();
        sched::run_threads(bodies, 20_000, true);
    }
    if !failed() {
        reclaim();
        finale();
    }
    clear();
}

fn b01() {
    world(Focus::Content)
}
fn b02() {
    world(Focus::Lifetime)
}
fn b03() {
    world(Focus::Upgrade)
}
fn b04() {
    world(Focus::Alloc)
}
fn b07() {
    world(Focus::Convert)
}

const RULE: &str = "one run = one seed: 1-3 simulated threads, random subset of 19 storage kinds and 17 operations, up to 90 operations, a scheduling decision before every operation and inside every foreign retain/release and user destructor; distinct = different event log (operations, outcomes, callbacks, order); runs without operations do not count";
const REAL: &str = "safer_ffi::bytes (all of it), std Arc/Box/Vec and stabby ArcSlice/Arc/Vec below it, compiled with and without debug assertions";
const STUB: &str = "foreign owners (retain/release functions), lenders, user types behind Arc, the allocator's bookkeeping, the thread scheduler";
const ASSUME: &[&str] = &[
    "threads switch between operations, at callbacks, at allocations and between any two instructions of the program's own text, outside of libc",
    "a non-atomic read-modify-write instruction may lose what others wrote meanwhile; atomic ones are indivisible",
    "sequentially consistent memory: one simulated thread runs at a time",
];

pub const PROPS: &[Prop] = &[
    Prop { id: "B01", title: "Byte strings always read as the bytes they stand for", run: b01, quick_runs: 150_000, thorough_runs: 6_000_000, warm_up: 3, wall_cap: 300, rule: RULE, real: REAL, stub: STUB, assumptions: ASSUME },
    Prop { id: "B02", title: "Byte storage is released exactly once, after its last reader", run: b02, quick_runs: 150_000, thorough_runs: 6_000_000, warm_up: 3, wall_cap: 300, rule: RULE, real: REAL, stub: STUB, assumptions: ASSUME },
    Prop { id: "B03", title: "An upgraded byte string survives its lender", run: b03, quick_runs: 150_000, thorough_runs: 6_000_000, warm_up: 3, wall_cap: 300, rule: RULE, real: REAL, stub: STUB, assumptions: ASSUME },
    Prop { id: "B04", title: "Allocation promises of byte strings are kept", run: b04, quick_runs: 150_000, thorough_runs: 6_000_000, warm_up: 3, wall_cap: 300, rule: RULE, real: REAL, stub: STUB, assumptions: ASSUME },
    Prop { id: "B07", title: "Conversions to shared slices keep content and counts", run: b07, quick_runs: 150_000, thorough_runs: 6_000_000, warm_up: 3, wall_cap: 300, rule: RULE, real: REAL, stub: STUB, assumptions: ASSUME },
];
