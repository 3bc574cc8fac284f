//! X02: corrupted values coming from the foreign side are recognised as such.
//!
//! A value of a type's C layout is corrupted, fault by fault, in its raw bytes; an independent model
//! of which bit patterns the Rust type has says whether it must be let in.

use super::Prop;
use crate::ctx::*;
use crate::exports::*;
use crate::track::untracked;
use crate::{attempt, check, ev};
use safer_ffi::closure::{BoxDynFnMut0, BoxDynFnMut1, RefDynFnMut2};
use safer_ffi::dyn_traits::futures::{FfiFuture, PollFuture};
use safer_ffi::layout::{self, CLayoutOf, ReprC};
use safer_ffi::option::TaggedOption;
use safer_ffi::prelude::*;
use std::mem::{align_of, size_of, ManuallyDrop, MaybeUninit};

/// Which bit patterns a type has.
#[derive(Clone)]
enum Shape {
    Any(usize),
    Bool,
    /// Size and discriminants.
    Enum(usize, Vec<i64>),
    /// Never null, always aligned.
    Ref(usize),
    /// Never null.
    Fn,
    Fields(Vec<(usize, Shape)>),
    /// Or else the pointer at this offset is null, and nothing more is looked at.
    OrNull(usize, Box<Shape>),
    /// A tag byte and, when it is 1, the value at this offset.
    Tagged(usize, Box<Shape>),
}
use Shape::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Leaf {
    Bits(usize),
    Bool,
    Enum(usize),
    Ref(usize),
    Fn,
    Tag,
}
impl Leaf {
    fn size(self) -> usize {
        match self {
            Leaf::Bits(n) | Leaf::Enum(n) => n,
            Leaf::Bool | Leaf::Tag => 1,
            Leaf::Ref(_) | Leaf::Fn => 8,
        }
    }
}

fn word(b: &[u8], at: usize) -> usize {
    usize::from_le_bytes(b[at..at + 8].try_into().unwrap())
}
fn int(b: &[u8], at: usize, n: usize) -> u64 {
    (0..n).fold(0, |a, i| a | (b[at + i] as u64) << (8 * i))
}
fn put(b: &mut [u8], at: usize, n: usize, v: u64) {
    b[at..at + n].copy_from_slice(&v.to_le_bytes()[..n]);
}

impl Shape {
    fn valid(&self, b: &[u8], at: usize) -> bool {
        match self {
            Any(_) => true,
            Bool => b[at] <= 1,
            Enum(n, ds) => ds.iter().any(|d| (*d as u64) << (64 - 8 * n) == int(b, at, *n) << (64 - 8 * n)),
            Ref(align) => word(b, at) != 0 && word(b, at) % align == 0,
            Fn => word(b, at) != 0,
            Fields(fs) => fs.iter().all(|(o, s)| s.valid(b, at + o)),
            OrNull(o, s) => word(b, at + o) == 0 || s.valid(b, at),
            Tagged(o, s) => b[at] == 0 || b[at] == 1 && s.valid(b, at + o),
        }
    }
    fn leaves(&self, at: usize, out: &mut Vec<(usize, Leaf)>) {
        match self {
            Any(n) => {
                if *n > 0 {
                    out.push((at, Leaf::Bits(*n)))
                }
            }
            Bool => out.push((at, Leaf::Bool)),
            Enum(n, _) => out.push((at, Leaf::Enum(*n))),
            Ref(a) => out.push((at, Leaf::Ref(*a))),
            Fn => out.push((at, Leaf::Fn)),
            Fields(fs) => fs.iter().for_each(|(o, s)| s.leaves(at + o, out)),
            OrNull(_, s) => s.leaves(at, out),
            Tagged(o, s) => {
                out.push((at, Leaf::Tag));
                s.leaves(at + o, out);
            }
        }
    }
    /// The bytes that must come through unchanged.
    fn live(&self, b: &[u8], at: usize, out: &mut Vec<(usize, usize)>) {
        match self {
            Fields(fs) => fs.iter().for_each(|(o, s)| s.live(b, at + o, out)),
            OrNull(o, s) => {
                if word(b, at + o) == 0 {
                    out.push((at + o, 8));
                } else {
                    s.live(b, at, out)
                }
            }
            Tagged(o, s) => {
                out.push((at, 1));
                if b[at] == 1 {
                    s.live(b, at + o, out);
                }
            }
            other => {
                let mut v = vec![];
                other.leaves(at, &mut v);
                out.extend(v.into_iter().map(|(o, l)| (o, l.size())));
            }
        }
    }
    fn make(&self, b: &mut [u8], at: usize) {
        match self {
            Any(n) => {
                for i in 0..*n {
                    b[at + i] = choose(256) as u8;
                }
            }
            Bool => b[at] = choose(2) as u8,
            Enum(n, ds) => put(b, at, *n, pick_of(ds) as u64),
            Ref(a) => put(b, at, 8, pointer(*a) as u64),
            Fn => put(b, at, 8, twice as usize as u64),
            Fields(fs) => fs.iter().for_each(|(o, s)| s.make(b, at + o)),
            OrNull(o, s) => {
                s.make(b, at);
                if choose(3) == 2 {
                    put(b, at + o, 8, 0);
                }
            }
            Tagged(o, s) => {
                b[at] = choose(2) as u8;
                s.make(b, at + o);
            }
        }
    }
}

/// Memory for references to point into: an optimiser may read through one that it knows is valid.
#[repr(align(4096))]
struct Arena([u64; 1024]);
static ARENA: Arena = Arena([0; 1024]);
fn pointer(align: usize) -> usize {
    let step = align.max(8);
    ARENA.0.as_ptr() as usize + step * pick(4096 / step)
}

fn corrupt(shape: &Shape, b: &mut [u8], leaves: &[(usize, Leaf)]) {
    let (at, leaf) = leaves[pick(leaves.len())];
    match choose(7) {
        0 => {
            fault("a value of another type");
            let v = match leaf {
                Leaf::Bool | Leaf::Tag => pick_of(&[2u64, 3, 255, 128, 16, 0, 1, 254]),
                Leaf::Enum(n) => {
                    let near = choose(4);
                    let v = int(b, at, n);
                    match near {
                        0 => v.wrapping_add(1),
                        1 => v.wrapping_sub(1),
                        2 => choose(16),
                        _ => pick_of(&[0, 1, 2, 8, 9, 127, 128, 255, 256, 511, 513, 65535, 1 << 31, 70_002]),
                    }
                }
                Leaf::Ref(a) => match choose(4) {
                    0 => 0,
                    1 => (pointer(a) + 1) as u64,
                    2 => (pointer(a) + a / 2) as u64,
                    _ => (pointer(1) + pick(16)) as u64,
                },
                Leaf::Fn => pick_of(&[0, 1, 8]),
                Leaf::Bits(_) => choose(u32::MAX as u64),
            };
            put(b, at, leaf.size().min(8), v);
        }
        1 => {
            fault("bit flip");
            // The upper half of a pointer stays: it would point out of memory.
            let n = if matches!(leaf, Leaf::Ref(_)) { 4 } else { leaf.size() * 8 };
            let bit = pick(n);
            b[at + bit / 8] ^= 1 << (bit % 8);
        }
        2 => {
            fault("zeroed");
            b[at..at + leaf.size()].fill(0);
        }
        3 => {
            fault("swapped fields");
            let (from, other) = leaves[pick(leaves.len())];
            let n = leaf.size().min(other.size());
            if !matches!(leaf, Leaf::Ref(_)) || matches!(other, Leaf::Ref(_)) {
                b.copy_within(from..from + n, at);
            }
        }
        4 => {
            fault("everything zeroed");
            b.fill(0);
        }
        5 => {
            fault("padding overwritten");
            let mut used = vec![false; b.len()];
            for (o, l) in leaves {
                used[*o..*o + l.size()].fill(true);
            }
            let with = choose(256) as u8;
            for (i, u) in used.iter().enumerate() {
                if !u {
                    b[i] = with;
                }
            }
        }
        _ => {
            fault("torn write");
            let mut other = vec![0; b.len()];
            shape.make(&mut other, 0);
            let cut = pick(b.len() + 1);
            if choose(2) == 0 {
                b[cut..].copy_from_slice(&other[cut..]);
            } else {
                b[..cut].copy_from_slice(&other[..cut]);
            }
        }
    }
}

// --- the model of each type ------------------------------------------------------------------------
trait Shaped: ReprC {
    fn shape() -> Shape;
}
macro_rules! any {($($t:ty)*) => {$(
    impl Shaped for $t { fn shape() -> Shape { Any(size_of::<$t>()) } }
)*}}
any!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize f32 f64);
impl Shaped for bool {
    fn shape() -> Shape { Bool }
}
impl<T: ReprC> Shaped for *const T {
    fn shape() -> Shape { Any(8) }
}
impl<T: ReprC> Shaped for *mut T {
    fn shape() -> Shape { Any(8) }
}
macro_rules! enums {($($t:ident: $($v:expr),*;)*) => {$(
    impl Shaped for $t { fn shape() -> Shape { Enum(size_of::<$t>(), vec![$($v),*]) } }
)*}}
enums! {
    VxColor: 0, 7, 8, 255;
    VxSigned: -128, -1, 0, 100;
    VxWide: 1, 512, 0xffff;
    VxInt: -70_000, 70_000, 70_001;
    VxPlain: 1, 2, 9;
    VxBits: 1, 1 << 31, 1 << 40, (1 << 40) + 1;
    VxFull: 0, 254, 255;
    VxTop: 0, u32::MAX as i64;
    VxRenamedEnum: 11, 5, 6;
    PollFuture: 0, -1;
}
impl<A: ReprC, R: ReprC> Shaped for extern "C" fn(A) -> R {
    fn shape() -> Shape { Fn }
}
impl<A: ReprC, R: ReprC> Shaped for unsafe extern "C" fn(A) -> R {
    fn shape() -> Shape { Fn }
}
impl<A: ReprC, B: ReprC> Shaped for extern "C" fn(A, B) {
    fn shape() -> Shape { Fn }
}
macro_rules! fns {($($t:ty)*) => {$(
    impl Shaped for $t { fn shape() -> Shape { Fn } }
)*}}
fns!(VxCallback VxPick VxNotify VxVisit);
impl<T: ReprC> Shaped for &'static T {
    fn shape() -> Shape { Ref(align_of::<T>()) }
}
impl<T: ReprC> Shaped for &'static mut T {
    fn shape() -> Shape { Ref(align_of::<T>()) }
}
impl<T: ReprC> Shaped for std::ptr::NonNull<T> {
    fn shape() -> Shape { Ref(align_of::<T>()) }
}
impl<T: ReprC> Shaped for safer_ffi::boxed::Box_<T> {
    fn shape() -> Shape { Ref(align_of::<T>()) }
}
impl Shaped for char_p::Ref<'static> {
    fn shape() -> Shape { Ref(1) }
}
impl Shaped for char_p::Box {
    fn shape() -> Shape { Ref(1) }
}
impl Shaped for char_p::Raw {
    fn shape() -> Shape { Ref(1) }
}
fn fat(align: usize) -> Shape {
    Fields(vec![(0, Ref(align)), (8, Any(8))])
}
impl<T: ReprC> Shaped for c_slice::Ref<'static, T> {
    fn shape() -> Shape { fat(align_of::<T>()) }
}
impl<T: ReprC> Shaped for c_slice::Mut<'static, T> {
    fn shape() -> Shape { fat(align_of::<T>()) }
}
impl<T: ReprC> Shaped for c_slice::Raw<T> {
    fn shape() -> Shape { fat(align_of::<T>()) }
}
impl<T: ReprC> Shaped for c_slice::Box<T> {
    fn shape() -> Shape { fat(align_of::<T>()) }
}
impl Shaped for str::Ref<'static> {
    fn shape() -> Shape { fat(1) }
}
impl Shaped for str::Box {
    fn shape() -> Shape { fat(1) }
}
impl<T: ReprC> Shaped for repr_c::Vec<T> {
    fn shape() -> Shape { Fields(vec![(0, Ref(align_of::<T>())), (8, Any(8)), (16, Any(8))]) }
}
impl Shaped for repr_c::String {
    fn shape() -> Shape { Fields(vec![(0, Ref(1)), (8, Any(8)), (16, Any(8))]) }
}
impl Shaped for safer_ffi::bytes::Bytes<'static> {
    fn shape() -> Shape { Fields(vec![(0, Any(32)), (32, Ref(1))]) }
}
// What stabby's types look like: pointers that are not null and aligned, slices as two of them.
mod st {
    pub use safer_ffi::stabby::Stabbied;
    pub use stabby::abi::vtable::VtDrop;
    pub use stabby::abi::DynRef;
    pub use stabby::boxed::{Box, BoxedSlice, BoxedStr};
    pub use stabby::sync::{Arc, ArcSlice, ArcStr, Weak, WeakSlice, WeakStr};
}
fn ends(align: usize) -> Shape {
    Fields(vec![(0, Ref(align)), (8, Ref(align))])
}
macro_rules! shapes {($($t:ty => $s:expr;)*) => {$(
    impl Shaped for $t { fn shape() -> Shape { $s } }
)*}}
shapes! {
    st::Box<u64> => Ref(8);
    st::Box<u16> => Ref(2);
    st::Arc<u32> => Ref(4);
    st::Weak<u64> => Ref(8);
    st::BoxedSlice<u16> => ends(2);
    st::BoxedStr => ends(1);
    st::ArcSlice<u64> => ends(8);
    st::ArcStr => ends(1);
    st::WeakSlice<u32> => ends(4);
    st::WeakStr => ends(1);
    st::VtDrop => Fn;
    st::DynRef<'static, st::VtDrop> => Fields(vec![(0, Ref(1)), (8, Ref(8))]);
    st::Stabbied<u32> => Any(4);
    st::Stabbied<bool> => Bool;
    // As for `Out`: whether null is refused is up to stabby.
    st::Stabbied<&'static u8> => OrNull(0, Box::new(Ref(1)));
}

impl Shaped for BoxDynFnMut0<u32> {
    fn shape() -> Shape { Fields(vec![(0, Ref(1)), (8, OrNull(0, Box::new(Fn))), (16, OrNull(0, Box::new(Fn)))]) }
}
impl Shaped for BoxDynFnMut1<VxSmall, u8> {
    fn shape() -> Shape { Fields(vec![(0, Ref(1)), (8, OrNull(0, Box::new(Fn))), (16, OrNull(0, Box::new(Fn)))]) }
}
impl Shaped for RefDynFnMut2<'static, u64, u8, i64> {
    fn shape() -> Shape { Fields(vec![(0, Ref(1)), (8, Fn)]) }
}
impl Shaped for VirtualPtr<dyn FfiFuture> {
    fn shape() -> Shape { Fields(vec![(0, Ref(1)), (8, Fn), (16, Fn)]) }
}
impl<T: Shaped, const N: usize> Shaped for [T; N]
where
    [T; N]: ReprC,
{
    fn shape() -> Shape { Fields((0..N).map(|i| (i * size_of::<T>(), T::shape())).collect()) }
}
/// Offered as an `Option` only: refusing null is not promised without it (the checks may let wrong
/// values in where nothing else is documented).
impl<T: ReprC> Shaped for Out<'static, T> {
    fn shape() -> Shape { OrNull(0, Box::new(Ref(align_of::<T>()))) }
}
/// The pointer that tells the absence is the first thing in all of them.
impl<T: Shaped> Shaped for Option<T>
where
    Option<T>: ReprC,
{
    fn shape() -> Shape { OrNull(0, Box::new(T::shape())) }
}
impl<T: Shaped> Shaped for TaggedOption<T>
where
    TaggedOption<T>: ReprC,
{
    fn shape() -> Shape { Tagged(align_of::<T>(), Box::new(T::shape())) }
}
macro_rules! structs {($($T:ty: [$($f:tt $F:ty,)*];)*) => {$(
    impl Shaped for $T {
        fn shape() -> Shape {
            let u = MaybeUninit::<$T>::uninit();
            let p = u.as_ptr();
            Fields(vec![$((
                unsafe { std::ptr::addr_of!((*p).$f) as *const $F as usize - p as usize },
                <$F as Shaped>::shape(),
            )),*])
        }
    }
)*}}

#[derive_ReprC]
#[repr(C)]
pub struct XInner {
    pub fine: u8,
    pub yes: bool,
    pub kind: VxInt,
    pub r: &'static u64,
}
#[derive_ReprC]
#[repr(C)]
pub struct XOuter {
    pub first: bool,
    pub inner: [XInner; 2],
    pub mb: Option<&'static VxMix>,
    pub text: char_p::Ref<'static>,
    pub mb_text: Option<char_p::Ref<'static>>,
    pub items: c_slice::Ref<'static, u32>,
    pub mb_items: Option<c_slice::Ref<'static, u16>>,
    pub boxed: repr_c::Box<VxMix>,
    pub mb_boxed: Option<repr_c::Box<u64>>,
    pub marker: std::marker::PhantomData<u8>,
    pub call: extern "C" fn(u8) -> u16,
    pub mb_call: Option<extern "C" fn(u8) -> u16>,
    pub last: VxSigned,
}
#[derive_ReprC]
#[repr(C)]
pub struct XGen<'a, A: 'a, const N: usize> {
    pub head: A,
    pub tail: [VxColor; 3],
    pub of: std::marker::PhantomData<&'a A>,
}
#[derive_ReprC]
#[repr(transparent)]
pub struct XTrans(pub bool, pub std::marker::PhantomData<u8>);
#[derive_ReprC]
#[repr(transparent)]
pub struct XTransRef {
    pub r: &'static u32,
}
#[derive_ReprC]
#[repr(transparent)]
pub struct XTransTrans(pub XTransRef);

structs! {
    VxMix: [a u8, b u32, c u16, d u64, e bool, f f32, g i8, h f64, i i16,];
    VxSmall: [x i16, y u8,];
    VxFloats: [p f64, q f32, r f32,];
    VxNest: [tag VxColor, small VxSmall, bytes [u8; 3], mix VxMix, pair [VxSmall; 2], sign VxSigned, grid [[u16; 2]; 3], plain VxPlain,];
    VxRenamed: [kind VxRenamedEnum, wide VxWide, n i64,];
    VxPtrs: [raw *const u8, out *mut VxSmall, f Fp, mb_f Option<Fp>, mb Option<&'static u32>, n i32, len usize,];
    VxGenericNested: [fst VxGenericByteLong, snd bool,];
    VxGenericByteLong: [fst u8, snd i64,];
    VxRaw: [r#type u8, r#move VxSmall, r#in VxFull, r#match u64,];
    VxConst16: [xs [u8; 16], y u16,];
    VxPhantom: [before u8, after u32,];
    VxAlone: [what VxWide, items [VxColor; 5], slice c_slice::Raw<VxFloats>,];
    VxGeneric<bool, VxColor>: [fst bool, snd VxColor,];
    VxGeneric<VxColor, VxGeneric<bool, &'static u16>>: [fst VxColor, snd VxGeneric<bool, &'static u16>,];
    VxGeneric<bool, &'static u16>: [fst bool, snd &'static u16,];
    VxTransparent: [0 u32,];
    VxTransparentStruct: [inner VxSmall,];
    VxTup: [_0 u8, _1 VxSmall, _2 u64,];
    safer_ffi::tuple::Tuple2<bool, VxWide>: [_0 bool, _1 VxWide,];
    safer_ffi::tuple::Tuple4<u8, &'static u64, bool, VxSigned>: [_0 u8, _1 &'static u64, _2 bool, _3 VxSigned,];
    XInner: [fine u8, yes bool, kind VxInt, r &'static u64,];
    XOuter: [first bool, inner [XInner; 2], mb Option<&'static VxMix>, text char_p::Ref<'static>, mb_text Option<char_p::Ref<'static>>,
        items c_slice::Ref<'static, u32>, mb_items Option<c_slice::Ref<'static, u16>>, boxed repr_c::Box<VxMix>,
        mb_boxed Option<repr_c::Box<u64>>, call extern "C" fn(u8) -> u16, mb_call Option<extern "C" fn(u8) -> u16>, last VxSigned,];
    XTrans: [0 bool,];
    VxHooks: [tag u8, visit VxCallback, pick Option<VxPick>, notify VxNotify,];
    XTransRef: [r &'static u32,];
    XTransTrans: [0 XTransRef,];
}

/// One value of one type, and what happens to it.
fn drive<T: Shaped + 'static>(name: &'static str) {
    assert_eq!(size_of::<T>(), size_of::<CLayoutOf<T>>(), "{name}: another layout in C");
    let shape = T::shape();
    let mut leaves = vec![];
    shape.leaves(0, &mut leaves);
    let mut b = vec![0u8; size_of::<T>()];
    shape.make(&mut b, 0);
    let n = pick(5);
    for i in 0..=n {
        if i > 0 {
            corrupt(&shape, &mut b, &leaves);
        }
        if chance(1, 12) {
            shape.make(&mut b, 0);
        }
        let c: CLayoutOf<T> = unsafe { std::ptr::read_unaligned(b.as_ptr().cast()) };
        let want = shape.valid(&b, 0);
        let got = match attempt(|| <T as ReprC>::is_valid(&c)) {
            Ok(x) => x,
            Err(e) => return violate("panic", format!("asking whether a `{name}` is valid panics: {e}: {b:02x?}")),
        };
        ev!("{name} {} {got}", if i == 0 { "fresh" } else { "corrupted" });
        probe(if want { "valid value let in" } else { "invalid value refused" });
        if !check!(got == want, if want { "valid-refused" } else { "invalid-accepted" }, "{name}: bytes {b:02x?} are {}valid, but is_valid says {got}", if want { "" } else { "in" }) {
            return;
        }
        if !want {
            let r = unsafe { layout::from_raw::<T>(c) }.map(ManuallyDrop::new);
            if !check!(r.is_none(), "invalid-accepted", "{name}: from_raw makes a value of invalid bytes {b:02x?}") {
                return;
            }
            if cfg!(debug_assertions) {
                // The promise of builds with debug assertions: what exported functions do with their arguments.
                let r = attempt(|| ManuallyDrop::new(unsafe { layout::from_raw_unchecked::<T>(c) }));
                if r.is_ok() {
                    return violate("invalid-accepted", format!("{name}: from_raw_unchecked takes invalid bytes {b:02x?} in a debug build"));
                }
            }
            continue;
        }
        let mut live = vec![];
        shape.live(&b, 0, &mut live);
        for way in 0..2 {
            let t = if way == 0 {
                let Some(t) = (unsafe { layout::from_raw::<T>(c) }) else {
                    // The absence of a value that can itself be absent.
                    if matches!(shape, OrNull(..)) {
                        continue;
                    }
                    return violate("valid-refused", format!("{name}: from_raw refuses {b:02x?}"));
                };
                t
            } else {
                match attempt(|| ManuallyDrop::new(unsafe { layout::from_raw_unchecked::<T>(c) })) {
                    Ok(t) => ManuallyDrop::into_inner(t),
                    Err(e) => return violate("valid-refused", format!("{name}: from_raw_unchecked refuses {b:02x?}: {e}")),
                }
            };
            // Byte for byte, as the Rust value, and as it goes out again.
            let t = ManuallyDrop::new(t);
            let mut inside = vec![0u8; b.len()];
            unsafe { std::ptr::copy_nonoverlapping((&*t as *const T).cast::<MaybeUninit<u8>>(), inside.as_mut_ptr().cast(), b.len()) };
            let back: CLayoutOf<T> = unsafe { layout::into_raw(ManuallyDrop::into_inner(t)) };
            let mut outside = vec![0u8; b.len()];
            unsafe { std::ptr::copy_nonoverlapping((&back as *const CLayoutOf<T>).cast::<MaybeUninit<u8>>(), outside.as_mut_ptr().cast(), b.len()) };
            for (o, n) in &live {
                if !check!(inside[*o..o + n] == b[*o..o + n], "changed", "{name}: {b:02x?} came in as {inside:02x?}")
                    || !check!(outside[*o..o + n] == b[*o..o + n], "changed", "{name}: {b:02x?} went out again as {outside:02x?}")
                {
                    return;
                }
            }
        }
    }
}

macro_rules! kinds {($($T:ty,)*) => {
    const KINDS: &[(&str, fn(&'static str))] = &[$((stringify!($T), drive::<$T>)),*];
}}
kinds! {
    bool, u8, i64, f32, VxColor, VxSigned, VxWide, VxInt, VxPlain, VxRenamedEnum, VxBits, VxFull, VxTop, PollFuture,
    VxRaw, VxConst16, [VxFull; 4],
    VxMix, VxSmall, VxNest, VxRenamed, VxPtrs, VxGenericNested, VxPhantom, VxAlone, VxGeneric<bool, VxColor>,
    VxGeneric<VxColor, VxGeneric<bool, &'static u16>>,
    VxTransparent, VxTransparentStruct, VxTup, safer_ffi::tuple::Tuple2<bool, VxWide>,
    safer_ffi::tuple::Tuple4<u8, &'static u64, bool, VxSigned>,
    XInner, XOuter, XTrans, XTransRef, XTransTrans, Option<XTransRef>, Option<XTransTrans>, [XInner; 3], [XTrans; 5],
    [bool; 1], [bool; 7], [bool; 32], [VxColor; 4], [VxInt; 3], [[VxSigned; 2]; 3], [Option<&'static u32>; 3], [Fp; 2],
    Fp, unsafe extern "C" fn(u8) -> u16, Option<unsafe extern "C" fn(u8) -> u16>, Option<Fp>, extern "C" fn(VxMix, &'static u8),
    extern "C" fn(Fp) -> Option<Fp>,
    VxCallback, VxPick, VxNotify, VxVisit, Option<VxPick>, Option<VxVisit>, VxHooks, [VxNotify; 2],
    &'static u8, &'static u64, &'static mut u16, &'static VxNest, &'static mut VxMix, Option<&'static u64>, Option<&'static mut VxSmall>,
    &'static &'static u8, *const u64, *mut bool, std::ptr::NonNull<u32>, Option<std::ptr::NonNull<u32>>,
    repr_c::Box<u8>, repr_c::Box<u64>, repr_c::Box<VxOpaque>, Option<repr_c::Box<u32>>, Option<repr_c::Box<VxOpaque>>,
    char_p::Ref<'static>, char_p::Box, char_p::Raw, Option<char_p::Ref<'static>>, Option<char_p::Box>, Option<char_p::Raw>,
    c_slice::Ref<'static, u8>, c_slice::Ref<'static, u64>, c_slice::Mut<'static, u32>, c_slice::Raw<u16>, c_slice::Box<VxMix>,
    Option<c_slice::Ref<'static, u64>>, Option<c_slice::Mut<'static, VxMix>>, Option<c_slice::Raw<u16>>, Option<c_slice::Box<u32>>,
    str::Ref<'static>, str::Box, Option<str::Ref<'static>>, repr_c::Vec<u8>, repr_c::Vec<u64>, Option<repr_c::Vec<u32>>,
    repr_c::String, Option<repr_c::String>, safer_ffi::bytes::Bytes<'static>,
    TaggedOption<bool>, TaggedOption<u8>, TaggedOption<i64>, TaggedOption<VxColor>, TaggedOption<VxInt>,
    TaggedOption<VxWide>, TaggedOption<VxMix>, TaggedOption<VxNest>,
    st::Box<u64>, st::Box<u16>, st::Arc<u32>, st::Weak<u64>, st::BoxedSlice<u16>, st::BoxedStr, st::ArcSlice<u64>, st::ArcStr,
    st::WeakSlice<u32>, st::WeakStr, Option<st::Box<u64>>, Option<st::Arc<u32>>, Option<st::Weak<u64>>,
    st::VtDrop, st::DynRef<'static, st::VtDrop>, st::Stabbied<u32>, st::Stabbied<bool>,
    Option<st::Stabbied<&'static u8>>,
    BoxDynFnMut0<u32>, BoxDynFnMut1<VxSmall, u8>, RefDynFnMut2<'static, u64, u8, i64>,
    Option<BoxDynFnMut0<u32>>, Option<Out<'static, u32>>,
    VirtualPtr<dyn FfiFuture>, Option<VirtualPtr<dyn FfiFuture>>,
}

fn x02() {
    untracked(|| {
        steps(40, 12, || {
            let (name, f) = KINDS[pick(KINDS.len())];
            f(name);
        })
    });
}

pub static PROPS: [Prop; 1] = [Prop {
    id: "X02",
    title: "Corrupted values from foreign code are recognised, and valid ones let in",
    run: x02,
    quick_runs: 300_000,
    thorough_runs: 10_000_000,
    warm_up: 2,
    wall_cap: 60,
    rule: "one run = one seed: about 12 values of types drawn from a list of ~100, each corrupted by 0-4 faults in its raw C bytes and offered again after each; distinct = different sequence of types and verdicts",
    real: "ReprC::is_valid of every kind of type and of the derives, layout::{from_raw, from_raw_unchecked, into_raw}",
    stub: "the foreign program that writes the bytes; references point into an arena and are not read through",
    assumptions: &["little-endian 64-bit platform"],
}];
