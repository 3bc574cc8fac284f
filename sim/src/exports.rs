//! The library that the simulated program is linked with: one exported item of every kind the code
//! under test supports. `peer/peer.c` is its C program, compiled against the header that the code
//! under test generates for it. All exported names start with `vx_`/`Vx`.
#![allow(nonstandard_style)]

use crate::ctx::Rng;
use crate::track::untracked;
use safer_ffi::prelude::*;

// --- values both sides can make from a seed and reduce to a number ------------------------------
/// Field by field, in the order of declaration; `peer.c` does the same with the header's fields.
pub trait Val {
    fn make(r: &mut Rng) -> Self;
    fn digest(&self, d: &mut u64);
}
pub fn fold(d: &mut u64, w: u64) {
    *d = (*d ^ w).wrapping_mul(0x100_0000_01b3).rotate_left(23);
}
pub fn digest_of<T: Val>(t: &T) -> u64 {
    let mut d = 0xcbf2_9ce4_8422_2325;
    t.digest(&mut d);
    d
}
pub fn make_of<T: Val>(seed: u64) -> T {
    T::make(&mut Rng::new(seed))
}
macro_rules! ints {($($t:ty)*) => {$(
    impl Val for $t {
        fn make(r: &mut Rng) -> Self { r.next() as $t }
        fn digest(&self, d: &mut u64) { fold(d, *self as i64 as u64) }
    }
)*}}
ints!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize);
impl Val for bool {
    fn make(r: &mut Rng) -> Self { r.next() & 1 == 1 }
    fn digest(&self, d: &mut u64) { fold(d, *self as u64) }
}
impl Val for f32 {
    fn make(r: &mut Rng) -> Self { (r.next() as i32 >> 8) as f32 }
    fn digest(&self, d: &mut u64) { fold(d, self.to_bits() as u64) }
}
impl Val for f64 {
    fn make(r: &mut Rng) -> Self { (r.next() as i64 >> 12) as f64 }
    fn digest(&self, d: &mut u64) { fold(d, self.to_bits()) }
}
impl<T: Val, const N: usize> Val for [T; N] {
    fn make(r: &mut Rng) -> Self { std::array::from_fn(|_| T::make(r)) }
    fn digest(&self, d: &mut u64) { self.iter().for_each(|x| x.digest(d)) }
}
/// Never followed: only their bits matter.
impl<T> Val for *const T {
    fn make(r: &mut Rng) -> Self { (r.next() & !15) as usize as *const T }
    fn digest(&self, d: &mut u64) { fold(d, *self as usize as u64) }
}
impl<T> Val for *mut T {
    fn make(r: &mut Rng) -> Self { (r.next() & !15) as usize as *mut T }
    fn digest(&self, d: &mut u64) { fold(d, *self as usize as u64) }
}
/// Null one time out of four.
impl Val for Option<&'static u32> {
    fn make(r: &mut Rng) -> Self {
        let w = r.next();
        (w & 3 != 0).then(|| &WORDS[(w >> 2) as usize % WORDS.len()])
    }
    fn digest(&self, d: &mut u64) { fold(d, self.map_or(0x17, |x| *x as u64)) }
}
pub static WORDS: [u32; 8] = [3, 1, 4, 1, 5, 9, 2, 6];

pub extern "C" fn twice(x: u8) -> u16 { x as u16 * 2 }
pub extern "C" fn thrice(x: u8) -> u16 { x as u16 * 3 }
pub type Fp = extern "C" fn(u8) -> u16;
impl Val for Fp {
    fn make(r: &mut Rng) -> Self { if r.next() & 1 == 0 { twice } else { thrice } }
    fn digest(&self, d: &mut u64) { fold(d, self(50) as u64) }
}
impl Val for Option<Fp> {
    fn make(r: &mut Rng) -> Self { (r.next() & 1 == 0).then(|| Fp::make(r)) }
    fn digest(&self, d: &mut u64) {
        match self {
            None => fold(d, 0x18),
            Some(f) => f.digest(d),
        }
    }
}

macro_rules! fields {($T:ty, $($f:ident)*) => {
    impl Val for $T {
        fn make(r: &mut Rng) -> Self { $(let $f = Val::make(r);)* Self { $($f,)* } }
        fn digest(&self, d: &mut u64) { $(self.$f.digest(d);)* }
    }
    impl Fields for $T {
        fn layout(out: &mut Vec<(&'static str, usize)>) {
            let u = std::mem::MaybeUninit::<$T>::uninit();
            let base = u.as_ptr();
            $(out.push((stringify!($f).trim_start_matches("r#"), unsafe { std::ptr::addr_of!((*base).$f) as usize - base as usize }));)*
        }
    }
}}
pub trait Fields {
    fn layout(out: &mut Vec<(&'static str, usize)>);
}
macro_rules! variants {($T:ident, $($v:ident)*) => {
    impl Val for $T {
        fn make(r: &mut Rng) -> Self {
            let all = [$($T::$v),*];
            all[(r.next() % all.len() as u64) as usize]
        }
        fn digest(&self, d: &mut u64) { fold(d, *self as i64 as u64) }
    }
}}

// --- types --------------------------------------------------------------------------------------
/// A structure with padding nearly everywhere.
#[derive_ReprC]
#[repr(C)]
#[derive(Clone, Copy)]
pub struct VxMix {
    /// First
    pub a: u8,
    pub b: u32,
    pub c: u16,
    /// A longer text
    ///
    /// in `several` lines.
    pub d: u64,
    pub e: bool,
    pub f: f32,
    pub g: i8,
    pub h: f64,
    pub i: i16,
}
fields!(VxMix, a b c d e f g h i);

#[derive_ReprC]
#[repr(C)]
#[derive(Clone, Copy)]
pub struct VxSmall {
    pub x: i16,
    pub y: u8,
}
fields!(VxSmall, x y);

#[derive_ReprC]
#[repr(C)]
#[derive(Clone, Copy)]
pub struct VxFloats {
    pub p: f64,
    pub q: f32,
    pub r: f32,
}
fields!(VxFloats, p q r);

#[ffi_export]
#[derive_ReprC]
#[repr(u8)]
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum VxColor {
    /// The first
    Red,
    DarkGreen = 7,
    Blue,
    Last = 255,
}
variants!(VxColor, Red DarkGreen Blue Last);

#[derive_ReprC]
#[repr(i8)]
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum VxSigned {
    Low = -128,
    Minus = VxSigned::Low as i8 + 127,
    Zero,
    Up = 100,
}
variants!(VxSigned, Low Minus Zero Up);

#[derive_ReprC]
#[repr(u16)]
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum VxWide {
    A = 1,
    B = 1 << 9,
    C = 0xFFFF,
}
variants!(VxWide, A B C);

#[derive_ReprC]
#[repr(i32)]
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum VxInt {
    Neg = -70_000,
    Pos = 70_000,
    Next,
}
variants!(VxInt, Neg Pos Next);

#[derive_ReprC]
#[repr(C)]
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum VxPlain {
    One = 1,
    Two,
    Nine = 9,
}
variants!(VxPlain, One Two Nine);

#[derive_ReprC(rename = "vx_renamed")]
#[repr(u32)]
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum VxRenamedEnum {
    FirstOne = 11,
    SecondOne = 5,
    Third,
}
variants!(VxRenamedEnum, FirstOne SecondOne Third);

/// Numbers that no `i32` is: */ the end of **/ no comment
#[derive_ReprC]
#[repr(u64)]
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum VxBits {
    /// First */
    Low = 1,
    Sign = 1 << 31,
    High = 1 << 40,
    After,
}
variants!(VxBits, Low Sign High After);

#[derive_ReprC]
#[repr(u8)]
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum VxFull {
    Nil = 0,
    Most = !1,
    All = !0,
}
variants!(VxFull, Nil Most All);

#[derive_ReprC]
#[repr(u32)]
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum VxTop {
    Bottom,
    Top = !0,
}
variants!(VxTop, Bottom Top);

/// Structures in structures, arrays in structures, structures in arrays.
#[derive_ReprC]
#[repr(C)]
#[derive(Clone, Copy)]
pub struct VxNest {
    pub tag: VxColor,
    pub small: VxSmall,
    pub bytes: [u8; 3],
    pub mix: VxMix,
    pub pair: [VxSmall; 2],
    pub sign: VxSigned,
    pub grid: [[u16; 2]; 3],
    pub plain: VxPlain,
}
fields!(VxNest, tag small bytes mix pair sign grid plain);

/// Only a renamed type is called like this in C.
#[derive_ReprC(rename = "vx_other_name")]
#[repr(C)]
#[derive(Clone, Copy)]
pub struct VxRenamed {
    pub kind: VxRenamedEnum,
    pub wide: VxWide,
    pub n: i64,
}
fields!(VxRenamed, kind wide n);

#[derive_ReprC]
#[repr(C)]
#[derive(Clone, Copy)]
pub struct VxPtrs {
    pub raw: *const u8,
    pub out: *mut VxSmall,
    pub f: Fp,
    pub mb_f: Option<Fp>,
    pub mb: Option<&'static u32>,
    pub n: i32,
    pub len: usize,
}
fields!(VxPtrs, raw out f mb_f mb n len);
unsafe impl Send for VxPtrs {}
unsafe impl Sync for VxPtrs {}

#[derive_ReprC]
#[repr(C)]
#[derive(Clone, Copy)]
pub struct VxGeneric<A, B> {
    pub fst: A,
    pub snd: B,
}
pub type VxGenericByteLong = VxGeneric<u8, i64>;
pub type VxGenericNested = VxGeneric<VxGenericByteLong, bool>;
fields!(VxGenericByteLong, fst snd);
fields!(VxGenericNested, fst snd);

/** A block
    of text */
#[doc = "multiple /\nlines in */ one\r\n    */"]
#[derive_ReprC]
#[repr(C)]
#[derive(Clone, Copy)]
pub struct r#VxRaw {
    /// Ends with the comment */
    pub r#type: u8,
    #[doc = "one\nand two"]
    pub r#move: VxSmall,
    pub r#in: VxFull,
    pub r#match: u64,
}
fields!(VxRaw, r#type r#move r#in r#match);

#[derive_ReprC]
#[repr(C)]
#[derive(Clone, Copy)]
pub struct VxConst<T, const N: usize> {
    pub xs: [u8; N],
    pub y: T,
}
pub type VxConst3 = VxConst<u16, 3>;
pub type VxConst16 = VxConst<u16, 16>;
fields!(VxConst3, xs y);
fields!(VxConst16, xs y);

#[derive_ReprC]
#[repr(C)]
#[derive(Clone, Copy)]
pub struct VxPhantom {
    pub before: u8,
    pub marker: std::marker::PhantomData<fn() -> u64>,
    pub after: u32,
}
impl Val for std::marker::PhantomData<fn() -> u64> {
    fn make(_: &mut Rng) -> Self { std::marker::PhantomData }
    fn digest(&self, _: &mut u64) {}
}
impl Val for VxPhantom {
    fn make(r: &mut Rng) -> Self {
        let before = Val::make(r);
        VxPhantom { before, marker: std::marker::PhantomData, after: Val::make(r) }
    }
    fn digest(&self, d: &mut u64) { self.before.digest(d); self.after.digest(d) }
}
impl Fields for VxPhantom {
    fn layout(out: &mut Vec<(&'static str, usize)>) {
        out.push(("before", 0));
        out.push(("after", 4));
    }
}

#[derive_ReprC]
#[repr(transparent)]
#[derive(Clone, Copy)]
pub struct VxTransparent(pub u32);
impl Val for VxTransparent {
    fn make(r: &mut Rng) -> Self { VxTransparent(Val::make(r)) }
    fn digest(&self, d: &mut u64) { self.0.digest(d) }
}

#[derive_ReprC]
#[repr(transparent)]
#[derive(Clone, Copy)]
pub struct VxTransparentStruct {
    pub inner: VxSmall,
    pub unit: (),
}
impl Val for VxTransparentStruct {
    fn make(r: &mut Rng) -> Self { VxTransparentStruct { inner: Val::make(r), unit: () } }
    fn digest(&self, d: &mut u64) { self.inner.digest(d) }
}

/// A function pointer with a name of its own, which says whom it may borrow from.
#[derive_ReprC]
#[repr(transparent)]
#[derive(Clone, Copy)]
pub struct VxCallback(pub extern "C" fn(&VxSmall, u8, &'_ mut i64) -> u64);
#[derive_ReprC]
#[repr(transparent)]
#[derive(Clone, Copy)]
pub struct VxPick(pub for<'a> extern "C" fn(fst: &'a VxSmall, snd: Option<&'a VxSmall>, which: bool) -> &'a VxSmall);
#[derive_ReprC]
#[repr(transparent)]
#[derive(Clone, Copy)]
pub struct VxNotify(pub extern "C" fn());
#[derive_ReprC]
#[repr(transparent)]
#[derive(Clone, Copy)]
pub struct VxVisit(pub extern "C" fn(&'_ u32) -> bool);
#[derive_ReprC]
#[repr(C)]
#[derive(Clone, Copy)]
pub struct VxHooks {
    pub tag: u8,
    pub visit: VxCallback,
    pub pick: Option<VxPick>,
    pub notify: VxNotify,
}
#[ffi_export]
pub fn vx_named_fn(f: VxCallback, x: VxSmall, n: u8) -> u64 {
    let mut sum = 5;
    let r = (f.0)(&x, n, &mut sum);
    crate::sched::yield_point();
    r.wrapping_mul(3).wrapping_add(sum as u64).wrapping_add(f(&x, n, &mut sum))
}
#[ffi_export]
pub fn vx_mb_named_fn(f: Option<VxPick>, x: &'_ VxSmall, y: &'_ VxSmall, which: bool) -> i16 {
    f.map_or(-1, |f| f(x, Some(y), which).x)
}
#[ffi_export]
pub fn vx_hooks(h: VxHooks, x: &'_ VxSmall) -> u64 {
    (*h.notify)();
    let mut sum = h.tag as i64;
    let y = h.pick.map_or(x, |f| f(x, None, false));
    (h.visit)(y, h.tag, &mut sum).wrapping_add(sum as u64)
}
#[ffi_export]
pub fn vx_echo_hooks(h: VxHooks) -> VxHooks {
    h
}
#[ffi_export]
pub fn vx_visit(f: VxVisit, xs: c_slice::Ref<'_, u32>) -> usize {
    xs.as_slice().iter().take_while(|x| f(x)).count()
}
#[ffi_export]
pub fn vx_named_fns(fs: c_slice::Ref<'_, VxNotify>, again: repr_c::Box<VxNotify>) -> usize {
    fs.iter().for_each(|f| f());
    (again.0)();
    fs.len()
}

pub type VxTup = safer_ffi::tuple::Tuple3<u8, VxSmall, u64>;
impl Val for VxTup {
    fn make(r: &mut Rng) -> Self { safer_ffi::tuple::Tuple3 { _0: Val::make(r), _1: Val::make(r), _2: Val::make(r) } }
    fn digest(&self, d: &mut u64) { self._0.digest(d); self._1.digest(d); self._2.digest(d) }
}
impl Fields for VxTup {
    fn layout(out: &mut Vec<(&'static str, usize)>) {
        let u = std::mem::MaybeUninit::<VxTup>::uninit();
        let p = u.as_ptr();
        unsafe {
            out.push(("_0", std::ptr::addr_of!((*p)._0) as usize - p as usize));
            out.push(("_1", std::ptr::addr_of!((*p)._1) as usize - p as usize));
            out.push(("_2", std::ptr::addr_of!((*p)._2) as usize - p as usize));
        }
    }
}

#[derive_ReprC]
#[repr(opaque)]
pub struct VxOpaque {
    pub tok: crate::props::Token,
    pub n: u64,
}

#[derive_ReprC(rename = "vx_opaque_generic")]
#[repr(opaque)]
pub struct VxOpaqueGeneric<T> {
    pub hidden: T,
}

/// **/
#[derive_ReprC]
#[repr(opaque)]
pub struct VxOpaqueConst<const I: i8, const C: char, T> {
    pub hidden: T,
}

/// Exported on its own, used by no function.
#[ffi_export]
#[derive_ReprC]
#[repr(C)]
pub struct VxAlone {
    pub what: VxWide,
    pub items: [VxColor; 5],
    pub slice: c_slice::Raw<VxFloats>,
}

// --- constants ----------------------------------------------------------------------------------
/// A documented constant
#[ffi_export]
pub const VX_ANSWER: i32 = 42;
#[ffi_export]
pub const VX_MINUS: i64 = -5_000_000_000;
#[ffi_export]
pub const VX_BYTE: u8 = 200;
#[ffi_export]
pub const VX_BIG: u64 = 9_000_000_000_000_000_000;
#[ffi_export]
pub const VX_YES: bool = true;
#[ffi_export]
pub const VX_RATIO: f64 = 0.125;
#[ffi_export(untyped)]
pub const VX_TEXT: &str = "hello \"there\"";
/// Ends */ the comment
#[ffi_export]
pub const VX_HALF: f32 = 0.5;
#[ffi_export]
pub const VX_TINY: f64 = 1.5e-300;
#[ffi_export]
pub const VX_HUGE: f32 = f32::MAX;
#[ffi_export]
pub const VX_INF: f64 = f64::INFINITY;
#[ffi_export]
pub const VX_MINUS_INF: f32 = f32::NEG_INFINITY;
#[ffi_export]
pub const VX_NAN: f64 = f64::NAN;
#[ffi_export]
pub const VX_NO: bool = false;
#[ffi_export]
pub const r#VX_RAW: i16 = -300;
#[ffi_export]
pub const VX_LOWEST: i32 = i32::MIN;
#[ffi_export(untyped)]
pub const VX_ODD_TEXT: &str = "\u{1b}[1m\t\\ \0\x37'?\u{e9}\u{200b}\u{7}8\r\n";
#[ffi_export(untyped)]
pub const VX_UNTYPED: usize = 1234;

// --- functions ----------------------------------------------------------------------------------
macro_rules! exports {($($T:ty, $echo:ident $digest:ident $make:ident $read:ident $fill:ident $swap:ident;)*) => {$(
    #[ffi_export]
    pub fn $echo(x: $T) -> $T { crate::sched::yield_point(); x }
    #[ffi_export]
    pub fn $digest(x: $T) -> u64 { digest_of(&x) }
    #[ffi_export]
    pub fn $make(seed: u64) -> $T { make_of(seed) }
    #[ffi_export]
    pub fn $read(x: &'_ $T) -> u64 { crate::sched::yield_point(); digest_of(x) }
    #[ffi_export]
    pub fn $fill(x: Out<'_, $T>, seed: u64) { x.write(make_of(seed)); }
    #[ffi_export]
    pub fn $swap(x: &'_ mut $T, y: $T) -> $T { crate::sched::yield_point(); std::mem::replace(x, y) }
)*}}
exports! {
    u8, vx_echo_u8 vx_digest_u8 vx_make_u8 vx_read_u8 vx_fill_u8 vx_swap_u8;
    u16, vx_echo_u16 vx_digest_u16 vx_make_u16 vx_read_u16 vx_fill_u16 vx_swap_u16;
    u32, vx_echo_u32 vx_digest_u32 vx_make_u32 vx_read_u32 vx_fill_u32 vx_swap_u32;
    u64, vx_echo_u64 vx_digest_u64 vx_make_u64 vx_read_u64 vx_fill_u64 vx_swap_u64;
    usize, vx_echo_usize vx_digest_usize vx_make_usize vx_read_usize vx_fill_usize vx_swap_usize;
    i8, vx_echo_i8 vx_digest_i8 vx_make_i8 vx_read_i8 vx_fill_i8 vx_swap_i8;
    i16, vx_echo_i16 vx_digest_i16 vx_make_i16 vx_read_i16 vx_fill_i16 vx_swap_i16;
    i32, vx_echo_i32 vx_digest_i32 vx_make_i32 vx_read_i32 vx_fill_i32 vx_swap_i32;
    i64, vx_echo_i64 vx_digest_i64 vx_make_i64 vx_read_i64 vx_fill_i64 vx_swap_i64;
    f32, vx_echo_f32 vx_digest_f32 vx_make_f32 vx_read_f32 vx_fill_f32 vx_swap_f32;
    f64, vx_echo_f64 vx_digest_f64 vx_make_f64 vx_read_f64 vx_fill_f64 vx_swap_f64;
    bool, vx_echo_bool vx_digest_bool vx_make_bool vx_read_bool vx_fill_bool vx_swap_bool;
    VxMix, vx_echo_mix vx_digest_mix vx_make_mix vx_read_mix vx_fill_mix vx_swap_mix;
    VxSmall, vx_echo_small vx_digest_small vx_make_small vx_read_small vx_fill_small vx_swap_small;
    VxFloats, vx_echo_floats vx_digest_floats vx_make_floats vx_read_floats vx_fill_floats vx_swap_floats;
    VxColor, vx_echo_color vx_digest_color vx_make_color vx_read_color vx_fill_color vx_swap_color;
    VxSigned, vx_echo_signed vx_digest_signed vx_make_signed vx_read_signed vx_fill_signed vx_swap_signed;
    VxWide, vx_echo_wide vx_digest_wide vx_make_wide vx_read_wide vx_fill_wide vx_swap_wide;
    VxInt, vx_echo_eint vx_digest_eint vx_make_eint vx_read_eint vx_fill_eint vx_swap_eint;
    VxPlain, vx_echo_plain vx_digest_plain vx_make_plain vx_read_plain vx_fill_plain vx_swap_plain;
    VxBits, vx_echo_bits vx_digest_bits vx_make_bits vx_read_bits vx_fill_bits vx_swap_bits;
    VxFull, vx_echo_full vx_digest_full vx_make_full vx_read_full vx_fill_full vx_swap_full;
    VxTop, vx_echo_top vx_digest_top vx_make_top vx_read_top vx_fill_top vx_swap_top;
    VxRaw, vx_echo_raw vx_digest_raw vx_make_raw vx_read_raw vx_fill_raw vx_swap_raw;
    VxConst3, vx_echo_const3 vx_digest_const3 vx_make_const3 vx_read_const3 vx_fill_const3 vx_swap_const3;
    VxConst16, vx_echo_const16 vx_digest_const16 vx_make_const16 vx_read_const16 vx_fill_const16 vx_swap_const16;
    VxRenamedEnum, vx_echo_renum vx_digest_renum vx_make_renum vx_read_renum vx_fill_renum vx_swap_renum;
    VxNest, vx_echo_nest vx_digest_nest vx_make_nest vx_read_nest vx_fill_nest vx_swap_nest;
    VxRenamed, vx_echo_renamed vx_digest_renamed vx_make_renamed vx_read_renamed vx_fill_renamed vx_swap_renamed;
    VxPtrs, vx_echo_ptrs vx_digest_ptrs vx_make_ptrs vx_read_ptrs vx_fill_ptrs vx_swap_ptrs;
    VxGenericByteLong, vx_echo_gen vx_digest_gen vx_make_gen vx_read_gen vx_fill_gen vx_swap_gen;
    VxGenericNested, vx_echo_gennest vx_digest_gennest vx_make_gennest vx_read_gennest vx_fill_gennest vx_swap_gennest;
    VxPhantom, vx_echo_phantom vx_digest_phantom vx_make_phantom vx_read_phantom vx_fill_phantom vx_swap_phantom;
    VxTransparent, vx_echo_transp vx_digest_transp vx_make_transp vx_read_transp vx_fill_transp vx_swap_transp;
    VxTransparentStruct, vx_echo_transps vx_digest_transps vx_make_transps vx_read_transps vx_fill_transps vx_swap_transps;
    VxTup, vx_echo_tup vx_digest_tup vx_make_tup vx_read_tup vx_fill_tup vx_swap_tup;
}

/// Arguments in registers, on the stack, by value and by reference.
#[ffi_export]
pub fn vx_many(
    a: u8,
    b: VxSmall,
    c: i16,
    d: VxMix,
    e: f32,
    f: &'_ VxFloats,
    g: u64,
    h: bool,
    i: VxColor,
    j: f64,
) -> u64 {
    let mut x = 1;
    a.digest(&mut x);
    b.digest(&mut x);
    c.digest(&mut x);
    d.digest(&mut x);
    e.digest(&mut x);
    f.digest(&mut x);
    g.digest(&mut x);
    h.digest(&mut x);
    i.digest(&mut x);
    j.digest(&mut x);
    x
}

/// Called differently in C.
#[ffi_export(rename = "vx_new_name")]
pub fn vx_old_name(a: u32, b: u32) -> u32 {
    a.wrapping_sub(b)
}

/// Takes nothing, gives nothing.
#[ffi_export]
pub fn vx_nothing() {
    crate::sched::yield_point();
}

#[ffi_export]
pub fn vx_get_fn(which: bool) -> Fp {
    if which { twice } else { thrice }
}
#[ffi_export]
pub fn vx_mb_fn(which: u8) -> Option<Fp> {
    [None, Some(twice as Fp), Some(thrice as Fp)][which as usize % 3]
}
#[ffi_export]
pub fn vx_call_fn(f: extern "C" fn(u8, i64, *const VxSmall) -> u64, a: u8, b: i64, c: &VxSmall) -> u64 {
    f(a, b, c)
}

#[ffi_export]
pub fn vx_max<'a>(xs: c_slice::Ref<'a, i32>) -> Option<&'a i32> {
    xs.as_slice().iter().max()
}
#[ffi_export]
pub fn vx_reverse(mut xs: c_slice::Mut<'_, VxSmall>) {
    xs.reverse()
}
#[ffi_export]
pub fn vx_boxed_slice(n: usize, seed: u64) -> c_slice::Box<VxMix> {
    let mut r = Rng::new(seed);
    (0..n).map(|_| VxMix::make(&mut r)).collect::<Box<[_]>>().into()
}
#[ffi_export]
pub fn vx_mb_boxed_slice(n: usize, seed: u64) -> Option<c_slice::Box<VxMix>> {
    (n > 0).then(|| vx_boxed_slice(n, seed))
}
#[ffi_export]
pub fn vx_free_boxed_slice(xs: c_slice::Box<VxMix>) {
    drop(xs)
}
#[ffi_export]
pub fn vx_vec(n: usize, seed: u64) -> repr_c::Vec<u16> {
    let mut r = Rng::new(seed);
    let mut v = Vec::with_capacity(n + 3);
    v.extend((0..n).map(|_| u16::make(&mut r)));
    v.into()
}
#[ffi_export]
pub fn vx_push(v: &'_ mut repr_c::Vec<u16>, x: u16) {
    v.with_rust_mut(|v| v.push(x))
}
#[ffi_export]
pub fn vx_free_vec(v: repr_c::Vec<u16>) -> u64 {
    let v: Vec<u16> = v.into();
    v.iter().fold(0, |a: u64, x| a.wrapping_mul(31).wrapping_add(*x as u64))
}

#[ffi_export]
pub fn vx_concat(fst: char_p::Ref<'_>, snd: char_p::Ref<'_>) -> char_p::Box {
    let (a, b) = (fst.to_str(), snd.to_str());
    crate::sched::yield_point();
    format!("{a}{b}").try_into().unwrap()
}
#[ffi_export]
pub fn vx_free_char_p(s: Option<char_p::Box>) -> usize {
    s.map_or(usize::MAX, |s| s.to_bytes().len())
}
#[ffi_export]
pub fn vx_upper(s: str::Ref<'_>) -> repr_c::String {
    s.as_str().to_uppercase().into()
}
#[ffi_export]
pub fn vx_boxed_str(s: str::Ref<'_>) -> str::Box {
    s.as_str().to_string().into_boxed_str().into()
}
#[ffi_export]
pub fn vx_free_str(s: str::Box) -> usize {
    s.as_ref().as_str().len()
}
#[ffi_export]
pub fn vx_append(s: &'_ mut repr_c::String, more: str::Ref<'_>) {
    s.with_rust_mut(|s| s.push_str(more.as_str()))
}
#[ffi_export]
pub fn vx_free_string(s: repr_c::String) -> usize {
    s.len()
}

#[ffi_export]
pub fn vx_opaque_new(n: u64) -> repr_c::Box<VxOpaque> {
    Box::new(VxOpaque { tok: crate::props::Token::new("opaque"), n }).into()
}
#[ffi_export]
pub fn vx_opaque_add(o: &'_ mut VxOpaque, n: u64) -> u64 {
    o.tok.touch("from C");
    crate::sched::yield_point();
    o.n = o.n.wrapping_add(n);
    o.n
}
#[ffi_export]
pub fn vx_opaque_get(o: Option<&'_ VxOpaque>) -> u64 {
    o.map_or(u64::MAX, |o| {
        o.tok.touch("from C");
        o.n
    })
}
#[ffi_export]
pub fn vx_opaque_free(o: Option<repr_c::Box<VxOpaque>>) {
    drop(o)
}
#[ffi_export]
pub fn vx_opaque_generic_new(n: u64) -> repr_c::Box<VxOpaqueGeneric<u64>> {
    Box::new(VxOpaqueGeneric { hidden: n }).into()
}
#[ffi_export]
pub fn vx_opaque_generic_free(o: repr_c::Box<VxOpaqueGeneric<u64>>) -> u64 {
    let b: Box<_> = o.into();
    b.hidden
}
#[ffi_export]
pub fn vx_std_new(n: usize) -> repr_c::Box<String> {
    Box::new("z".repeat(n)).into()
}
#[ffi_export]
pub fn vx_std_free(s: repr_c::Box<String>) -> usize {
    let s: Box<String> = s.into();
    s.len()
}
/// Frees what files in **/* have */ been
#[ffi_export]
pub fn r#vx_raw_fn(r#in: VxRaw, r#match: u8, r#type: &'_ VxRaw) -> u64 {
    digest_of(&r#in) ^ r#match as u64 ^ r#type.r#match
}
/// Parameters that are patterns, and some called what those might get called.
#[ffi_export]
pub fn vx_patterns(__arg_1: u32, VxSmall { x, y: _ }: VxSmall, _: u16, mut y: u64, __arg_2: u8, _: VxColor) -> u64 {
    y = y.wrapping_add(__arg_1 as u64);
    y ^ x as u16 as u64 ^ (__arg_2 as u64) << 32
}
/// An opaque type whose name is long.
#[ffi_export]
pub fn vx_nested_new(k: u8, n: usize) -> repr_c::Box<std::sync::Mutex<std::collections::BTreeMap<u8, Vec<(u8, u16)>>>> {
    Box::new(std::sync::Mutex::new([(k, vec![(k, 3); n])].into_iter().collect())).into()
}
#[ffi_export]
pub fn vx_nested_free(b: repr_c::Box<std::sync::Mutex<std::collections::BTreeMap<u8, Vec<(u8, u16)>>>>, k: u8) -> usize {
    let b: Box<std::sync::Mutex<_>> = b.into();
    let n = b.lock().unwrap().get(&k).map_or(usize::MAX, |v: &Vec<(u8, u16)>| v.len());
    n
}
#[ffi_export]
pub fn vx_opaque_pair(p: Option<&'_ Vec<((u8, [u16; 3]), fn(&'static str, u8) -> u32)>>) -> usize {
    p.map_or(77, |p| p.len())
}
#[ffi_export]
pub fn vx_opaque_const(p: Option<&'_ VxOpaqueConst<-3, 'x', Vec<u8>>>, q: Option<&'_ VxOpaqueConst<3, 'x', Vec<u8>>>) -> u8 {
    p.map_or(5, |p| p.hidden.len() as u8) + q.map_or(6, |q| q.hidden.len() as u8)
}
#[ffi_export]
pub fn vx_box_new(seed: u64) -> repr_c::Box<VxMix> {
    Box::new(make_of::<VxMix>(seed)).into()
}
#[ffi_export]
pub fn vx_box_free(b: repr_c::Box<VxMix>) -> u64 {
    digest_of(&*b)
}

#[ffi_export]
pub fn vx_call_ref(mut f: RefDynFnMut2<'_, u64, u8, i64>, n: u8) -> u64 {
    (0..n).fold(7, |x, i| {
        crate::sched::yield_point();
        f.call(i, x as i64)
    })
}
use safer_ffi::closure::{ArcDynFn1, BoxDynFnMut1, RefDynFnMut2};
#[ffi_export]
pub fn vx_call_box(mut f: BoxDynFnMut1<u64, u32>, n: u32) -> u64 {
    f.call(n)
}
#[ffi_export]
pub fn vx_make_arc(tag: u64) -> ArcDynFn1<u64, u64> {
    let tok = crate::props::Token::new("closure environment");
    std::sync::Arc::new(move |x: u64| {
        tok.touch("in a closure called from C");
        tag.wrapping_mul(31).wrapping_add(x)
    })
    .into()
}
#[ffi_export]
pub fn vx_call_arc(f: ArcDynFn1<u64, u64>, x: u64) -> u64 {
    let g = f.clone();
    drop(f);
    crate::sched::yield_point();
    g.call(x)
}

#[ffi_export]
pub fn vx_tagged(x: i64) -> TaggedOption<i64> {
    if x < 0 { TaggedOption::None } else { TaggedOption::Some(x / 2) }
}
use safer_ffi::option::TaggedOption;
#[ffi_export]
pub fn vx_untag(x: TaggedOption<VxSmall>) -> u64 {
    match x {
        TaggedOption::None => 1,
        TaggedOption::Some(s) => digest_of(&s),
    }
}
#[ffi_export]
pub fn vx_bytes(seed: u64, n: usize) -> safer_ffi::bytes::Bytes<'static> {
    let mut r = Rng::new(seed);
    (0..n).map(|_| u8::make(&mut r)).collect::<Vec<u8>>().into()
}
#[ffi_export]
pub fn vx_bytes_sum(b: safer_ffi::bytes::Bytes<'_>) -> u64 {
    b.as_slice().iter().fold(b.len() as u64, |a, x| a.wrapping_mul(131).wrapping_add(*x as u64))
}

#[ffi_export(executor = block_on)]
pub async fn vx_async(a: u64, b: VxSmall) -> u64 {
    let x = a.wrapping_add(b.x as u64);
    ffi_await!(async move {
        YieldOnce(false).await;
        x.wrapping_mul(3).wrapping_add(b.y as u64)
    })
}
#[ffi_export(executor = block_on, rename = "vx_async_new_name")]
pub async fn vx_async_old_name(a: u32) -> u32 {
    ffi_await!(async move { a.rotate_left(5) })
}
pub struct YieldOnce(pub bool);
impl std::future::Future for YieldOnce {
    type Output = ();
    fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<()> {
        if std::mem::replace(&mut self.0, true) {
            return std::task::Poll::Ready(());
        }
        cx.waker().wake_by_ref();
        std::task::Poll::Pending
    }
}
/// A simulated thread that waits is one that lets others run.
pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    let waker = futures::task::noop_waker();
    let mut cx = std::task::Context::from_waker(&waker);
    loop {
        if let std::task::Poll::Ready(x) = f.as_mut().poll(&mut cx) {
            return x;
        }
        crate::sched::yield_point();
    }
}

// --- header generation --------------------------------------------------------------------------
pub use safer_ffi::headers::Language;
pub fn header(lang: Language) -> std::io::Result<Vec<u8>> {
    untracked(|| {
        std::env::set_var("CARGO_CRATE_NAME", "vx_peer");
        let mut out = Vec::new();
        safer_ffi::headers::builder()
            .with_language(lang)
            .to_writer(&mut out)
            .generate()?;
        Ok(out)
    })
}
// --- function pointers in every position --------------------------------------------------------
#[ffi_export]
pub fn vx_fns(fs: c_slice::Ref<'_, Fp>, x: u8) -> u64 {
    fs.as_slice().iter().fold(0, |a, f| a * 1000 + f(x) as u64)
}
pub type Getter = extern "C" fn(bool) -> Fp;
pub extern "C" fn getter(which: bool) -> Fp { vx_get_fn(which) }
#[ffi_export]
pub fn vx_get_getter() -> Getter {
    getter
}
#[ffi_export]
pub fn vx_use_getter(g: Getter, which: bool, x: u8) -> u16 {
    g(which)(x)
}
#[ffi_export]
pub fn vx_fn_behind(f: &'_ Fp, g: &'_ mut Fp) -> u16 {
    *g = *f;
    g(4)
}
exports! {
    isize, vx_echo_isize vx_digest_isize vx_make_isize vx_read_isize vx_fill_isize vx_swap_isize;
}
// --- one name, two modules ----------------------------------------------------------------------
pub mod east {
    use super::*;
    #[ffi_export]
    #[derive_ReprC(rename = "vx_twin_east")]
    #[repr(C)]
    #[derive(Clone, Copy)]
    pub struct VxTwin {
        pub e: u16,
    }
    #[ffi_export(rename = "vx_twin_fn_east")]
    pub fn vx_twin(x: u32) -> u32 {
        x ^ 1
    }
}
pub mod west {
    use super::*;
    #[ffi_export]
    #[derive_ReprC(rename = "vx_twin_west")]
    #[repr(C)]
    #[derive(Clone, Copy)]
    pub struct VxTwin {
        pub w: u32,
        pub more: i8,
    }
    #[ffi_export(rename = "vx_twin_fn_west")]
    pub fn vx_twin(x: u32) -> u32 {
        x ^ 2
    }
}
// --- types that one mention alone brings in -------------------------------------------------------
/// Every structure here is mentioned in one place, each in another kind of place.
pub mod only {
    use super::*;
    use safer_ffi::closure::{ArcDynFn2, BoxDynFnMut0, BoxDynFnMut3, RefDynFnMut2};
    macro_rules! only {($($T:ident)*) => {$(
        #[derive_ReprC]
        #[repr(C)]
        #[derive(Clone, Copy, Debug, Default, PartialEq)]
        pub struct $T {
            pub n: u16,
            pub k: u8,
        }
    )*}}
    only! {
        OnlyFnArg0 OnlyFnArg1 OnlyFnArg2 OnlyFnArg8 OnlyFnRet OnlyFnInFn OnlyFnOfFn
        OnlyRef OnlyMut OnlyConstPtr OnlyMutPtr OnlyMbRef OnlyMbMut OnlyBox OnlyMbBox OnlyOut OnlyRefRef
        OnlyArray OnlyArrays OnlyFieldPtr OnlyFieldFn OnlyField OnlyLastField
        OnlySliceRef OnlySliceMut OnlySliceRaw OnlySliceBox OnlyVec OnlyMbSlice OnlySliceOfRefs
        OnlyBoxFnRet OnlyBoxFnArg OnlyRefFnArg OnlyArcFnArg OnlyMbFnArg
        OnlyTagged OnlyTuple OnlyTuple6 OnlyTransparent OnlyGenericFst OnlyGenericSnd OnlyAsync OnlyAsyncRet
        OnlyArg6 OnlyRet
    }
    macro_rules! only_enum {($($T:ident)*) => {$(
        #[derive_ReprC]
        #[repr(u8)]
        #[derive(Clone, Copy, Debug, PartialEq)]
        pub enum $T {
            Yes = 1,
            No,
        }
    )*}}
    only_enum! { OnlyEnumArray OnlyEnumFnArg OnlyEnumField OnlyEnumSlice OnlyEnumFnRet OnlyEnumTagged }

    #[ffi_export]
    pub fn vx_only_fn_args(f: extern "C" fn(OnlyFnArg0, OnlyFnArg1, OnlyFnArg2) -> OnlyFnRet) -> bool {
        let _ = f;
        true
    }
    #[ffi_export]
    pub fn vx_only_fn_args9(f: Option<extern "C" fn(u8, u8, u8, u8, u8, u8, u8, u8, OnlyFnArg8)>) -> bool {
        f.is_some()
    }
    #[ffi_export]
    pub fn vx_only_fn_in_fn(f: Option<extern "C" fn(u8, extern "C" fn(u8, OnlyFnInFn)) -> extern "C" fn(OnlyFnOfFn, u8)>) -> bool {
        f.is_some()
    }
    #[ffi_export]
    pub fn vx_only_pointers(
        a: &'_ OnlyRef,
        b: &'_ mut OnlyMut,
        c: *const OnlyConstPtr,
        d: *mut OnlyMutPtr,
        e: Option<&'_ OnlyMbRef>,
        f: Option<&'_ mut OnlyMbMut>,
    ) -> u32 {
        let _ = (c, d);
        a.n as u32 + b.n as u32 + e.map_or(0, |e| e.n as u32) + f.map_or(0, |f| f.n as u32)
    }
    #[ffi_export]
    pub fn vx_only_boxes(a: Option<repr_c::Box<OnlyMbBox>>, b: Option<Out<'_, OnlyOut>>, c: *const *mut OnlyRefRef) -> repr_c::Box<OnlyBox> {
        let _ = (a, c);
        if let Some(b) = b {
            b.write(OnlyOut { n: 1, k: 2 });
        }
        Box::new(OnlyBox { n: 3, k: 4 }).into()
    }
    #[ffi_export]
    pub fn vx_only_box_free(b: repr_c::Box<OnlyBox>) -> u16 {
        b.n
    }
    #[derive_ReprC]
    #[repr(C)]
    #[derive(Clone, Copy)]
    pub struct VxOnlyFields {
        pub array: [OnlyArray; 4],
        pub arrays: [[OnlyArrays; 2]; 3],
        pub ptr: *const OnlyFieldPtr,
        pub f: Option<extern "C" fn(u8, *const OnlyFieldFn) -> bool>,
        pub field: OnlyField,
        pub enums: [OnlyEnumArray; 5],
        pub e: OnlyEnumField,
        pub last: OnlyLastField,
    }
    #[ffi_export]
    pub fn vx_only_fields(x: &'_ VxOnlyFields) -> usize {
        x.array.len() + x.arrays.len() + x.f.is_some() as usize
    }
    #[ffi_export]
    pub fn vx_only_slices(
        a: c_slice::Ref<'_, OnlySliceRef>,
        b: c_slice::Mut<'_, OnlySliceMut>,
        c: c_slice::Raw<OnlySliceRaw>,
        d: Option<c_slice::Ref<'_, OnlyMbSlice>>,
        e: c_slice::Ref<'_, &'_ OnlySliceOfRefs>,
        f: c_slice::Ref<'_, OnlyEnumSlice>,
    ) -> usize {
        let _ = c;
        a.len() + b.len() + d.map_or(0, |d| d.len()) + e.len() + f.len()
    }
    #[ffi_export]
    pub fn vx_only_slice_box(n: usize) -> c_slice::Box<OnlySliceBox> {
        vec![OnlySliceBox::default(); n].into_boxed_slice().into()
    }
    #[ffi_export]
    pub fn vx_only_slice_box_free(b: c_slice::Box<OnlySliceBox>) -> usize {
        b.len()
    }
    #[ffi_export]
    pub fn vx_only_vec_free(v: repr_c::Vec<OnlyVec>) -> usize {
        v.len()
    }
    #[ffi_export]
    pub fn vx_only_closures(
        a: BoxDynFnMut0<OnlyBoxFnRet>,
        b: BoxDynFnMut3<(), u8, u8, OnlyBoxFnArg>,
        c: RefDynFnMut2<'_, OnlyEnumFnRet, u8, OnlyRefFnArg>,
        d: ArcDynFn2<(), OnlyEnumFnArg, *const OnlyArcFnArg>,
        e: Option<BoxDynFnMut3<(), u8, u16, OnlyMbFnArg>>,
    ) -> bool {
        let _ = (a, b, c, d);
        e.is_some()
    }
    #[ffi_export]
    pub fn vx_only_tagged(a: TaggedOption<OnlyTagged>, b: TaggedOption<OnlyEnumTagged>) -> bool {
        matches!(a, TaggedOption::Some(_)) && matches!(b, TaggedOption::Some(_))
    }
    #[ffi_export]
    pub fn vx_only_tuples(a: safer_ffi::tuple::Tuple2<u8, OnlyTuple>, b: &'_ safer_ffi::tuple::Tuple6<u8, u8, u8, u8, u8, OnlyTuple6>) -> u8 {
        a._1.k + b._5.k
    }
    #[derive_ReprC]
    #[repr(transparent)]
    #[derive(Clone, Copy)]
    pub struct OnlyThrough {
        pub inner: OnlyTransparent,
    }
    #[ffi_export]
    pub fn vx_only_wrapped(a: OnlyThrough, b: VxGeneric<OnlyGenericFst, u8>, c: &'_ VxGeneric<u8, OnlyGenericSnd>) -> u8 {
        a.inner.k + b.fst.k + c.snd.k
    }
    #[ffi_export(executor = block_on)]
    pub async fn vx_only_async(a: u8, b: OnlyAsync) -> OnlyAsyncRet {
        let n = b.n;
        ffi_await!(async move { OnlyAsyncRet { n, k: a } })
    }
    #[ffi_export]
    pub fn vx_only_args(a: u8, b: u8, c: u8, d: u8, e: u8, f: u8, g: OnlyArg6) -> OnlyRet {
        OnlyRet { n: g.n, k: a ^ b ^ c ^ d ^ e ^ f }
    }
}
// --- functions that panic, for X01 ----------------------------------------------------------------
/// What a careless implementation does.
pub fn blow(kind: u8) {
    match kind {
        0 => {}
        1 => panic!("out of luck"),
        2 => std::panic::panic_any(kind),
        3 => std::panic::resume_unwind(Box::new("no hook")),
        4 => {
            let v = std::hint::black_box(vec![1u8]);
            std::hint::black_box(v[std::hint::black_box(4)]);
        }
        5 => {
            std::hint::black_box(std::hint::black_box(None::<u32>).unwrap());
        }
        6 => {
            std::hint::black_box(7 / std::hint::black_box(0u32));
        }
        _ => {
            std::hint::black_box(std::cell::RefCell::new(1)).try_borrow_mut().map(|_a| ()).unwrap();
            std::hint::black_box(std::str::from_utf8(std::hint::black_box(b"\xff"))).unwrap();
        }
    }
}
#[ffi_export]
pub fn vx_blow(kind: u8, n: u32) -> u32 {
    blow(kind);
    n.wrapping_add(1)
}
#[ffi_export(rename = "vx_blow_renamed")]
pub fn vx_blow_old_name(kind: u8, n: u32) -> VxNest {
    let v = std::hint::black_box(vec![kind; 3]);
    blow(v[1]);
    make_of(n as u64)
}
#[ffi_export]
pub fn vx_blow_unit(kind: u8) {
    blow(kind)
}
#[ffi_export(executor = block_on)]
pub async fn vx_blow_async(kind: u8, when: u8, n: u32) -> u32 {
    if when == 0 {
        blow(kind);
    }
    ffi_await!(async move {
        if when == 1 {
            blow(kind);
        }
        YieldOnce(false).await;
        if when == 2 {
            blow(kind);
        }
        n.wrapping_add(1)
    })
}
#[derive_ReprC]
#[repr(opaque)]
pub struct VxBomb {
    pub kind: u8,
}
impl Drop for VxBomb {
    fn drop(&mut self) {
        blow(self.kind)
    }
}
#[ffi_export]
pub fn vx_bomb_new(kind: u8) -> repr_c::Box<VxBomb> {
    Box::new(VxBomb { kind }).into()
}
/// The argument's destructor is the one to panic.
#[ffi_export]
pub fn vx_bomb_free(bomb: repr_c::Box<VxBomb>, n: u32) -> u32 {
    let _ = &bomb;
    n.wrapping_add(1)
}
/// A function of the library that calls back, and is called back from there.
#[ffi_export]
pub fn vx_blow_through(f: extern "C" fn(u8, u32) -> u32, kind: u8, n: u32) -> u32 {
    f(kind, n)
}
/// Copes with its own panics.
#[ffi_export]
pub fn vx_blow_caught(kind: u8, n: u32) -> u32 {
    n.wrapping_add(std::panic::catch_unwind(|| blow(kind)).is_err() as u32 * 100)
}
