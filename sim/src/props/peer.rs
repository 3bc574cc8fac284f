//! L01: the C header describes the library that was built.
//!
//! The header is generated in the process, by the code under test, for the exported items of
//! `exports.rs`; a real C compiler compiles `peer/peer.c` against it; simulated threads then run
//! that C program, which yields to the scheduler in the middle of its sequences of calls.

use super::obj;
use super::Prop;
use crate::ctx::*;
use crate::exports::*;
use crate::track::untracked;
use crate::{check, ev, sched};
use safer_ffi::layout::{self, CLayoutOf, ReprC};
use std::ffi::{c_char, c_int, c_void, CStr, CString};
use std::path::{Path, PathBuf};
use std::sync::OnceLock;

extern "C" {
    fn dlopen(path: *const c_char, flags: c_int) -> *mut c_void;
    fn dlsym(lib: *mut c_void, name: *const c_char) -> *mut c_void;
    fn dlerror() -> *const c_char;
}

/// The loaded C program, and the C++ one.
pub struct Peer(usize, usize);
const SOURCE: &str = include_str!("../../peer/peer.c");
const SOURCE_CPP: &str = include_str!("../../peer/peer.cpp");

fn hash(parts: &[&[u8]]) -> u64 {
    parts.iter().flat_map(|p| p.iter()).fold(0xcbf29ce484222325u64, |h, b| (h ^ *b as u64).wrapping_mul(0x100000001b3))
}
/// A directory of the machinery's own, for what the compiler makes.
pub fn scratch() -> PathBuf {
    let d = match std::env::var_os("CARGO_TARGET_DIR") {
        Some(d) => PathBuf::from(d).join("peer"),
        None => std::env::temp_dir().join("verif-peer"),
    };
    let _ = std::fs::create_dir_all(&d);
    d
}
pub fn cc(compiler: &str, args: &[&str], files: &[(&str, &[u8])], out: &Path) -> Result<(), String> {
    static N: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
    let n = N.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    let dir = scratch().join(format!("tmp-{}-{n}", std::process::id()));
    std::fs::create_dir_all(&dir).map_err(|e| format!("cannot make {dir:?}: {e}"))?;
    let result = (|| {
        for (name, text) in files {
            std::fs::write(dir.join(name), text).map_err(|e| format!("cannot write {name}: {e}"))?;
        }
        let o = std::process::Command::new(compiler)
            .args(args)
            .arg("-o")
            .arg(dir.join("out"))
            .arg(files[0].0)
            .current_dir(&dir)
            .output()
            .map_err(|e| format!("cannot run {compiler}: {e}"))?;
        if !o.status.success() {
            let e = String::from_utf8_lossy(&o.stderr);
            let first: Vec<&str> = e.lines().filter(|l| l.contains("error")).take(4).collect();
            return Err(format!("does not compile: {}", first.join(" | ")));
        }
        std::fs::rename(dir.join("out"), out).map_err(|e| format!("cannot keep the library: {e}"))
    })();
    let _ = std::fs::remove_dir_all(&dir);
    result
}

fn compiled(compiler: &str, args: &[&str], name: &str, source: &str, header: &[u8], what: &str) -> Result<usize, String> {
    let so = scratch().join(format!("{:016x}.so", hash(&[header, source.as_bytes()])));
    if !so.exists() {
        cc(compiler, args, &[(name, source.as_bytes()), ("vx.h", header)], &so).map_err(|e| format!("a {what} program that uses the header {e}"))?;
    }
    let path = CString::new(so.to_str().unwrap()).unwrap();
    const RTLD_NOW: c_int = 2;
    let lib = unsafe { dlopen(path.as_ptr(), RTLD_NOW) };
    if lib.is_null() {
        let e = unsafe { CStr::from_ptr(dlerror()) }.to_string_lossy().into_owned();
        // Without the path, which differs from place to place.
        return Err(format!("a {what} program that uses the header does not link: {}", e.rsplit(": ").next().unwrap_or("")));
    }
    Ok(lib as usize)
}
fn load() -> Result<Peer, String> {
    let header = header(Language::C).map_err(|e| format!("the header could not be generated: {e}"))?;
    let c = compiled("gcc", &["-std=gnu11", "-O1", "-w", "-fPIC", "-shared"], "peer.c", SOURCE, &header, "C")?;
    let cpp = compiled("g++", &["-O1", "-w", "-fPIC", "-shared"], "peer.cpp", SOURCE_CPP, &header, "C++")?;
    Ok(Peer(c, cpp))
}
pub fn peer() -> &'static Result<Peer, String> {
    static PEER: OnceLock<Result<Peer, String>> = OnceLock::new();
    untracked(|| PEER.get_or_init(|| untracked(load)))
}
impl Peer {
    fn sym(&self, name: &str) -> *mut c_void {
        untracked(|| {
            let c = CString::new(name).unwrap();
            let p = unsafe { dlsym(if name.starts_with("cpp_") { self.1 } else { self.0 } as _, c.as_ptr()) };
            assert!(!p.is_null(), "peer.c lacks {name}");
            p
        })
    }
    /// # Safety: `F` must be the type of the function in `peer.c`.
    unsafe fn f<F: Copy>(&self, name: &str) -> F {
        assert!(std::mem::size_of::<F>() == std::mem::size_of::<usize>());
        std::mem::transmute_copy(&self.sym(name))
    }
    fn text(&self, p: *const c_char, what: &str) {
        if !p.is_null() {
            let t = untracked(|| unsafe { CStr::from_ptr(p) }.to_string_lossy().into_owned());
            // The line of `peer.c` says which expectation of which type it was.
            violate("wrong-in-c", untracked(|| format!("{what}: {t}")));
            untracked(|| drop(t));
        }
        let broken = unsafe { self.f::<extern "C" fn() -> *const c_char>("c_broken")() };
        if !broken.is_null() {
            let t = untracked(|| unsafe { CStr::from_ptr(broken) }.to_string_lossy().into_owned());
            violate("wrong-callback", untracked(|| format!("{what}: {t}")));
            untracked(|| drop(t));
        }
    }
    pub fn call_catching(&self, f: extern "C" fn(*mut c_void) -> u32, env: *mut c_void, out: &mut u32) -> c_int {
        unsafe { self.f::<extern "C" fn(extern "C" fn(*mut c_void) -> u32, *mut c_void, &mut u32) -> c_int>("cpp_call_catching")(f, env, out) }
    }
    fn scenario(&self, name: &'static str) {
        let seed = choose(1 << 40);
        ev!("{name} {seed}");
        let r = unsafe { self.f::<extern "C" fn(u64) -> *const c_char>(name)(seed) };
        self.text(r, name);
    }
}

extern "C" fn sim_yield() {
    sched::yield_point()
}

/// The same value on both sides, its sizes, and its way over the boundary, by value and behind a
/// pointer, in both directions.
fn same_layout<T: ReprC>(p: &Peer, kind: &'static str) {
    let name = untracked(|| format!("c_layout_{kind}"));
    let l = unsafe { p.f::<extern "C" fn() -> usize>(&name)() };
    untracked(|| drop(name));
    let (size, align) = (std::mem::size_of::<T>(), std::mem::align_of::<T>());
    check!(l == size << 16 | align, "layout", "{kind}: {size} bytes aligned to {align} in Rust, {} bytes aligned to {} in C", l >> 16, l & 0xFFFF);
    let (size2, align2) = (std::mem::size_of::<CLayoutOf<T>>(), std::mem::align_of::<CLayoutOf<T>>());
    check!((size, align) == (size2, align2), "layout", "{kind}: its C counterpart in Rust has {size2} bytes aligned to {align2}, not {size} and {align}");
}
fn there_and_back<T: Val + ReprC + 'static>(p: &Peer, kind: &'static str) {
    let (seed, seed2) = (choose(1 << 40), choose(1 << 40));
    ev!("value {kind} {seed} {seed2}");
    let name = |prefix: &str| untracked(|| format!("{prefix}{kind}"));
    unsafe {
        let mine: T = make_of(seed);
        let d = digest_of(&mine);
        let got = p.f::<extern "C" fn(CLayoutOf<T>) -> u64>(&name("c_digest_"))(layout::into_raw(make_of::<T>(seed)));
        check!(got == d, "wrong-value", "{kind} by value to C: made from {seed}, another value arrived");
        let got = p.f::<extern "C" fn(*const T) -> u64>(&name("c_read_"))(&mine);
        check!(got == d, "wrong-value", "{kind} behind a pointer to C: made from {seed}, another value arrived");
        let raw = p.f::<extern "C" fn(u64) -> CLayoutOf<T>>(&name("c_make_"))(seed);
        match layout::from_raw::<T>(raw) {
            None => violate("wrong-value", untracked(|| format!("{kind} by value from C: made from {seed}, refused as invalid"))),
            Some(v) => {
                check!(digest_of(&v) == d, "wrong-value", "{kind} by value from C: made from {seed}, another value arrived");
            }
        }
        let r = p.f::<extern "C" fn(u64, u64) -> *const c_char>(&name("c_cycle_"))(seed, seed2);
        p.text(r, kind);
    }
}
fn fields<T: Fields>(p: &Peer, kind: &'static str) {
    untracked(|| {
        let mut v = vec![];
        T::layout(&mut v);
        let f = unsafe { p.f::<extern "C" fn(*const c_char) -> usize>(&format!("c_field_{kind}")) };
        for (name, at) in v {
            let c = CString::new(name).unwrap();
            let got = f(c.as_ptr());
            check!(got >> 16 == at, "layout", "{kind}.{name} is at byte {at} in Rust and {} in C", got >> 16);
        }
    })
}
macro_rules! types {($($T:ty, $kind:ident;)*) => {
    const KINDS: &[(&str, fn(&Peer, &'static str), fn(&Peer, &'static str))] = &[$((stringify!($kind), same_layout::<$T>, there_and_back::<$T>)),*];
}}
types! {
    u8, u8; u16, u16; u32, u32; u64, u64; usize, usize;
    i8, i8; i16, i16; i32, i32; i64, i64; isize, isize;
    f32, f32; f64, f64; bool, bool;
    VxMix, mix; VxSmall, small; VxFloats, floats;
    VxColor, color; VxSigned, signed; VxWide, wide; VxInt, eint; VxPlain, plain; VxRenamedEnum, renum;
    VxBits, bits; VxFull, full; VxTop, top; VxRaw, raw; VxConst3, const3; VxConst16, const16;
    VxNest, nest; VxRenamed, renamed; VxPtrs, ptrs;
    VxGenericByteLong, gen; VxGenericNested, gennest; VxPhantom, phantom;
    VxTransparent, transp; VxTransparentStruct, transps; VxTup, tup;
}
fn all_fields(p: &Peer) {
    fields::<VxMix>(p, "mix");
    fields::<VxSmall>(p, "small");
    fields::<VxFloats>(p, "floats");
    fields::<VxNest>(p, "nest");
    fields::<VxRenamed>(p, "renamed");
    fields::<VxPtrs>(p, "ptrs");
    fields::<VxGenericByteLong>(p, "gen");
    fields::<VxGenericNested>(p, "gennest");
    fields::<VxPhantom>(p, "phantom");
    fields::<VxTup>(p, "tup");
    fields::<VxRaw>(p, "rawids");
    fields::<VxConst3>(p, "const3");
    fields::<VxConst16>(p, "const16");
}
/// What the header's enumerators and constants are.
fn numbers(p: &Peer) {
    use std::mem::size_of_val;
    let at = |f: fn(*const VxAlone) -> usize| {
        let u = std::mem::MaybeUninit::<VxAlone>::uninit();
        f(u.as_ptr()) - u.as_ptr() as usize
    };
    let want: Vec<i64> = untracked(|| vec![
        VxColor::Red as i64, VxColor::DarkGreen as i64, VxColor::Blue as i64, VxColor::Last as i64,
        VxSigned::Low as i64, VxSigned::Minus as i64, VxSigned::Zero as i64, VxSigned::Up as i64,
        VxWide::A as i64, VxWide::B as i64, VxWide::C as i64,
        VxInt::Neg as i64, VxInt::Pos as i64, VxInt::Next as i64,
        VxPlain::One as i64, VxPlain::Two as i64, VxPlain::Nine as i64,
        VxRenamedEnum::FirstOne as i64, VxRenamedEnum::SecondOne as i64, VxRenamedEnum::Third as i64,
        VX_ANSWER as i64, VX_MINUS, VX_BYTE as i64, VX_BIG as i64, VX_YES as i64, (VX_RATIO * 1000.) as i64, VX_UNTYPED as i64,
        size_of_val(&VX_ANSWER) as i64, size_of_val(&VX_MINUS) as i64, size_of_val(&VX_BYTE) as i64,
        size_of_val(&VX_BIG) as i64, size_of_val(&VX_YES) as i64, size_of_val(&VX_RATIO) as i64,
        at(|p| unsafe { std::ptr::addr_of!((*p).what) as usize }) as i64,
        at(|p| unsafe { std::ptr::addr_of!((*p).items) as usize }) as i64,
        at(|p| unsafe { std::ptr::addr_of!((*p).slice) as usize }) as i64,
        std::mem::size_of::<VxAlone>() as i64, 5, std::mem::size_of::<VxFloats>() as i64,
        VX_TEXT.len() as i64,
        VxBits::Low as i64, VxBits::Sign as i64, VxBits::High as i64, VxBits::After as i64,
        VxFull::Nil as i64, VxFull::Most as i64, VxFull::All as i64, VxTop::Bottom as i64, VxTop::Top as i64,
        VX_HALF.to_bits() as i64, VX_TINY.to_bits() as i64, VX_HUGE.to_bits() as i64, VX_INF.to_bits() as i64,
        VX_MINUS_INF.to_bits() as i64, 1, VX_NO as i64, VX_RAW as i64, VX_LOWEST as i64, VX_ODD_TEXT.len() as i64 + 1,
        size_of_val(&VX_HALF) as i64, size_of_val(&VX_INF) as i64, size_of_val(&VX_MINUS_INF) as i64, size_of_val(&VX_RAW) as i64,
    ]);
    let f = unsafe { p.f::<extern "C" fn(c_int) -> i64>("c_number") };
    for (i, w) in want.iter().enumerate() {
        let got = f(i as c_int);
        check!(got == *w, "wrong-number", "number {i} of the header is {got} in C and {w} in Rust");
    }
    let t = unsafe { CStr::from_ptr(p.f::<extern "C" fn() -> *const c_char>("c_text")()) };
    check!(t.to_bytes() == VX_TEXT.as_bytes(), "wrong-number", "the text constant reads {t:?} in C");
    let odd = unsafe { std::slice::from_raw_parts(p.f::<extern "C" fn() -> *const u8>("c_odd_text")(), VX_ODD_TEXT.len()) };
    check!(odd == VX_ODD_TEXT.as_bytes(), "wrong-number", "a text constant reads {odd:?} in C");
    untracked(|| drop(want));
}

/// Rust's own calls into the exported functions' Rust side, to mix with C's.
fn rust_side() {
    let seed = choose(1 << 40);
    let v = vx_vec(pick(9), seed);
    sched::yield_point();
    let n = v.len();
    let mut v = v;
    vx_push(&mut v, 7);
    check!(v.len() == n + 1 && v[n] == 7, "wrong-value", "an exported function called from Rust lost what was pushed");
    vx_free_vec(v);
    let o = vx_opaque_new(seed);
    check!(vx_opaque_get(Some(&o)) == seed, "wrong-value", "an exported function called from Rust read another value");
    vx_opaque_free(Some(o));
}

const SCENARIOS: [&str; 9] = ["cpp_check", "c_many", "c_functions", "c_slices", "c_vec", "c_strings", "c_objects", "c_closures", "c_options"];

fn l01() {
    obj::reset();
    let p = match peer() {
        Ok(p) => p,
        Err(e) => {
            violate("unusable-header", untracked(|| e.clone()));
            return;
        }
    };
    unsafe {
        p.f::<extern "C" fn(*const u32, extern "C" fn(u8) -> u16, extern "C" fn(u8) -> u16, extern "C" fn())>("c_init")(
            WORDS.as_ptr(),
            twice,
            thrice,
            sim_yield,
        );
    }
    // First: values of different layouts must not be exchanged.
    for (kind, layout, _) in KINDS {
        layout(p, kind);
    }
    if choose(8) == 0 {
        numbers(p);
        all_fields(p);
    }
    if failed() {
        return;
    }
    let before = unsafe { p.f::<extern "C" fn() -> std::ffi::c_long>("c_envs")() };
    let s0 = choose(1 << 30);
    let r = unsafe { p.f::<extern "C" fn(u64) -> *const c_char>("c_setup")(s0) };
    p.text(r, "c_setup");
    let n = 1 + pick(3);
    let ops = obj::swarm(SCENARIOS.len(), &[]);
    obj::threads_anywhere(n, 12, 8, || match choose(4) {
        0 if !ops.is_empty() => p.scenario(SCENARIOS[ops[pick(ops.len())]]),
        1 => p.scenario("c_shared"),
        2 if choose(6) == 0 => rust_side(),
        _ => {
            let (kind, _, f) = KINDS[pick(KINDS.len())];
            f(p, kind);
        }
    });
    untracked(|| drop(ops));
    let r = unsafe { p.f::<extern "C" fn() -> *const c_char>("c_teardown")() };
    p.text(r, "c_teardown");
    if !failed() {
        let left = unsafe { p.f::<extern "C" fn() -> std::ffi::c_long>("c_envs")() } - before;
        check!(left == 0, "drop-count", "{left} closure environments of the C program were never freed");
        obj::all_dead();
    }
}

pub static PROPS: [Prop; 1] = [Prop {
    id: "L01",
    title: "C programs using the generated header agree with the library",
    run: l01,
    quick_runs: 200_000,
    thorough_runs: 6_000_000,
    warm_up: 2,
    wall_cap: 90,
    rule: "one run = one seed: 1-3 simulated threads over the C program, about 8-16 calls, each a sequence of crossings with values, lengths and orders from the seed; a scheduling decision before every call, inside the C program's sequences, its callbacks and the exported functions; distinct = different event log",
    real: "the headers' generator for C, #[ffi_export] and #[derive_ReprC] expansions, the C compiler and the platform's C ABI, every type that peer.c uses",
    stub: "the C program's decisions (from the seed), the thread scheduler, the executor of the exported async functions",
    assumptions: &["the installed gcc implements the platform's C ABI", "a C program that keeps to the types the header declares"],
}];
