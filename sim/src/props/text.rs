//! Text that crosses the FFI boundary: S01 (C strings), S02 (strings with a length).
//!
//! A C program is simulated byte by byte: it reads strings up to their terminator, hands out
//! strings from memory of its own, and keeps and returns the pointers it is given.

use super::obj::{self, Pool};
use super::Prop;
use crate::ctx::*;
use crate::track::untracked;
use crate::{attempt, check, ev, inject, sched, INJECTED};
use safer_ffi::layout;
use safer_ffi::prelude::*;
use std::ffi::{CStr, CString};

/// Text with the interesting places over-represented: empty, one NUL, NULs at the end, in the
/// middle, at the start; multi-byte characters; lengths around allocation sizes.
fn text() -> String {
    const BITS: [&str; 8] = ["a", "xyz", "é", "語", "\u{10FFFF}", "\u{1}", "\u{7f}", " "];
    let mut s = String::with_capacity(if choose(2) == 0 { 0 } else { pick(40) });
    let n = match choose(6) {
        0 => 0,
        1 => 1,
        2 => 40 + choose(60),
        _ => choose(12),
    };
    for _ in 0..n {
        s.push_str(BITS[pick(8)]);
    }
    match choose(8) {
        0 => s.push('\0'),
        1 => s.push_str("\0\0"),
        2 => s.insert(0, '\0'),
        3 => {
            let mut i = pick(s.len() + 1);
            while !s.is_char_boundary(i) {
                i -= 1;
            }
            s.insert(i, '\0');
        }
        _ => {}
    }
    s
}
/// What a C string made of `s` holds; None: `s` cannot be one.
fn as_c(s: &str) -> Option<String> {
    let body = s.strip_suffix('\0').unwrap_or(s);
    (!body.contains('\0')).then(|| body.to_string())
}
fn terminated(s: &str) -> Option<String> {
    if s.is_empty() {
        return Some(String::new());
    }
    let body = s.strip_suffix('\0')?;
    (!body.contains('\0')).then(|| body.to_string())
}

/// The simulated C program's strlen and memcpy.
unsafe fn c_read(p: *const u8) -> Vec<u8> {
    let mut v = vec![];
    let mut p = p;
    while *p != 0 {
        v.push(*p);
        p = p.add(1);
        if v.len() > 10_000 {
            violate("unterminated", "a C string has no terminator");
            break;
        }
    }
    v
}

struct Slot {
    s: char_p::Box,
    m: String,
}
static POOL: Pool<Slot> = Pool::new();

fn look(r: char_p::Ref<'_>, m: &str, what: &str) {
    check!(r.to_str() == m, "wrong-contents", "{what}: {:?} instead of {m:?}", r.to_str());
    check!(r.to_bytes() == m.as_bytes(), "wrong-contents", "{what}: the bytes of {m:?}");
    let z = r.to_bytes_with_null();
    check!(z.len() == m.len() + 1 && z[m.len()] == 0 && &z[..m.len()] == m.as_bytes(), "wrong-contents", "{what}: the bytes with terminator of {m:?}");
    check!(r.to_str_with_null().as_bytes() == z, "wrong-contents", "{what}: the text with terminator of {m:?}");
    check!(r.bytes().map(|b| b.get()).eq(m.bytes()), "wrong-contents", "{what}: iterating over {m:?}");
    check!(r.to_nonzero_bytes().iter().map(|b| b.get()).eq(m.bytes()), "wrong-contents", "{what}: the non-zero bytes of {m:?}");
    check!(format!("{r}") == m && format!("{r:?}") == format!("{m:?}") && r.to_string() == m, "wrong-contents", "{what}: formatting {m:?}");
}
fn look_box(s: &Slot, what: &str) {
    look(s.s.as_ref(), &s.m, what);
    let m = &*s.m;
    check!(s.s.to_str() == m && s.s.to_bytes() == m.as_bytes(), "wrong-contents", "{what}: {:?} instead of {m:?}", s.s.to_str());
    check!(s.s.to_bytes_with_null() == s.s.to_str_with_null().as_bytes() && s.s.to_bytes_with_null().len() == m.len() + 1, "wrong-contents", "{what}: the terminator of {m:?}");
    check!(s.s.bytes().count() == m.len() && s.s.to_nonzero_bytes().len() == m.len(), "wrong-contents", "{what}: the length of {m:?}");
    check!(format!("{}", s.s) == m && format!("{:?}", s.s) == format!("{m:?}"), "wrong-contents", "{what}: formatting {m:?}");
}

fn create() {
    let t = text();
    let want = as_c(&t);
    ev!("create from {t:?}");
    let made: Option<char_p::Box> = match choose(7) {
        0 => match char_p::Box::try_from(t.clone()) {
            Ok(s) => Some(s),
            Err(e) => {
                check!(e.0 == t, "wrong-contents", "the refused string {t:?} came back as {:?}", e.0);
                check!(!e.to_string().is_empty(), "wrong-contents", "the error has no message");
                None
            }
        },
        n @ 1..=4 => {
            let r = attempt(|| match n {
                1 => char_p::new(&*t),
                2 => char_p::new(t.clone()),
                3 => char_p::new(repr_c::String::from(t.clone())),
                _ => char_p::new(str::Ref::from(&*t)),
            });
            match r {
                Ok(s) => Some(s),
                Err(e) => {
                    check!(want.is_none(), "unexpected-panic", "making a C string of {t:?}: {e}");
                    probe("string with inner NUL refused");
                    None
                }
            }
        }
        5 => {
            let c = match CString::new(t.clone().into_bytes()) {
                Ok(c) => c,
                Err(_) => return,
            };
            let s = match choose(3) {
                0 => char_p::Box::from(c),
                1 => char_p::new(c),
                _ => char_p::new(&*c),
            };
            check!(want.is_some(), "wrong-contents", "a C string of {t:?}");
            Some(s)
        }
        _ => {
            // C strings that are not UTF-8
            let mut b = t.clone().into_bytes();
            b.retain(|b| *b != 0);
            let at = pick(b.len() + 1);
            b.insert(at, 0xFF);
            let c = CString::new(b).unwrap();
            let r = attempt(|| match choose(3) {
                0 => drop(char_p::Box::from(c)),
                1 => drop(char_p::new(&*c)),
                _ => {
                    let _: char_p::Ref<'_> = (&*c).into();
                }
            });
            check!(r.is_err(), "invalid-utf8", "a C string that is not UTF-8 was accepted as text");
            probe("C string that is not UTF-8 refused");
            return;
        }
    };
    check!(made.is_some() == want.is_some(), "wrong-contents", "{t:?} was {} as a C string", if made.is_some() { "accepted" } else { "refused" });
    if let (Some(s), Some(m)) = (made, want) {
        POOL.put(Slot { s, m });
    }
}

fn borrow() {
    let t = text();
    ev!("borrow {t:?}");
    let r: Result<char_p::Ref<'_>, _> = (&*t).try_into();
    let want = terminated(&t);
    check!(r.is_ok() == want.is_some(), "wrong-contents", "{t:?} was {} as a borrowed C string", if r.is_ok() { "accepted" } else { "refused" });
    if let (Ok(r), Some(m)) = (r, want) {
        look(r, &m, "a borrowed C string");
        let raw: char_p::Raw = r.into();
        look(unsafe { raw.as_ref() }, &m, "a raw C string");
        let back: char_p::Ref<'_> = cross(r);
        check!(back == r, "wrong-comparison", "a borrowed C string differs from itself");
        look(back, &m, "a borrowed C string that crossed");
        POOL.put(Slot { s: back.to_owned(), m });
    }
}
/// A string in the C program's own memory.
fn from_c() {
    let t = text();
    let Some(m) = as_c(&t) else { return };
    let mut bytes = m.clone().into_bytes();
    bytes.push(0);
    bytes.extend_from_slice(b"what follows");
    ev!("from C: {m:?}");
    let r: char_p::Ref<'_> = unsafe { char_p::Ref::from_ptr_unchecked(std::ptr::NonNull::new(bytes.as_mut_ptr()).unwrap()) };
    look(r, &m, "a string of the C program");
    let c: &CStr = CStr::from_bytes_until_nul(&bytes).unwrap();
    let r2: char_p::Ref<'_> = c.into();
    look(r2, &m, "a CStr");
    check!(r == r2, "wrong-comparison", "the same text compares different");
    let opt: Option<char_p::Ref<'_>> = cross(Some(r));
    check!(opt.map_or(false, |o| o.to_str() == m), "wrong-contents", "an optional string changed");
    let none: Option<char_p::Ref<'_>> = cross(None);
    check!(none.is_none(), "wrong-contents", "no string became a string");
    let s = match choose(3) {
        0 => r.to_owned(),
        1 => char_p::new(r.to_string()),
        _ => char_p::new(r.to_str()),
    };
    drop(bytes);
    POOL.put(Slot { s, m });
}

fn cross<T: ReprC>(x: T) -> T {
    sched::yield_point();
    let raw = unsafe { layout::into_raw(x) };
    sched::yield_point();
    unsafe { layout::from_raw_unchecked(raw) }
}

fn s01_step() {
    match choose(14) {
        0 | 1 => create(),
        2 => borrow(),
        3 => from_c(),
        4 => {
            let e = char_p::Ref::EMPTY;
            look(e, "", "the empty C string");
        }
        n => {
            let Some(mut s) = POOL.take() else { return create() };
            match n {
                5 => look_box(&s, "reading"),
                6 => {
                    // the C program reads it
                    let p: *const u8 = unsafe { std::mem::transmute_copy(&s.s) };
                    let got = unsafe { c_read(p) };
                    check!(got == s.m.as_bytes(), "wrong-contents", "the C program reads {got:?} where {:?} is", s.m);
                    drop(got);
                }
                7 => {
                    s.s = cross(s.s);
                    look_box(&s, "after crossing");
                }
                8 => {
                    let o: Option<char_p::Box> = cross(Some(s.s));
                    match o {
                        Some(b) => s.s = b,
                        None => return violate("wrong-contents", "an optional string was lost"),
                    }
                    let none: Option<char_p::Box> = cross(None);
                    check!(none.is_none(), "wrong-contents", "no string became a string");
                    look_box(&s, "after being optional");
                }
                9 => {
                    ev!("clone");
                    let c = if choose(2) == 0 { s.s.clone() } else { s.s.to_owned() };
                    let c = Slot { s: c, m: s.m.clone() };
                    look_box(&c, "the clone");
                    check!(c.s == s.s, "wrong-comparison", "a clone compares different");
                    POOL.put(c);
                }
                10 => {
                    ev!("into_vec");
                    let v = s.s.into_vec();
                    check!(v == s.m.as_bytes(), "wrong-contents", "turned into a vector: {v:?} instead of {:?}", s.m);
                    let mut v = v;
                    v.push(b'!');
                    return;
                }
                11 => {
                    ev!("into_string");
                    let mut t = s.s.into_string();
                    check!(t == s.m, "wrong-contents", "turned into a string: {t:?} instead of {:?}", s.m);
                    t.push('!');
                    let again = char_p::new(t.clone());
                    check!(again.to_str() == t, "wrong-contents", "{:?} instead of {t:?}", again.to_str());
                    return;
                }
                12 => {
                    if let Some(o) = POOL.take() {
                        check!((o.s == s.s) == (o.m == s.m), "wrong-comparison", "{:?} and {:?}", o.m, s.m);
                        POOL.put(o);
                    }
                }
                _ => {
                    ev!("drop");
                    drop(s.s);
                    return;
                }
            }
            POOL.put(s);
        }
    }
}
fn s01() {
    obj::reset();
    obj::threads_anywhere(1 + pick(3), 20, 14, s01_step);
    POOL.drain(|s| {
        look_box(&s, "at the end");
        drop(s);
    });
}

// --- S02 ------------------------------------------------------------------------------------------

enum Str {
    Grow(repr_c::String),
    Fixed(str::Box),
}
struct Slot2 {
    s: Str,
    m: String,
}
static POOL2: Pool<Slot2> = Pool::new();

fn look2(s: &Slot2, what: &str) {
    let m = &*s.m;
    match &s.s {
        Str::Grow(g) => {
            check!(&**g == m, "wrong-contents", "{what}: {:?} instead of {m:?}", &**g);
            check!(format!("{g}") == m && format!("{g:?}") == format!("{m:?}"), "wrong-contents", "{what}: formatting {m:?}");
        }
        Str::Fixed(f) => {
            check!(&**f == m, "wrong-contents", "{what}: {:?} instead of {m:?}", &**f);
            check!(AsRef::<str>::as_ref(f) == m && f.as_ref().as_str() == m, "wrong-contents", "{what}: {m:?}");
            check!(format!("{f:?}") == format!("{m:?}"), "wrong-contents", "{what}: formatting {m:?}");
        }
    }
}
fn edit(s: &mut String, m: &mut String) {
    match choose(7) {
        0 | 1 => {
            let t = text();
            m.push_str(&t);
            s.push_str(&t);
        }
        2 => {
            m.pop();
            s.pop();
        }
        3 => {
            m.clear();
            s.clear();
        }
        4 => s.reserve(pick(40)),
        5 => s.shrink_to_fit(),
        _ => {
            let t = text();
            *m = t.clone();
            *s = t;
        }
    }
}
fn s02_step() {
    match choose(11) {
        0 => {
            let m = text();
            ev!("create {m:?}");
            let s = match choose(5) {
                0 => Str::Grow((&*m).into()),
                1 => Str::Grow(m.clone().into()),
                2 => Str::Fixed((&*m).into()),
                3 => Str::Fixed(m.clone().into()),
                _ => Str::Fixed(m.clone().into_boxed_str().into()),
            };
            POOL2.put(Slot2 { s, m });
        }
        1 => POOL2.put(Slot2 { s: Str::Grow(repr_c::String::EMPTY), m: String::new() }),
        2 => {
            let m = text();
            let r: str::Ref<'_> = (&*m).into();
            let r = cross(r);
            let copy = r;
            check!(copy.as_str() == m && &*r == &*m && AsRef::<str>::as_ref(&r) == m, "wrong-contents", "a lent string: {m:?}");
            check!(format!("{r:?}") == format!("{m:?}"), "wrong-contents", "formatting a lent {m:?}");
            let owned: String = r.into();
            check!(owned == m, "wrong-contents", "an owned copy of a lent {m:?}");
        }
        n => {
            let Some(mut s) = POOL2.take() else { return };
            match n {
                3 => look2(&s, "reading"),
                4 => {
                    s.s = match s.s {
                        Str::Grow(g) => Str::Grow(if choose(2) == 0 { cross(g) } else { cross(Some(g)).unwrap_or(repr_c::String::EMPTY) }),
                        Str::Fixed(f) => Str::Fixed(cross(f)),
                    };
                    check!(cross::<Option<repr_c::String>>(None).is_none(), "wrong-contents", "no string became a string");
                    look2(&s, "after crossing");
                }
                5 => {
                    ev!("clone");
                    if let Str::Grow(g) = &s.s {
                        let c = Slot2 { s: Str::Grow(g.clone()), m: s.m.clone() };
                        look2(&c, "the clone");
                        POOL2.put(c);
                    }
                }
                6 => {
                    ev!("to rust and back");
                    s.s = match s.s {
                        Str::Grow(g) => {
                            let mut t: String = g.into();
                            check!(t == s.m, "wrong-contents", "turned into a Rust string: {t:?} instead of {:?}", s.m);
                            edit(&mut t, &mut s.m);
                            if choose(2) == 0 { Str::Grow(t.into()) } else { Str::Fixed(t.into()) }
                        }
                        Str::Fixed(f) => {
                            if choose(2) == 0 {
                                let b: Box<str> = f.into();
                                check!(*b == *s.m, "wrong-contents", "turned into a boxed string: {b:?} instead of {:?}", s.m);
                                Str::Fixed(b.into())
                            } else {
                                let t: String = f.into();
                                check!(t == s.m, "wrong-contents", "turned into a Rust string: {t:?} instead of {:?}", s.m);
                                Str::Grow(t.into())
                            }
                        }
                    };
                    look2(&s, "after going through Rust's own string");
                }
                7 | 8 => {
                    if let Str::Grow(g) = &mut s.s {
                        ev!("with_rust_mut");
                        let m = &mut s.m;
                        let token = choose(1000);
                        let r = attempt(|| {
                            g.with_rust_mut(|t| {
                                check!(t == m, "wrong-contents", "lent to a closure: {t:?} instead of {m:?}");
                                for _ in 0..choose(4) {
                                    edit(t, m);
                                    if choose(8) == 0 {
                                        fault("panic in a closure");
                                        inject("closure");
                                    }
                                }
                                token
                            })
                        });
                        match r {
                            Ok(r) => {
                                check!(r == token, "wrong-result", "with_rust_mut returned something else than its closure");
                            }
                            Err(e) => {
                                check!(e.starts_with(INJECTED), "unexpected-panic", "with_rust_mut: {e}");
                                untracked(|| drop(e));
                            }
                        }
                        look2(&s, "after with_rust_mut");
                    }
                }
                _ => {
                    ev!("drop");
                    drop(s);
                    return;
                }
            }
            POOL2.put(s);
        }
    }
}
fn s02() {
    obj::reset();
    obj::threads_anywhere(1 + pick(3), 20, 14, s02_step);
    POOL2.drain(|s| {
        look2(&s, "at the end");
        drop(s);
    });
}

const STUB: &str = "the C program (reads up to the terminator, keeps and returns pointers, owns strings), the thread scheduler, the allocator's bookkeeping";
pub static PROPS: [Prop; 2] = [
    Prop {
        id: "S01",
        title: "C strings keep their text, end where they end, and refuse what cannot be one",
        run: s01,
        quick_runs: 200_000,
        thorough_runs: 3_500_000,
        warm_up: 2,
        wall_cap: 90,
        rule: "one run = one seed: 1-3 simulated threads make C strings of generated text (NULs at every place, multi-byte characters, invalid UTF-8, empty) in every way, read, compare, clone, send, take apart and free them; distinct = different event log; runs without operations do not count",
        real: "char_p::{Box, Ref, Raw, new}, their conversions, Option<_> of these, layout::{into_raw, from_raw_unchecked}",
        stub: STUB,
        assumptions: &["strings that the C program hands over are terminated and valid UTF-8, as the type demands"],
    },
    Prop {
        id: "S02",
        title: "Strings with a length keep their text across the boundary and lent closures",
        run: s02,
        quick_runs: 200_000,
        thorough_runs: 3_500_000,
        warm_up: 2,
        wall_cap: 90,
        rule: "one run = one seed: 1-3 simulated threads over owned and boxed strings and borrowed ones, with panics injected into closures they are lent to; distinct = different event log; runs without operations do not count",
        real: "repr_c::String, str::{Box, Ref}, with_rust_mut, layout::{into_raw, from_raw_unchecked}",
        stub: STUB,
        assumptions: &[],
    },
];
