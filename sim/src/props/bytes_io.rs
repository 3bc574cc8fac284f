//! Byte strings as streams: B05 (as `io::Read`), B06 (serde).

use super::Prop;
use crate::ctx::*;
use crate::track::{self, untracked};
use crate::{attempt, check, ev};
use safer_ffi::bytes::Bytes;
use std::io::{self, BufRead, BufReader, Read, Write};
use std::sync::Arc;

const MAX: usize = Bytes::<'static>::MAX_INLINE_SIZE;

fn text(len: usize) -> Vec<u8> {
    let salt = choose(90) as usize;
    (0..len).map(|i| (33 + (i * 7 + salt) % 90) as u8).collect()
}

/// A reader over `data`, from one of several storages; `lender` must outlive it.
fn reader<'a>(data: &[u8], lender: &'a [u8]) -> (Bytes<'a>, &'static str) {
    match pick(9) {
        0 => (Bytes::copied_from_slice(data), "copied"),
        1 => (Bytes::from_slice(lender), "borrowed"),
        2 => (Arc::<[u8]>::from(data).into(), "Arc<[u8]>"),
        3 => (data.to_vec().into(), "Vec"),
        4 => (Arc::new(data.to_vec()).into(), "Arc<Vec>"),
        5 => (stabby::sync::ArcSlice::from(data).into(), "ArcSlice"),
        6 => (stabby::sync::Arc::new(data.to_vec()).into(), "stabby Arc<Vec>"),
        7 => (Bytes::from_slice(lender).upgrade(), "upgraded"),
        _ => {
            // a window into something larger
            let mut big = text(pick(20));
            let a = big.len();
            big.extend_from_slice(data);
            let b = big.len();
            big.extend(text(pick(20)));
            (Bytes::from(Arc::<[u8]>::from(big)).subsliced(a..b), "window")
        }
    }
}

/// A sink that takes short, interrupts and fails, as the run decides.
struct Sink {
    got: Vec<u8>,
    faults: bool,
    failed: bool,
}
impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if self.faults {
            match choose(10) {
                9 => {
                    fault("sink interrupted");
                    return Err(io::ErrorKind::Interrupted.into());
                }
                8 => {
                    fault("sink fails");
                    self.failed = true;
                    return Err(io::ErrorKind::BrokenPipe.into());
                }
                5..=7 if buf.len() > 1 => {
                    fault("sink takes short");
                    let n = 1 + pick(buf.len() - 1);
                    self.got.extend_from_slice(&buf[..n]);
                    return Ok(n);
                }
                _ => {}
            }
        }
        self.got.extend_from_slice(buf);
        Ok(buf.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn b05() {
    let data = text(length(120));
    let lender = data.clone();
    let (r, kind) = reader(&data, &lender);
    ev!("stream of {} bytes from {kind}", data.len());
    let faults = choose(2) == 1;
    // What is still to come, per reader (clones are checkpoints).
    let mut readers: Vec<(Bytes<'_>, Vec<u8>)> = vec![(r, data.clone())];
    let mut end_seen = false;
    let r = attempt(|| {
        steps(60, 20, || {
            if readers.is_empty() {
                return;
            }
            let i = pick(readers.len());
            let (b, left) = &mut readers[i];
            let op = pick(14);
            match op {
                0 | 1 | 2 => {
                    let n = length(130);
                    let mut buf = vec![0xEE; n];
                    let got = b.read(&mut buf);
                    ev!("{i}: read {n} of {}: {got:?}", left.len());
                    let want = n.min(left.len());
                    match got {
                        Ok(g) => {
                            check!(g == want && buf[..want] == left[..want], "stream", "read of {n} with {} left: {g} bytes {:?}", left.len(), &buf[..g.min(n)]);
                            check!(buf[want..].iter().all(|x| *x == 0xEE), "stream", "read writes past what it reports");
                        }
                        Err(e) => violate("stream", format!("read fails: {e}")),
                    }
                    if want == 0 && n > 0 {
                        probe("end of stream");
                        end_seen = true;
                    }
                    left.drain(..want);
                }
                3 => {
                    let n = length(70);
                    let mut buf = vec![0xEE; n];
                    let got = b.read_exact(&mut buf);
                    ev!("{i}: read_exact {n} of {}: {}", left.len(), got.is_ok());
                    if n <= left.len() {
                        check!(got.is_ok() && buf[..] == left[..n], "stream", "read_exact({n}) with {} left: {got:?}", left.len());
                        left.drain(..n);
                    } else {
                        fault("stream ends early");
                        let k = got.as_ref().err().map(|e| e.kind());
                        check!(k == Some(io::ErrorKind::UnexpectedEof), "stream", "read_exact({n}) with {} left: {got:?}", left.len());
                        left.clear(); // unspecified how much is consumed
                        *b = Bytes::empty();
                    }
                }
                4 => {
                    let mut out = b"seen".to_vec();
                    let got = b.read_to_end(&mut out);
                    ev!("{i}: read_to_end: {got:?}");
                    check!(got.as_ref().ok() == Some(&left.len()) && out[4..] == left[..] && &out[..4] == b"seen", "stream", "read_to_end with {} left: {got:?}, {} bytes", left.len(), out.len() - 4);
                    left.clear();
                }
                5 => {
                    let mut out = String::new();
                    let got = b.read_to_string(&mut out);
                    ev!("{i}: read_to_string: {got:?}");
                    check!(got.is_ok() && out.as_bytes() == &left[..], "stream", "read_to_string with {} left: {got:?}", left.len());
                    left.clear();
                }
                6 => {
                    let n = length(50);
                    let mut out = vec![];
                    let got = b.by_ref().take(n as u64).read_to_end(&mut out);
                    ev!("{i}: take {n}: {got:?}");
                    let want = n.min(left.len());
                    check!(got.is_ok() && out[..] == left[..want], "stream", "take({n}) with {} left: {got:?}", left.len());
                    left.drain(..want);
                }
                7 => {
                    let mut sink = Sink { got: vec![], faults, failed: false };
                    let got = io::copy(b, &mut sink);
                    ev!("{i}: copy: {:?} (sink failed: {})", got.as_ref().ok(), sink.failed);
                    if sink.failed {
                        check!(got.is_err() && left.starts_with(&sink.got), "stream", "copy into a failing sink: {got:?}");
                    } else {
                        check!(got.as_ref().ok() == Some(&(left.len() as u64)) && sink.got == *left, "stream", "copy with {} left: {got:?}, sink has {}", left.len(), sink.got.len());
                    }
                    left.clear();
                    *b = Bytes::empty();
                }
                8 => {
                    let (a, c) = (length(20), length(50));
                    let (mut x, mut y) = (vec![0xEE; a], vec![0xEE; c]);
                    let got = b.read_vectored(&mut [io::IoSliceMut::new(&mut x), io::IoSliceMut::new(&mut y)]);
                    ev!("{i}: read_vectored {a} {c}: {got:?}");
                    match got {
                        Ok(g) if g <= left.len() && g <= a + c => {
                            let mut all = x;
                            all.extend(y);
                            check!(all[..g] == left[..g], "stream", "read_vectored gives other bytes");
                            check!(g > 0 || left.is_empty() || a + c == 0, "stream", "read_vectored ends early");
                            left.drain(..g);
                        }
                        g => violate("stream", format!("read_vectored: {g:?}")),
                    }
                }
                9 => {
                    let n = pick(6);
                    let got: Result<Vec<u8>, _> = b.by_ref().bytes().take(n).collect();
                    ev!("{i}: bytes {n}: {got:?}");
                    let want = n.min(left.len());
                    check!(got.as_ref().ok().map(|v| &v[..]) == Some(&left[..want]), "stream", "bytes() gives {got:?}");
                    left.drain(..want);
                }
                10 => {
                    // through a buffer of its own, by lines of sorts
                    let stop = if left.is_empty() { b'x' } else { left[pick(left.len())] };
                    let mut br = BufReader::with_capacity(1 + length(40), &mut *b);
                    let mut out = vec![];
                    let got = br.read_until(stop, &mut out);
                    let rest = br.buffer().to_vec();
                    ev!("{i}: read_until {stop}: {got:?}");
                    let want = left.iter().position(|x| *x == stop).map_or(left.len(), |p| p + 1);
                    check!(out[..] == left[..want], "stream", "read_until gives {out:?}");
                    check!(left[want..].starts_with(&rest), "stream", "the read-ahead differs");
                    let n = (want + rest.len()).min(left.len());
                    left.drain(..n);
                }
                11 => {
                    let c = b.clone();
                    let l = left.clone();
                    ev!("{i}: checkpoint");
                    if readers.len() < 5 {
                        readers.push((c, l));
                    }
                }
                12 => {
                    let n = length(left.len());
                    ev!("{i}: skip {n}");
                    b.shrink_to(n..);
                    left.drain(..n);
                }
                _ => {
                    ev!("{i}: cancelled with {} left", left.len());
                    fault("consumer gives up");
                    readers.swap_remove(i);
                }
            }
            for (b, left) in &readers {
                check!(b.as_slice() == &left[..], "stream", "what is left reads {:?}, must be {:?}", b.as_slice(), left);
            }
        });
    });
    if let Err(m) = r {
        violate("refused", format!("a read panics: {m}"));
    }
    let _ = end_seen;
    // Progress: a reader that is polled with a non-empty buffer ends after len / size + 1 reads.
    if !failed() {
        let chunk = 1 + pick(50);
        let mut buf = vec![0; chunk];
        for (mut b, left) in readers {
            let mut n = 0;
            let mut seen = 0;
            loop {
                match b.read(&mut buf) {
                    Ok(0) => break,
                    Ok(k) => seen += k,
                    Err(e) => {
                        violate("stream", format!("read fails: {e}"));
                        break;
                    }
                }
                n += 1;
                advance(1);
                if n > left.len() + 1 {
                    violate("stream", "the stream does not end");
                    break;
                }
            }
            check!(seen == left.len(), "stream", "{seen} bytes until the end, {} were left", left.len());
        }
    }
}

// --- serde -----------------------------------------------------------------------------------

#[derive(Debug)]
struct Fail(String);
impl std::fmt::Display for Fail {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Fail {}
impl serde::de::Error for Fail {
    fn custom<T: std::fmt::Display>(m: T) -> Self {
        Fail(format!("de: {m}"))
    }
}
impl serde::ser::Error for Fail {
    fn custom<T: std::fmt::Display>(m: T) -> Self {
        Fail(format!("ser: {m}"))
    }
}

/// A format that delivers `data` in the way the run decides, and breaks off where it decides.
struct Format<'de> {
    data: &'de [u8],
    how: usize,
    hint: Option<usize>,
    fail_at: Option<usize>,
    wide: bool,
}
struct Seq<'de> {
    f: Format<'de>,
    i: usize,
    after_end: u32,
}
impl<'de> serde::de::SeqAccess<'de> for Seq<'de> {
    type Error = Fail;
    fn next_element_seed<T: serde::de::DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Fail> {
        if self.f.fail_at == Some(self.i) {
            fault("stream breaks off");
            return Err(Fail("injected".into()));
        }
        let Some(&x) = self.f.data.get(self.i) else {
            self.after_end += 1;
            return Ok(None);
        };
        self.i += 1;
        let d = Num { x, wide: self.f.wide };
        seed.deserialize(d).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        self.f.hint
    }
}
struct Num {
    x: u8,
    wide: bool,
}
impl<'de> serde::Deserializer<'de> for Num {
    type Error = Fail;
    fn deserialize_any<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, Fail> {
        if self.wide && self.x == 0x77 {
            fault("element out of range");
            v.visit_u64(0x1_77)
        } else if self.x & 1 == 0 {
            v.visit_u64(self.x as u64)
        } else {
            v.visit_i64(self.x as i64)
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
impl<'de> serde::Deserializer<'de> for Format<'de> {
    type Error = Fail;
    fn deserialize_any<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, Fail> {
        if self.how < 3 && self.fail_at.is_some() {
            fault("stream breaks off");
            return Err(Fail("injected".into()));
        }
        match self.how {
            0 => {
                // transient buffer, overwritten right after
                let mut tmp = untracked(|| self.data.to_vec());
                let r = v.visit_bytes(&tmp);
                tmp.iter_mut().for_each(|b| *b = track::POISON);
                fault("transient buffer overwritten");
                untracked(|| drop(tmp));
                r
            }
            1 => v.visit_borrowed_bytes(self.data),
            2 => {
                let mut b = Vec::with_capacity(self.data.len() + self.hint.unwrap_or(0).min(50));
                b.extend_from_slice(self.data);
                v.visit_byte_buf(b)
            }
            3 | 4 => v.visit_seq(Seq { f: self, i: 0, after_end: 0 }),
            5 => {
                fault("wrong type in the stream");
                v.visit_u64(7)
            }
            _ => {
                fault("wrong type in the stream");
                v.visit_unit()
            }
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

/// Accepts bytes only, fails if told to.
struct Out<'a> {
    got: &'a mut Vec<Vec<u8>>,
    fail: bool,
}
type Never = serde::ser::Impossible<(), Fail>;
macro_rules! no {
    ($($f:ident($($t:ty),*);)*) => { $(fn $f(self, $(_: $t),*) -> Result<(), Fail> { Err(Fail(concat!("unexpected ", stringify!($f)).into())) })* };
}
impl<'a> serde::Serializer for Out<'a> {
    type Ok = ();
    type Error = Fail;
    type SerializeSeq = Never;
    type SerializeTuple = Never;
    type SerializeTupleStruct = Never;
    type SerializeTupleVariant = Never;
    type SerializeMap = Never;
    type SerializeStruct = Never;
    type SerializeStructVariant = Never;
    fn serialize_bytes(self, v: &[u8]) -> Result<(), Fail> {
        self.got.push(v.to_vec());
        if self.fail {
            fault("serializer fails");
            return Err(Fail("injected".into()));
        }
        Ok(())
    }
    no! {
        serialize_bool(bool); serialize_i8(i8); serialize_i16(i16); serialize_i32(i32); serialize_i64(i64);
        serialize_u8(u8); serialize_u16(u16); serialize_u32(u32); serialize_u64(u64); serialize_f32(f32);
        serialize_f64(f64); serialize_char(char); serialize_str(&str); serialize_none(); serialize_unit();
        serialize_unit_struct(&'static str); serialize_unit_variant(&'static str, u32, &'static str);
    }
    fn serialize_some<T: ?Sized + serde::Serialize>(self, _: &T) -> Result<(), Fail> {
        Err(Fail("unexpected some".into()))
    }
    fn serialize_newtype_struct<T: ?Sized + serde::Serialize>(self, _: &'static str, _: &T) -> Result<(), Fail> {
        Err(Fail("unexpected newtype".into()))
    }
    fn serialize_newtype_variant<T: ?Sized + serde::Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), Fail> {
        Err(Fail("unexpected newtype".into()))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Never, Fail> {
        Err(Fail("unexpected seq".into()))
    }
    fn serialize_tuple(self, _: usize) -> Result<Never, Fail> {
        Err(Fail("unexpected tuple".into()))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Never, Fail> {
        Err(Fail("unexpected tuple".into()))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Never, Fail> {
        Err(Fail("unexpected tuple".into()))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Never, Fail> {
        Err(Fail("unexpected map".into()))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Never, Fail> {
        Err(Fail("unexpected struct".into()))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Never, Fail> {
        Err(Fail("unexpected struct".into()))
    }
}

fn b06() {
    let faults = choose(3) != 0;
    let mut kept: Vec<(Bytes<'static>, Vec<u8>)> = vec![];
    steps(12, 5, || {
        let len = if choose(12) == 11 { 200 + pick(6000) } else { length(110) };
        let data = text(len);
        let how = if faults { pick(7) } else { pick(5) };
        let hint = match pick(if faults { 8 } else { 2 }) {
            0 => Some(len),
            1 => None,
            2 => Some(0),
            3 => Some(len / 2),
            4 => Some(len + 1 + pick(100)),
            5 => Some(1 << 40),
            6 => Some(usize::MAX),
            _ => Some(isize::MAX as usize),
        };
        if hint.map_or(false, |h| h > 1 << 30) && (how == 3 || how == 4) {
            fault("stream lies about its length");
        }
        let fail_at = if faults && choose(4) == 3 { Some(pick(len + 1)) } else { None };
        let wide = faults && choose(6) == 5;
        let mut source = data.clone();
        ev!("deserialize {len} bytes how {how} hint {hint:?} fail_at {fail_at:?} wide {wide}");
        track::reset_biggest();
        let r = attempt(|| {
            let src: &'static [u8] = unsafe { std::mem::transmute(&source[..]) };
            <Bytes<'static> as serde::Deserialize<'static>>::deserialize(Format { data: src, how, hint, fail_at, wide })
        });
        let biggest = track::biggest();
        check!(biggest <= 64 * 1024 + 8 * len, "allocation-bound", "{len} bytes delivered, one allocation of {biggest} bytes made");
        let bad_element = (how == 3 || how == 4) && wide && data.iter().position(|x| *x == 0x77).map_or(false, |p| fail_at.map_or(true, |f| p < f));
        let bad = how >= 5 || fail_at.is_some() || bad_element;
        match r {
            Err(m) => violate("refused", format!("deserialising panics: {m}")),
            Ok(Ok(b)) => {
                check!(!bad, "accepted", "a broken stream (how {how}, fail_at {fail_at:?}) is accepted as {} bytes", b.len());
                check!(b.as_slice() == &data[..], "content", "{len} bytes deserialised (how {how}) read {:02x?}", b.as_slice());
                if how == 1 {
                    // borrowed from the input, which must outlive it
                    let p = b.as_slice().as_ptr() as usize;
                    check!(len <= MAX || p == source.as_ptr() as usize, "content", "borrowed input is not borrowed");
                    if choose(2) == 0 {
                        kept.push((b.upgrade(), data.clone()));
                    } else {
                        drop(b);
                    }
                } else {
                    check!(!b.upgrade_will_allocate(), "escape", "deserialised from a transient buffer, yet borrowed");
                    kept.push((b, data.clone()));
                }
            }
            Ok(Err(Fail(m))) => {
                check!(bad, "refused", "a sound stream (how {how}) is refused: {m}");
                if fail_at.is_some() && how < 5 && !bad_element {
                    check!(m == "injected", "error", "the stream's error comes back as {m}");
                }
                probe("error reported");
            }
        }
        source.iter_mut().for_each(|b| *b = track::POISON);
        drop(source);
        for (b, m) in &kept {
            check!(b.as_slice() == &m[..], "content", "a deserialised byte string changed: {:02x?}", b.as_slice());
        }
        // and out again
        if let Some((b, m)) = kept.last() {
            let fail = faults && choose(4) == 3;
            let mut got = vec![];
            let r = attempt(|| serde::Serialize::serialize(b, Out { got: &mut got, fail }));
            ev!("serialize {}: {}", m.len(), matches!(r, Ok(Ok(()))));
            check!(got.len() == 1 && got[0] == *m, "content", "serialised as {got:02x?}");
            check!(matches!(r, Ok(ref x) if x.is_err() == fail), "error", "the serializer's error is lost");
        }
        if kept.len() > 3 {
            kept.remove(0);
        }
    });
}

pub const PROPS: &[Prop] = &[
    Prop {
        id: "B05", title: "Reading a byte string as a stream loses and repeats nothing", run: b05,
        quick_runs: 200_000, thorough_runs: 8_000_000, warm_up: 3, wall_cap: 300,
        rule: "one run = one seed: a byte string of 0-120 bytes from 9 storages, up to 60 reads of 14 kinds (chunk sizes around the inline boundary, adaptors of std::io, checkpoints, skips) by up to 5 consumers, with sinks that fail, take short or interrupt, and consumers that give up; distinct = different event log",
        real: "safer_ffi::bytes, std::io adaptors", stub: "the sinks and the consumers",
        assumptions: &["how much a failing read_exact or copy consumes is unspecified by std and not checked"],
    },
    Prop {
        id: "B06", title: "Deserialising bytes survives broken and lying streams", run: b06,
        quick_runs: 120_000, thorough_runs: 5_000_000, warm_up: 3, wall_cap: 300,
        rule: "one run = one seed: up to 12 streams of 0-6200 bytes delivered transiently, borrowed, owned or element by element, with false size hints, elements out of range, wrong types and a break-off at a random element; distinct = different event log",
        real: "safer_ffi::bytes, serde's impls for u8", stub: "the data formats (Deserializer, SeqAccess, Serializer)",
        assumptions: &["an allocation of at most 64 KiB + 8 bytes per byte delivered counts as bounded"],
    },
];
