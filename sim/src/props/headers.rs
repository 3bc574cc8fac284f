//! Header generation: H01 (faults of what is written to), H02 (reproducible output), H03 (what the
//! output says).
//!
//! The library whose headers are generated is `exports.rs`. What the generator writes to is
//! simulated: it takes writes in pieces, interrupts, fails, runs full, panics and makes other
//! simulated threads run in the middle of a generation.

use super::decls::{self, Decl, Header, Ty};
use super::peer::scratch;
use super::{obj, source, Prop};
use crate::ctx::*;
use crate::exports;
use crate::track::untracked;
use crate::{attempt, check, ev, inject, sched, INJECTED};
use safer_ffi::headers::{self, Definer, Language};
use std::collections::BTreeSet;
use std::io::{self, BufWriter, Write};
use std::sync::OnceLock;

const LANGS: [Language; 3] = [Language::C, Language::CSharp, Language::Python];
const CRATE: &str = "vx_peer";
const GUARD: &str = "__RUST_VX_PEER__";

/// One write fault or scheduling decision at a byte of the output.
#[derive(Clone, Copy, Debug, PartialEq)]
enum At {
    Short,
    Interrupted,
    Yield,
    Fail(io::ErrorKind),
    /// The next write works again.
    FailOnce(io::ErrorKind),
    Full,
    Panic,
}
struct Sink {
    got: Vec<u8>,
    plan: Vec<(usize, At)>,
    /// The largest piece it takes.
    piece: usize,
    fail_flush: Option<io::ErrorKind>,
    flushed: Option<usize>,
    sticky: Option<io::ErrorKind>,
    failed: Option<&'static str>,
    kinds: Vec<io::ErrorKind>,
}
const KINDS: [io::ErrorKind; 5] = [
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::Other,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::OutOfMemory,
    io::ErrorKind::WouldBlock,
];
impl Sink {
    fn new(plan: Vec<(usize, At)>) -> Sink {
        Sink { got: vec![], plan, piece: usize::MAX, fail_flush: None, flushed: None, sticky: None, failed: None, kinds: vec![] }
    }
}
impl Write for &mut Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if let Some(k) = self.sticky {
            return Err(k.into());
        }
        let at = self.got.len();
        if self.plan.first().map_or(false, |e| e.0 <= at) {
            let (_, what) = self.plan.remove(0);
            match what {
                At::Short => fault("short write"),
                At::Yield => sched::yield_point(),
                At::Interrupted => {
                    fault("interrupted write");
                    return Err(io::ErrorKind::Interrupted.into());
                }
                At::Fail(k) => {
                    fault("failed write");
                    ev!("write fails at {at}: {k:?}");
                    self.failed = Some("write");
                    self.kinds.push(k);
                    self.sticky = Some(k);
                    return Err(k.into());
                }
                At::FailOnce(k) => {
                    fault("write failing once");
                    ev!("write fails once at {at}: {k:?}");
                    self.failed = Some("write");
                    self.kinds.push(k);
                    return Err(k.into());
                }
                At::Full => {
                    fault("full disk");
                    ev!("full at {at}");
                    self.failed = Some("full");
                    self.kinds.push(io::ErrorKind::WriteZero);
                    self.plan.insert(0, (at, At::Full));
                    return Ok(0);
                }
                At::Panic => {
                    fault("panic in the writer");
                    ev!("writer panics at {at}");
                    self.failed = Some("panic");
                    inject("writer");
                }
            }
        }
        let mut n = buf.len().min(self.piece);
        if let Some((next, _)) = self.plan.first() {
            if *next > at {
                n = n.min(next - at);
            }
        }
        untracked(|| self.got.extend_from_slice(&buf[..n]));
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if let Some(k) = self.sticky {
            return Err(k.into());
        }
        self.flushed = Some(self.got.len());
        match self.fail_flush {
            Some(k) => {
                fault("failed flush");
                ev!("flush fails: {k:?}");
                self.failed = Some("flush");
                self.kinds.push(k);
                Err(k.into())
            }
            None => Ok(()),
        }
    }
}

/// What a generation without faults gives; made once in a process, before anything is explored.
fn reference(lang: Language) -> &'static [u8] {
    static R: [OnceLock<Vec<u8>>; 3] = [OnceLock::new(), OnceLock::new(), OnceLock::new()];
    untracked(|| {
        let i = LANGS.iter().position(|l| *l == lang).unwrap();
        R[i].get_or_init(|| untracked(|| {
            std::env::set_var("CARGO_CRATE_NAME", CRATE);
            let mut v = vec![];
            headers::builder().with_language(lang).to_writer(&mut v).generate().unwrap();
            v
        }))
    })
}
/// In which order the exported items are registered is the linker's choice, and differs from build to
/// build: here it is the seed's. `None`: as this build has it. Items that share their name keep their order.
fn link_order(seed: Option<u64>) {
    use safer_ffi::inventory::{iter, Collect, Node, Registry};
    use safer_ffi::FfiExport;
    use std::sync::atomic::{AtomicPtr, Ordering::SeqCst};
    static ORIGINAL: OnceLock<Vec<(&'static str, &'static Node)>> = OnceLock::new();
    const _: () = assert!(std::mem::size_of::<Registry>() == std::mem::size_of::<AtomicPtr<Node>>());
    untracked(|| unsafe {
        // its only field
        let head: &AtomicPtr<Node> = &*(FfiExport::registry() as *const Registry as *const AtomicPtr<Node>);
        let original = ORIGINAL.get_or_init(|| {
            let names: Vec<&'static str> = iter::<FfiExport>.into_iter().map(|e| e.name).collect();
            let mut at = head.load(SeqCst) as *const Node;
            names.into_iter().map(|n| {
                let node: &'static Node = &*at;
                at = (*node.next.get()).map_or(std::ptr::null(), |n| n);
                (n, node)
            }).collect()
        });
        let mut v = original.clone();
        if let Some(seed) = seed {
            let mut r = crate::ctx::Rng::new(seed);
            let n = v.len();
            match seed % 8 {
                0 => v.reverse(),
                1 => v.rotate_left(r.next() as usize % n),
                _ => (1..n).rev().for_each(|i| v.swap(i, r.next() as usize % (i + 1))),
            }
            let index = |x: &(&'static str, &'static Node)| original.iter().position(|o| std::ptr::eq(o.1, x.1)).unwrap();
            for i in 0..n {
                let first = (i..n).filter(|&j| v[j].0 == v[i].0).min_by_key(|&j| index(&v[j])).unwrap();
                v.swap(i, first);
            }
        }
        for (i, x) in v.iter().enumerate() {
            *x.1.next.get() = v.get(i + 1).map(|y| y.1);
        }
        head.store(v[0].1 as *const Node as *mut Node, SeqCst);
    });
}
fn some_link_order() {
    link_order(None);
    LANGS.iter().for_each(|l| { reference(*l); });
    let seed = (choose(2) == 0).then(|| choose(1 << 32));
    if let Some(seed) = seed {
        ev!("link order {seed}");
        probe("another link order");
        link_order(Some(seed));
    }
}
fn set_env(krate: Option<&str>, pkg: Option<&str>) {
    untracked(|| {
        for (k, v) in [("CARGO_CRATE_NAME", krate), ("CARGO_PKG_NAME", pkg)] {
            match v {
                Some(v) => std::env::set_var(k, v),
                None => std::env::remove_var(k),
            }
        }
    })
}

fn position(len: usize) -> usize {
    match choose(4) {
        0 => pick(200.min(len)),
        1 => len.saturating_sub(1 + pick(200.min(len))),
        _ => pick(len),
    }
}
/// `deadly`: with an event after which the generation cannot succeed.
fn plan(len: usize, deadly: bool, yields: bool) -> Vec<(usize, At)> {
    let mut v = untracked(Vec::new);
    for _ in 0..choose(5) {
        let e = match choose(3) {
            0 => At::Short,
            1 => At::Interrupted,
            _ if yields => At::Yield,
            _ => At::Short,
        };
        let p = position(len);
        untracked(|| v.push((p, e)));
    }
    if yields {
        for _ in 0..2 {
            let p = position(len);
            untracked(|| v.push((p, At::Yield)));
        }
    }
    if deadly {
        let e = match choose(6) {
            0 => At::Fail(pick_of(&KINDS)),
            1 | 2 | 3 => At::FailOnce(pick_of(&KINDS)),
            4 => At::Full,
            _ => At::Panic,
        };
        let p = position(len);
        untracked(|| v.push((p, e)));
    }
    v.sort_by_key(|e| e.0);
    v
}

/// A generation into a sink with faults, directly or through a buffer.
fn generation(lang: Language, deadly: bool, flush_fault: bool, yields: bool) {
    let want = reference(lang);
    let mut sink = Sink::new(plan(want.len(), deadly, yields));
    if choose(4) == 0 {
        sink.piece = 1 + pick(64);
    }
    if flush_fault {
        sink.fail_flush = Some(pick_of(&KINDS));
    }
    let buffered = match choose(3) {
        0 => None,
        1 => Some(1 + pick(100)),
        _ => Some(1 << (6 + pick(12))),
    };
    ev!("generate {lang:?} buffer {buffered:?} pieces {} plan {:?} flush {:?}", sink.piece, sink.plan, sink.fail_flush);
    let r = attempt(|| {
        let b = headers::builder().with_language(lang);
        match buffered {
            None => b.to_writer(&mut sink).generate(),
            Some(n) => b.to_writer(BufWriter::with_capacity(n, &mut sink)).generate(),
        }
    });
    let what = untracked(|| format!("{lang:?} header, buffer {buffered:?}"));
    check!(want.starts_with(&sink.got), "wrong-output", "{what}: what was written is not how the header begins, from byte {}", first_difference(want, &sink.got));
    match r {
        Ok(Ok(())) => {
            check!(sink.failed.is_none(), "lost-error", "{what}: success, after a failed {}", sink.failed.unwrap_or(""));
            check!(sink.got.len() == want.len(), "lost-output", "{what}: success, with {} of {} bytes written", sink.got.len(), want.len());
            check!(sink.flushed == Some(want.len()), "lost-output", "{what}: success, without a flush of everything written");
            probe("complete generation");
        }
        Ok(Err(e)) => {
            check!(sink.failed.is_some() && sink.failed != Some("panic"), "spurious-error", "{what}: {e}, though no write failed");
            check!(sink.kinds.contains(&e.kind()), "wrong-error", "{what}: a {:?} error, where a write failed with {:?}", e.kind(), sink.kinds);
            untracked(|| drop(e));
            probe("error passed on");
        }
        Err(p) => {
            check!(sink.failed == Some("panic") && p.starts_with(INJECTED), "unexpected-panic", "{what}: {p}");
            untracked(|| drop(p));
        }
    }
    untracked(|| {
        drop(what);
        drop(sink);
    });
}
fn first_difference(a: &[u8], b: &[u8]) -> usize {
    a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()))
}

// --- files --------------------------------------------------------------------------------------
extern "C" {
    fn mkfifo(path: *const std::ffi::c_char, mode: u32) -> i32;
}
fn to_file(lang: Language) {
    let want = reference(lang);
    let dir = untracked(|| scratch().join(format!("files-{}", std::process::id())));
    let _ = untracked(|| std::fs::create_dir_all(&dir));
    let file = untracked(|| dir.join("vx.out"));
    let case = choose(7);
    ev!("to_file {lang:?} case {case}");
    let generate = |p: &std::path::Path| -> io::Result<()> { headers::builder().with_language(lang).to_file(p)?.generate() };
    match case {
        0 | 1 | 2 => {
            // a new file, a shorter one, a longer one
            let old = match case {
                0 => None,
                1 => Some(pick(want.len())),
                _ => Some(want.len() + 1 + pick(5000)),
            };
            untracked(|| {
                let _ = std::fs::remove_file(&file);
                if let Some(n) = old {
                    std::fs::write(&file, vec![b'#'; n]).unwrap();
                }
            });
            let r = generate(&file);
            check!(r.is_ok(), "spurious-error", "to_file: {:?}", r.as_ref().err());
            let got = untracked(|| std::fs::read(&file).unwrap());
            check!(got == want, "wrong-output", "to_file over a file of {old:?} bytes: {} bytes, where the header has {}; they differ from byte {}", got.len(), want.len(), first_difference(want, &got));
            untracked(|| drop(got));
        }
        3 => {
            fault("missing directory");
            let r = generate(&untracked(|| dir.join("no-such").join("vx.out")));
            check!(matches!(&r, Err(e) if e.kind() == io::ErrorKind::NotFound), "lost-error", "to_file in a directory that does not exist: {r:?}");
            untracked(|| drop(r));
        }
        4 => {
            fault("directory in place of the file");
            let r = generate(&dir);
            check!(r.is_err(), "lost-error", "to_file over a directory: {r:?}");
            untracked(|| drop(r));
        }
        5 => {
            fault("full disk");
            let r = generate(std::path::Path::new("/dev/full"));
            check!(r.is_err(), "lost-error", "to_file on a full disk: {r:?}");
            untracked(|| drop(r));
        }
        _ => {
            // A pipe whose reader has gone.
            fault("broken pipe");
            let fifo = untracked(|| dir.join("fifo"));
            let reader = untracked(|| {
                let _ = std::fs::remove_file(&fifo);
                let c = std::ffi::CString::new(fifo.to_str().unwrap()).unwrap();
                assert!(unsafe { mkfifo(c.as_ptr(), 0o600) } == 0);
                use std::os::unix::fs::OpenOptionsExt;
                std::fs::OpenOptions::new().read(true).custom_flags(0o4000).open(&fifo).unwrap()
            });
            let b = headers::builder().with_language(lang).to_file(&fifo);
            untracked(|| drop(reader));
            match b {
                Ok(b) => {
                    let r = b.generate();
                    check!(r.is_err(), "lost-error", "to_file into a pipe that nobody reads: {r:?}");
                    untracked(|| drop(r));
                }
                Err(e) => violate("spurious-error", untracked(|| format!("to_file on a pipe: {e}"))),
            }
            untracked(|| {
                let _ = std::fs::remove_file(&fifo);
                drop(fifo)
            });
        }
    }
    untracked(|| {
        let _ = std::fs::remove_dir_all(&dir);
        drop(file);
        drop(dir);
    });
}

fn h01() {
    set_env(Some(CRATE), None);
    steps(8, 5, || {
        let lang = pick_of(&LANGS);
        match choose(8) {
            0 => generation(lang, false, false, false),
            1 => generation(lang, false, true, false),
            2 => to_file(lang),
            _ => generation(lang, true, choose(8) == 0, false),
        }
    });
}

// --- H02 ----------------------------------------------------------------------------------------
/// The lines of a header that are not blank: what the options do not explain must be the same.
fn lines(s: &str) -> Vec<&str> {
    s.lines().map(|l| l.trim_end()).filter(|l| !l.is_empty()).collect()
}
struct Options {
    lang: Language,
    banner: Option<&'static str>,
    guard: Option<&'static str>,
    text: Option<&'static str>,
    stable: Option<bool>,
    krate: Option<&'static str>,
    pkg: Option<&'static str>,
}
fn with_options(o: &Options) -> Result<Result<Vec<u8>, io::Error>, String> {
    set_env(o.krate, o.pkg);
    let mut sink = Sink::new(vec![]);
    let r = attempt(|| {
        let mut b = headers::builder();
        // in either order
        if o.lang != Language::C {
            b = b.with_language(o.lang);
        }
        if let Some(x) = o.text {
            b = b.with_text_after_guard(x);
        }
        if let Some(x) = o.banner {
            b = b.with_banner(x);
        }
        if let Some(x) = o.guard {
            b = b.with_guard(x);
        }
        if let Some(x) = o.stable {
            b = b.with_stable_header(x);
        }
        b.to_writer(&mut sink).generate()
    });
    set_env(Some(CRATE), None);
    r.map(|r| r.map(|()| sink.got))
}
const DEFAULT_BANNER: &str = concat!(
    "/*! \\file */\n",
    "/*******************************************\n",
    " *                                         *\n",
    " *  File auto-generated by `::safer_ffi`.  *\n",
    " *                                         *\n",
    " *  Do not manually edit this file.        *\n",
    " *                                         *\n",
    " *******************************************/\n",
);
/// The default header, with the options' effects made in it.
fn expected(o: &Options) -> Option<Vec<String>> {
    let name = match (o.krate, o.pkg) {
        (Some(k), _) => k.to_string(),
        (None, Some(p)) => p.replace('-', "_"),
        (None, None) if o.lang == Language::C && o.guard.is_some() => CRATE.to_string(),
        (None, None) => return None,
    };
    let base = String::from_utf8(reference(o.lang).to_vec()).unwrap();
    let rest = base.strip_prefix(DEFAULT_BANNER)?;
    let mut out: Vec<String> = lines(o.banner.unwrap_or(DEFAULT_BANNER)).into_iter().map(String::from).collect();
    let guard = o.guard.map_or_else(|| format!("__RUST_{}__", name.to_ascii_uppercase()), String::from);
    let pascal: String = name.split('_').map(|w| w.get(..1).unwrap_or("").to_ascii_uppercase() + w.get(1..).unwrap_or("")).collect();
    for l in lines(rest) {
        match o.lang {
            Language::C => {
                out.push(l.replace(GUARD, &guard));
                if l.trim() == format!("#define {GUARD}") {
                    out.extend(lines(o.text.unwrap_or("")).into_iter().map(String::from));
                }
            }
            Language::CSharp => out.push(l.replace("VxPeer", &pascal).replace("vx_peer", &name)),
            _ => out.push(l.to_string()),
        }
    }
    Some(out)
}
fn h02() {
    set_env(Some(CRATE), None);
    some_link_order();
    // The environment belongs to the whole process: before there are threads.
    steps(2, 1, || {
        let o = Options {
            lang: pick_of(&LANGS),
            banner: pick_of(&[None, Some("/* mine */"), Some(""), Some("/* {braces} %s \\n */\n// two lines\n")]),
            guard: pick_of(&[None, Some("MY_GUARD_H"), Some("x")]),
            text: pick_of(&[None, Some("#include <stdlib.h>"), Some("/* a */\n/* {b} */"), Some("")]),
            stable: pick_of(&[None, Some(true), Some(false)]),
            krate: pick_of(&[Some(CRATE), Some("other"), Some("a_longer_Name2"), None]),
            pkg: pick_of(&[None, Some("pkg-name"), Some("plain")]),
        };
        ev!("options {:?} {:?} {:?} {:?} {:?} {:?} {:?}", o.lang, o.banner, o.guard, o.text, o.stable, o.krate, o.pkg);
        let r = with_options(&o);
        untracked(|| match (expected(&o), r) {
            (Some(want), Ok(Ok(got))) => {
                let got = String::from_utf8_lossy(&got).into_owned();
                let mut g = lines(&got);
                let mut want = want;
                if o.stable == Some(false) {
                    // the same, in another order
                    g.sort();
                    want.sort();
                }
                // A short guard may be part of other words.
                if o.guard != Some("x") || o.lang != Language::C {
                    for (i, w) in want.iter().enumerate() {
                        if !check!(g.get(i) == Some(&&**w), "wrong-output", "{:?}: line {} is {:?}, not {w:?}", o.lang, i + 1, g.get(i)) {
                            break;
                        }
                    }
                }
                check!(g.len() == want.len(), "wrong-output", "{:?}: {} lines, not {}", o.lang, g.len(), want.len());
                probe("options");
            }
            (None, Err(_)) | (None, Ok(Err(_))) => fault("no name in the environment"),
            // where no name is needed, none may be asked for
            (None, Ok(Ok(_))) if o.lang == Language::Python => probe("options"),
            (None, Ok(Ok(_))) => violate("wrong-output", "a name in the header, with none in the environment"),
            (Some(_), Ok(Err(e))) => violate("spurious-error", format!("{:?}: {e}", o.lang)),
            (Some(_), Err(p)) => violate("unexpected-panic", format!("{:?}: {p}", o.lang)),
        });
    });
    // Then as many generations at once as there are threads, with failures in their middle.
    let n = 1 + pick(3);
    obj::threads(n, 3, 2, || {
        let lang = pick_of(&LANGS);
        generation(lang, choose(3) == 0, false, n > 1);
    });
    generation(pick_of(&LANGS), false, false, false);
}

// --- H03 ----------------------------------------------------------------------------------------
#[derive(Default)]
struct Recorder {
    names: BTreeSet<String>,
    claimed: BTreeSet<String>,
    hit: BTreeSet<String>,
    out: Vec<u8>,
    writes: u64,
}
impl Definer for Recorder {
    fn insert(&mut self, name: &str) -> bool {
        sched::yield_point();
        untracked(|| {
            if self.claimed.contains(name) {
                self.hit.insert(name.to_string());
                return false;
            }
            self.names.insert(name.to_string())
        })
    }
    fn out(&mut self) -> &mut dyn Write {
        &mut self.out
    }
}
fn is_function(name: &str) -> bool {
    (name.starts_with("vx_") || name.starts_with("rust_")) && !name.ends_with("_t") && functions().contains(name)
}
/// All exported functions, from the C header without faults.
fn functions() -> &'static BTreeSet<String> {
    static F: OnceLock<BTreeSet<String>> = OnceLock::new();
    untracked(|| {
        F.get_or_init(|| {
            untracked(|| match decls::read_c(std::str::from_utf8(reference(Language::C)).unwrap_or(""), &|_| false) {
                Ok(h) => h.items.into_iter().filter(|(_, d)| matches!(d, Decl::Func { .. })).map(|(n, _)| n).collect(),
                Err(_) => BTreeSet::new(),
            })
        })
    })
}
/// Names that the generator asked about, in a run without claims.
fn asked(lang: Language) -> &'static Vec<String> {
    static A: [OnceLock<Vec<String>>; 3] = [OnceLock::new(), OnceLock::new(), OnceLock::new()];
    untracked(|| {
        let i = LANGS.iter().position(|l| *l == lang).unwrap();
        A[i].get_or_init(|| {
            untracked(|| {
                std::env::set_var("CARGO_CRATE_NAME", CRATE);
                let mut d = Recorder::default();
                let _ = headers::builder().with_language(lang).generate_with_definer(&mut d);
                d.names.into_iter().collect()
            })
        })
    })
}
fn read(lang: Language, text: &[u8], claimed: &BTreeSet<String>) -> Result<Header, String> {
    let text = std::str::from_utf8(text).map_err(|_| "not in UTF-8".to_string())?;
    match lang {
        Language::CSharp => {
            let (ns, h) = decls::read_csharp(text)?;
            if ns != "VxPeer" {
                return Err(format!("the namespace is {ns}"));
            }
            Ok(h)
        }
        Language::Python => {
            // what `cffi` can read: no directives but constants
            if let Some(l) = text.lines().map(str::trim).find(|l| l.starts_with('#') && !l.starts_with("#define ")) {
                return Err(format!("`{l}`, in Python"));
            }
            decls::read_c(text, &|n| claimed.contains(n))
        }
        _ => decls::read_c(text, &|n| claimed.contains(n)),
    }
}
/// Every type a C# header mentions is somewhere in it.
fn closed(h: &Header, claimed: &BTreeSet<String>) -> Result<(), String> {
    let m = h.map()?;
    let known = |t: &Ty| match t {
        Ty::Named(n) => m.contains_key(&**n) || claimed.contains(n),
        _ => true,
    };
    for (n, d) in &h.items {
        let types: Vec<&Ty> = match d {
            Decl::Func { ret, args } => args.iter().map(|a| &a.1).chain([ret]).collect(),
            Decl::Struct { fields, .. } => fields.iter().map(|f| &f.1).collect(),
            _ => vec![],
        };
        if let Some(t) = types.into_iter().find(|t| !known(t)) {
            return Err(format!("`{n}` mentions {t:?}, which is nowhere defined"));
        }
    }
    Ok(())
}
/// The exported Rust items, as this crate knows them.
fn against_rust(h: &Header, lang: Language) -> Result<(), String> {
    let m = h.map()?;
    let by_fn = |kind: &str| -> Result<Ty, String> {
        match m.get(&*format!("vx_make_{kind}")) {
            Some(Decl::Func { ret, .. }) => Ok(ret.clone()),
            d => Err(format!("vx_make_{kind} is {d:?}")),
        }
    };
    macro_rules! prims {($($t:ident)*) => {$(
        if by_fn(stringify!($t))? != Ty::Prim(stringify!($t)) {
            return Err(format!("{} is {:?}", stringify!($t), by_fn(stringify!($t))));
        }
    )*}}
    prims!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize f32 f64 bool);
    macro_rules! structs {($($T:ident $k:ident $fields:expr;)*) => {$({
        let t = by_fn(stringify!($k))?;
        let (size, align) = decls::size_align(&m, &t, 0)?;
        let (s, a) = (std::mem::size_of::<exports::$T>(), std::mem::align_of::<exports::$T>());
        if (size, align) != (s, a) {
            return Err(format!("{t:?} has {size} bytes aligned to {align}; in Rust it has {s} and {a}"));
        }
        let fields: Option<fn(&mut Vec<(&'static str, usize)>)> = $fields;
        if let (Some(f), Ty::Named(n)) = (fields, &t) {
            let mut want = vec![];
            f(&mut want);
            let Some(Decl::Struct { fields, .. }) = m.get(&**n) else { return Err(format!("{n} is no structure")) };
            let got = decls::offsets(&m, fields, 0)?.2;
            let got: Vec<(&str, usize)> = got.iter().map(|(n, o)| (&**n, *o)).collect();
            if got != want {
                return Err(format!("the fields of {n} are at {got:?}; in Rust, at {want:?}"));
            }
        }
    })*}}
    {
        structs! {
            VxMix mix Some(exports::VxMix::layout);
            VxSmall small Some(exports::VxSmall::layout);
            VxFloats floats Some(exports::VxFloats::layout);
            VxNest nest Some(exports::VxNest::layout);
            VxRenamed renamed Some(exports::VxRenamed::layout);
            VxPtrs ptrs Some(exports::VxPtrs::layout);
            VxGenericByteLong gen Some(exports::VxGenericByteLong::layout);
            VxGenericNested gennest Some(exports::VxGenericNested::layout);
            VxPhantom phantom Some(exports::VxPhantom::layout);
            VxTup tup Some(exports::VxTup::layout);
            VxRaw raw Some(exports::VxRaw::layout);
            VxConst3 const3 Some(exports::VxConst3::layout);
            VxConst16 const16 Some(exports::VxConst16::layout);
            VxBits bits None; VxFull full None; VxTop top None;
            VxColor color None; VxSigned signed None; VxWide wide None; VxInt eint None;
            VxPlain plain None; VxRenamedEnum renum None; VxTransparent transp None; VxTransparentStruct transps None;
        }
        use exports::*;
        let enums: [(&str, Vec<i128>); 9] = [
            ("VxColor_t", vec![VxColor::Red as _, VxColor::DarkGreen as _, VxColor::Blue as _, VxColor::Last as _]),
            ("VxSigned_t", vec![VxSigned::Low as _, VxSigned::Minus as _, VxSigned::Zero as _, VxSigned::Up as _]),
            ("VxWide_t", vec![VxWide::A as _, VxWide::B as _, VxWide::C as _]),
            ("VxInt_t", vec![VxInt::Neg as _, VxInt::Pos as _, VxInt::Next as _]),
            ("VxPlain_t", vec![VxPlain::One as _, VxPlain::Two as _, VxPlain::Nine as _]),
            ("VxBits_t", vec![VxBits::Low as _, VxBits::Sign as _, VxBits::High as _, VxBits::After as _]),
            ("VxFull_t", vec![VxFull::Nil as _, VxFull::Most as _, VxFull::All as _]),
            ("VxTop_t", vec![VxTop::Bottom as _, VxTop::Top as _]),
            ("vx_renamed_t", vec![VxRenamedEnum::FirstOne as _, VxRenamedEnum::SecondOne as _, VxRenamedEnum::Third as _]),
        ];
        for (n, want) in enums {
            match m.get(n) {
                Some(Decl::Enum { variants, .. }) if variants.iter().map(|v| v.1).collect::<Vec<_>>() == want => {}
                d => return Err(format!("{n} is {d:?}, where Rust has {want:?}")),
            }
        }
    }
    for (n, want) in [("vx_twin_east_t", 1), ("vx_twin_west_t", 2)] {
        match m.get(n) {
            Some(Decl::Struct { fields, .. }) if fields.len() == want => {}
            d => return Err(format!("{n} is {d:?}")),
        }
    }
    for n in ["VX_ANSWER", "VX_MINUS", "VX_BYTE", "VX_BIG", "VX_YES", "VX_RATIO", "VX_HALF", "VX_TINY", "VX_INF", "VX_MINUS_INF", "VX_NAN", "VX_NO", "VX_RAW", "VX_LOWEST", "vx_raw_fn", "VxRaw_t", "VxAlone_t", "vx_twin_fn_east", "vx_twin_fn_west", "vx_new_name", "vx_async_new_name"] {
        if !m.contains_key(n) {
            return Err(format!("{n} is missing"));
        }
    }
    for n in ["vx_old_name", "vx_twin", "vx_async_old_name", "VxTwin_t"] {
        if m.contains_key(n) {
            return Err(format!("{n} is there, under the name it was renamed from"));
        }
    }
    Ok(())
}
fn source_items() -> &'static Vec<source::Item> {
    static S: OnceLock<Vec<source::Item>> = OnceLock::new();
    untracked(|| S.get_or_init(|| untracked(|| source::items(include_str!("../exports.rs")))))
}
/// The names of parameters, fields and variants, and the documentation, as the source has them.
fn against_source(h: &Header, lang: Language, text: &str) -> Result<(), String> {
    let m = h.map()?;
    for it in source_items() {
        let want: Vec<&str> = it.parts.iter().map(|p| &*p.0).collect();
        match (it.kind, m.get(&*it.name)) {
            ("fn", Some(Decl::Func { args, .. })) => {
                let got: Vec<&str> = args.iter().map(|a| &*a.0).collect();
                if got.len() != want.len() || got.iter().zip(&want).any(|(g, w)| g != w && !w.is_empty()) {
                    return Err(format!("the parameters of {} are called {got:?}, not {want:?}", it.name));
                }
            }
            ("fn", d) => return Err(format!("the function {} is {d:?}", it.name)),
            ("struct", Some(Decl::Struct { fields, .. })) => {
                let got: Vec<&str> = fields.iter().map(|a| &*a.0).collect();
                if got != want {
                    return Err(format!("the fields of {} are called {got:?}, not {want:?}", it.name));
                }
            }
            ("enum", Some(Decl::Enum { variants, .. })) if variants.len() != want.len() => {
                return Err(format!("{} has the variants {variants:?}, not {want:?}", it.name));
            }
            ("const", None) if lang == Language::C => return Err(format!("the constant {} is missing", it.name)),
            _ => {}
        }
    }
    match lang {
        Language::C => source::documented_c(source_items(), text),
        Language::CSharp => source::documented_csharp(source_items(), text),
        _ => Ok(()),
    }
}
fn report(class: &str, r: Result<(), String>) {
    if let Err(e) = r {
        violate(class, e);
    }
}
fn h03_one() {
    let lang = pick_of(&LANGS);
    let stable = pick_of(&[None, Some(true), Some(false)]);
    let mut d = untracked(Recorder::default);
    let all = asked(lang);
    let claims = choose(3);
    let mut fatal = false;
    if claims > 0 && !all.is_empty() {
        let n = 1 + pick(6);
        for _ in 0..n {
            let name = &all[pick(all.len())];
            // a function of that name is an error; most runs are to come through
            let f = is_function(name);
            if f && claims == 1 {
                continue;
            }
            fatal |= f;
            untracked(|| d.claimed.insert(name.clone()));
        }
    }
    ev!("define {lang:?} stable {stable:?} without {:?}", d.claimed);
    let mut b = headers::builder().with_language(lang);
    if let Some(s) = stable {
        b = b.with_stable_header(s);
    }
    let r = attempt(|| b.generate_with_definer(&mut d));
    untracked(|| match r {
        Err(p) => violate("unexpected-panic", p),
        Ok(Err(e)) => {
            fault("name already taken");
            check!(fatal && e.kind() == io::ErrorKind::AlreadyExists, "spurious-error", "{lang:?}: {e}");
            let named = d.claimed.iter().any(|c| is_function(c) && e.to_string().contains(&**c));
            check!(named, "wrong-error", "{lang:?}: `{e}` does not name the function that is already there");
        }
        Ok(Ok(())) => {
            check!(!fatal, "lost-error", "{lang:?}: a function's name was taken, and nothing was said");
            let h = match read(lang, &d.out, &d.claimed) {
                Ok(h) => h,
                Err(e) => return violate("bad-header", format!("{lang:?}, stable {stable:?}: {e}")),
            };
            for (n, _) in &h.items {
                check!(!d.claimed.contains(n), "defined-twice", "{lang:?}: `{n}` was already defined elsewhere, and is defined again");
            }
            for f in functions() {
                check!(h.items.iter().any(|(n, _)| n == f), "missing-item", "{lang:?}, stable {stable:?}: the function {f} is missing");
            }
            if let Err(e) = h.map() {
                return violate("bad-header", format!("{lang:?}: {e}"));
            }
            report("bad-header", closed(&h, &d.claimed).map_err(|e| format!("{lang:?}, stable {stable:?}: {e}")));
            if d.claimed.is_empty() {
                report("wrong-item", against_rust(&h, lang).map_err(|e| format!("{lang:?}, stable {stable:?}: {e}")));
                report("wrong-item", against_source(&h, lang, &String::from_utf8_lossy(&d.out)).map_err(|e| format!("{lang:?}, stable {stable:?}: {e}")));
                if lang != Language::C {
                    match read(Language::C, reference(Language::C), &d.claimed) {
                        Ok(c) => report("wrong-item", decls::compare(&c, &h, &format!("{lang:?}"), lang == Language::CSharp)),
                        Err(e) => violate("bad-header", format!("C: {e}")),
                    }
                } else if stable != Some(false) {
                    check!(d.out == reference(lang), "wrong-output", "C, through a definer: not what a writer is given, from byte {}", first_difference(reference(lang), &d.out));
                }
                probe("complete header read");
            } else {
                probe("header with gaps read");
            }
        }
    });
    untracked(|| drop(d));
}
fn h03() {
    set_env(Some(CRATE), None);
    some_link_order();
    let n = 1 + pick(2);
    obj::threads(n, 2, 1, h03_one);
    h03_one();
}

const REAL: &str = "headers::builder() and all its options, Builder::{to_writer, to_file, generate, generate_with_definer}, HashSetDefiner, the C, C# and Python generators, the registration of exported items";
const STUB: &str = "what is written to, the set of defined names (H03), the thread scheduler, the exported items";
pub static PROPS: [Prop; 3] = [
    Prop {
        id: "H01",
        title: "Header generation passes on every failure of its output",
        run: h01,
        quick_runs: 6_000,
        thorough_runs: 200_000,
        warm_up: 2,
        wall_cap: 90,
        rule: "one run = one seed: a few generations of one of three languages, directly or through a buffer of any size, with short and interrupted writes and a failure, full disk, panic or failed flush at a byte from the seed, or into files of every kind; distinct = different event log",
        real: REAL,
        stub: STUB,
        assumptions: &["a sink that takes bytes says how many, as io::Write demands"],
    },
    Prop {
        id: "H02",
        title: "Generated headers are the same every time",
        run: h02,
        quick_runs: 5_000,
        thorough_runs: 150_000,
        warm_up: 2,
        wall_cap: 90,
        rule: "one run = one seed: generations with options and environments from the seed, then generations on 1-3 simulated threads that switch at bytes of the output from the seed, some of which fail; distinct = different event log",
        real: REAL,
        stub: STUB,
        assumptions: &["the environment does not change during a generation"],
    },
    Prop {
        id: "H03",
        title: "Headers define every item once, before its use, as it is in Rust",
        run: h03,
        quick_runs: 4_000,
        thorough_runs: 120_000,
        warm_up: 2,
        wall_cap: 90,
        rule: "one run = one seed: generations of one of three languages, in both orders of items, on 1-2 simulated threads that switch whenever a name is looked up, with names already taken that the seed picks; distinct = different event log",
        real: REAL,
        stub: STUB,
        assumptions: &["C# is read by the rules of sequential layout on a 64-bit target", "the Python output is read as C without directives, as cffi does; its constants carry no values"],
    },
];
