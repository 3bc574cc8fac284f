//! One run: the choice source (seeded PRNG, or a recorded list), the event log, fault and probe
//! counters, the verdict. Everything the run decides comes from `choose`; nothing else may.

use crate::track::untracked;
use std::collections::BTreeMap;
use std::sync::Mutex;

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}
pub fn mix(a: u64, b: u64) -> u64 {
    Rng::new(a.wrapping_mul(0xD6E8_FEB8_6659_FD93) ^ b).next()
}

#[derive(Clone)]
pub enum Source {
    Seed(u64),
    Replay(Vec<u64>),
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub msg: String,
}

#[derive(Default)]
pub struct Ctx {
    rng: Option<Rng>,
    replay: Option<Vec<u64>>,
    pub choices: Vec<u64>,
    /// (start, end) in `choices`: what the minimiser may cut out as a whole.
    pub spans: Vec<(usize, usize)>,
    span_stack: Vec<usize>,
    pub trace: bool,
    pub log: Vec<String>,
    pub hash: u64,
    pub sched_hash: u64,
    pub n_events: u64,
    pub ops: u64,
    pub switches: u64,
    pub steps: u64,
    pub sim_time: u64,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub violation: Option<Violation>,
    pub leaks_ok: bool,
    pub in_flight_faults: u64,
}

/// Written through, choice by choice: what is left when a run takes its process down.
static RECORD: Mutex<Option<std::fs::File>> = Mutex::new(None);
fn record(s: &str) {
    use std::io::Write;
    if let Some(f) = RECORD.lock().unwrap_or_else(|p| p.into_inner()).as_mut() {
        let _ = f.write_all(s.as_bytes());
    }
}

static CTX: Mutex<Option<Box<Ctx>>> = Mutex::new(None);

pub fn with<R>(f: impl FnOnce(&mut Ctx) -> R) -> R {
    untracked(|| {
        let mut g = match CTX.lock() {
            Ok(g) => g,
            Err(p) => p.into_inner(),
        };
        f(g.as_mut().expect("no run in progress"))
    })
}
pub fn begin(src: Source, trace: bool) {
    untracked(|| {
        let mut c = Ctx {
            trace,
            hash: 0xcbf29ce484222325,
            sched_hash: 0xcbf29ce484222325,
            ..Ctx::default()
        };
        if let Some(p) = std::env::var_os("SIM_RECORD") {
            *RECORD.lock().unwrap_or_else(|p| p.into_inner()) = std::fs::File::create(p).ok();
            record("R\n");
        }
        match src {
            Source::Seed(s) => c.rng = Some(Rng::new(s)),
            Source::Replay(v) => c.replay = Some(v),
        }
        *CTX.lock().unwrap_or_else(|p| p.into_inner()) = Some(Box::new(c));
    })
}
pub fn finish() -> Box<Ctx> {
    untracked(|| {
        CTX.lock()
            .unwrap_or_else(|p| p.into_inner())
            .take()
            .unwrap()
    })
}

fn fnv(h: u64, bytes: &[u8]) -> u64 {
    bytes
        .iter()
        .fold(h, |h, b| (h ^ *b as u64).wrapping_mul(0x100000001b3))
}

const MAX_CHOICES: usize = 200_000;

impl Ctx {
    fn draw(&mut self, n: u64) -> u64 {
        let v = if let Some(r) = &mut self.rng {
            if self.choices.len() > MAX_CHOICES {
                0
            } else {
                r.next() % n
            }
        } else {
            let i = self.choices.len();
            self.replay.as_ref().unwrap().get(i).copied().unwrap_or(0) % n
        };
        self.choices.push(v);
        if self.trace {
            record(&format!("{v}\n"));
        }
        v
    }
    pub fn event(&mut self, s: std::fmt::Arguments<'_>) {
        let s = s.to_string();
        self.hash = fnv(self.hash, s.as_bytes());
        self.hash = fnv(self.hash, b"\n");
        self.n_events += 1;
        if self.trace && self.log.len() < 4000 {
            record(&format!("E {}\n", s.replace('\n', " ")));
            self.log.push(s);
        }
    }
}

/// A number in 0..n. 0 is the simplest: shrinking goes towards it.
pub fn choose(n: u64) -> u64 {
    if n <= 1 {
        return 0;
    }
    with(|c| c.draw(n))
}
pub fn pick(n: usize) -> usize {
    choose(n as u64) as usize
}
/// True `num` times out of `den`; false is simplest.
pub fn chance(num: u64, den: u64) -> bool {
    choose(den) >= den - num
}
pub fn pick_of<T: Copy>(xs: &[T]) -> T {
    xs[pick(xs.len())]
}
pub fn sched_choose(n: usize) -> usize {
    let v = pick(n);
    with(|c| c.sched_hash = fnv(c.sched_hash, &(v as u64).to_le_bytes()));
    v
}
/// A length, with the boundaries of inline storage and of small powers of two over-represented.
pub fn length(max: usize) -> usize {
    const EDGES: [usize; 24] = [
        0, 1, 2, 3, 5, 7, 8, 15, 16, 17, 24, 30, 31, 32, 33, 34, 38, 39, 40, 41, 63, 64, 65, 100,
    ];
    let l = if chance(1, 4) {
        pick(max + 1)
    } else {
        EDGES[pick(EDGES.len())]
    };
    l.min(max)
}

/// `f`'s choices belong together: the minimiser tries to drop all of them at once.
pub fn span<R>(f: impl FnOnce() -> R) -> R {
    with(|c| {
        let n = c.choices.len();
        c.span_stack.push(n);
        if c.trace {
            record("(\n");
        }
    });
    let r = f();
    with(|c| {
        let s = c.span_stack.pop().unwrap_or(0);
        if c.trace {
            record(")\n");
        }
        let e = c.choices.len();
        if e > s {
            c.spans.push((s, e));
        }
    });
    r
}
/// Runs `step` between 0 and `max` times, one span each. Stops early after a violation.
/// `mean`: the expected number of steps.
pub fn steps(max: usize, mean: u64, mut step: impl FnMut()) {
    for _ in 0..max {
        if failed() {
            break;
        }
        let go = span(|| {
            // 0 = stop, so that a truncated list of choices ends the run
            if choose(mean + 1) == 0 {
                return false;
            }
            with(|c| c.ops += 1);
            step();
            true
        });
        if !go {
            break;
        }
    }
}

pub fn fault(name: &'static str) {
    with(|c| *c.faults.entry(name).or_insert(0) += 1)
}
pub fn probe(name: &'static str) {
    with(|c| *c.probes.entry(name).or_insert(0) += 1)
}
pub fn fault_count() -> u64 {
    with(|c| c.faults.values().sum())
}
pub fn violate(class: &str, msg: impl Into<String>) {
    let msg = untracked(|| msg.into());
    with(|c| {
        c.event(format_args!("VIOLATION {class}: {msg}"));
        if c.violation.is_none() {
            c.violation = Some(Violation {
                class: class.to_string(),
                msg,
            });
        }
    })
}
pub fn failed() -> bool {
    with(|c| c.violation.is_some())
}
pub fn leaks_ok() {
    with(|c| c.leaks_ok = true)
}
pub fn advance(dt: u64) {
    with(|c| c.sim_time += dt)
}

#[macro_export]
macro_rules! ev {
    ($($t:tt)*) => { $crate::ctx::with(|c| c.event(format_args!($($t)*))) };
}
/// A check of the property: records a violation of class `$class` when the condition is false.
#[macro_export]
macro_rules! check {
    ($cond:expr, $class:expr, $($t:tt)*) => {{
        let ok: bool = $cond;
        if !ok {
            $crate::ctx::violate($class, $crate::track::untracked(|| format!($($t)*)));
        }
        ok
    }};
}
