//! The driver: spreads the runs over worker processes, minimises and replays what fails, writes
//! the evidence.

use crate::ctx::{self, Source};
use crate::props::{self, Prop};
use crate::{run_once, track};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::fs;
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

extern "C" {
    fn personality(p: u64) -> i32;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

fn child(bin: &Path) -> Command {
    let mut c = Command::new(bin);
    unsafe {
        c.pre_exec(|| {
            // No address randomisation: a run that reads wild memory still replays. Best effort.
            let cur = personality(0xffff_ffff);
            personality(cur as u64 | 0x0040000);
            prctl(1, 9, 0, 0, 0); // die with the driver
            Ok(())
        });
    }
    c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
    c
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.trim().parse().ok())
        .unwrap_or(1)
}
fn run_seed(seed: u64, prop: &str, idx: u64) -> u64 {
    let p = prop.bytes().fold(7u64, |h, b| ctx::mix(h, b as u64));
    ctx::mix(ctx::mix(seed, p), idx)
}

pub fn main(args: &[String]) -> i32 {
    let a: Vec<&str> = args.iter().map(|s| &**s).collect();
    match &a[..] {
        ["list"] => {
            for p in props::all() {
                println!("{} {}", p.id, p.title);
            }
            0
        }
        ["worker", prop, seed, start, stride, end, out] => {
            worker(prop, num(seed), num(start), num(stride), num(end), out)
        }
        ["exec", prop, file, out] => exec(prop, Path::new(file), Path::new(out)),
        ["case", name, rest @ ..] => props::case(name, rest),
        ["drive", prop, tier] => drive(prop, tier),
        ["replay", file] => replay(Path::new(file)),
        ["trace", prop, idx] => {
            let p = props::find(prop);
            let s = run_seed(seed(), p.id, num(idx));
            warm_up(p);
            let r = run_once(p, Source::Seed(s), true);
            for l in &r.ctx.log {
                println!("{l}");
            }
            println!("faults {:?} probes {:?}", r.ctx.faults, r.ctx.probes);
            println!("choices {} violation {:?}", r.ctx.choices.len(), r.ctx.violation);
            0
        }
        ["header", lang] => {
            use crate::exports::Language::*;
            let l = match *lang { "c" => C, "csharp" => CSharp, _ => Python };
            match crate::exports::header(l) {
                Ok(h) => { let _ = std::io::stdout().write_all(&h); 0 }
                Err(e) => { eprintln!("{e}"); 1 }
            }
        }
        ["selftest", n] => selftest(num(n)),
        _ => {
            eprintln!("usage: sim list | drive PROP quick|thorough | replay FILE | trace PROP IDX | selftest N");
            2
        }
    }
}
fn num(s: &str) -> u64 {
    s.parse().unwrap_or_else(|_| panic!("not a number: {s}"))
}

/// Lazily initialised statics of std and of dependencies are allocated here, outside of the books.
fn warm_up(p: &Prop) {
    let _ = run_once(p, Source::Replay(vec![]), false);
    for i in 0..p.warm_up {
        let _ = run_once(p, Source::Seed(ctx::mix(0xAAAA, i)), false);
    }
}

// ---------------------------------------------------------------------------------------------
// Worker: many seeds, until the first violation.

fn join(v: &[u64]) -> String {
    let mut s = String::with_capacity(v.len() * 3);
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        let _ = write!(s, "{x}");
    }
    s
}
fn clean(s: &str) -> String {
    s.replace(['\n', '\t', '\r'], " ")
}

fn worker(prop: &str, seed: u64, start: u64, stride: u64, end: u64, out: &str) -> i32 {
    let p = props::find(prop);
    let progress = fs::OpenOptions::new()
        .write(true)
        .create(true)
        .open(format!("{out}.idx"))
        .expect("progress file");
    let put = |i: u64| {
        let _ = progress.write_all_at(&i.to_le_bytes(), 0);
    };
    // A crash in the warm-up is found by the seeds too: it is only there for the books.
    put(u64::MAX);
    warm_up(p);
    let (mut faults, mut probes) = (BTreeMap::new(), BTreeMap::new());
    let (mut n, mut ops, mut switches, mut sim_time, mut faulty, mut events) = (0u64, 0, 0, 0, 0u64, 0);
    let mut hashes = fs::File::create(format!("{out}.hash")).expect("hash file");
    let mut buf: Vec<u8> = Vec::new();
    let mut verdict = String::new();
    let mut i = start;
    let t0 = Instant::now();
    let cap = Duration::from_secs(p.wall_cap);
    let mut capped = false;
    while i < end {
        if t0.elapsed() > cap {
            capped = true;
            break;
        }
        put(i);
        let r = run_once(p, Source::Seed(run_seed(seed, p.id, i)), false).ctx;
        n += 1;
        ops += r.ops;
        switches += r.switches;
        sim_time += r.sim_time;
        events += r.n_events;
        let nf: u64 = r.faults.values().sum();
        faulty += (nf > 0) as u64;
        let trivial = r.ops == 0 && r.n_events < 3;
        for x in [i, r.hash, r.sched_hash, trivial as u64] {
            buf.extend_from_slice(&x.to_le_bytes());
        }
        for (k, v) in r.faults {
            *faults.entry(k).or_insert(0u64) += v;
        }
        for (k, v) in r.probes {
            *probes.entry(k).or_insert(0u64) += v;
        }
        if let Some(v) = &r.violation {
            verdict = format!("V\t{i}\t{}\t{}\n", clean(&v.class), clean(&v.msg));
            break;
        }
        i += stride;
    }
    let _ = hashes.write_all(&buf);
    let mut s = format!(
        "N\t{n}\nO\t{ops}\nS\t{switches}\nT\t{sim_time}\nE\t{events}\nX\t{faulty}\nA\t{}\nC\t{}\n",
        track::TOTAL_ALLOCS.load(std::sync::atomic::Ordering::Relaxed),
        capped as u64
    );
    for (k, v) in faults {
        let _ = writeln!(s, "F\t{k}\t{v}");
    }
    for (k, v) in probes {
        let _ = writeln!(s, "P\t{k}\t{v}");
    }
    s.push_str(&verdict);
    fs::write(out, s).expect("worker result");
    0
}

// ---------------------------------------------------------------------------------------------
// Exec: one run in a process of its own, from a file: "seed N" or "choices a,b,c".

fn exec(prop: &str, file: &Path, out: &Path) -> i32 {
    let p = props::find(prop);
    let text = fs::read_to_string(file).expect("exec input");
    let src = if let Some(s) = text.strip_prefix("seed ") {
        Source::Seed(num(s.trim()))
    } else {
        let s = text.strip_prefix("choices ").expect("exec input").trim();
        Source::Replay(s.split(',').filter(|x| !x.is_empty()).map(num).collect())
    };
    warm_up(p);
    let r = run_once(p, src, true).ctx;
    let (class, msg) = r
        .violation
        .as_ref()
        .map_or(("".into(), "".into()), |v| (clean(&v.class), clean(&v.msg)));
    let spans: Vec<u64> = r.spans.iter().flat_map(|&(a, b)| [a as u64, b as u64]).collect();
    let mut s = format!(
        "{class}\n{msg}\n{:016x}\n{}\n{}\n",
        r.hash,
        join(&r.choices),
        join(&spans)
    );
    let fs_: Vec<String> = r.faults.iter().map(|(k, v)| format!("{k}={v}")).collect();
    s.push_str(&fs_.join(" "));
    s.push('\n');
    for l in &r.log {
        s.push_str(&clean(l));
        s.push('\n');
    }
    fs::write(out, s).expect("exec result");
    0
}

#[derive(Clone, Debug, Default)]
struct Outcome {
    class: String,
    msg: String,
    hash: String,
    choices: Vec<u64>,
    spans: Vec<(usize, usize)>,
    faults: String,
    log: Vec<String>,
}

enum Input<'a> {
    Seed(u64),
    Choices(&'a [u64]),
}

fn wait_limited(c: &mut Child, limit: Duration) -> Result<std::process::ExitStatus, ()> {
    let t0 = Instant::now();
    let mut nap = 200;
    loop {
        if let Some(s) = c.try_wait().expect("wait") {
            return Ok(s);
        }
        if t0.elapsed() > limit {
            let _ = c.kill();
            let _ = c.wait();
            return Err(());
        }
        std::thread::sleep(Duration::from_micros(nap));
        nap = (nap * 2).min(5000);
    }
}

/// `crash:signal N`, `crash:exit N`, `hang`: what a process that did not finish its run amounts to.
fn death(r: Result<std::process::ExitStatus, ()>) -> Option<String> {
    match r {
        Err(()) => Some("hang".into()),
        Ok(s) if s.success() => None,
        Ok(s) => Some(match s.signal() {
            Some(n) => format!("crash:signal {n}"),
            None => format!("crash:exit {}", s.code().unwrap_or(-1)),
        }),
    }
}

fn exec_child(bin: &Path, prop: &str, dir: &Path, tag: &str, input: Input<'_>, limit: u64) -> Outcome {
    let f = dir.join(format!("{tag}.in"));
    let o = dir.join(format!("{tag}.out"));
    let _ = fs::remove_file(&o);
    let (text, choices) = match input {
        Input::Seed(s) => (format!("seed {s}"), vec![]),
        Input::Choices(c) => (format!("choices {}", join(c)), c.to_vec()),
    };
    fs::write(&f, text).expect("exec input");
    let mut c = child(bin)
        .args(["exec", prop])
        .arg(&f)
        .arg(&o)
        .spawn()
        .expect("spawn exec");
    let st = wait_limited(&mut c, Duration::from_secs(limit));
    if let Some(class) = death(st) {
        return Outcome {
            msg: format!("the process of this run ended: {class}"),
            class,
            choices,
            ..Outcome::default()
        };
    }
    let text = fs::read_to_string(&o).expect("exec result");
    let mut l = text.split('\n');
    let mut next = || l.next().unwrap_or("").to_string();
    let nums = |s: String| -> Vec<u64> { s.split(',').filter(|x| !x.is_empty()).map(num).collect() };
    let (class, msg, hash) = (next(), next(), next());
    let choices = nums(next());
    let sp = nums(next());
    let faults = next();
    Outcome {
        class,
        msg,
        hash,
        choices,
        spans: sp.chunks(2).map(|c| (c[0] as usize, c[1] as usize)).collect(),
        faults,
        log: l.filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(),
    }
}

fn same(a: &str, b: &str) -> bool {
    a == b || (a.starts_with("crash") && b.starts_with("crash"))
}

/// Shrinks a failing list of choices: drop spans, drop blocks, lower values.
fn minimise(bin: &Path, prop: &str, dir: &Path, first: Outcome, budget: Duration) -> (Outcome, u64) {
    let class = first.class.clone();
    let mut best = first;
    let t0 = Instant::now();
    let mut tries = 0u64;
    let hang = class == "hang";
    let mut attempt = |cand: &[u64], best: &mut Outcome, tries: &mut u64| -> bool {
        if t0.elapsed() > budget {
            return false;
        }
        *tries += 1;
        let o = exec_child(bin, prop, dir, "min", Input::Choices(cand), if hang { 8 } else { 20 });
        let better = same(&o.class, &class)
            && (o.choices.len() < best.choices.len()
                || o.choices.len() == best.choices.len() && o.choices < best.choices);
        if better {
            let spans = std::mem::take(&mut best.spans);
            *best = o;
            if best.spans.is_empty() {
                // a crash: no record; keep what still fits
                let n = best.choices.len();
                best.spans = spans.into_iter().filter(|&(_, e)| e <= n).collect();
            }
        }
        better
    };
    loop {
        let before = (best.choices.len(), best.choices.clone());
        // truncate
        let mut cut = best.choices.len() / 2;
        while cut > 0 {
            let n = best.choices.len();
            let c = best.choices[..n - cut.min(n)].to_vec();
            if !attempt(&c, &mut best, &mut tries) {
                cut /= 2;
            }
            cut = cut.min(best.choices.len());
        }
        // spans, biggest first
        let mut i = 0;
        let mut spans = best.spans.clone();
        spans.sort_by_key(|&(a, b)| std::cmp::Reverse(b - a));
        while i < spans.len() && t0.elapsed() < budget {
            let (a, b) = spans[i];
            if b <= best.choices.len() {
                let mut c = best.choices.clone();
                c.drain(a..b);
                if attempt(&c, &mut best, &mut tries) {
                    spans = best.spans.clone();
                    spans.sort_by_key(|&(a, b)| std::cmp::Reverse(b - a));
                    continue;
                }
            }
            i += 1;
        }
        // blocks
        for k in [8usize, 4, 2, 1] {
            let mut i = 0;
            while i + k <= best.choices.len() && t0.elapsed() < budget {
                let mut c = best.choices.clone();
                c.drain(i..i + k);
                if !attempt(&c, &mut best, &mut tries) {
                    i += 1;
                }
            }
        }
        // values
        let mut i = 0;
        while i < best.choices.len() && t0.elapsed() < budget {
            let v = best.choices[i];
            for w in [0, v / 2, v.saturating_sub(1)] {
                if i < best.choices.len() && w < best.choices[i] {
                    let mut c = best.choices.clone();
                    c[i] = w;
                    if attempt(&c, &mut best, &mut tries) && w == 0 {
                        break;
                    }
                }
            }
            i += 1;
        }
        if (best.choices.len(), best.choices.clone()) == before || t0.elapsed() > budget {
            break;
        }
    }
    (best, tries)
}

// ---------------------------------------------------------------------------------------------

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn js_list(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(","))
}
fn js_map(m: &BTreeMap<String, u64>) -> String {
    format!(
        "{{{}}}",
        m.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(",")
    )
}
fn field(text: &str, key: &str) -> Option<String> {
    let k = format!("\"{key}\":");
    let i = text.find(&k)? + k.len();
    let rest = text[i..].trim_start();
    if let Some(r) = rest.strip_prefix('[') {
        return Some(r[..r.find(']')?].to_string());
    }
    if let Some(r) = rest.strip_prefix('"') {
        let mut o = String::new();
        let mut it = r.chars();
        while let Some(c) = it.next() {
            match c {
                '\\' => o.push(it.next()?),
                '"' => return Some(o),
                c => o.push(c),
            }
        }
        return None;
    }
    Some(rest[..rest.find([',', '\n', '}'])?].trim().to_string())
}

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}
/// "dev=/path,release=/path"
fn bins() -> Vec<(String, PathBuf)> {
    match std::env::var("SIM_BINS") {
        Ok(s) => s
            .split(',')
            .map(|kv| {
                let (k, v) = kv.split_once('=').expect("SIM_BINS");
                (k.to_string(), PathBuf::from(v))
            })
            .collect(),
        Err(_) => vec![(
            if cfg!(debug_assertions) { "dev" } else { "release" }.into(),
            std::env::current_exe().expect("own path"),
        )],
    }
}

struct Scratch(PathBuf);
impl Scratch {
    fn new(tag: &str) -> Scratch {
        let base = std::env::var("VERIF_SCRATCH").unwrap_or_else(|_| "/tmp".into());
        let d = PathBuf::from(base).join(format!("sim-{tag}-{}", std::process::id()));
        fs::create_dir_all(&d).expect("scratch dir");
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

struct Worker {
    profile: usize,
    id: usize,
    child: Child,
    out: PathBuf,
    last: (u64, Instant),
}
struct Failure {
    idx: u64,
    profile: usize,
    class: String,
    msg: String,
}

fn read_idx(out: &Path) -> u64 {
    let mut b = [0u8; 8];
    match fs::File::open(format!("{}.idx", out.display())).map(|mut f| f.read_exact(&mut b)) {
        Ok(Ok(())) => u64::from_le_bytes(b),
        _ => u64::MAX,
    }
}

fn drive(prop: &str, tier: &str) -> i32 {
    let t0 = Instant::now();
    let p = props::find(prop);
    let seed = seed();
    let bins = bins();
    let scratch = Scratch::new(p.id);
    let dir = &scratch.0;
    let thorough = tier == "thorough";
    let mult: f64 = std::env::var("SIM_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let total = ((if thorough { p.thorough_runs } else { p.quick_runs }) as f64 * mult) as u64;
    let wall_limit = Duration::from_secs(if thorough { 3600 } else { 420 });
    println!("property {} tier {tier} VERIF_SEED {seed}: {total} simulated runs in each of {} builds", p.id, bins.len());

    // Each build gets the same number of workers; run i goes to worker i mod n, whatever n is.
    let per = (8 / bins.len()).max(1) as u64;
    let hang_after = Duration::from_secs(45);
    let mut workers: Vec<Worker> = vec![];
    let mut outs: Vec<(usize, PathBuf)> = vec![];
    for (b, (name, bin)) in bins.iter().enumerate() {
        for w in 0..per {
            let out = dir.join(format!("w-{name}-{w}"));
            // odd build: other seeds than even build
            let (lo, hi) = (b as u64 * total, (b as u64 + 1) * total);
            let child = child(bin)
                .args(["worker", p.id])
                .arg(seed.to_string())
                .arg((lo + w).to_string())
                .arg(per.to_string())
                .arg(hi.to_string())
                .arg(&out)
                .spawn()
                .expect("spawn worker");
            outs.push((b, out.clone()));
            workers.push(Worker { profile: b, id: w as usize, child, out, last: (u64::MAX, Instant::now()) });
        }
    }
    let mut failures: Vec<Failure> = vec![];
    let mut evidence_kills = 0;
    while !workers.is_empty() {
        std::thread::sleep(Duration::from_millis(10));
        let mut i = 0;
        while i < workers.len() {
            let w = &mut workers[i];
            let st = w.child.try_wait().expect("wait");
            let now = read_idx(&w.out);
            if now != w.last.0 {
                w.last = (now, Instant::now());
            }
            let mut gone = false;
            if let Some(s) = st {
                gone = true;
                if let Some(class) = death(Ok(s)) {
                    failures.push(Failure {
                        idx: now,
                        profile: w.profile,
                        msg: format!("the simulated process ended: {class}"),
                        class,
                    });
                }
            } else if w.last.1.elapsed() > hang_after || t0.elapsed() > wall_limit + Duration::from_secs(60) {
                let _ = w.child.kill();
                let _ = w.child.wait();
                gone = true;
                failures.push(Failure {
                    idx: now,
                    profile: w.profile,
                    class: "hang".into(),
                    msg: "the run makes no progress".into(),
                });
            }
            if gone {
                if let Ok(text) = fs::read_to_string(&w.out) {
                    for l in text.lines() {
                        let f: Vec<&str> = l.split('\t').collect();
                        if f[0] == "V" {
                            failures.push(Failure {
                                idx: num(f[1]),
                                profile: w.profile,
                                class: f[2].into(),
                                msg: f[3].into(),
                            });
                        }
                    }
                }
                workers.swap_remove(i);
            } else {
                i += 1;
            }
        }
        // Workers beyond the earliest failure of their own build have nothing more to say.
        for w in &mut workers {
            if let Some(m) = failures.iter().filter(|f| f.profile == w.profile).map(|f| f.idx).min() {
                if w.last.0 != u64::MAX && w.last.0 > m {
                    let _ = w.child.kill();
                    let _ = w.child.wait();
                    evidence_kills += 1;
                    w.last.0 = u64::MAX - 1;
                }
            }
        }
        workers.retain(|w| w.last.0 != u64::MAX - 1);
    }
    let _ = evidence_kills;
    let explore_s = t0.elapsed().as_secs_f64();

    // Gather.
    let (mut faults, mut probes) = (BTreeMap::new(), BTreeMap::new());
    let mut sums: BTreeMap<String, u64> = BTreeMap::new();
    let mut distinct: BTreeSet<u64> = BTreeSet::new();
    let mut scheds: BTreeSet<u64> = BTreeSet::new();
    let mut by_idx: BTreeMap<u64, (usize, u64)> = BTreeMap::new();
    for (b, out) in &outs {
        let text = fs::read_to_string(out).unwrap_or_default();
        for l in text.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            match f[0] {
                "F" => *faults.entry(f[1].to_string()).or_insert(0u64) += num(f[2]),
                "P" => *probes.entry(f[1].to_string()).or_insert(0u64) += num(f[2]),
                "V" => {}
                k => *sums.entry(k.to_string()).or_insert(0) += num(f[1]),
            }
        }
        let raw = fs::read(format!("{}.hash", out.display())).unwrap_or_default();
        for c in raw.chunks_exact(32) {
            let g = |i: usize| u64::from_le_bytes(c[i * 8..i * 8 + 8].try_into().unwrap());
            if g(3) == 0 {
                distinct.insert(g(1));
            }
            scheds.insert(g(2));
            by_idx.insert(g(0), (*b, g(1)));
        }
    }
    let sum = |k: &str| sums.get(k).copied().unwrap_or(0);

    // Determinism: some runs again, each in a fresh process, event logs compared by hash.
    let mut det = (0u64, 0u64);
    let mut samples: Vec<String> = vec![];
    if failures.is_empty() {
        let n = by_idx.len() as u64;
        let want = if thorough { 64 } else { 16 };
        for k in 0..want.min(n) {
            let (&idx, &(b, h)) = by_idx
                .range((k * n / want.min(n).max(1)) % n.max(1)..)
                .next()
                .or_else(|| by_idx.iter().next())
                .unwrap();
            let o = exec_child(&bins[b].1, p.id, dir, "det", Input::Seed(run_seed(seed, p.id, idx)), 60);
            det.0 += 1;
            if o.hash != format!("{h:016x}") {
                det.1 += 1;
            }
            if samples.len() < 3 && o.log.len() > 4 {
                let mut lines: Vec<String> = o.log.iter().take(40).cloned().collect();
                if o.log.len() > 40 {
                    lines.push(format!("... {} more events", o.log.len() - 40));
                }
                samples.push(format!(
                    "{{\"run\":{idx},\"build\":{},\"faults_fired\":{},\"events\":{}}}",
                    js(&bins[b].0),
                    js(&o.faults),
                    js_list(&lines)
                ));
            }
        }
    }

    let mut code = 0;
    failures.sort_by_key(|f| (f.idx, f.profile));
    if let Some(f) = failures.first() {
        code = 1;
        let bin = &bins[f.profile].1;
        let idx = if f.idx == u64::MAX { f.profile as u64 * total } else { f.idx };
        let rs = run_seed(seed, p.id, idx);
        println!("run {idx} (build {}) violates: {}: {}", bins[f.profile].0, f.class, f.msg);
        let mut first = exec_child(bin, p.id, dir, "first", Input::Seed(rs), 60);
        let mut tries = 0;
        let reproduced = !first.class.is_empty();
        if reproduced && first.choices.is_empty() {
            // It took its process down: once more, with the choices written out as they are made.
            if let Some(c) = recorded(bin, p.id, dir, Input::Seed(rs)) {
                first.choices = c.choices;
                first.spans = c.spans;
                first.log = c.log;
            }
        }
        let mut min = first.clone();
        if reproduced && !first.choices.is_empty() {
            let r = minimise(bin, p.id, dir, first.clone(), Duration::from_secs(60));
            min = r.0;
            tries = r.1;
            if min.log.is_empty() {
                if let Some(c) = recorded(bin, p.id, dir, Input::Choices(&min.choices)) {
                    min.log = c.log;
                }
            }
        }
        let rep = verif_dir().join("replays");
        let _ = fs::create_dir_all(&rep);
        let path = rep.join(format!("{}-{seed}-{idx}.json", p.id));
        let (class, msg) = if reproduced { (min.class.clone(), min.msg.clone()) } else { (f.class.clone(), f.msg.clone()) };
        let text = format!(
            "{{\n\"property\": {},\n\"verif_seed\": {seed},\n\"run\": {idx},\n\"run_seed\": {rs},\n\"build\": {},\n\"class\": {},\n\"violation\": {},\n\"faults_fired\": {},\n\"hash\": {},\n\"reproduced_in_fresh_process\": {reproduced},\n\"choices_before_minimising\": {},\n\"minimiser_executions\": {tries},\n\"choices\": [{}],\n\"trace\": {}\n}}\n",
            js(p.id), js(&bins[f.profile].0), js(&class), js(&msg), js(&min.faults), js(&min.hash),
            first.choices.len(), join(&min.choices), js_list(&min.log)
        );
        fs::write(&path, text).expect("replay file");
        for l in min.log.iter().take(60) {
            println!("    {l}");
        }
        println!("{}: {}", class, msg);
        println!("VIOLATION property={} replay={}", p.id, path.display());
    }

    let wall = t0.elapsed().as_secs_f64();
    let evaluations = sum("N").max(by_idx.len() as u64);
    let nontriv = distinct.len() as u64;
    let ev = format!(
        "{{\n\"property\":{},\n\"tier\":{},\n\"seed\":{seed},\n\"level\":\"exploration\",\n\"coverage\":{{\n\"evaluations\":{evaluations},\n\"distinct_nontrivial\":{nontriv},\n\"rule\":{},\n\"samples\":[{}],\n\"builds\":{},\n\"runs_with_faults\":{},\n\"runs_without_faults\":{},\n\"operations\":{},\n\"events\":{},\n\"context_switches\":{},\n\"distinct_schedules\":{},\n\"sim_time_units\":{},\n\"tracked_allocations\":{},\n\"runs_per_hour\":{:.0},\n\"faults_fired\":{},\n\"probes\":{},\n\"workers_stopped_by_wall_cap\":{},\n\"replayed_in_fresh_process\":{},\n\"replays_with_another_event_log\":{},\n\"ran_real_code\":{},\n\"ran_a_stub\":{}\n}},\n\"assumptions\":{},\n\"wall_s\":{wall:.2},\n\"violations\":{}\n}}\n",
        js(p.id), js(if thorough { "thorough" } else { "quick" }), js(p.rule), samples.join(","),
        js_list(&bins.iter().map(|b| b.0.clone()).collect::<Vec<_>>()),
        sum("X"), evaluations.saturating_sub(sum("X")), sum("O"), sum("E"), sum("S"), scheds.len(), sum("T"), sum("A"),
        evaluations as f64 / explore_s.max(0.001) * 3600.0,
        js_map(&faults), js_map(&probes), sum("C"), det.0, det.1,
        js(p.real), js(p.stub),
        js_list(&p.assumptions.iter().map(|s| s.to_string()).collect::<Vec<_>>()),
        (code == 1) as u8,
    );
    let edir = verif_dir().join("evidence");
    let _ = fs::create_dir_all(&edir);
    fs::write(edir.join(format!("{}.json", p.id)), ev).expect("evidence");
    println!(
        "{}: {evaluations} runs, {nontriv} distinct, {} ops, {} faults, {} switches, {:.1}s; replayed {}/{} identically",
        p.id, sum("O"), faults.values().sum::<u64>(), sum("S"), wall, det.0 - det.1, det.0
    );
    for (k, v) in &faults {
        println!("  fault {k}: {v}");
    }
    for (k, v) in &probes {
        println!("  probe {k}: {v}");
    }
    code
}

/// The choices of a run that kills its process: `SIM_RECORD` has every choice written as it is made.
fn recorded(bin: &Path, prop: &str, dir: &Path, input: Input<'_>) -> Option<Outcome> {
    let f = dir.join("rec.in");
    let o = dir.join("rec.out");
    let rec = dir.join("rec.choices");
    let text = match input {
        Input::Seed(s) => format!("seed {s}"),
        Input::Choices(c) => format!("choices {}", join(c)),
    };
    fs::write(&f, text).ok()?;
    let mut c = child(bin)
        .args(["exec", prop])
        .arg(&f)
        .arg(&o)
        .env("SIM_RECORD", &rec)
        .spawn()
        .ok()?;
    let _ = wait_limited(&mut c, Duration::from_secs(60));
    let text = String::from_utf8_lossy(&fs::read(&rec).ok()?).into_owned();
    let mut log = vec![];
    let (mut choices, mut spans, mut stack) = (vec![], vec![], vec![]);
    for l in text.lines() {
        match l {
            "R" => {
                choices.clear();
                spans.clear();
                stack.clear();
                log.clear();
            }
            e if e.starts_with("E ") => log.push(e[2..].to_string()),
            "(" => stack.push(choices.len()),
            ")" => {
                if let Some(s) = stack.pop() {
                    spans.push((s, choices.len()));
                }
            }
            n => choices.push(n.parse().ok()?),
        }
    }
    let n = choices.len();
    while let Some(s) = stack.pop() {
        spans.push((s, n));
    }
    Some(Outcome { choices, spans, log, ..Outcome::default() })
}

fn replay(file: &Path) -> i32 {
    let text = fs::read_to_string(file).expect("replay file");
    let get = |k: &str| field(&text, k).unwrap_or_else(|| panic!("replay file lacks {k}"));
    let prop = get("property");
    let build = get("build");
    let choices: Vec<u64> = get("choices")
        .split(',')
        .map(|s| s.trim())
        .filter(|s| !s.is_empty())
        .map(num)
        .collect();
    let bins = bins();
    let bin = bins
        .iter()
        .find(|b| b.0 == build)
        .unwrap_or_else(|| panic!("no build {build}"));
    let scratch = Scratch::new("replay");
    let input = if get("reproduced_in_fresh_process") == "true" && !choices.is_empty() {
        Input::Choices(&choices)
    } else {
        Input::Seed(num(&get("run_seed")))
    };
    let o = exec_child(&bin.1, &prop, &scratch.0, "replay", input, 60);
    for l in &o.log {
        println!("{l}");
    }
    if o.class.is_empty() {
        println!("no violation (recorded: {})", get("class"));
        return 0;
    }
    println!("{}: {}", o.class, o.msg);
    println!(
        "class {} the recorded one; event log {} the recorded one",
        if o.class == get("class") { "is" } else { "IS NOT" },
        if o.hash == get("hash") { "is" } else { "IS NOT" }
    );
    println!("VIOLATION property={prop} replay={}", file.display());
    1
}

/// Many seeds twice, in different processes and at different worker counts: the logs must agree.
fn selftest(n: u64) -> i32 {
    let scratch = Scratch::new("selftest");
    let bins = bins();
    let mut bad = 0;
    for p in props::all() {
        let total = n.min(p.quick_runs);
        for (name, bin) in &bins {
            let mut logs: Vec<BTreeMap<u64, u64>> = vec![];
            for round in [1u64, 5, 8] {
                let mut cs = vec![];
                for w in 0..round {
                    let out = scratch.0.join(format!("{}-{name}-{round}-{w}", p.id));
                    let c = child(bin)
                        .args(["worker", p.id, "77"])
                        .arg(w.to_string())
                        .arg(round.to_string())
                        .arg(total.to_string())
                        .arg(&out)
                        .spawn()
                        .expect("spawn");
                    cs.push((c, out));
                }
                let mut m = BTreeMap::new();
                for (mut c, out) in cs {
                    let _ = c.wait();
                    let raw = fs::read(format!("{}.hash", out.display())).unwrap_or_default();
                    for c in raw.chunks_exact(32) {
                        let g = |i: usize| u64::from_le_bytes(c[i * 8..i * 8 + 8].try_into().unwrap());
                        m.insert(g(0), g(1));
                    }
                }
                logs.push(m);
            }
            let diff = (0..total)
                .filter(|i| logs.iter().any(|l| l.get(i) != logs[0].get(i) || l.get(i).is_none()))
                .collect::<Vec<_>>();
            println!("{} {name}: {total} seeds x3 (1, 5, 8 processes): {} differ {:?}", p.id, diff.len(), &diff[..diff.len().min(5)]);
            bad += diff.len();
        }
    }
    (bad > 0) as i32
}
