//! What the object-lifetime properties share: values whose destruction is counted and whose
//! contents are checked whenever they are used, and pools of handles that threads exchange.

use crate::ctx::*;
use crate::track::untracked;
use crate::{check, ev, sched, step};
use std::sync::Mutex;

#[derive(Default, Clone)]
struct Entry {
    kind: &'static str,
    drops: u32,
    uses: u64,
}
static OBJS: Mutex<Vec<Entry>> = Mutex::new(Vec::new());
fn objs<R>(f: impl FnOnce(&mut Vec<Entry>) -> R) -> R {
    untracked(|| f(&mut OBJS.lock().unwrap_or_else(|p| p.into_inner())))
}
pub fn reset() {
    objs(|o| o.clear());
    ZST.with(|z| *z = (0, 0));
}

pub struct ZstCount(Mutex<(u64, u64)>);
impl ZstCount {
    fn with<R>(&self, f: impl FnOnce(&mut (u64, u64)) -> R) -> R {
        untracked(|| f(&mut self.0.lock().unwrap_or_else(|p| p.into_inner())))
    }
}
static ZST: ZstCount = ZstCount(Mutex::new((0, 0)));
/// A zero-sized value with a destructor.
pub struct Zero(());
impl Zero {
    pub fn new() -> Zero {
        ZST.with(|z| z.0 += 1);
        Zero(())
    }
}
impl Clone for Zero {
    fn clone(&self) -> Zero {
        Zero::new()
    }
}
impl Drop for Zero {
    fn drop(&mut self) {
        let (made, gone) = ZST.with(|z| {
            z.1 += 1;
            *z
        });
        check!(gone <= made, "drop-count", "a zero-sized value dropped more often than made");
    }
}
pub fn zero_live() -> u64 {
    ZST.with(|z| z.0.saturating_sub(z.1))
}

/// A value known by its number. Its heap block holds a pattern only that number has.
#[safer_ffi::derive_ReprC]
#[repr(opaque)]
#[derive(Debug)]
pub struct Token {
    pub id: usize,
    data: Box<[u8]>,
}
fn pattern(id: usize, i: usize) -> u8 {
    (id.wrapping_mul(31).wrapping_add(i * 7) % 251) as u8
}
impl Token {
    pub fn new(kind: &'static str) -> Token {
        let id = objs(|o| {
            o.push(Entry { kind, ..Entry::default() });
            o.len() - 1
        });
        let n = 1 + (id * 5) % 40;
        ev!("new {kind} {id}");
        Token { id, data: (0..n).map(|i| pattern(id, i)).collect() }
    }
    fn intact(&self) -> bool {
        self.data.len() == 1 + (self.id * 5) % 40
            && self.data.iter().enumerate().all(|(i, b)| *b == pattern(self.id, i))
    }
    /// To be called by everything that gets at the value through the code under test.
    pub fn touch(&self, what: &str) {
        let known = objs(|o| o.get(self.id).cloned());
        let Some(e) = known else {
            violate("use-after-free", format!("{what}: a value that never was"));
            return;
        };
        check!(e.drops == 0, "use-after-free", "{what}: {} {} used after its destruction", e.kind, self.id);
        check!(self.intact(), "corruption", "{what}: the contents of {} {} changed", e.kind, self.id);
        objs(|o| o[self.id].uses += 1);
    }
}
impl Drop for Token {
    fn drop(&mut self) {
        let known = objs(|o| {
            o.get_mut(self.id).map(|e| {
                e.drops += 1;
                (e.kind, e.drops)
            })
        });
        match known {
            None => violate("double-drop", "destruction of a value that never was"),
            Some((kind, n)) => {
                ev!("drop {kind} {}", self.id);
                if check!(n == 1, "double-drop", "{kind} {} destroyed {n} times", self.id) {
                    check!(self.intact(), "corruption", "the contents of {kind} {} changed before its destruction", self.id);
                } else {
                    // its heap block is gone
                    std::mem::forget(std::mem::take(&mut self.data));
                }
            }
        }
        sched::yield_point();
    }
}
pub fn drops(id: usize) -> u32 {
    objs(|o| o[id].drops)
}
pub fn kind(id: usize) -> &'static str {
    objs(|o| o[id].kind)
}
pub fn uses(id: usize) -> u64 {
    objs(|o| o[id].uses)
}
pub fn expect_live(id: usize, when: &str) {
    let (k, d) = objs(|o| (o[id].kind, o[id].drops));
    check!(d == 0, "early-drop", "{when}: {k} {id} is destroyed although it still has an owner");
}
pub fn expect_dead(id: usize, when: &str) {
    let (k, d) = objs(|o| (o[id].kind, o[id].drops));
    check!(d == 1, "drop-count", "{when}: {k} {id} has no owner left and was destroyed {d} times");
}
/// At the end, every value is gone, once.
pub fn all_dead() {
    let v = objs(|o| o.clone());
    for (id, e) in v.iter().enumerate() {
        check!(e.drops == 1, "drop-count", "at the end: {} {id} was destroyed {} times", e.kind, e.drops);
    }
    check!(zero_live() == 0, "drop-count", "at the end: {} zero-sized values were not destroyed", zero_live());
    untracked(|| drop(v));
}
/// How many of this kind are alive.
pub fn live(kind: &str) -> usize {
    objs(|o| o.iter().filter(|e| e.kind == kind && e.drops == 0).count())
}
pub fn made() -> usize {
    objs(|o| o.len())
}

pub struct Pool<T>(Mutex<Vec<T>>);
impl<T> Pool<T> {
    pub const fn new() -> Self {
        Pool(Mutex::new(Vec::new()))
    }
    pub fn with<R>(&self, f: impl FnOnce(&mut Vec<T>) -> R) -> R {
        step::calm(|| f(&mut self.0.lock().unwrap_or_else(|p| p.into_inner())))
    }
    pub fn put(&self, t: T) {
        untracked(|| self.with(|v| v.push(t)))
    }
    pub fn len(&self) -> usize {
        self.with(|v| v.len())
    }
    pub fn take(&self) -> Option<T> {
        step::calm(|| {
            let n = self.len();
            if n == 0 {
                return None;
            }
            let i = pick(n);
            Some(self.with(|v| v.remove(i)))
        })
    }
    /// Empties the pool, the container itself outside of the books.
    pub fn drain(&self, mut f: impl FnMut(T)) {
        while let Some(t) = self.with(|v| if v.is_empty() { None } else { Some(v.remove(0)) }) {
            f(t);
            if failed() {
                break;
            }
        }
        let rest = self.with(std::mem::take);
        if rest.is_empty() {
            untracked(|| drop(rest));
        } else {
            leaks_ok();
            std::mem::forget(rest);
        }
    }
}

/// `n` simulated threads (1: none, just calls) that each take up to `max` steps.
pub fn threads(n: usize, max: usize, mean: u64, body: impl Fn() + Sync) {
    threads_(n, max, mean, false, body)
}
/// The same, with preemption between any two instructions in some of the runs.
pub fn threads_anywhere(n: usize, max: usize, mean: u64, body: impl Fn() + Sync) {
    threads_(n, max, mean, true, body)
}
fn threads_(n: usize, max: usize, mean: u64, anywhere: bool, body: impl Fn() + Sync) {
    let body = &body;
    if n <= 1 {
        steps(max * 2, mean * 2, body);
    } else {
        let bodies: Vec<Box<dyn FnOnce() + Send + '_>> = (0..n)
            .map(|_| {
                Box::new(move || {
                    steps(max, mean, || {
                        sched::yield_point();
                        step::op(body);
                    })
                }) as Box<dyn FnOnce() + Send + '_>
            })
            .collect();
        sched::run_threads(bodies, 50_000, anywhere);
    }
}

/// A random subset of 0..n that contains `keep`; everything, in a third of the runs.
pub fn swarm(n: usize, keep: &[usize]) -> Vec<usize> {
    if choose(3) == 0 {
        (0..n).collect()
    } else {
        (0..n).filter(|i| keep.contains(i) || choose(2) == 0).collect()
    }
}
