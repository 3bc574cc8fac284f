//! The properties. Each is a workload, a fault and schedule space, and oracles.

mod abort;
mod bytes;
mod bytes_io;
mod closures;
mod containers;
mod exec;
mod obj;
pub use obj::Token;
mod decls;
mod headers;
mod invalid;
mod peer;
mod source;
mod text;
mod virt;

pub struct Prop {
    pub id: &'static str,
    pub title: &'static str,
    pub run: fn(),
    pub quick_runs: u64,
    pub thorough_runs: u64,
    /// Seeds executed before the first counted run of a process.
    pub warm_up: u64,
    /// Seconds a worker may spend.
    pub wall_cap: u64,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    pub assumptions: &'static [&'static str],
}

pub fn all() -> Vec<&'static Prop> {
    let mut v = vec![];
    v.extend(bytes::PROPS.iter());
    v.extend(bytes_io::PROPS.iter());
    v.extend(closures::PROPS.iter());
    v.extend(virt::PROPS.iter());
    v.extend(exec::PROPS.iter());
    v.extend(containers::PROPS.iter());
    v.extend(text::PROPS.iter());
    v.extend(peer::PROPS.iter());
    v.extend(headers::PROPS.iter());
    v.extend(abort::PROPS.iter());
    v.extend(invalid::PROPS.iter());
    v
}
pub fn find(id: &str) -> &'static Prop {
    all()
        .into_iter()
        .find(|p| p.id == id)
        .unwrap_or_else(|| panic!("no property {id}"))
}
/// Cases that run in a process of their own because they are expected to end it.
pub fn case(name: &str, args: &[&str]) -> i32 {
    match name {
        "abort" => abort::case(args),
        _ => 2,
    }
}
