//! Programs, settings and oracles for the formatter, shared by the workloads.
pub mod corpus;
pub mod cst;
pub mod generate;
pub mod settings;
pub mod shape;
pub mod layout;
pub mod shrink;
pub mod skip;
pub mod table;

use settings::Settings;

pub enum Outcome {
    Formatted(String),
    /// an error for a program without syntax errors
    Refused(String),
    Panicked(String),
}

pub fn format(src: &str, s: &Settings) -> Outcome {
    match vkit::guard(|| s.format(src)) {
        Ok(Ok(out)) => Outcome::Formatted(out),
        Ok(Err(e)) => Outcome::Refused(format!("{e:?}")),
        Err(p) => Outcome::Panicked(p),
    }
}

/// What differs first between two texts.
pub fn first_difference(a: &str, b: &str) -> String {
    let (x, y): (Vec<&str>, Vec<&str>) = (a.split('\n').collect(), b.split('\n').collect());
    for i in 0..x.len().max(y.len()) {
        if x.get(i) != y.get(i) {
            return format!("line {}: {:?} / {:?}", i + 1, x.get(i).unwrap_or(&"(end)"), y.get(i).unwrap_or(&"(end)"));
        }
    }
    "nothing".into()
}

/// Runs `f` on a stack large enough for programs of any depth the workloads use.
pub fn on_large_stack(f: impl FnOnce() + Send + 'static) {
    let t = std::thread::Builder::new().stack_size(2 << 30).spawn(f).expect("a thread");
    if t.join().is_err() { std::process::exit(101) }
}
