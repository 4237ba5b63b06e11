//! L02: which line ending `auto` means, and that the fixed ones are fixed.
use serde_json::json;
use settings::LineEnding;
use vkit::*;

#[allow(dead_code)]
#[path = "/repo/crates/workspace/src/settings/line_ending.rs"]
mod ws_line_ending;
use ws_line_ending::LineEnding as Opt;

fn reference(x: &str) -> LineEnding {
    let mut prev = ' ';
    for c in x.chars() {
        if c == '\n' {
            return if prev == '\r' { LineEnding::Crlf } else { LineEnding::Lf };
        }
        prev = c;
    }
    LineEnding::Lf
}

fn one(m: &mut Monitor, x: &str) {
    let want = reference(x);
    let has = x.contains('\n');
    let mixed = x.contains("\r\n") && x.replace("\r\n", "").contains('\n');
    m.eval_str(x, has);
    if mixed { m.count("mixed inputs") }
    m.count(if want == LineEnding::Crlf { "inputs starting with CRLF" } else { "inputs starting with LF or without" });
    let class = if mixed { "mixed" } else if has { "uniform" } else { "none" };
    let size = if x.len() > 2000 { ":long" } else { "" };
    let case = || json!({"input": x});
    match guard(|| line_ending::infer(x)) {
        Err(p) => m.violation(format!("infer-panic:{class}"), format!("infer({}) panicked: {p}", show(x)), case()),
        Ok(got) if got != want => m.violation(format!("infer:{class}{size}"), format!("infer({}) = {got:?} instead of {want:?}", show(x)), case()),
        _ => {}
    }
    for (opt, want) in [(Opt::Auto, want), (Opt::Lf, LineEnding::Lf), (Opt::Crlf, LineEnding::Crlf), (Opt::Native, LineEnding::Lf)] {
        match guard(|| opt.finalize(x)) {
            Err(p) => m.violation(format!("finalize-panic:{opt:?}"), format!("{opt:?}.finalize({}) panicked: {p}", show(x)), case()),
            Ok(got) if got != want => m.violation(format!("finalize:{opt:?}:{class}{size}"), format!("{opt:?}.finalize({}) = {got:?} instead of {want:?}", show(x)), case()),
            _ => {}
        }
    }
    m.sample(|| json!({"input": show(x), "auto": format!("{want:?}")}));
}

fn main() {
    let mut m = Monitor::new("L02");
    if let Some(c) = m.replay.clone() {
        one(&mut m, c["input"].as_str().unwrap_or(""));
        m.finish();
        return;
    }
    let alphabet = ["\r", "\n", "a", "é"];
    for len in 0..=m.n(8, 9) {
        for code in 0..alphabet.len().pow(len as u32) {
            let (mut c, mut s) = (code, String::new());
            for _ in 0..len {
                s.push_str(alphabet[c % 4]);
                c /= 4;
            }
            one(&mut m, &s);
        }
    }
    let mut r = m.rng("random");
    for i in 0..m.n(20000, 100_000) {
        if !m.running() { break }
        // where the first line ending lies, and what surrounds it
        let before = if i % 5 == 0 { r.below(300_000) } else { r.len(100, 9000) };
        let mut s = String::new();
        let filler = r.word(&["x", "é", "\r", "\r ", "\u{2028}", "\u{85}", " "]);
        while s.len() < before { s.push_str(filler) }
        for _ in 0..r.below(6) {
            s.push_str(r.word(&["\r\n", "\n", "\r", "b", "\r\r\n", "\n\r"]));
        }
        one(&mut m, &s);
        m.max("longest input", s.len() as u64);
    }
    m.require("mixed inputs", 1000);
    m.require("inputs starting with CRLF", 1000);
    m.finish();
}
