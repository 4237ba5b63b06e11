//! L01: normalize()/normalize_ref() against a byte-wise reference, natively, under ASan and under Miri.
use serde_json::{Value, json};
use std::borrow::Cow;
use vkit::*;

/// Independent of str::replace and of the code under test: a left-to-right byte automaton.
fn reference(x: &str) -> String {
    let b = x.as_bytes();
    let mut out = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\r' && i + 1 < b.len() && b[i + 1] == b'\n' {
            out.push(b'\n');
            i += 2;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8(out).unwrap()
}

fn key(x: &str, what: &str) -> String {
    // the input's class, so that one defect gives few keys
    let n = x.len();
    let size = if n < 16 { "short" } else if n < 4096 { "medium" } else { "long" };
    format!("{what}:{size}")
}

fn one(m: &mut Monitor, x: &str, extra_capacity: usize) {
    m.inflight(&json!({"input": x, "extra": extra_capacity}).to_string());
    let want = reference(x);
    let crlf = x.contains("\r\n");
    let mut owned = String::with_capacity(x.len() + extra_capacity);
    owned.push_str(x);
    m.eval_str(x, crlf);
    m.count(if crlf { "inputs with CRLF" } else { "inputs without CRLF" });
    let case = || json!({"input": x, "extra": extra_capacity});
    match guard(|| line_ending::normalize(owned)) {
        Err(p) => m.violation(key(x, "normalize-panic"), format!("normalize({}) panicked: {p}", show(x)), case()),
        Ok(got) => {
            if std::str::from_utf8(got.as_bytes()).is_err() {
                m.violation(key(x, "normalize-utf8"), format!("normalize({}) is not UTF-8: {:?}", show(x), got.as_bytes()), case());
            } else if got != want {
                m.violation(key(x, "normalize"), format!("normalize({}) = {} instead of {}", show(x), show(&got), show(&want)), case());
            }
            m.add("CRLF replaced", (x.len() - want.len()) as u64);
        }
    }
    match guard(|| {
        let c = line_ending::normalize_ref(x);
        (matches!(c, Cow::Borrowed(_)), c.into_owned())
    }) {
        Err(p) => m.violation(key(x, "normalize_ref-panic"), format!("normalize_ref({}) panicked: {p}", show(x)), case()),
        Ok((borrowed, got)) => {
            if got != want {
                m.violation(key(x, "normalize_ref"), format!("normalize_ref({}) = {} instead of {}", show(x), show(&got), show(&want)), case());
            }
            if borrowed == crlf {
                m.violation(key(x, "borrow"), format!("normalize_ref({}) borrowed = {borrowed}", show(x)), case());
            }
        }
    }
    m.sample(|| json!({"input": show(x), "output": show(&want)}));
}

fn gen_text(r: &mut Rng, n: usize) -> String {
    let style = r.below(6);
    let mut s = String::new();
    while s.len() < n {
        match style {
            0 => s.push_str(r.word(&["\r\n", "\r", "\n", "a", "é", "\u{1F600}"])),
            1 => {
                for _ in 0..r.below(60) { s.push((b'a' + r.below(26) as u8) as char) }
                s.push_str("\r\n")
            }
            2 => {
                for _ in 0..r.below(300) { s.push('x') }
                s.push_str(r.word(&["\r\n", "\n", "\r", "\r\r\n", "\n\r"]))
            }
            3 => s.push_str(r.word(&["\r\n\r\n\r\n", "\r\r\n", "\n\r\n\r", "é\r\n", "\r\né", "日本\r\n"])),
            4 => {
                for _ in 0..r.below(20) { s.push(*r.pick(&['é', '日', '\u{1F600}', ' '])) }
                s.push_str(r.word(&["\r\n", "\n"]))
            }
            _ => s.push_str(r.word(&["\r\n", "\r"])),
        }
    }
    s
}

fn main() {
    let mut m = Monitor::new("L01");
    if let Some(c) = m.replay.clone() {
        one(&mut m, c["input"].as_str().unwrap_or(""), c["extra"].as_u64().unwrap_or(0) as usize);
        m.finish();
        return;
    }
    let miri = cfg!(miri);
    // every string over a small alphabet
    let alphabet = ["\r", "\n", "a", "é"];
    let max = if miri { 4 } else { m.n(8, 10) };
    for len in 0..=max {
        let total = alphabet.len().pow(len as u32);
        for code in 0..total {
            let (mut c, mut s) = (code, String::new());
            for _ in 0..len {
                s.push_str(alphabet[c % alphabet.len()]);
                c /= alphabet.len();
            }
            one(&mut m, &s, code % 3);
        }
        if m.saturated() { break }
    }
    m.note("exhaustive_up_to_chars", max);
    m.note("miri", miri);
    let mut r = m.rng("random");
    let rounds = if miri { 60 } else { m.n(30000, 200_000) };
    for i in 0..rounds {
        if !m.running() { break }
        let n = if miri { r.len(24, 80) } else if i % 50 == 0 { r.range(4000, 200_000) } else { r.len(80, 4000) };
        let s = gen_text(&mut r, n);
        let extra = r.below(40);
        one(&mut m, &s, extra);
        m.max("longest input", s.len() as u64);
    }
    // the k-th CRLF is special for no k, at no distance
    if !miri {
        for n in [1usize, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 1023, 1024, 4095, 4096, 65535, 65536] {
            for pre in 0..3 {
                let s = format!("{}{}{}", "y".repeat(pre), "\r\n".repeat(n), "z".repeat(n % 5));
                one(&mut m, &s, 0);
                let s = format!("{}\r\n{}\r", "y".repeat(n), "z".repeat(n));
                one(&mut m, &s, 1);
            }
        }
    }
    m.require("inputs with CRLF", 50);
    m.require("CRLF replaced", 50);
    let _: Option<Value> = None;
    m.finish();
}
