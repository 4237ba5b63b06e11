//! D01: directive recognition against an independent, character-level recognizer.
use comments::{Directive, FormatDirective, parse_comment_directive, parse_special_skip_file};
use serde_json::json;
use vkit::*;

#[derive(PartialEq, Debug, Clone, Copy)]
enum D { Skip, SkipFile, Table }

fn flat(d: Option<Directive>) -> Option<D> {
    d.map(|d| match d {
        Directive::Format(FormatDirective::Skip) => D::Skip,
        Directive::Format(FormatDirective::SkipFile) => D::SkipFile,
        Directive::Format(FormatDirective::Table) => D::Table,
    })
}

/// `#`+ ws* "fmt:" ws* words ws*
fn reference(text: &str) -> Option<D> {
    let c: Vec<char> = text.chars().collect();
    let mut i = 0;
    while i < c.len() && c[i] == '#' { i += 1 }
    if i == 0 { return None }
    while i < c.len() && c[i].is_whitespace() { i += 1 }
    for want in "fmt:".chars() {
        if i >= c.len() || c[i] != want { return None }
        i += 1;
    }
    while i < c.len() && c[i].is_whitespace() { i += 1 }
    let mut j = c.len();
    while j > i && c[j - 1].is_whitespace() { j -= 1 }
    let rest: String = c[i..j].iter().collect();
    match rest.as_str() {
        "skip" => Some(D::Skip),
        "skip file" => Some(D::SkipFile),
        "table" => Some(D::Table),
        _ => None,
    }
}

fn reference_special(text: &str) -> bool {
    let c: Vec<char> = text.chars().collect();
    let mut i = 0;
    while i < c.len() && c[i] == '#' { i += 1 }
    if i == 0 { return false }
    while i < c.len() && c[i].is_whitespace() { i += 1 }
    let want: Vec<char> = "Generated by".chars().collect();
    c.len() >= i + want.len() && c[i..i + want.len()] == want[..]
}

fn one(m: &mut Monitor, text: &str) {
    let want = reference(text);
    let special = reference_special(text);
    m.eval_str(text, text.starts_with('#'));
    match want {
        Some(d) => m.count(&format!("directive {d:?}")),
        None if special => m.count("special skip file"),
        None => m.count("no directive"),
    }
    let case = || json!({"text": text});
    match guard(|| parse_comment_directive(text)) {
        Err(p) => m.violation("directive-panic", format!("parse_comment_directive({}) panicked: {p}", show(text)), case()),
        Ok(got) => {
            let got = flat(got);
            if got != want {
                m.violation(format!("directive:{got:?}-for-{want:?}"), format!("parse_comment_directive({}) = {got:?} instead of {want:?}", show(text)), case());
            }
        }
    }
    match guard(|| parse_special_skip_file(text)) {
        Err(p) => m.violation("special-panic", format!("parse_special_skip_file({}) panicked: {p}", show(text)), case()),
        Ok(got) => {
            let got = flat(got);
            let want = special.then_some(D::SkipFile);
            if got != want {
                m.violation(format!("special:{got:?}-for-{want:?}"), format!("parse_special_skip_file({}) = {got:?} instead of {want:?}", show(text)), case());
            }
        }
    }
    m.sample(|| json!({"text": show(text), "directive": format!("{want:?}"), "special": special}));
}

fn main() {
    let mut m = Monitor::new("D01");
    if let Some(c) = m.replay.clone() {
        one(&mut m, c["text"].as_str().unwrap_or(""));
        m.finish();
        return;
    }
    // every concatenation of up to k pieces
    let pieces = ["#", " ", "fmt", ":", "skip", "file", "table", "fmt:", "skip file", "Generated by", "x", "\t", "'"];
    let k = m.n(6, 7);
    let mut stack: Vec<(String, usize)> = vec![(String::new(), 0)];
    while let Some((s, d)) = stack.pop() {
        // after the first two pieces a text without `#` has nothing left to decide
        one(&mut m, &s);
        if d == k || (d >= 2 && !s.trim_start().starts_with('#')) { continue }
        if d >= 4 && !s.contains("fmt") && !s.contains("Gen") { continue }
        for p in pieces { stack.push((format!("{s}{p}"), d + 1)) }
        if !m.running() { break }
    }
    let mut r = m.rng("random");
    let ws = [" ", "  ", "\t", "", "", " ", "\u{a0}", "\u{2003}", "\u{3000}", "\n", "\r", "\r\n", "\u{b}", "\u{c}", "\u{85}", "\u{200b}", "\u{feff}"];
    let bodies = ["skip", "skip file", "table", "skip  file", "skip\tfile", "skip\u{a0}file", "skipfile", "skip_file", "skip-file", "Skip", "SKIP", "TABLE", "table file", "file", "tables", "skip file table", "skip;", "skip # because", "skip:", ":skip", "sk ip", "", "file skip", "skip file!", "table,"];
    let heads = ["fmt:", "fmt :", "fmt", "FMT:", "Fmt:", "fmt::", "ffmt:", "fmt;", "format:", "fm:", "air:", "fmt:fmt:", "a fmt:", "#fmt:", "fmt\u{200b}:", "Generated by ", "Generated  by", "generated by", "Generated by:", "Generated bye", "@Generated by", "Generated\tby", "Not Generated by"];
    for _ in 0..m.n(600000, 3_000_000) {
        if !m.running() { break }
        let mut s = String::new();
        if r.chance(1, 15) { s.push_str(r.word(&ws)) }
        for _ in 0..(if r.chance(1, 20) { 0 } else { 1 + r.len(3, 40) }) { s.push('#') }
        if r.chance(1, 15) { s.push_str("'") }
        for _ in 0..r.len(2, 30) { s.push_str(r.word(&ws)) }
        if r.chance(1, 25) { s.push('#') }
        s.push_str(if r.chance(1, 2) { "fmt:" } else { r.word(&heads) });
        for _ in 0..r.len(2, 30) { s.push_str(r.word(&ws)) }
        s.push_str(if r.chance(1, 2) { bodies[r.below(3)] } else { r.word(&bodies) });
        for _ in 0..r.len(2, 30) { s.push_str(r.word(&ws)) }
        if r.chance(1, 25) { s.push_str(r.word(&["x", "#", "-", "\u{301}", "."])) }
        one(&mut m, &s);
    }
    for what in ["directive Skip", "directive SkipFile", "directive Table", "special skip file", "no directive"] {
        m.require(what, 200);
    }
    m.finish();
}
