//! W02: user exclude patterns against an independent gitignore matcher.
use crate::file_patterns::FilePatterns;
use crate::settings::ExcludePatterns;
use serde_json::{Value, json};
use std::path::{Path, PathBuf};
use vkit::*;
use vkit::gitignore::{Pat, decide, decide_up, parse};

// ------------------------------------------------ the monitor

fn split(p: &str) -> Vec<Vec<u8>> {
    p.split('/').filter(|c| !c.is_empty()).map(|c| c.bytes().collect()).collect()
}

fn features(patterns: &[String]) -> String {
    let mut f: Vec<&str> = vec![];
    for p in patterns {
        if p.starts_with('!') { f.push("negation") }
        if p.starts_with('#') { f.push("comment") }
        let q = p.trim_start_matches('!');
        if q.starts_with('/') { f.push("anchored") }
        if q.trim_end().ends_with('/') { f.push("directory-only") }
        if q.contains("**") { f.push("doublestar") }
        else if q.contains('*') { f.push("star") }
        if q.contains('?') { f.push("question") }
        if q.contains('[') { f.push("class") }
        if q.contains('\\') { f.push("escape") }
        if q.trim_matches('/').contains('/') { f.push("inner slash") }
    }
    f.sort();
    f.dedup();
    f.join("+")
}

fn one(m: &mut Monitor, root: &str, patterns: &[String], paths: &[(String, bool)]) {
    let reference: Vec<Pat> = patterns.iter().filter_map(|p| parse(p)).collect();
    let case = |p: &str, d: bool| json!({"root": root, "patterns": patterns, "paths": [[p, d]]});
    let feats = features(patterns);
    let built = guard(|| (
        FilePatterns::try_from_iter(root, patterns.iter().map(|s| s.as_str())).map_err(|e| e.to_string()),
        ExcludePatterns::try_from_iter(root, patterns.iter().map(|s| s.as_str())).map_err(|e| e.to_string()),
    ));
    let (fp, ex) = match built {
        Ok((Ok(a), Ok(b))) => (a, b),
        other => return m.violation(format!("build:{feats}"), format!("{patterns:?}: {other:?}"), case("", false)),
    };
    for f in feats.split('+').filter(|f| !f.is_empty()) { m.count(&format!("pattern lists with {f}")) }
    m.max("longest pattern list", patterns.len() as u64);
    // the root itself is never matched by patterns that apply below it
    match guard(|| (fp.matched(root, true).is_some(), fp.matched_path_or_any_parents(root, true).is_some(), ex.matched(root, true).is_some())) {
        Ok((false, false, false)) => m.count("roots"),
        other => m.violation(format!("root:{feats}"), format!("root {root:?} with {patterns:?} is matched itself: {other:?}"), case("", true)),
    }
    for (p, dir) in paths {
        let segs = split(p);
        if segs.is_empty() { continue }
        let want = decide(&reference, &segs, *dir);
        let want_up = decide_up(&reference, &segs, *dir);
        m.eval_str(&format!("{root}|{patterns:?}|{p}|{dir}"), want.is_some() || want_up.is_some());
        m.count(match want { Some(true) => "ignored", Some(false) => "re-included by negation", None => "unmatched" });
        if want != want_up { m.count("decided by a parent") }
        // as given relative to the root, and as an absolute path below it
        let abs = PathBuf::from(root).join(p);
        for (how, q) in [("relative", PathBuf::from(p)), ("below root", abs)] {
            let got = guard(|| (
                fp.matched(&q, *dir).is_some(),
                ex.matched(&q, *dir).is_some(),
                fp.matched_path_or_any_parents(&q, *dir).is_some(),
                ex.matched_path_or_any_parents(&q, *dir).is_some(),
            ));
            match got {
                Err(e) => m.violation(format!("panic:{how}"), format!("{patterns:?} on {q:?} (dir {dir}) panicked: {e}"), case(p, *dir)),
                Ok((a, b, c, d)) => {
                    let w = want == Some(true);
                    let wu = want_up == Some(true);
                    if a != w || b != w {
                        m.violation(format!("matched:{feats}:{how}"), format!("root {root:?}, patterns {patterns:?}: matched({q:?}, dir {dir}) = {a}/{b}, gitignore says {w}"), case(p, *dir));
                    }
                    if c != wu || d != wu {
                        m.violation(format!("parents:{feats}:{how}"), format!("root {root:?}, patterns {patterns:?}: matched_path_or_any_parents({q:?}, dir {dir}) = {c}/{d}, gitignore says {wu}"), case(p, *dir));
                    }
                }
            }
        }
    }
    m.sample(|| json!({"patterns": patterns, "paths": paths.iter().take(4).collect::<Vec<_>>()}));
}

const NAMES: &[&str] = &["a", "b", "ab", "renv", "x.R", "y.r", "R", "a.R", "data-raw", "é", "#n", "!n", "a b", ".h"];

fn segment(r: &mut Rng) -> String {
    match r.below(10) {
        0..=4 => r.word(&NAMES[..10]).to_string(),
        5 => r.word(&["*", "*.R", "a*", "*b", "*.r", "x*R", "*.*", "r*v"]).to_string(),
        6 => r.word(&["?", "?.R", "a?", "re?v"]).to_string(),
        7 => r.word(&["[ab]", "[a-c]", "*.[Rr]", "[rx]env", "[a-z].R"]).to_string(),
        8 => r.word(&["a b", ".h", "\\*", "\\?", "\\a"]).to_string(),
        _ => r.word(NAMES).trim_start_matches(['#', '!']).to_string(),
    }
}

fn pattern(r: &mut Rng) -> String {
    if r.chance(1, 40) { return r.word(&["", "   ", "# comment", "#n", "\\#n", "\\!n"]).to_string() }
    let mut s = String::new();
    if r.chance(1, 5) { s.push('!') }
    if r.chance(1, 4) { s.push('/') }
    let n = match r.below(8) { 0..=4 => 1, 5 | 6 => 2, _ => 3 };
    let mut last_star = false;
    for i in 0..n {
        if i > 0 { s.push('/') }
        if !last_star && r.chance(1, 6) && (n > 1 || r.chance(1, 4)) { s.push_str("**"); last_star = true }
        else { s.push_str(&segment(r)); last_star = false }
    }
    if !last_star && r.chance(1, 4) { s.push('/') }
    if r.chance(1, 30) { s.push_str("  ") }
    s
}

fn path(r: &mut Rng) -> String {
    let n = r.range(1, 5);
    (0..n).map(|_| *r.pick(NAMES)).collect::<Vec<_>>().join("/")
}

fn parse_case(c: &Value) -> (String, Vec<String>, Vec<(String, bool)>) {
    let strs = |v: &Value| v.as_array().into_iter().flatten().filter_map(|x| x.as_str().map(String::from)).collect();
    (c["root"].as_str().unwrap_or("/").into(), strs(&c["patterns"]),
     c["paths"].as_array().into_iter().flatten().map(|p| (p[0].as_str().unwrap_or("").into(), p[1].as_bool().unwrap_or(false))).collect())
}

pub fn main() {
    let mut m = Monitor::new("W02");
    if let Some(c) = m.replay.clone() {
        let (root, pats, paths) = parse_case(&c);
        one(&mut m, &root, &pats, &paths);
        m.finish();
        return;
    }
    let mut r = m.rng("patterns");
    // every single pattern of a systematic family against every path of a family
    let segs = ["a", "renv", "*", "*.R", "a*", "?", "[ab]", "x.R", "**"];
    let mut paths = vec![];
    for a in ["a", "b", "renv", "x.R", "ab"] {
        for d in [false, true] { paths.push((a.to_string(), d)) }
        for b in ["a", "renv", "x.R"] {
            for d in [false, true] { paths.push((format!("{a}/{b}"), d)) }
            for c in ["a", "x.R"] { for d in [false, true] { paths.push((format!("{a}/{b}/{c}"), d)) } }
        }
    }
    let mut pats: Vec<String> = vec![];
    for pre in ["", "/", "**/"] { for a in segs { for suf in ["", "/"] {
        if a == "**" && (pre == "**/" || suf == "/") { continue }
        pats.push(format!("{pre}{a}{suf}"));
        for b in segs {
            if b == "**" && (a == "**" || suf == "/") { continue }
            if a == "**" && pre == "**/" { continue }
            pats.push(format!("{pre}{a}/{b}{suf}"));
        }
    } } }
    for p in &pats {
        if !m.running() { break }
        one(&mut m, "/w/root", std::slice::from_ref(p), &paths);
    }
    // order and negation: every ordered pair of a small family
    let fam = ["a", "!a", "a/", "!a/", "/a", "!/a", "*", "!*", "*.R", "!x.R", "a/*", "!a/x.R", "**/a", "a/**", "#a", ""];
    for p in fam { for q in fam {
        one(&mut m, "/w/root", &[p.to_string(), q.to_string()], &paths);
        if m.saturated() { break }
    } }
    let roots = ["/w/root", "/", "/a/renv", "/w/a b/é", "/w/root/x.R"];
    for _ in 0..m.n(30000, 200_000) {
        if !m.running() { break }
        let top = if r.chance(1, 10) { 25 } else { 5 };
        let n = r.range(1, top);
        let pats: Vec<String> = (0..n).map(|_| pattern(&mut r)).collect();
        let ps: Vec<(String, bool)> = (0..12).map(|_| (path(&mut r), r.bool())).collect();
        let root = r.word(&roots);
        one(&mut m, root, &pats, &ps);
    }
    for what in ["ignored", "re-included by negation", "unmatched", "decided by a parent", "pattern lists with doublestar", "pattern lists with directory-only", "pattern lists with anchored", "pattern lists with class"] {
        m.require(what, 100);
    }
    let _ = Path::new("");
    m.finish();
}
