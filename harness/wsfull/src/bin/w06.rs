//! W06: air.toml against an independent reading of the parsed document.
use serde_json::json;
use std::path::Path;
use vkit::*;
use workspace::settings::Settings;
use workspace::toml::{parse_air_inline_toml, parse_air_toml};

/// What a valid document says; None for an option that is absent.
#[derive(Debug, Default, Clone, PartialEq)]
struct Said {
    line_width: Option<i64>,
    indent_width: Option<i64>,
    indent_style: Option<String>,
    line_ending: Option<String>,
    persistent: Option<bool>,
    assignment: Option<String>,
    exclude: Option<Vec<String>>,
    default_exclude: Option<bool>,
    skip: Option<Vec<String>>,
    table: Option<Vec<String>>,
    default_table: Option<bool>,
}

/// The documented meaning of a document; Err: why it is not a configuration.
fn read(text: &str) -> Result<Said, String> {
    let doc: toml::Table = toml::from_str(text).map_err(|_| "syntax".to_string())?;
    let mut said = Said::default();
    for (k, v) in &doc {
        if k != "format" { return Err("unknown key at the top".into()) }
        let toml::Value::Table(t) = v else { return Err("type of format".into()) };
        for (k, v) in t {
            let int = |lo: i64, hi: i64| match v {
                toml::Value::Integer(i) if (lo..=hi).contains(i) => Ok(Some(*i)),
                toml::Value::Integer(_) => Err(format!("range of {k}")),
                _ => Err(format!("type of {k}")),
            };
            let boolean = || v.as_bool().map(Some).ok_or(format!("type of {k}"));
            let word = |words: &[&str]| match v.as_str() {
                Some(s) if words.contains(&s) => Ok(Some(s.to_string())),
                Some(_) => Err(format!("value of {k}")),
                None => Err(format!("type of {k}")),
            };
            let list = || match v.as_array() {
                Some(a) => a.iter().map(|x| x.as_str().map(String::from)).collect::<Option<Vec<_>>>().map(Some).ok_or(format!("type of an element of {k}")),
                None => Err(format!("type of {k}")),
            };
            match k.as_str() {
                "line-width" => said.line_width = int(1, 320)?,
                "indent-width" => said.indent_width = int(1, 24)?,
                "indent-style" => said.indent_style = word(&["tab", "space"])?,
                "line-ending" => said.line_ending = word(&["auto", "lf", "crlf", "native"])?,
                "persistent-line-breaks" => said.persistent = boolean()?,
                "assignment-style" => said.assignment = word(&["arrow", "equal", "preserve"])?,
                "exclude" => said.exclude = list()?,
                "default-exclude" => said.default_exclude = boolean()?,
                "skip" => said.skip = list()?,
                "table" => said.table = list()?,
                "default-table" => said.default_table = boolean()?,
                _ => return Err("unknown key in format".into()),
            }
        }
    }
    if said.exclude.iter().flatten().any(|p| BAD_PATTERNS.contains(&p.as_str())) { return Err("pattern".into()) }
    Ok(said)
}

const BAD_PATTERNS: &[&str] = &["a[", "[z-a]", "x{a"];
const NAMES: &[&str] = &["a.R", "b.R", "gen", "vendor", "x y.R", "é.R"];
const CALLS: &[&str] = &["tribble", "fcase", "list", "case_when", "graph_from_literal", "f", "é", "", "Tribble"];

fn differs(s: &Settings, said: &Said) -> Option<String> {
    let f = &s.format;
    let eq = |what: &str, ok: bool, got: String| if ok { None } else { Some(format!("{what}: {got}")) };
    let text = |o: &Option<String>, d: &str| o.clone().unwrap_or_else(|| d.into());
    let ending = text(&said.line_ending, "auto");
    let mut out = vec![
        eq("line-width", i64::from(f.line_width.value()) == said.line_width.unwrap_or(80), format!("{:?}", f.line_width)),
        eq("indent-width", i64::from(f.indent_width.value()) == said.indent_width.unwrap_or(2), format!("{:?}", f.indent_width)),
        eq("indent-style", f.indent_style.is_tab() == (text(&said.indent_style, "space") == "tab"), format!("{:?}", f.indent_style)),
        eq("persistent-line-breaks", f.persistent_line_breaks.is_respect() == said.persistent.unwrap_or(true), format!("{:?}", f.persistent_line_breaks)),
        eq("assignment-style", match text(&said.assignment, "arrow").as_str() {
            "arrow" => f.assignment_style == settings::AssignmentStyle::Arrow,
            "equal" => f.assignment_style == settings::AssignmentStyle::Equal,
            _ => f.assignment_style == settings::AssignmentStyle::Preserve,
        }, format!("{:?}", f.assignment_style)),
        eq("default-exclude", f.default_exclude.is_some() == said.default_exclude.unwrap_or(true), format!("{:?}", f.default_exclude.is_some())),
        eq("default-include", f.default_include.is_some(), "none".into()),
    ];
    // what formatting is told, source by source
    for (source, auto) in [("", "lf"), ("a\n", "lf"), ("a\r\n", "crlf"), ("a\nb\r\n", "lf"), ("a\r\nb\n", "crlf")] {
        use biome_formatter::FormatOptions;
        let o = f.to_format_options(source);
        let want = match ending.as_str() { "auto" => auto, "crlf" => "crlf", "native" if cfg!(windows) => "crlf", _ => "lf" };
        let got = o.as_print_options();
        let crlf = format!("{:?}", got.line_ending).to_lowercase().contains("crlf");
        out.push(eq("line-ending", crlf == (want == "crlf"), format!("{:?} for {source:?} with {ending}", got.line_ending)));
        out.push(eq("options/line-width", i64::from(o.line_width().value()) == said.line_width.unwrap_or(80), format!("{:?}", o.line_width())));
        out.push(eq("options/indent-width", i64::from(o.indent_width().value()) == said.indent_width.unwrap_or(2), format!("{:?}", o.indent_width())));
        out.push(eq("options/indent-style", o.indent_style().is_tab() == (text(&said.indent_style, "space") == "tab"), format!("{:?}", o.indent_style())));
        out.push(eq("options/persistent", o.persistent_line_breaks() == f.persistent_line_breaks, format!("{:?}", o.persistent_line_breaks())));
        out.push(eq("options/assignment", o.assignment_style() == f.assignment_style, format!("{:?}", o.assignment_style())));
        for c in CALLS {
            let skip = said.skip.iter().flatten().any(|x| x == c);
            let table = said.table.iter().flatten().any(|x| x == c) || (said.default_table.unwrap_or(true) && matches!(*c, "tribble" | "fcase"));
            out.push(eq("skip", o.skip().is_some_and(|s| s.contains(c)) == skip && f.skip.as_ref().is_some_and(|s| s.contains(c)) == skip, format!("{c:?}: {}", !skip)));
            out.push(eq("table", o.table().is_some_and(|s| s.contains(c)) == table && f.table.as_ref().is_some_and(|s| s.contains(c)) == table, format!("{c:?}: {}", !table)));
        }
    }
    if said.exclude.iter().flatten().all(|p| NAMES.contains(&p.as_str())) {
        for n in NAMES {
            let want = said.exclude.iter().flatten().any(|p| p == n);
            let got = f.exclude.as_ref().is_some_and(|e| e.matched_path_or_any_parents(Path::new("/w/root").join("sub").join(n), false).is_some());
            out.push(eq("exclude", want == got, format!("{n:?}: {got}")));
        }
    }
    out.into_iter().flatten().next()
}

fn one(m: &mut Monitor, text: &str, file: &Path) {
    let want = read(text);
    // mutated patterns: whether they are valid globs is not decided here
    if let Ok(s) = &want && s.exclude.iter().flatten().any(|p| !NAMES.contains(&p.as_str()) && p.contains(['[', ']', '{', '}', '\\', '*', '?'])) {
        return m.count("undecided: odd pattern");
    }
    m.eval_str(text, !text.trim().is_empty());
    let case = || json!({"text": text});
    match &want {
        Ok(s) => {
            m.count("accepted");
            let set = format!("{s:?}").matches("Some(").count();
            m.add("options set", set as u64);
        }
        Err(e) => { m.count("rejected"); m.count(&format!("rejected: {}", e.split(' ').next().unwrap())) }
    }
    // a name for what is wrong, for the key of a violation
    let class = |e: &str| e.split(' ').take(3).collect::<Vec<_>>().join("-");
    let got = guard(|| parse_air_inline_toml(text).map_err(|e| e.to_string()).and_then(|o| o.into_settings(Path::new("/w/root")).map_err(|e| format!("{e:#}"))));
    match (&got, &want) {
        (Err(p), _) => m.violation("panic", format!("{text:?}: {p}"), case()),
        (Ok(Ok(_)), Err(why)) => m.violation(format!("accepted:{}", class(why)), format!("accepted although wrong ({why}):\n{text}"), case()),
        (Ok(Err(e)), Ok(_)) => m.violation("refused", format!("refused ({e}):\n{text}"), case()),
        (Ok(Ok(s)), Ok(said)) => {
            if let Some(d) = differs(s, said) {
                m.violation(format!("value:{}", d.split(':').next().unwrap()), format!("{d}, from:\n{text}"), case());
            }
        }
        (Ok(Err(_)), Err(_)) => {}
    }
    m.sample(|| json!({"text": text, "said": format!("{want:?}")}));
    // from a file
    if m.counter("files") < 2000 || m.counter("accepted") % 16 == 0 {
        m.count("files");
        if std::fs::write(file, text).is_err() { return }
        match guard(|| parse_air_toml(file)) {
            Err(p) => m.violation("panic", format!("{text:?} in a file: {p}"), case()),
            Ok(Err(e)) => {
                if want.is_ok() { m.violation("refused", format!("refused from a file ({e}):\n{text}"), case()) }
                else if !e.to_string().contains(&file.display().to_string()) { m.violation("error-names-no-file", format!("{} is not named by: {e}", file.display()), case()) }
            }
            Ok(Ok(o)) => match (parse_air_inline_toml(text), &want) {
                (Ok(i), Ok(_)) if i == o => {}
                (_, Err(e)) if e == "pattern" => {}
                (i, _) => m.violation("file-differs", format!("from a file: {o:?}, inline: {i:?}"), case()),
            },
        }
    }
}

fn unreadable(m: &mut Monitor, dir: &Path) {
    let bad = dir.join("bytes.toml");
    let _ = std::fs::write(&bad, b"[format]\n\xff\xfe");
    let sub = dir.join("folder.toml");
    let _ = std::fs::create_dir_all(&sub);
    for p in [bad, sub, dir.join("missing.toml"), dir.join("no/such/dir.toml")] {
        m.eval_str(&format!("unreadable {}", p.display()), true);
        match guard(|| parse_air_toml(&p).map_err(|e| e.to_string())) {
            Ok(Err(e)) if e.contains(&p.display().to_string()) => m.count("unreadable files"),
            other => m.violation("unreadable", format!("{}: {other:?}", p.display()), json!({"text": ""})),
        }
    }
}

// ------------------------------------------------ documents

fn string(r: &mut Rng, s: &str) -> String {
    match r.below(8) {
        0 => format!("'{s}'"),
        1 => format!("\"\"\"{s}\"\"\""),
        2 => format!("'''\n{s}'''"),
        3 if !s.is_empty() => {
            let c = s.chars().next().unwrap();
            format!("\"\\u{:04x}{}\"", c as u32, &s[c.len_utf8()..])
        }
        _ => format!("\"{s}\""),
    }
}

fn strings(r: &mut Rng, from: &[&str]) -> String {
    let n = r.below(5);
    let items: Vec<String> = (0..n).map(|_| { let s = r.word(from).to_string(); string(r, &s).replace("'''\n", "'''") }).collect();
    match r.below(3) {
        0 if n > 0 => format!("[\n  {},\n]", items.join(",\n  # comment\n  ")),
        _ => format!("[{}]", items.join(", ")),
    }
}

fn integer(r: &mut Rng, hi: i64) -> String {
    let i = match r.below(8) {
        0 => *r.pick(&[0, 1, -1, hi, hi + 1, 2, hi - 1, 256, 65536, 65616, i64::MAX, i64::MIN, 257, 321]),
        _ => r.range(1, hi as usize + 1) as i64,
    };
    match r.below(8) {
        0 if i >= 0 => format!("0x{i:x}"),
        1 if i >= 0 => format!("0o{i:o}"),
        2 if i >= 0 => format!("+{i}"),
        3 if i > 9 => { let s = i.to_string(); format!("{}_{}", &s[..1], &s[1..]) }
        _ => i.to_string(),
    }
}

fn wrong(r: &mut Rng) -> String {
    r.word(&["80.0", "\"80\"", "true", "false", "\"true\"", "[]", "{}", "1979-05-27", "nan", "inf", "[1]", "[\"a\", 1]", "[true]", "{ a = 1 }", "\"\"", "-0", "0", "1", "[[\"a\"]]", "\"Tab\"", "\"LF\"", "\"arrow \"", "1e2"]).to_string()
}

const KEYS: &[&str] = &["line-width", "indent-width", "indent-style", "line-ending", "persistent-line-breaks", "assignment-style", "exclude", "default-exclude", "skip", "table", "default-table"];

fn value(r: &mut Rng, key: &str) -> String {
    if r.chance(1, 25) { return wrong(r) }
    match key {
        "line-width" => integer(r, 320),
        "indent-width" => integer(r, 24),
        "indent-style" => { let s = r.word(&["tab", "space", "tab", "space", "tab", "space", "spaces", "Tab", "TAB", "tabs", "\\t"]).to_string(); string(r, &s).replace("'''\n", "'''") }
        "line-ending" => { let s = r.word(&["auto", "lf", "crlf", "native", "auto", "lf", "crlf", "native", "cr", "LF", "Auto", "unix", "cr-lf"]).to_string(); string(r, &s) }
        "assignment-style" => { let s = r.word(&["arrow", "equal", "preserve", "arrow", "equal", "preserve", "equals", "<-", "Arrow", ""]).to_string(); string(r, &s) }
        "exclude" => if r.chance(1, 12) { format!("[\"{}\"]", r.word(BAD_PATTERNS)) } else { strings(r, NAMES) },
        "skip" | "table" => strings(r, CALLS),
        _ => r.word(&["true", "false"]).to_string(),
    }
}

fn near(r: &mut Rng, key: &str) -> String {
    match r.below(9) {
        0 => key.replace('-', "_"),
        1 => key.to_uppercase(),
        2 => key.replace('-', ""),
        3 => format!("{key}s"),
        4 => { let mut out = String::new(); let mut up = false; for c in key.chars() { if c == '-' { up = true } else if up { out.extend(c.to_uppercase()); up = false } else { out.push(c) } } out }
        5 => key[..key.len() - 1].to_string(),
        6 => r.word(&["include", "default-include", "extends", "lint", "global", "root", "magic-line-break", "default-skip", "ignore-magic-line-break"]).to_string(),
        7 => format!("\" {key}\""),
        _ => format!("x-{key}"),
    }
}

fn document(r: &mut Rng) -> String {
    let mut keys: Vec<&str> = KEYS.to_vec();
    r.shuffle(&mut keys);
    let n = match r.below(6) { 0 => 0, 1..=3 => r.range(1, 4), 4 => r.range(1, 12), _ => KEYS.len() };
    keys.truncate(n);
    let mut entries: Vec<(String, String)> = vec![];
    for k in keys {
        let v = value(r, k);
        let name = if r.chance(1, 30) { near(r, k) } else if r.chance(1, 20) { format!("\"{k}\"") } else { k.to_string() };
        entries.push((name, v));
    }
    // said twice
    if r.chance(1, 30) && !entries.is_empty() { let e = r.pick(&entries).clone(); entries.push(e) }
    let mut s = String::new();
    if r.chance(1, 30) { s.push_str(&format!("{} = {}\n", r.word(&["line-width", "root", "Format", "formats", "global"]), r.word(&["80", "true", "{}"]))) }
    if r.chance(1, 6) { s.push_str("# configuration\n\n") }
    match r.below(8) {
        0 => for (k, v) in &entries { s.push_str(&format!("format.{k} = {v}\n")) },
        1 if entries.iter().all(|(_, v)| !v.contains('\n')) => s.push_str(&format!("format = {{ {} }}\n", entries.iter().map(|(k, v)| format!("{k} = {v}")).collect::<Vec<_>>().join(", "))),
        _ => {
            s.push_str(if r.chance(1, 10) { "[ \"format\" ] # here\n" } else if r.chance(1, 40) { "[formatting]\n" } else { "[format]\n" });
            for (k, v) in &entries {
                match r.below(6) {
                    0 => s.push_str(&format!("  {k}={v}   # {k}\n")),
                    1 => s.push_str(&format!("\n{k} = {v}\n")),
                    _ => s.push_str(&format!("{k} = {v}\n")),
                }
            }
        }
    }
    if r.chance(1, 25) { s.push_str(r.word(&["[lint]\n", "[format.more]\nx = 1\n", "[global]\n", "[[format]]\n", "[format]\n", "extra = 1\n"])) }
    if r.chance(1, 10) { s = s.replace('\n', "\r\n") }
    if r.chance(1, 30) { s = format!("\u{feff}{s}") }
    if r.chance(1, 20) { s.truncate(s.trim_end().len()) }
    s
}

fn mutate(r: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..r.range(1, 4) {
        let extra = ['"', '\'', '[', ']', '=', '\n', '#', '-', '.', '{', '}', '0', 'a', '\\', '\u{0}', 'é', '\r', ',', ' '];
        if c.is_empty() || r.chance(1, 3) { let i = r.below(c.len() + 1); c.insert(i, *r.pick(&extra)); continue }
        let i = r.below(c.len());
        match r.below(4) {
            0 => { c.remove(i); }
            1 => c[i] = *r.pick(&extra),
            2 => { let j = r.range(i, c.len()); c.drain(i..j.min(i + 12)); }
            _ => { let j = (i + r.range(1, 12)).min(c.len()); let part: Vec<char> = c[i..j].to_vec(); let k = r.below(c.len()); for (n, x) in part.into_iter().enumerate() { c.insert(k + n, x) } }
        }
    }
    c.into_iter().collect()
}

fn main() {
    let mut m = Monitor::new("W06");
    let scratch = Scratch::new("w06");
    let file = scratch.path().join("air.toml");
    unreadable(&mut m, scratch.path());
    if let Some(c) = m.replay.clone() {
        one(&mut m, c["text"].as_str().unwrap_or(""), &file);
        m.finish();
        return;
    }
    let mut r = m.rng("documents");
    // every integer near the documented range, every word alone
    for i in -2..=700i64 { for k in ["line-width", "indent-width"] { one(&mut m, &format!("[format]\n{k} = {i}\n"), &file) } }
    for k in KEYS {
        for v in ["true", "false", "1", "\"tab\"", "\"space\"", "\"auto\"", "\"lf\"", "\"crlf\"", "\"native\"", "\"arrow\"", "\"equal\"", "\"preserve\"", "[]", "[\"f\"]", "[\"f\", \"a.R\"]", "\"\"", "80", "24", "0", "-1", "1.0", "{}"] {
            one(&mut m, &format!("[format]\n{k} = {v}\n"), &file);
            one(&mut m, &format!("{k} = {v}\n"), &file);
        }
    }
    for t in ["", "\n", "[format]", "format", "format = 1", "format = {}", "format = []", "[[format]]", "[format]\n[format]", "# x", "\u{feff}", "\u{feff}[format]\nline-width = 90\n"] { one(&mut m, t, &file) }
    for _ in 0..m.n(30_000, 600_000) {
        if !m.running() { break }
        let mut t = document(&mut r);
        if r.chance(1, 4) { t = mutate(&mut r, &t) }
        one(&mut m, &t, &file);
    }
    for what in ["accepted", "rejected", "rejected: syntax", "rejected: unknown", "rejected: type", "rejected: range", "rejected: value", "rejected: pattern"] { m.require(what, 50) }
    m.finish();
}
