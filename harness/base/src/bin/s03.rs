//! S03: the textual forms of the enumerated options.
use serde_json::json;
use settings::{AssignmentStyle, IndentStyle, LineEnding, PersistentLineBreaks};
use std::str::FromStr;
use vkit::*;

#[allow(dead_code)]
#[path = "/repo/crates/workspace/src/settings/line_ending.rs"]
mod ws_line_ending;
use ws_line_ending::LineEnding as Opt;

const INDENT: &[(&str, IndentStyle, &str)] = &[("tab", IndentStyle::Tab, "Tab"), ("space", IndentStyle::Space, "Space")];
const ASSIGN: &[(&str, AssignmentStyle, &str)] = &[
    ("arrow", AssignmentStyle::Arrow, "Arrow"), ("equal", AssignmentStyle::Equal, "Equal"), ("preserve", AssignmentStyle::Preserve, "Preserve")];
const BREAKS: &[(&str, PersistentLineBreaks, &str)] = &[
    ("respect", PersistentLineBreaks::Respect, "Respect"), ("ignore", PersistentLineBreaks::Ignore, "Ignore")];
const ENDING: &[(&str, Opt, &str)] = &[("auto", Opt::Auto, "Auto"), ("lf", Opt::Lf, "LF"), ("crlf", Opt::Crlf, "CRLF"), ("native", Opt::Native, "Native")];

/// FromStr where there is one.
trait Forms: Sized + PartialEq + Copy + std::fmt::Debug + std::fmt::Display {
    fn from_text(_: &str) -> Option<Result<Self, String>> { None }
    fn ser(&self) -> String;
    fn de(json: &str) -> Result<Self, String>;
    fn de_toml(text: &str) -> Result<Self, String>;
}
macro_rules! forms {
    ($t:ty, $fromstr:expr) => {
        impl Forms for $t {
            fn from_text(s: &str) -> Option<Result<Self, String>> { let f: Option<fn(&str) -> Result<$t, String>> = $fromstr; f.map(|f| f(s)) }
            fn ser(&self) -> String { serde_json::to_string(self).unwrap() }
            fn de(j: &str) -> Result<Self, String> { serde_json::from_str(j).map_err(|e| e.to_string()) }
            fn de_toml(t: &str) -> Result<Self, String> {
                #[derive(serde::Deserialize)] struct O { v: $t }
                toml::from_str::<O>(t).map(|o| o.v).map_err(|e| e.to_string())
            }
        }
    };
}
forms!(IndentStyle, Some(|s| IndentStyle::from_str(s).map_err(|e| e.to_string())));
forms!(AssignmentStyle, Some(|s| AssignmentStyle::from_str(s).map_err(|e| e.to_string())));
forms!(PersistentLineBreaks, Some(|s| PersistentLineBreaks::from_str(s).map_err(|e| e.to_string())));
forms!(Opt, None);

/// `kebab`: whether the serialized spelling is the documented one (PersistentLineBreaks is never
/// written or read by users, its serialized form only has to round-trip).
fn spelling<T: Forms>(m: &mut Monitor, what: &str, table: &[(&str, T, &str)], text: &str, kebab: bool) {
    let want = table.iter().find(|t| t.0 == text).map(|t| t.1);
    m.eval_str(&format!("{what}/{text}"), true);
    m.count(if want.is_some() { "documented spellings" } else { "other spellings" });
    let class = if want.is_some() { text } else { "undocumented" };
    let case = || json!({"text": text});
    let j = serde_json::to_string(text).unwrap();
    let t = toml::to_string(&std::collections::BTreeMap::from([("v", text)])).unwrap();
    let mut routes = vec![];
    match guard(|| T::from_text(text)) {
        Err(p) => m.violation(format!("{what}:FromStr-panic"), format!("{what} from {text:?} panicked: {p}"), case()),
        Ok(Some(r)) => routes.push(("FromStr", r)),
        Ok(None) => {}
    }
    if kebab {
        match guard(|| (T::de(&j), T::de_toml(&t))) {
            Err(p) => m.violation(format!("{what}:serde-panic"), format!("{what} from {text:?} panicked: {p}"), case()),
            Ok((a, b)) => { routes.push(("json", a)); routes.push(("toml", b)) }
        }
    }
    for (route, got) in routes {
        if got.as_ref().ok() != want.as_ref() {
            m.violation(format!("{what}:{route}:{class}"), format!("{what} from {text:?} via {route} = {got:?} instead of {want:?}"), case());
        }
    }
}

fn values<T: Forms>(m: &mut Monitor, what: &str, table: &[(&str, T, &str)], kebab: bool) {
    for (text, v, shown) in table {
        m.eval_str(&format!("{what}:{text}"), true);
        m.count("values round-tripped");
        let case = || json!({"text": text});
        let s = v.ser();
        let back = guard(|| T::de(&s));
        if back.as_ref().ok().and_then(|b| b.as_ref().ok()) != Some(v) {
            m.violation(format!("{what}:round-trip:{text}"), format!("{v:?} serializes to {s} and reads back as {back:?}"), case());
        }
        if kebab && s != format!("\"{text}\"") {
            m.violation(format!("{what}:serialized:{text}"), format!("{v:?} serializes to {s}"), case());
        }
        if v.to_string() != *shown {
            m.violation(format!("{what}:display:{text}"), format!("{v:?} displays as {v}"), case());
        }
        for (other, w, _) in table {
            if (v == w) != (text == other) {
                m.violation(format!("{what}:equality:{text}"), format!("{v:?} == {w:?}"), case());
            }
        }
    }
}

fn all(m: &mut Monitor, text: &str) {
    spelling(m, "IndentStyle", INDENT, text, true);
    spelling(m, "AssignmentStyle", ASSIGN, text, true);
    spelling(m, "PersistentLineBreaks", BREAKS, text, false);
    spelling(m, "LineEnding", ENDING, text, true);
}

fn main() {
    let mut m = Monitor::new("S03");
    if let Some(c) = m.replay.clone() {
        all(&mut m, c["text"].as_str().unwrap_or(""));
    }
    values(&mut m, "IndentStyle", INDENT, true);
    values(&mut m, "AssignmentStyle", ASSIGN, true);
    values(&mut m, "PersistentLineBreaks", BREAKS, false);
    values(&mut m, "LineEnding", ENDING, true);
    let preds = [
        ("IndentStyle::Tab", IndentStyle::Tab.is_tab() && !IndentStyle::Tab.is_space()),
        ("IndentStyle::Space", IndentStyle::Space.is_space() && !IndentStyle::Space.is_tab()),
        ("PersistentLineBreaks::Respect", PersistentLineBreaks::Respect.is_respect() && !PersistentLineBreaks::Respect.is_ignore()),
        ("PersistentLineBreaks::Ignore", PersistentLineBreaks::Ignore.is_ignore() && !PersistentLineBreaks::Ignore.is_respect()),
        ("default IndentStyle", IndentStyle::default() == IndentStyle::Space),
        ("default AssignmentStyle", AssignmentStyle::default() == AssignmentStyle::Arrow),
        ("default PersistentLineBreaks", PersistentLineBreaks::default() == PersistentLineBreaks::Respect),
        ("default LineEnding option", Opt::default() == Opt::Auto),
        ("default LineEnding", LineEnding::default() == LineEnding::Lf),
        ("display LF", LineEnding::Lf.to_string() == "LF" && LineEnding::Crlf.to_string() == "CRLF"),
    ];
    for (what, ok) in preds {
        m.eval_str(what, true);
        m.count("predicates and defaults");
        m.check(ok, &format!("predicate:{what}"), || format!("{what}: predicate or default is wrong"), || json!({"text": ""}));
    }
    if m.replay.is_some() { m.finish(); return }
    let words: Vec<&str> = INDENT.iter().map(|t| t.0).chain(ASSIGN.iter().map(|t| t.0)).chain(BREAKS.iter().map(|t| t.0)).chain(ENDING.iter().map(|t| t.0))
        .chain(["tabs", "spaces", "cr", "lfcr", "cr-lf", "crlf ", "unix", "windows", "true", "false", "none", "assign", "equals", "keep", "eq", "<-", "=", "left", "respected", "auto-detect", "os"]).collect();
    for w in &words {
        all(&mut m, w);
        // one edit away from every word
        let c: Vec<char> = w.chars().collect();
        for i in 0..=c.len() {
            for x in ['a', 'r', 's', ' ', '-', '_', 'A', '\n', '\0', 'é'] {
                let mut d = c.clone(); d.insert(i, x); all(&mut m, &d.iter().collect::<String>());
                if i < c.len() { let mut d = c.clone(); d[i] = x; all(&mut m, &d.iter().collect::<String>()); }
            }
            if i < c.len() {
                let mut d = c.clone(); d.remove(i); all(&mut m, &d.iter().collect::<String>());
                let mut d = c.clone(); d[i] = d[i].to_ascii_uppercase(); all(&mut m, &d.iter().collect::<String>());
                all(&mut m, &c[..i].iter().collect::<String>());
            }
            if i + 1 < c.len() { let mut d = c.clone(); d.swap(i, i + 1); all(&mut m, &d.iter().collect::<String>()); }
        }
        all(&mut m, &w.to_uppercase());
        m.sample(|| json!({"word": w}));
    }
    let mut r = m.rng("words");
    for _ in 0..m.n(25000, 200_000) {
        if !m.running() { break }
        let n = r.below(12);
        let s: String = (0..n).map(|_| *r.pick(&['a', 'e', 'r', 't', 'b', 'l', 'f', 'c', 'p', 's', 'A', 'L', 'F', '-', ' '])).collect();
        all(&mut m, &s);
    }
    m.require("documented spellings", 40);
    m.require("other spellings", 5000);
    m.finish();
}
