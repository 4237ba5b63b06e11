//! S01: LineWidth and IndentWidth over all of u8/u16 and hostile wider values, every route.
use serde_json::json;
use settings::{IndentWidth, LineWidth};
use std::num::{NonZeroU8, NonZeroU16};
use vkit::*;

#[derive(serde::Deserialize, Debug)]
#[serde(deny_unknown_fields, rename_all = "kebab-case")]
struct Options {
    line_width: Option<LineWidth>,
    indent_width: Option<IndentWidth>,
}

#[derive(serde::Serialize)]
struct Out<T> { v: T }

/// Result of one route: Ok(accepted value read back) or Err(message)
type Route = Result<Result<u64, String>, String>;

fn judge(m: &mut Monitor, what: &str, route: &str, input: i128, max: i128, names_value: bool, got: Route) {
    let want_ok = (1..=max).contains(&input);
    let edge = input <= 1 || (max - 1..=max + 1).contains(&input);
    m.eval_str(&format!("{what}/{route}/{input}"), true);
    m.count(if want_ok { "accepted expected" } else { "rejected expected" });
    let class = if edge { format!("{input}") } else if want_ok { "inside".into() } else if input < 0 { "negative".into() } else { "outside".into() };
    let key = |k: &str| format!("{what}:{route}:{k}:{class}");
    let case = || json!({"type": what, "route": route, "input": input.to_string()});
    match got {
        Err(p) => m.violation(key("panic"), format!("{what} via {route} of {input} panicked: {p}"), case()),
        Ok(Ok(v)) if !want_ok => m.violation(key("accepted"), format!("{what} via {route} accepted {input} as {v}"), case()),
        Ok(Ok(v)) if v as i128 != input => m.violation(key("changed"), format!("{what} via {route} turned {input} into {v}"), case()),
        Ok(Err(e)) if want_ok => m.violation(key("rejected"), format!("{what} via {route} rejected {input}: {e}"), case()),
        Ok(Err(e)) if names_value && !e.contains(&input.to_string()) =>
            m.violation(key("message"), format!("{what} via {route}: error for {input} does not name it: {e}"), case()),
        _ => {}
    }
}

fn line_reads(m: &mut Monitor, w: LineWidth) -> u64 {
    let v = w.value() as u64;
    let reads = [
        ("Display", format!("{w}")),
        ("Debug", format!("{w:?}")),
        ("u16", u16::from(w).to_string()),
        ("NonZeroU16", NonZeroU16::from(w).to_string()),
        ("json", serde_json::to_string(&w).unwrap_or_default()),
        ("toml", toml::to_string(&Out { v: w }).unwrap_or_default().trim().trim_start_matches("v = ").to_string()),
        ("clone", { #[allow(clippy::clone_on_copy)] let c = w.clone(); if c == w { c.value().to_string() } else { "unequal".into() } }),
    ];
    for (name, text) in reads {
        if text != v.to_string() {
            m.violation(format!("LineWidth:read:{name}"), format!("LineWidth {v} reads as {text} through {name}"), json!({"type":"LineWidth","route":"u16","input":v.to_string()}));
        }
    }
    v
}
fn indent_reads(m: &mut Monitor, w: IndentWidth) -> u64 {
    let v = w.value() as u64;
    let reads = [
        ("Display", format!("{w}")),
        ("Debug", format!("{w:?}")),
        ("u8", u8::from(w).to_string()),
        ("NonZeroU8", NonZeroU8::from(w).to_string()),
        ("json", serde_json::to_string(&w).unwrap_or_default()),
        ("toml", toml::to_string(&Out { v: w }).unwrap_or_default().trim().trim_start_matches("v = ").to_string()),
    ];
    for (name, text) in reads {
        if text != v.to_string() {
            m.violation(format!("IndentWidth:read:{name}"), format!("IndentWidth {v} reads as {text} through {name}"), json!({"type":"IndentWidth","route":"u8","input":v.to_string()}));
        }
    }
    v
}

fn line(m: &mut Monitor, i: i128) {
    const MAX: i128 = 320;
    if let Ok(v) = u16::try_from(i) {
        let r = guard(|| LineWidth::try_from(v).map_err(|e| e.to_string()));
        let r = r.map(|r| r.map(|w| line_reads(m, w)));
        judge(m, "LineWidth", "u16", i, MAX, true, r);
        if let Some(nz) = NonZeroU16::new(v) {
            let r = guard(|| LineWidth::try_from(nz).map(|w| w.value() as u64).map_err(|e| e.to_string()));
            judge(m, "LineWidth", "NonZeroU16", i, MAX, true, r);
        }
    }
    if let Ok(v) = i64::try_from(i) {
        let r = guard(|| serde_json::from_str::<LineWidth>(&v.to_string()).map(|w| w.value() as u64).map_err(|e| e.to_string()));
        judge(m, "LineWidth", "json", i, MAX, v >= 0, r);
        let text = format!("line-width = {v}\n");
        let r = guard(|| toml::from_str::<Options>(&text).map_err(|e| e.to_string()).and_then(|o| o.line_width.map(|w| w.value() as u64).ok_or("absent".into())));
        judge(m, "LineWidth", "toml", i, MAX, v >= 0, r);
    }
}
fn indent(m: &mut Monitor, i: i128) {
    const MAX: i128 = 24;
    if let Ok(v) = u8::try_from(i) {
        let r = guard(|| IndentWidth::try_from(v).map_err(|e| e.to_string()));
        let r = r.map(|r| r.map(|w| indent_reads(m, w)));
        judge(m, "IndentWidth", "u8", i, MAX, true, r);
        if let Some(nz) = NonZeroU8::new(v) {
            let r = guard(|| IndentWidth::try_from(nz).map(|w| w.value() as u64).map_err(|e| e.to_string()));
            judge(m, "IndentWidth", "NonZeroU8", i, MAX, true, r);
        }
    }
    if let Ok(v) = usize::try_from(i) {
        let r = guard(|| IndentWidth::try_from(v).map(|w| w.value() as u64).map_err(|e| e.to_string()));
        judge(m, "IndentWidth", "usize", i, MAX, true, r);
    }
    if let Ok(v) = i64::try_from(i) {
        let r = guard(|| serde_json::from_str::<IndentWidth>(&v.to_string()).map(|w| w.value() as u64).map_err(|e| e.to_string()));
        judge(m, "IndentWidth", "json", i, MAX, v >= 0, r);
        let text = format!("indent-width = {v}\n");
        let r = guard(|| toml::from_str::<Options>(&text).map_err(|e| e.to_string()).and_then(|o| o.indent_width.map(|w| w.value() as u64).ok_or("absent".into())));
        judge(m, "IndentWidth", "toml", i, MAX, v >= 0, r);
    }
}

fn main() {
    let mut m = Monitor::new("S01");
    if let Some(c) = m.replay.clone() {
        let i: i128 = c["input"].as_str().unwrap_or("0").parse().unwrap_or(0);
        line(&mut m, i);
        indent(&mut m, i);
        m.finish();
        return;
    }
    // defaults
    match guard(|| (LineWidth::default().value(), IndentWidth::default().value())) {
        Ok((80, 2)) => m.count("defaults"),
        other => m.violation("default", format!("defaults are {other:?} instead of (80, 2)"), json!({"input": "80"})),
    }
    // the whole of u16, and around every power of two beyond it
    for i in 0..=65535i128 {
        line(&mut m, i);
        indent(&mut m, i);
        if i % 8192 == 80 { m.sample(|| json!({"input": i.to_string()})) }
    }
    let mut r = m.rng("wide");
    for bit in 8..=64u32 {
        for d in -2..=26i128 {
            let i = (1i128 << bit) + d;
            line(&mut m, i);
            indent(&mut m, i);
            line(&mut m, -i);
            indent(&mut m, -i);
        }
    }
    for _ in 0..m.n(20000, 400_000) {
        if !m.running() { break }
        // values whose low byte or low word looks valid
        let hi = (r.next() >> r.below(60)) as i128;
        let i = match r.below(4) {
            0 => hi << 8 | r.range(0, 26) as i128,
            1 => hi << 16 | r.range(0, 330) as i128,
            2 => hi,
            _ => -(hi & 0xffff),
        };
        line(&mut m, i);
        indent(&mut m, i);
    }
    // values that are no integers
    for text in ["80.0", "\"80\"", "true", "[80]", "{}", "8e1", "1.5", "nan", "-0", "+80", "0x50", "0o120", "0b1010000", "8_0", "''"] {
        for (k, name) in [("line-width", "LineWidth"), ("indent-width", "IndentWidth")] {
            let t = format!("{k} = {text}\n");
            match guard(|| toml::from_str::<Options>(&t)) {
                Err(p) => m.violation(format!("{name}:toml-type:panic"), format!("{t:?} panicked: {p}"), json!({"input": text})),
                Ok(Ok(o)) => {
                    let got = if name == "LineWidth" { o.line_width.map(|w| w.value() as u64) } else { o.indent_width.map(|w| w.value() as u64) };
                    let want = match (text, name) { ("+80" | "0x50" | "0o120" | "0b1010000" | "8_0", "LineWidth") => Some(80), _ => None };
                    if got != want {
                        m.violation(format!("{name}:toml-type:{text}"), format!("{t:?} gave {got:?}"), json!({"input": text}));
                    }
                }
                Ok(Err(_)) => {
                    if matches!(text, "+80" | "0x50" | "8_0") && name == "LineWidth" {
                        m.violation(format!("{name}:toml-type:{text}"), format!("{t:?} rejected"), json!({"input": text}));
                    }
                }
            }
            m.eval_str(&t, true);
        }
    }
    m.require("accepted expected", 500);
    m.require("rejected expected", 100_000);
    m.finish();
}
