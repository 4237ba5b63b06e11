//! R01 R02 R03 R05 R07: what formatting does to generated and mutated programs.
use rfmt::corpus::Corpus;
use rfmt::cst::{self, Assign, Cst, Seen};
use rfmt::settings::Settings;
use rfmt::{layout, shape, skip, table};
use rfmt::{Outcome, first_difference, format, generate, on_large_stack};
use serde_json::{Value, json};
use vkit::*;

fn case(src: &str, s: &Settings) -> Value {
    json!({"src": src, "width": s.width, "indent": s.indent, "tab": s.tab, "ending": s.ending, "persistent": s.persistent,
        "assign": format!("{:?}", s.assign), "skip": s.skip, "table": s.table, "default_table": s.default_table})
}

fn from(v: &Value) -> Option<(String, Settings)> {
    let strs = |v: &Value| -> Vec<String> { v.as_array().into_iter().flatten().filter_map(|x| x.as_str().map(String::from)).collect() };
    Some((
        v["src"].as_str()?.into(),
        Settings {
            width: v["width"].as_u64()? as u16,
            indent: v["indent"].as_u64()? as u8,
            tab: v["tab"].as_bool()?,
            ending: if v["ending"] == "crlf" { "crlf" } else { "lf" },
            persistent: v["persistent"].as_bool()?,
            assign: match v["assign"].as_str()? { "Arrow" => Assign::Arrow, "Equal" => Assign::Equal, _ => Assign::Preserve },
            skip: strs(&v["skip"]),
            table: strs(&v["table"]),
            default_table: v["default_table"] == true,
        },
    ))
}

#[derive(Default)]
struct Stats {
    comments: [u64; 3],
    skip: skip::Stats,
    layout: layout::Counts,
}

type Verdict = Result<(), (String, String)>;

fn fail<T>(key: &str, detail: String) -> Result<T, (String, String)> {
    Err((key.into(), detail))
}

fn reparse(out: &str, key: &str) -> Result<Cst, (String, String)> {
    match cst::parse(out) {
        Some(c) => Ok(c),
        None => fail(key, format!("the output has a syntax error: {}", show(out))),
    }
}

fn r01(src: &str, s: &Settings, out: &str) -> Verdict {
    // what air says of a text is what it does to it
    for (text, want) in [(src, (src != out).then_some(out)), (out, None)] {
        match guard(|| s.verdict(text)) {
            Ok(Ok(v)) if v.as_deref() == want => (),
            Ok(v) if text == src => return fail("verdict-on-the-source", format!("{v:?} of {}, which becomes {}", show(text), show(out))),
            // (that it changes is told below)
            Ok(Ok(Some(v))) if v != out => (),
            Ok(v) => return fail("verdict-on-the-output", format!("{v:?} of {}", show(text))),
            Err(p) => return fail("verdict-panics", format!("{p}: {}", show(text))),
        }
    }
    match format(out, s) {
        Outcome::Formatted(again) if again == out => Ok(()),
        Outcome::Formatted(again) => fail("second-run-differs", format!("{}; once: {}; twice: {}", first_difference(out, &again), show(out), show(&again))),
        Outcome::Refused(e) => fail("second-run-refused", format!("{e}: {}", show(out))),
        Outcome::Panicked(p) => fail("second-run-panics", format!("{p}: {}", show(out))),
    }
}

fn r02(c: &Cst, s: &Settings, out: &str, seen: &mut Seen) -> Verdict {
    let b = reparse(out, "output-invalid")?;
    match cst::same(c, &b, s.assign, seen) {
        Ok(()) => Ok(()),
        Err(e) => fail("program-changed", format!("{e}; output: {}", show(out))),
    }
}

/// Comments with the number of tokens before them, not counting those that formatting adds or moves
/// comments across.
fn positions(c: &Cst) -> Vec<(String, usize, cst::Places)> {
    let tokens: Vec<usize> = c.root.leaves().iter().filter(|n| !matches!(n.kind, "{" | "}" | "comma")).map(|n| n.start).collect();
    c.comments.iter().map(|at| (c.src[at.0..at.1].trim_end().to_string(), tokens.partition_point(|t| *t < at.0), cst::place(c, *at))).collect()
}

/// Comments at the ends of lines that became one line end up behind each other.
fn split(text: &str, left: &mut Vec<String>, out: &mut Vec<String>) -> bool {
    if let Some(i) = left.iter().position(|t| t == text) {
        out.push(left.swap_remove(i));
        return true;
    }
    for i in 0..left.len() {
        let Some(rest) = text.strip_prefix(left[i].as_str()).and_then(|r| r.strip_prefix(' ')) else { continue };
        let t = left.remove(i);
        let n = out.len();
        out.push(t.clone());
        if split(rest, left, out) { return true }
        out.truncate(n);
        left.insert(i, t);
    }
    false
}

fn r03(c: &Cst, out: &str, stats: &mut [u64; 3]) -> Verdict {
    let b = reparse(out, "output-invalid")?;
    let before = positions(c);
    let mut left: Vec<String> = before.iter().map(|x| x.0.clone()).collect();
    let mut after: Vec<(String, usize)> = vec![];
    for (text, at, _) in positions(&b) {
        let mut parts = vec![];
        if !split(&text, &mut left, &mut parts) {
            return fail("comment-changed", format!("{text:?} is no comment of the source, or more often than there; output: {}", show(out)));
        }
        stats[1] += u64::from(parts.len() > 1);
        after.extend(parts.into_iter().map(|p| (p, at)));
    }
    if !left.is_empty() { return fail("comment-lost", format!("{left:?}; output: {}", show(out))) }
    stats[0] += before.len() as u64;
    for (text, at, place) in &before {
        if *place > cst::Places::Operators { continue }
        stats[2] += 1;
        match after.iter().position(|x| x.0 == *text && x.1 == *at) {
            Some(i) => { after.swap_remove(i); }
            None => return fail("comment-moved", format!("{text:?}, behind {at} tokens, is elsewhere; output: {}", show(out))),
        }
    }
    Ok(())
}

/// Line endings, indentation, blank lines, trailing spaces.
fn r05(src: &str, c: &Cst, s: &Settings, out: &str) -> Verdict {
    let eol = s.eol();
    // line endings: exactly those of the settings, in strings as well
    let lone = out.replace("\r\n", "\n");
    if out != lone.replace('\n', eol) { return fail("line-ending", show(out)) }
    // the line ending of the source does not matter, and that of the output only to the line endings
    let unix = src.replace("\r\n", "\n");
    for (other, ending) in [(unix.clone(), "lf"), (unix.replace('\n', "\r\n"), "lf"), (unix.clone(), "crlf"), (unix.clone(), "auto"), (unix.replace('\n', "\r\n"), "auto")] {
        let mut t = s.clone();
        t.ending = ending;
        let crlf = ending == "crlf" || ending == "auto" && other.contains("\r\n");
        let Outcome::Formatted(o) = format(&other, &t) else { return fail("line-ending-matters", format!("not formatted with {ending}: {}", show(&other))) };
        let want = if crlf { lone.replace('\n', "\r\n") } else { lone.clone() };
        if o != want { return fail("line-ending-matters", format!("{ending}: {}; {} / {}", first_difference(&want, &o), show(&want), show(&o))) }
    }
    // what a directive keeps is kept as it is
    if c.comment_texts().iter().any(|t| t.contains("fmt") || t.contains("Generated by")) || !skip::named_calls(c, &s.skip).is_empty() { return Ok(()) }
    if lone.is_empty() || lone == "\n" { return Ok(()) }
    let b = reparse(&lone, "output-invalid")?;
    let mut strings = vec![];
    b.root.walk(&mut |n| if n.kind == "string" { strings.push((n.start, n.end)) });
    let in_string = |p: usize| strings.iter().any(|r| r.0 < p && p < r.1);
    let unit = s.unit();
    let only_comments = b.root.kids.is_empty();
    let (mut at, mut blank) = (0, 0);
    for line in lone.split_inclusive('\n') {
        let start = at;
        at += line.len();
        let body = line.trim_end_matches('\n');
        if in_string(start) {
            blank = 0;
        } else {
            let indent = &body[..body.len() - body.trim_start_matches([' ', '\t']).len()];
            if !indent.replace(&unit, "").is_empty() { return fail("indentation", format!("{body:?} in {}", show(out))) }
            blank = if body.is_empty() { blank + 1 } else { 0 };
            if blank > 2 { return fail("blank-lines", show(out)) }
        }
        // a line that ends within a string keeps what is in it
        if !in_string(start + body.len()) && body.ends_with([' ', '\t']) { return fail("trailing-space", format!("{body:?} in {}", show(out))) }
    }
    if !lone.ends_with('\n') { return fail("no-final-newline", show(out)) }
    if lone.starts_with('\n') { return fail("starts-blank", show(out)) }
    if !only_comments && lone.ends_with("\n\n") { return fail("ends-blank", show(out)) }
    Ok(())
}

fn judge(prop: &str, src: &str, c: &Cst, s: &Settings, seen: &mut Seen, stats: &mut Stats) -> Verdict {
    let out = match format(src, s) {
        Outcome::Formatted(out) => out,
        // nothing holds of a program that isn't formatted
        Outcome::Refused(e) => return fail("refused", e),
        Outcome::Panicked(p) => return fail("panics", p),
    };
    match prop {
        "R01" => r01(src, s, &out),
        "R02" => r02(c, s, &out, seen),
        "R03" => r03(c, &out, &mut stats.comments),
        "R04" => skip::judge(c, s, &out, &mut stats.skip),
        "R05" => r05(src, c, s, &out),
        "R08" => layout::r08(c, s, &out, &mut stats.layout),
        "R09" => layout::r09(c, s.width, &out, &mut stats.layout),
        "R10" => layout::r10(c, s, &out, &mut stats.layout),
        "R11" => layout::r11(c, s, &out, &mut stats.layout),
        "R12" => table::r12(c, s, &out, &mut stats.layout),
        "R14" => layout::r14(c, s, &out, &mut stats.layout),
        "R15" => shape::r15(c, &out, &mut stats.layout),
        "R16" => shape::r16(c, s, &out, &mut stats.layout),
        "R17" => shape::r17(c, &out, &mut stats.layout),
        "R18" => shape::r18(c, s, &out, &mut stats.layout),
        "R13" => layout::r13(c, s, &out, &mut stats.layout),
        _ => Ok(()),
    }
}

const LAYOUT: &[&str] = &["R08", "R09", "R10", "R11", "R12", "R13", "R14", "R15", "R16", "R17", "R18"];

/// Programs that are left out of the workload, or too large for it.
fn probes(m: &mut Monitor, prop: &str) {
    let known: &[(&str, &str, &str, &[&str])] = &[
        ("R01", "comment-behind-function", "a(function # c\n() a)\n", &[]),
        ("R01", "comment-behind-question-mark", "x ?\n# c\na\n", &[]),
        ("R01", "comment-in-test-call", "test_that(\"x\", # c\n{a})\n", &[]),
        ("R01", "braces-within-parameters", "a(n,...=function(a=a,a=a(function()a),a=mutate(list,\"no comment\"))c)\n", &[]),
        ("R02", "comment-before-arguments-gets-braces", "(\\() a\n# c\n(b))\n", &[]),
        ("R04", "skipped-call-gets-braces", "(\\() f\n())\n", &["f"]),
    ];
    for (id, key, src, names) in known {
        if *id != prop { continue }
        let mut s = Settings::default();
        s.skip = names.iter().map(|n| n.to_string()).collect();
        let c = cst::parse(src).expect("a valid probe");
        m.count("probes of known limits");
        if let Err((k, d)) = judge(prop, src, &c, &s, &mut Seen::default(), &mut Stats::default()) { m.violation(key.to_string(), format!("{k}: {}: {d}", show(src)), case(src, &s)) }
    }
    if prop == "R10" { widths(m) }
    if prop != "R07" { return }
    let deep = m.n(100, 300) as usize;
    let nest = |open: &str, mid: &str, close: &str, n: usize| format!("{}{mid}{}\n", open.repeat(n), close.repeat(n));
    let programs = [
        nest("(", "x", ")", deep), nest("{", "x", "}", deep), nest("f(", "x", ")", deep), nest("x[", "1", "]", deep), nest("x[[", "1", "]]", deep),
        nest("-", "x", "", deep), nest("a + ", "x", "", deep), nest("x <- ", "1", "", deep), nest("if (a) b else ", "c", "", deep),
        nest("while (a) ", "b", "", deep), nest("function(x) ", "x", "", deep), nest("f(function(x = ", "1", ") x)", deep),
        // every level of these doubles the time that air takes
        nest("map(x, function(y) {", "y", "})", 10), nest("map(function(y) ", "y", ", x)", 10), nest("x |> f(function(y) ", "y", ")", 8),
        format!("a{}\n", " |> f()".repeat(deep)), format!("a{}\n", "$b".repeat(deep)), format!("f{}\n", "(1)".repeat(deep)), format!("f({})\n", "x, ".repeat(deep * 10)),
        "x <- 1\n".repeat(deep * 20), format!("# c\n{}", "# c\n\n".repeat(deep * 10)), format!("x <- \"{}\"\n", "y".repeat(100_000)),
    ];
    for src in programs {
        for width in [20, 80, 320] {
            let s = Settings { width, ..Settings::default() };
            let Some(c) = cst::parse(&src) else { m.inconclusive(format!("invalid probe: {}", show(&src))); continue };
            m.inflight(&case(&src, &s).to_string());
            m.count("deep and long programs");
            m.eval_str(&src, true);
            if let Err((k, d)) = judge(prop, &src, &c, &s, &mut Seen::default(), &mut Stats::default()) { m.violation(format!("deep-{k}"), format!("{d}: {}", show(&src)), case(&src, &s)) }
        }
    }
}

/// Every line width: what fits to the column stays, what doesn't is broken.
fn widths(m: &mut Monitor) {
    // `@` is what there's more or less of
    let flat = ["f(@, b)", "f(@)", "x[@, b]", "x[[@]]", "f(a = @)", "@ + b", "x |> f(@)", "y <- f(@, b)", "pkg::f(a, @)", "x$f(@)", "f(g(@))", "(function(a) a)(@)", "x <- @ && b", "x <- if (a) @ else c", "function(a) @", "function(@) a"];
    let around = ["", "{\n\t", "{\n\t{\n\t\t"];
    for width in 1..=320usize {
        for (k, line) in flat.iter().enumerate() {
            for tab in [false, true] {
                let (deep, indent) = if tab { (width % 3, 1 + (width + k) % 9) } else { ((width + k) % 3, 2) };
                let s = Settings { width: width as u16, indent: indent as u8, tab, persistent: width % 2 == 0, ..Settings::default() };
                for over in [0, 1] {
                    let Some(n) = (width + over).checked_sub(deep * indent + line.len() - 1).filter(|n| *n >= 3) else { continue };
                    let line = line.replace('@', &"z".repeat(n));
                    let mut want = around[deep].replace('\t', &s.unit()) + &line;
                    for d in (0..deep).rev() { want += &format!("\n{}}}", s.unit().repeat(d)) }
                    want.push('\n');
                    m.count(if over == 0 { "lines as long as the line width" } else { "lines longer by one" });
                    let got = match format(&want, &s) { Outcome::Formatted(o) => o, _ => String::new() };
                    if (got == want) != (over == 0) {
                        m.violation(if over == 0 { "broken-at-the-width" } else { "not-broken-beyond-the-width" }, format!("width {width}: {}; output {}", show(&want), show(&got)), case(&want, &s));
                        return;
                    }
                }
            }
            m.eval_str(&format!("{width} {line}"), true);
        }
    }
}

/// Replays of `widths`.
fn at_width(src: &str, s: &Settings) -> Verdict {
    let longest = src.lines().map(|l| l.chars().map(|c| if c == '\t' { s.indent as usize } else { 1 }).sum::<usize>()).max().unwrap_or(0);
    let Outcome::Formatted(out) = format(src, s) else { return Ok(()) };
    if !src.contains("zzz") || longest != s.width as usize && longest != s.width as usize + 1 { return Ok(()) }
    if (out == src) != (longest == s.width as usize) { return fail("at-the-width", format!("{} became {}", show(src), show(&out))) }
    Ok(())
}

fn main() {
    on_large_stack(work)
}

fn work() {
    let prop = std::env::var("VK_PROP").unwrap_or("R01".into());
    let mut m = Monitor::new(&prop);
    if let Some(v) = m.replay.clone() {
        if let Some((src, s)) = from(&v) {
            if let Some(c) = cst::parse(&src) {
                let mut verdict = judge(&prop, &src, &c, &s, &mut Seen::default(), &mut Stats::default());
                if prop == "R10" && verdict.is_ok() { verdict = at_width(&src, &s) }
                if let Err((k, d)) = verdict { m.violation(k, d, v) }
            }
        }
        return m.finish();
    }
    probes(&mut m, &prop);
    let corpus = Corpus::load();
    m.note("specimens", corpus.files.len() as u64);
    let mut r = m.rng("rfmt");
    let limit = match std::env::var("RFMT_PLACES").as_deref() { Ok("0") => cst::Places::Nowhere, Ok("1") => cst::Places::Statements, Ok("2") => cst::Places::Lists, Ok("3") => cst::Places::Operators, Ok("4") => cst::Places::Anywhere, _ if prop == "R01" => cst::Places::Operators, _ => cst::Places::Anywhere };
    let mut seen = Seen::default();
    let mut stats = Stats::default();
    let mut keys = std::collections::BTreeMap::<String, u32>::new();
    while m.running() {
        let comments = r.chance(3, 5);
        let tables = prop == "R12";
        let some_tables = matches!(prop.as_str(), "R01" | "R02" | "R03" | "R07" | "R14") && r.chance(1, 12);
        let (kind, c) = match r.below(4) {
            _ if some_tables => ("tables", cst::parse(&table::program(&mut r))),
            0..=2 if tables => ("generated", cst::parse(&table::program(&mut r))),
            _ if tables => { let p = if r.chance(2, 3) { table::program(&mut r) } else { corpus.piece(&mut r) }; if r.bool() { ("specimen", cst::parse(&p)) } else { ("mutated", corpus.mutate(&mut r, &p, comments)) } }
            0 | 1 => ("generated", cst::parse(&generate::program(&mut r, comments))),
            2 => { let p = corpus.piece(&mut r); ("specimen", cst::parse(&p)) }
            _ => { let p = if r.chance(1, 3) { generate::program(&mut r, comments) } else { corpus.piece(&mut r) }; ("mutated", corpus.mutate(&mut r, &p, comments)) }
        };
        let Some(c) = c.filter(cst::plausible) else { m.count(&format!("invalid: {kind}")); continue };
        if cst::odd_comment(&c) { m.count("left out: odd comments"); continue }
        if prop == "R01" && cst::braces_within_parameters(&c) { m.count("left out: braces within parameters"); continue }
        let mut s = Settings::random(&mut r);
        if tables || some_tables {
            s.default_table = r.chance(2, 3);
            if r.bool() { s.table = vec!["tab".into(), "list".into()] }
        }
        let c = if prop == "R04" {
            let Some(c) = skip::prepare(&mut r, &c, &mut s).filter(cst::plausible) else { m.count("no place for a directive"); continue };
            if cst::odd_comment(&c) || skip::broken_callee(&c, &s) { m.count("left out: odd comments"); continue }
            c
        } else { c };
        if skip::broken_callee(&c, &s) { m.count("left out: broken callee"); continue }
        if LAYOUT.contains(&prop.as_str()) && (!tables && !some_tables && layout::has_directive(&c) || c.comment_texts().iter().any(|t| t.contains("skip") || t.contains("Generated")) || !s.skip.is_empty()) { m.count("left out: directives"); continue }
        let places = cst::places(&c);
        if prop == "R01" && places > limit { continue }
        m.count(kind);
        m.count(&format!("comments {places:?}"));
        m.add("comments", c.comments.len() as u64);
        m.inflight(&case(&c.src, &s).to_string());
        let verdict = judge(&prop, &c.src, &c, &s, &mut seen, &mut stats);
        m.eval_str(&c.src, c.root.kids.len() > 0);
        if let Err((key, _)) = verdict {
            let n = keys.entry(key.clone()).or_default();
            *n += 1;
            if *n > 6 { m.count(&format!("more of {key}")); continue }
            let fails = |t: &str| cst::parse(t).is_some_and(|c| cst::plausible(&c) && !cst::odd_comment(&c) && !skip::broken_callee(&c, &s) && judge(&prop, t, &c, &s, &mut Seen::default(), &mut Stats::default()).is_err_and(|e| e.0 == key));
            let small = rfmt::shrink::shrink(&c.src, fails);
            let d = cst::parse(&small).map(|c| judge(&prop, &small, &c, &s, &mut Seen::default(), &mut Stats::default())).and_then(|v| v.err()).map(|e| e.1).unwrap_or_default();
            let key = if std::env::var("RFMT_EXPLORE").is_ok() { format!("{key}-{n}") } else { key };
            m.violation(key, format!("{} under {s:?}: {d}", show(&small)), case(&small, &s));
        }
    }
    match prop.as_str() {
        "R02" => {
            m.add("compared nodes", seen.nodes);
            m.add("braces added", seen.braced);
            m.add("assignment operators rewritten", seen.reassigned);
            for what in ["compared nodes", "braces added", "assignment operators rewritten"] { m.require(what, 50) }
        }
        "R03" => {
            m.add("comments found again", stats.comments[0]);
            m.add("comments put behind each other", stats.comments[1]);
            m.add("comments in their place", stats.comments[2]);
            for what in ["comments found again", "comments in their place"] { m.require(what, 100) }
        }
        "R04" => {
            m.add("skipped files", stats.skip.files);
            m.add("suppressed statements", stats.skip.statements);
            m.add("suppressed arguments", stats.skip.arguments);
            m.add("skipped calls", stats.skip.calls);
            m.add("programs without skipped calls", stats.skip.without);
            m.add("directives without effect", stats.skip.idle);
            m.add("file directives without effect", stats.skip.idle_files);
            for what in ["skipped files", "suppressed statements", "suppressed arguments", "skipped calls", "programs without skipped calls", "directives without effect", "file directives without effect"] { m.require(what, 10) }
        }
        _ => (),
    }
    for (what, n) in &stats.layout { m.add(what, *n) }
    let floors: &[&str] = match prop.as_str() {
        "R08" => &["other blanks"],
        "R09" => &["loops", "functions", "functions without braces", "ifs", "ifs without braces", "empty braces", "short functions", "braces on lines", "doubled braces"],
        "R10" => &["narrower widths", "lists on a line", "lines as long as the line width", "lines longer by one"],
        "R11" => &["lists to expand", "operators to break after"],
        "R12" => &["tables", "rows", "numbers", "other cells", "holes", "names that are not in the list"],
        "R13" => &["assignments", "arrows that have to stay"],
        "R14" => &["programs cut in two"],
        "R15" => &["neighbours that touch", "neighbours with a blank between", "comments behind code"],
        "R16" => &["lines by their nesting", "lines of level 1", "lines of level 2", "lines of a higher level", "lists with an item per line", "lists on one line", "chains"],
        "R17" => &["ends of lines", "next lines", "one blank line", "two blank lines", "empty lines within an expression"],
        "R18" => &["programs with other line breaks", "line breaks put or taken"],
        _ => &[],
    };
    for what in floors { m.require(what, 20) }
    for what in ["generated", "specimen", "mutated", "comments Statements", "comments Lists"] { m.require(what, 5) }
    if prop != "R12" { m.require("comments Operators", 5) }
    m.finish();
}
