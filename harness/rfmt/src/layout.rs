//! R08 R09 R10 R11 R13: which layout comes out, against what the documentation says about it.
use crate::corpus::gaps;
use crate::cst::{self, Assign, Cst, N};
use crate::settings::Settings;
use crate::{Outcome, first_difference, format};
use std::collections::BTreeMap;
use unicode_width::UnicodeWidthChar;
use vkit::{Rng, show};

pub type Verdict = Result<(), (String, String)>;
pub type Counts = BTreeMap<&'static str, u64>;

fn fail(key: &str, detail: String) -> Verdict {
    Err((key.into(), detail))
}

pub fn has_directive(c: &Cst) -> bool {
    c.comment_texts().iter().any(|t| t.contains("fmt") || t.contains("Generated by"))
}

fn parents<'a>(n: &'a N, parent: Option<&'a N>, f: &mut impl FnMut(&'a N, Option<&'a N>)) {
    f(n, parent);
    for k in &n.kids { parents(k, Some(n), f) }
}

/// The same program with other blanks, and the same lines.
pub fn reblank(r: &mut Rng, c: &Cst) -> String {
    let (mut out, mut at) = (String::new(), 0);
    for (s, e) in gaps(c) {
        out += &c.src[at..s];
        let old = &c.src[s..e];
        let mut lines = old.split('\n');
        let first = lines.next().unwrap_or("");
        let n = old.matches('\n').count();
        let blank = |r: &mut Rng, may_be_none: bool| r.word(if may_be_none { &["", "", " ", "  ", "\t", "      "] } else { &[" ", "  ", "\t", " \t "] }).to_string();
        if old.contains(';') || r.chance(1, 3) {
            out += old;
        } else if n == 0 {
            // (no blank may become one or none, one stays one: some tokens need it)
            let none = first.is_empty() && r.bool();
            out += &blank(r, none);
        } else {
            out += &blank(r, true);
            if old.contains('\r') { out.push('\r') }
            for i in 0..n {
                out.push('\n');
                out += &blank(r, true);
                if i + 1 < n && old.contains('\r') { out.push('\r') }
            }
        }
        at = e;
    }
    out + &c.src[at..]
}

/// Blanks do not matter.
pub fn r08(c: &Cst, s: &Settings, out: &str, n: &mut Counts) -> Verdict {
    let mut r = Rng::new(vkit::hash_str(&c.src));
    for _ in 0..3 {
        let other = reblank(&mut r, c);
        if other == c.src { continue }
        let Some(d) = cst::parse(&other) else { continue };
        // (not if that made it another program)
        if d.comment_texts() != c.comment_texts() || cst::same(c, &d, Assign::Preserve, &mut Default::default()).is_err() { continue }
        *n.entry("other blanks").or_default() += 1;
        match format(&other, s) {
            Outcome::Formatted(o) if o == out => (),
            Outcome::Formatted(o) => return fail("blanks-matter", format!("{} and {}: {}; {} / {}", show(&c.src), show(&other), first_difference(out, &o), show(out), show(&o))),
            _ => return fail("blanks-refused", show(&other)),
        }
    }
    Ok(())
}

fn is_body(p: &N, k: &N) -> bool {
    matches!((p.kind, k.field), ("function_definition" | "for_statement" | "while_statement" | "repeat_statement", Some("body")) | ("if_statement", Some("consequence" | "alternative")))
}

/// Which braces there are.
pub fn r09(c: &Cst, width: u16, out: &str, n: &mut Counts) -> Verdict {
    let Some(b) = cst::parse(out) else { return fail("output-invalid", show(out)) };
    let mut verdict = Ok(());
    let text = |k: &N| out[k.start..k.end].to_string();
    let mut doubled: Vec<usize> = vec![];
    let mut arguments = vec![];
    b.root.walk(&mut |k| if k.kind == "argument" { arguments.push((k.start, k.end)) });
    parents(&b.root, None, &mut |k, p| {
        // where braces and `else` are
        for w in k.kids.windows(2) {
            let between = &out[w[0].end..w[1].start];
            let body = is_body(k, &w[1]) && w[1].kind == "braced_expression";
            let chained = w[1].kind == "else" && w[0].kind == "braced_expression" || w[0].kind == "else" && w[1].kind == "if_statement";
            if (body || chained) && between.contains('\n') && !b.comment_in(w[0].end, w[1].start) && verdict.is_ok() {
                verdict = fail("brace-or-else-on-its-own-line", format!("{} in {}", show(&text(k)), show(out)));
            }
        }
        let mut bad = |key: &str| if verdict.is_ok() { verdict = fail(key, format!("{} in {}", show(&text(k)), show(out))) };
        let braced = |f: &str| k.kid(f).map(|x| x.kind == "braced_expression");
        match k.kind {
            "for_statement" | "while_statement" | "repeat_statement" => {
                *n.entry("loops").or_default() += 1;
                if braced("body") != Some(true) { bad("loop-without-braces") }
            }
            "function_definition" => {
                *n.entry("functions").or_default() += 1;
                if braced("body") == Some(false) {
                    *n.entry("functions without braces").or_default() += 1;
                    if spans_lines(&b, k) { bad("function-without-braces") }
                }
            }
            "if_statement" => {
                *n.entry("ifs").or_default() += 1;
                let parts: Vec<&N> = ["consequence", "alternative"].iter().filter_map(|f| k.kid(f)).collect();
                let chained = k.field == Some("alternative") && p.is_some_and(|p| p.kind == "if_statement");
                let open: Vec<&&N> = parts.iter().filter(|x| x.kind != "braced_expression").collect();
                // `else if` carries on
                let open = open.iter().filter(|x| !(x.field == Some("alternative") && x.kind == "if_statement")).count();
                if open > 0 {
                    *n.entry("ifs without braces").or_default() += 1;
                    if parts.len() > open { bad("if-with-braces-in-part") }
                    if spans_lines(&b, k) { bad("if-without-braces-on-lines") }
                    if parts.iter().any(|x| x.kind == "if_statement") || chained { bad("nested-if-without-braces") }
                    let effect = p.is_some_and(|p| p.kind == "program" || p.kind == "braced_expression" && p.statements().last().is_none_or(|l| l.start != k.start));
                    if effect { bad("if-without-braces-in-effect-position") }
                }
            }
            "braced_expression" if k.statements().is_empty() && !b.comment_in(k.start, k.end) => {
                *n.entry("empty braces").or_default() += 1;
                if text(k) != "{}" { bad("empty-braces") }
            }
            "braced_expression" => {
                let within = arguments.iter().any(|a| a.0 <= k.start && k.end <= a.1);
                let outer = |k: &N| k.statements().len() == 1 && k.statements()[0].kind == "braced_expression" && k.statements()[0].statements().len() == 1 && k.statements()[0].statements()[0].kind == "identifier";
                let inner = p.is_some_and(|p| doubled.contains(&p.start));
                if within && outer(k) || inner {
                    // `f({{ x }})`
                    *n.entry("doubled braces").or_default() += 1;
                    if !inner {
                        doubled.push(k.start);
                        let name = k.statements()[0].statements()[0].text(out);
                        if !b.comment_in(k.start, k.end) && text(k) != format!("{{{{ {name} }}}}") && !(text(k)[2..].starts_with(['\n', '\r']) && text(k).ends_with("}}")) { bad("doubled-braces") }
                    }
                } else {
                    *n.entry("braces on lines").or_default() += 1;
                    let (from, to) = (k.start + 1, k.end - 1);
                    let first = out[from..to].split('\n').next().unwrap_or("").trim();
                    let last = out[from..to].rsplit('\n').next().unwrap_or("").trim();
                    if !out[from..to].contains('\n') || !(first.is_empty() || first.starts_with('#')) || !last.is_empty() { bad("braces-on-one-line") }
                }
            }
            _ => (),
        }
    });
    verdict?;
    // braces that a line break in the source asks for
    both(&c.root, None, &b.root, &mut |x, _, y| {
        if !matches!(x.kind, "if_statement" | "function_definition") || c.comment_in(x.start, x.end) { return Ok(()) }
        let asked = x.kids.windows(2).any(|w| {
            let part = matches!(w[1].field, Some("consequence" | "alternative" | "body")) || w[1].kind == "else";
            part && c.src[w[0].end..w[1].start].contains('\n')
        });
        if !asked { return Ok(()) }
        *n.entry("line breaks that ask for braces").or_default() += 1;
        let bare = y.kids.iter().any(|k| matches!(k.field, Some("consequence" | "alternative" | "body")) && k.kind != "braced_expression" && !(k.field == Some("alternative") && k.kind == "if_statement"));
        if bare { return fail("line-break-without-braces", format!("{} became {}", show(x.text(&c.src)), show(y.text(&b.src)))) }
        Ok(())
    })?;
    // braces that nothing asked for
    if width < 80 { return Ok(()) }
    // a statement that fits, in which no construct demands any
    let (x, y) = (c.root.statements(), b.root.statements());
    for (x, y) in x.iter().zip(&y).filter(|_| x.len() == y.len()) {
        let text = x.text(&c.src);
        if text.contains(['\n', '{', '#', ';']) || text.len() > 60 || text.len() as u16 * 4 / 3 > width { continue }
        let mut ifs = 0;
        let mut plain = true;
        parents(x, None, &mut |k, p| {
            plain &= !matches!(k.kind, "for_statement" | "while_statement" | "repeat_statement");
            if k.kind == "if_statement" {
                ifs += 1;
                plain &= p.is_some_and(|p| p.kind == "argument" || p.kind == "binary_operator" && k.field == Some("rhs") && matches!(p.kid("operator").map_or("", |o| o.kind), "<-" | "="));
            } else if k.kind == "function_definition" { *n.entry("short functions").or_default() += 1 }
        });
        if !plain || ifs > 1 { continue }
        *n.entry("short ifs").or_default() += ifs;
        if y.text(out).contains('{') { return fail("needless-braces", format!("{} became {}", show(text), show(y.text(out)))) }
    }
    braces_needed(&c.root, None, &b.root, c, &b, out, n)
}

/// Does the code of `k` take more than one line, strings that do so aside?
fn spans_lines(c: &Cst, k: &N) -> bool {
    let mut strings = vec![];
    k.walk(&mut |x| if x.kind == "string" || x.kind == "identifier" { strings.push((x.start, x.end)) });
    c.src[k.start..k.end].match_indices('\n').any(|(i, _)| !strings.iter().any(|s| s.0 <= k.start + i && k.start + i < s.1))
}

/// Braces were added only where the source spans lines, or nothing fits anyway.
fn braces_needed(a: &N, pa: Option<&N>, b: &N, ca: &Cst, cb: &Cst, out: &str, n: &mut Counts) -> Verdict {
    if a.kids.len() != b.kids.len() { return Ok(()) }
    let added = |f: &str| matches!((a.kid(f), b.kid(f)), (Some(x), Some(y)) if x.kind != "braced_expression" && y.kind == "braced_expression");
    // one line in the source, simple, short: stays as it is
    let simple = |k: &N| {
        let mut ok = !ca.src[k.start..k.end].contains(['\n', '{', '#']) && ca.src[k.start..k.end].len() < 12;
        k.walk(&mut |x| ok &= !matches!(x.kind, "for_statement" | "while_statement" | "repeat_statement") && (x.start == k.start || x.kind != "if_statement"));
        ok
    };
    if a.kind == "function_definition" && simple(a) && !ca.comment_in(a.start, a.end) {
        *n.entry("short functions").or_default() += 1;
        if added("body") && pa.is_some_and(|p| p.kind == "program") { return fail("needless-braces", format!("{} in {}", show(a.text(&ca.src)), show(out))) }
    }
    for (x, y) in a.kids.iter().zip(&b.kids) {
        let y = if is_body(a, x) && x.kind != "braced_expression" && y.kind == "braced_expression" { y.statements().first().copied().unwrap_or(y) } else { y };
        braces_needed(x, Some(a), y, ca, cb, out, n)?;
    }
    Ok(())
}

fn width(line: &str, tab: usize) -> usize {
    line.chars().map(|c| if c == '\t' { tab } else { c.width().unwrap_or(0) }).sum()
}

/// The code of each line: (width without a trailing comment, text), and whether the line is part of
/// a string that spans lines.
fn code_lines(c: &Cst, tab: usize) -> Vec<(usize, bool)> {
    let mut strings = vec![];
    c.root.walk(&mut |k| if k.kind == "string" && c.src[k.start..k.end].contains('\n') { strings.push((k.start, k.end)) });
    let mut out = vec![];
    let mut at = 0;
    for line in c.src.split_inclusive('\n') {
        let (start, end) = (at, at + line.len());
        at = end;
        let body = line.trim_end_matches(['\n', '\r']);
        let cut = c.comments.iter().find(|x| start <= x.0 && x.0 < end).map_or(body.len(), |x| x.0 - start);
        out.push((width(body[..cut].trim_end(), tab), strings.iter().any(|s| s.0 < end && start < s.1)));
    }
    out
}

/// The line width matters for lines that exceed it only.
pub fn r10(c: &Cst, s: &Settings, out: &str, n: &mut Counts) -> Verdict {
    let Some(b) = cst::parse(out) else { return fail("output-invalid", show(out)) };
    let lines = code_lines(&b, s.indent as usize);
    let longest = lines.iter().map(|l| l.0).max().unwrap_or(0);
    // (comments in unusual places take part in some layouts)
    let usual = cst::places(c) <= cst::Places::Operators;
    if usual && longest >= 1 && longest <= s.width as usize && !lines.iter().any(|l| l.1) {
        let mut r = Rng::new(vkit::hash_str(&c.src));
        for w in [longest, r.range(longest, s.width as usize)] {
            if w == s.width as usize { continue }
            *n.entry("narrower widths").or_default() += 1;
            let mut t = s.clone();
            t.width = w as u16;
            match format(&c.src, &t) {
                Outcome::Formatted(o) if o == out => (),
                Outcome::Formatted(o) => return fail("broken-though-it-fits", format!("width {w}: {}; {} / {}", first_difference(out, &o), show(out), show(&o))),
                _ => return fail("refused", format!("width {w}")),
            }
        }
    }
    // what exceeds it has nothing in it that could be broken
    let mut verdict = Ok(());
    parents(&b.root, None, &mut |k, _| {
        if !matches!(k.kind, "call_arguments" | "parameters") || verdict.is_err() { return }
        let items = k.kids.iter().filter(|x| matches!(x.kind, "argument" | "parameter") && x.end > x.start).count();
        if items == 0 || out[k.start..k.end].contains('\n') { return }
        let start = out[..k.start].rfind('\n').map_or(0, |i| i + 1);
        let column = width(&out[start..k.end], s.indent as usize);
        *n.entry("lists on a line").or_default() += 1;
        if column > s.width as usize && !hugging(k) && !kept_flat(&b.root, k) {
            verdict = fail("too-long-though-breakable", format!("{} up to column {column} of {}: {}", show(&out[k.start..k.end]), s.width, show(out)));
        }
    });
    verdict
}

/// A call within a call hugs: there is no line break between the two.
fn hugging(k: &N) -> bool {
    let args: Vec<&N> = k.kids.iter().filter(|x| x.kind == "argument").collect();
    args.len() == 1 && args[0].kid("name").is_none() && args[0].kid("value").is_some_and(|v| matches!(v.kind, "call" | "subset" | "subset2"))
}

/// Is `k` within what air keeps on a line: the parameters of a function that is an argument, and
/// the arguments before the function or braces of one that hugs.
fn kept_flat(root: &N, k: &N) -> bool {
    let mut flat = false;
    root.walk(&mut |x| {
        if x.start <= k.start && k.end <= x.end {
            flat |= cst::test_call(x);
            flat |= matches!(x.kind, "call_arguments") && x.start < k.start && x.kids.iter().any(|a| a.kind == "argument" && a.kid("value").is_some_and(|v| matches!(v.kind, "function_definition" | "braced_expression")));
            flat |= x.kind == "argument" && x.kid("value").is_some_and(|v| v.kind == "function_definition" && v.kid("parameters").is_some_and(|p| p.start <= k.start && k.end <= p.end));
        }
    });
    flat
}

/// The line breaks that the author decides on.
pub fn r11(c: &Cst, s: &Settings, out: &str, n: &mut Counts) -> Verdict {
    let Some(b) = cst::parse(out) else { return fail("output-invalid", show(out)) };
    both(&c.root, None, &b.root, &mut |x, parent, y| {
        let newline = |c: &Cst, p: usize, q: usize| c.src[p..q].contains('\n');
        match x.kind {
            "call_arguments" | "subset_arguments" | "subset2_arguments" | "parameters" => {
                let item = |k: &&N| matches!(k.kind, "argument" | "parameter") && k.end > k.start;
                if x.kind == "call_arguments" && parent.is_some_and(cst::test_call) { return Ok(()) }
                let (Some(f), Some(g)) = (x.kids.iter().find(item), y.kids.iter().find(item)) else { return Ok(()) };
                if c.comment_in(x.start, x.end) { return Ok(()) }
                // directly behind the opening token, or behind holes
                let asked = newline(c, x.start, f.start) && s.persistent;
                // an empty line between two arguments
                let items: Vec<&N> = x.kids.iter().filter(item).collect();
                let commas = x.kids.iter().filter(|k| k.kind == "comma").count();
                let empty = x.kind != "parameters" && commas + 1 == items.len() && x.kids.windows(2).any(|w| w[0].kind == "comma" && c.src[w[0].end..w[1].start].matches('\n').count() > 1);
                if empty { *n.entry("empty lines between arguments").or_default() += 1 }
                let asked = asked || empty;
                if !asked { return Ok(()) }
                *n.entry("lists to expand").or_default() += 1;
                if !newline(&b, y.start, g.start) { return fail("line-break-gone", format!("{} became {}", show(x.text(&c.src)), show(y.text(&b.src)))) }
                // each on a line of its own
                let items: Vec<&N> = y.kids.iter().filter(item).collect();
                for w in items.windows(2) {
                    if !newline(&b, w[0].end, w[1].start) { return fail("arguments-on-one-line", show(y.text(&b.src))) }
                }
                if !newline(&b, items.last().unwrap().end, y.end) { return fail("closing-on-last-line", show(y.text(&b.src))) }
            }
            "binary_operator" => {
                let op = x.kid("operator").map_or("", |o| o.kind);
                let (Some(o), Some(r), Some(p), Some(q)) = (x.kid("operator"), x.kid("rhs"), y.kid("operator"), y.kid("rhs")) else { return Ok(()) };
                if c.comment_in(x.start, x.end) || !s.persistent { return Ok(()) }
                let pipe = matches!(op, "|>" | "special" | "+" | "-" | "*" | "/" | "&" | "&&" | "|" | "||");
                // the first of a chain decides
                let first = x.kid("lhs").is_some_and(|l| l.kind != "binary_operator");
                if !newline(c, o.end, r.start) { return Ok(()) }
                if pipe && first || matches!(op, "<-" | "=" | "<<-" | "~") {
                    *n.entry("operators to break after").or_default() += 1;
                    if !newline(&b, p.end, q.start) { return fail("line-break-gone", format!("{} became {}", show(x.text(&c.src)), show(y.text(&b.src)))) }
                }
            }
            _ => (),
        }
        Ok(())
    })
}

/// Walks two trees of the same program.
pub fn both<'a>(a: &'a N, pa: Option<&'a N>, b: &'a N, f: &mut impl FnMut(&'a N, Option<&'a N>, &'a N) -> Verdict) -> Verdict {
    f(a, pa, b)?;
    if a.kids.len() != b.kids.len() { return Ok(()) }
    for (x, y) in a.kids.iter().zip(&b.kids) {
        let y = if is_body(a, x) && x.kind != "braced_expression" && y.kind == "braced_expression" { y.statements().first().copied().unwrap_or(y) } else { y };
        both(x, Some(a), y, f)?;
    }
    Ok(())
}

/// The operator of assignments.
pub fn r13(c: &Cst, s: &Settings, out: &str, n: &mut Counts) -> Verdict {
    let Some(b) = cst::parse(out) else { return fail("output-invalid", show(out)) };
    let mut verdict = Ok(());
    parents(&b.root, None, &mut |k, p| {
        if k.kind != "binary_operator" || verdict.is_err() { return }
        let op = k.kid("operator").map_or("", |o| o.kind);
        // where R's grammar takes `=` for an assignment
        let place = p.is_none_or(|p| {
            let whole = matches!(p.kind, "program" | "braced_expression" | "parenthesized_expression") || is_body(p, k);
            whole || p.kind == "binary_operator" && k.field == Some("rhs") && p.kid("operator").is_some_and(|o| o.kind == "=")
        });
        match (s.assign, op) {
            (Assign::Arrow, "=") => verdict = fail("equal-left", format!("{} in {}", show(&out[k.start..k.end]), show(out))),
            (Assign::Equal, "<-") if place => verdict = fail("arrow-left", format!("{} in {}", show(&out[k.start..k.end]), show(out))),
            (Assign::Arrow, "<-") | (Assign::Equal, "=") | (Assign::Preserve, "<-" | "=") => *n.entry("assignments").or_default() += 1,
            (Assign::Equal, "<-") => *n.entry("arrows that have to stay").or_default() += 1,
            _ => (),
        }
    });
    verdict?;
    // and where it doesn't, there is none
    if !cst::plausible(&b) { return fail("equal-where-none-may-be", show(out)) }
    cst::same(c, &b, s.assign, &mut Default::default()).or_else(|e| fail("other-assignments", format!("{e}; output: {}", show(out))))
}

/// Statements are formatted on their own.
pub fn r14(c: &Cst, s: &Settings, out: &str, n: &mut Counts) -> Verdict {
    let statements = c.root.statements();
    if statements.len() < 2 { return Ok(()) }
    let mut r = Rng::new(vkit::hash_str(&c.src));
    let i = r.range(1, statements.len() - 1);
    let (a, b) = (statements[i - 1], statements[i]);
    // the line on which the first ends, with a comment at its end
    let Some(cut) = c.src[a.end..b.start].find('\n').map(|k| a.end + k + 1) else { return Ok(()) };
    if c.src[a.end..b.start].contains(';') { return Ok(()) }
    let (first, second) = (&c.src[..cut], &c.src[cut..]);
    *n.entry("programs cut in two").or_default() += 1;
    let eol = s.eol();
    match (format(first, s), format(second, s)) {
        (Outcome::Formatted(x), Outcome::Formatted(y)) => {
            let joined = (0..=2).any(|k| out == format!("{x}{}{y}", eol.repeat(k)));
            if !joined { return fail("parts-differ", format!("{} and {}; {} and {}, but {}", show(first), show(second), show(&x), show(&y), show(out))) }
            Ok(())
        }
        _ => fail("part-refused", format!("{} / {}", show(first), show(second))),
    }
}
