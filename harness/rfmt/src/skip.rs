//! What is kept verbatim: skip directives, the `skip` setting, skipped files.
use crate::cst::{self, Cst, N};
use crate::settings::Settings;
use crate::{Outcome, first_difference, format};
use vkit::{Rng, show};

#[derive(Default)]
pub struct Stats {
    pub files: u64,
    pub statements: u64,
    pub arguments: u64,
    pub calls: u64,
    pub without: u64,
    pub idle: u64,
    pub idle_files: u64,
}

/// An independent reading of `# fmt: ...` comments, for the forms that the workload writes.
fn directive(text: &str) -> Option<&str> {
    if !text.starts_with('#') { return None }
    let rest = text.trim_start_matches('#').trim_start();
    let rest = rest.strip_prefix("fmt:")?.trim();
    Some(rest)
}

fn generated(text: &str) -> bool {
    text.trim_start_matches('#').trim_start().starts_with("Generated by")
}

fn own_line(c: &Cst, at: usize) -> bool {
    c.src[..at].rsplit('\n').next().unwrap_or("").trim().is_empty()
}

/// Is the file one to skip altogether?
pub fn skips_file(c: &Cst) -> bool {
    let Some(first) = c.root.kids.first() else { return false };
    let leading: Vec<&str> = c.comments.iter().filter(|x| x.1 <= first.start).map(|x| &c.src[x.0..x.1]).collect();
    leading.first().is_some_and(|t| generated(t)) || leading.iter().any(|t| directive(t) == Some("skip file"))
}

/// The suppressed statements and arguments; `None` if there is a directive in another place, about
/// which nothing is said.
fn suppressed(c: &Cst) -> Option<Vec<(usize, usize, bool)>> {
    let mut out: Vec<(usize, usize, bool)> = vec![];
    // what is in `{{ }}` matters for its layout
    let mut curly = false;
    c.root.walk(&mut |n| if n.kind == "braced_expression" && n.statements().len() == 1 { curly |= n.statements()[0].kind == "braced_expression" });
    if curly { return None }
    // comments before `else` move to one of the bodies, and there before the directive
    if c.comments.iter().any(|x| following(&c.root, x.0).is_some_and(|f| f.1.kind == "else")) { return None }
    for &(start, end) in &c.comments {
        if directive(&c.src[start..end].trim_end()) != Some("skip") { continue }
        if out.last().is_some_and(|o: &(usize, usize, bool)| start < o.1) { continue }
        if idle(c, (start, end)) { continue }
        if !own_line(c, start) { return None }
        let (parent, next) = following(&c.root, start)?;
        let argument = match parent.kind {
            "program" | "braced_expression" if cst::place(c, (start, end)) == cst::Places::Statements => false,
            "call_arguments" | "subset_arguments" | "subset2_arguments" if next.kind == "argument" && next.end > next.start => true,
            _ => return None,
        };
        if matches!(next.kind, "comma" | "}" | ")" | "]" | "]]") { return None }
        if out.last() != Some(&(next.start, next.end, argument)) { out.push((next.start, next.end, argument)) }
    }
    Some(out)
}

/// A directive behind a statement on its line: no statement follows it there, so it says nothing.
fn idle(c: &Cst, at: (usize, usize)) -> bool {
    fn within(n: &N, at: usize) -> &N {
        n.kids.iter().find(|k| k.start < at && at < k.end).map_or(n, |k| within(k, at))
    }
    let n = within(&c.root, at.0);
    let before = n.statements().into_iter().filter(|k| k.end <= at.0).last();
    before.is_some_and(|k| c.src[k.end..at.0].trim_matches([' ', '\t']).is_empty())
}

/// The innermost node around `at`, and its next child behind it.
fn following(n: &N, at: usize) -> Option<(&N, &N)> {
    if let Some(k) = n.kids.iter().find(|k| k.start < at && at < k.end) { return following(k, at) }
    n.kids.iter().find(|k| k.start >= at).map(|k| (n, k))
}

/// Outermost calls to a function in `names`.
pub fn named_calls<'a>(c: &'a Cst, names: &[String]) -> Vec<&'a str> {
    fn go<'a>(n: &N, c: &'a Cst, names: &[String], out: &mut Vec<&'a str>) {
        if n.kind == "call" {
            let f = n.kid("function");
            let f = f.and_then(|f| if f.kind == "namespace_operator" { f.kid("rhs") } else { Some(f) });
            if f.is_some_and(|f| f.kind == "identifier" && names.iter().any(|x| x == f.text(&c.src))) {
                out.push(&c.src[n.start..n.end]);
                return;
            }
        }
        for k in &n.kids { go(k, c, names, out) }
    }
    let mut out = vec![];
    go(&c.root, c, names, &mut out);
    out
}

pub fn judge(c: &Cst, s: &Settings, out: &str, stats: &mut Stats) -> Result<(), (String, String)> {
    let fail = |k: &str, d: String| Err((k.to_string(), d));
    let unix = |t: &str| t.replace("\r\n", "\n");
    let eol = |t: &str| unix(t).replace('\n', s.eol());
    if skips_file(c) {
        stats.files += 1;
        return if out == eol(&c.src) { Ok(()) } else { fail("skipped-file-changed", show(out)) };
    }
    let Some(nodes) = suppressed(c) else { return Ok(()) };
    // in a table, the widths of arguments matter; in skipped calls, nothing does
    let table = c.comments.iter().any(|x| directive(c.src[x.0..x.1].trim_end()) == Some("table"));
    let plain_ones: Vec<(usize, usize, bool)> = c.comments.iter().filter_map(|&(a, b)| {
        let t = c.src[a..b].trim_end();
        let file = directive(t) == Some("skip file") || generated(t);
        (file || directive(t) == Some("skip")).then_some((a, b, file))
    }).filter(|x| !nodes.iter().any(|n| n.0 <= x.0 && x.1 <= n.1)).collect();
    if !plain_ones.is_empty() && !table && named_calls(c, &s.skip).is_empty() {
        // the same with names in the place of what is suppressed
        let mut edits: Vec<(usize, usize, String)> = nodes.iter().enumerate().map(|(i, n)| (n.0, n.1, format!("zzq{i}q"))).collect();
        for &(a, b, file) in &plain_ones {
            edits.push((a, b, format!("# zzc{a}c")));
            if file { stats.idle_files += 1 } else if idle(c, (a, b)) { stats.idle += 1 }
        }
        edits.sort();
        let (mut plain, mut at) = (String::new(), 0);
        for (a, b, t) in &edits {
            plain += &c.src[at..*a];
            plain += t;
            at = *b;
        }
        plain += &c.src[at..];
        let Outcome::Formatted(p) = format(&plain, s) else { return Ok(()) };
        let mut want = p.clone();
        for (i, n) in nodes.iter().enumerate() {
            let name = format!("zzq{i}q");
            if want.matches(&name).count() != 1 { return Ok(()) }
            want = want.replace(&name, &eol(&c.src[n.0..n.1]));
            if n.2 { stats.arguments += 1 } else { stats.statements += 1 }
        }
        for (a, b, t) in edits.iter().filter(|e| e.2.starts_with('#')) {
            if want.matches(t).count() != 1 { return fail("comment-lost", format!("{t:?}: {}", show(&p))) }
            want = want.replace(t, c.src[*a..*b].trim_end());
        }
        let got = out;
        if got != want { return fail("suppressed-code", format!("{}; expected {}; output {}", first_difference(&want, &got), show(&want), show(got))) }
    }
    if !s.skip.is_empty() {
        let Some(b) = cst::parse(out) else { return fail("output-invalid", show(out)) };
        let (x, y) = (named_calls(c, &s.skip), named_calls(&b, &s.skip));
        stats.calls += x.len() as u64;
        if x.len() != y.len() { return fail("skipped-call-gone", show(out)) }
        for (x, y) in x.iter().zip(&y) {
            if unix(x) != unix(y) { return fail("skipped-call-changed", format!("{} became {}", show(x), show(y))) }
        }
        if x.is_empty() {
            stats.without += 1;
            let mut t = s.clone();
            t.skip.clear();
            match format(&c.src, &t) {
                Outcome::Formatted(o) if o == out => (),
                _ => return fail("skip-without-calls", show(out)),
            }
        }
    }
    Ok(())
}

/// A known limit of air: a skipped call with a line break before its arguments, kept as it is, is two
/// expressions once braces are put around it.
pub fn broken_callee(c: &Cst, s: &Settings) -> bool {
    let mut found = false;
    c.root.walk(&mut |n| if matches!(n.kind, "call" | "namespace_operator") {
        found |= n.kids.windows(2).any(|w| c.src[w[0].end..w[1].start].contains('\n'));
    });
    found && !named_calls(c, &s.skip).is_empty()
}

/// Puts directives into a program.
pub fn prepare(r: &mut Rng, c: &Cst, s: &mut Settings) -> Option<Cst> {
    let mut src = c.src.clone();
    let word = |r: &mut Rng, what: &str| format!("{}{}{}", r.word(&["# fmt: ", "# fmt: ", "#fmt: ", "# fmt:", "#  fmt:   ", "#\tfmt: "]), what, r.word(&["", "", " "]));
    if r.chance(1, 4) || s.skip.is_empty() && r.chance(1, 2) {
        s.skip = (0..r.range(1, 3)).map(|_| r.word(&["c", "list", "f", "map", "mutate", "switch", "test_that", "tribble", "quote", "paste0"]).to_string()).collect();
    }
    match r.below(11) {
        0 => {
            // at the top, or not quite
            let t = match r.below(3) { 0 => "# Generated by cpp11: do not edit by hand".to_string(), 1 => "# Generated by hand".into(), _ => word(r, "skip file") };
            let before = r.word(&["", "", "# Title\n", "\n\n", "# a\n\n# b\n", "x <- 1\n"]);
            src = format!("{before}{t}{}{src}", r.word(&["\n", "\n\n", "\n# note\n"]));
        }
        1 => (),
        2 => {
            // in places where they say nothing: behind statements, and for the file elsewhere than at its top
            let mut at: Vec<(usize, bool)> = vec![];
            c.root.walk(&mut |n| for (i, k) in n.statements().iter().enumerate() {
                if c.src[k.end..].split('\n').next().is_some_and(|l| l.trim().is_empty()) && c.src[k.end..].contains('\n') { at.push((k.end, true)) }
                if i > 0 || n.kind != "program" { at.push((k.start, false)) }
            });
            if at.is_empty() { return None }
            let mut put: Vec<(usize, bool)> = (0..r.range(1, 3)).map(|_| *r.pick(&at)).collect();
            put.sort();
            put.dedup();
            for (p, behind) in put.into_iter().rev() {
                if behind {
                    let t = if r.chance(1, 4) { word(r, "skip file") } else { word(r, "skip") };
                    src.insert_str(p, &format!("{}{t}", r.word(&["", " ", "  "])));
                } else {
                    let t = if r.chance(1, 3) { "# Generated by hand".to_string() } else { word(r, "skip file") };
                    let pre = if own_line(c, p) { "" } else { "\n" };
                    src.insert_str(p, &format!("{pre}{t}\n"));
                }
            }
        }
        _ => {
            let mut at: Vec<(usize, bool)> = vec![];
            c.root.walk(&mut |n| {
                for (i, k) in n.statements().iter().enumerate() { if i > 0 || n.kind != "program" || r.chance(1, 3) { at.push((k.start, false)) } }
                if matches!(n.kind, "call_arguments" | "subset_arguments" | "subset2_arguments") && r.chance(1, 2) { for k in &n.kids { if k.kind == "argument" && k.end > k.start { at.push((k.start, true)) } } }
            });
            if at.is_empty() { return None }
            let mut put: Vec<usize> = (0..r.range(1, 3)).map(|_| r.pick(&at).0).collect();
            put.sort();
            put.dedup();
            for p in put.into_iter().rev() {
                let pre = if own_line(c, p) { "" } else { "\n" };
                let extra = r.word(&["", "", "# why\n", "  "]);
                src.insert_str(p, &format!("{pre}{}\n{extra}", word(r, "skip")));
            }
        }
    }
    cst::parse(&src)
}
