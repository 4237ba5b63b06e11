//! R15 R16 R17 R18: blanks, indentation and line breaks of the output, each line break of which comes
//! from one construct.
use crate::corpus::gaps;
use crate::cst::{self, Cst, N};
use crate::layout::{Counts, Verdict};
use crate::settings::Settings;
use crate::{Outcome, first_difference, format};
use vkit::{Rng, show};

fn fail(key: &str, detail: String) -> Verdict {
    Err((key.into(), detail))
}

/// One token, or one string.
fn is_atom(n: &N) -> bool {
    n.kids.is_empty() || matches!(n.kind, "string" | "integer" | "complex" | "na")
}

const CHAIN: &[&str] = &["|>", "special", "+", "-", "*", "/", "&", "&&", "|", "||"];
const STICKY: &[&str] = &["?", ":", "^", "**"];
const LISTS: &[&str] = &["call_arguments", "subset_arguments", "subset2_arguments", "parameters"];

fn operator(n: &N) -> &'static str {
    n.kid("operator").map_or("", |o| o.kind)
}

fn opens(k: &N) -> bool {
    matches!(k.kind, "(" | "[" | "[[" | "{")
}

fn closes(k: &N) -> bool {
    matches!(k.kind, ")" | "]" | "]]" | "}")
}

fn hole(k: &N) -> bool {
    matches!(k.kind, "argument" | "parameter") && k.end == k.start
}

/// Neighbours in a node, with the node.
fn neighbours<'a>(n: &'a N, f: &mut impl FnMut(&'a N, &'a N, &'a N)) {
    if is_atom(n) { return }
    let kids: Vec<&N> = n.kids.iter().filter(|k| k.end > k.start).collect();
    for w in kids.windows(2) { f(n, w[0], w[1]) }
    for k in kids { neighbours(k, f) }
}

fn terminal(k: &N) -> bool {
    is_atom(k) || matches!(k.kind, "float" | "identifier" | "dots" | "dot_dot_i" | "true" | "false" | "null" | "inf" | "nan" | "na" | "next" | "break")
}

/// Blanks between neighbours on a line: one or none?
fn blanks(n: &N, x: &N, y: &N, leading: bool) -> Option<usize> {
    let open = opens(x) && x.kids.is_empty();
    let close = closes(y) && y.kids.is_empty();
    Some(match n.kind {
        "call" | "subset" | "subset2" | "extract_operator" | "namespace_operator" => 0,
        "call_arguments" | "subset_arguments" | "subset2_arguments" | "parameters" => {
            let nothing = x.kids.last().is_some_and(|k| matches!(k.kind, "=" | "equal"));
            if open { 0 }
            else if x.kind == "comma" { usize::from(!leading || !close && y.kind != "comma") }
            else { usize::from(nothing) }
        }
        "argument" | "parameter" => 1,
        "braced_expression" => {
            // `{}`, and `{{ x }}`
            usize::from(!(open && close || open && y.kind == "braced_expression" || close && x.kind == "braced_expression"))
        }
        "parenthesized_expression" => 0,
        "function_definition" => usize::from(y.field == Some("body")),
        "if_statement" | "for_statement" | "while_statement" => usize::from(!(open || close)),
        "repeat_statement" | "else_clause" => 1,
        "unary_operator" => usize::from(x.kind == "~" && !terminal(y)),
        "binary_operator" => usize::from(!STICKY.contains(&operator(n))),
        _ => return None,
    })
}

/// R15: what is between the tokens of a line.
pub fn r15(c: &Cst, out: &str, n: &mut Counts) -> Verdict {
    let Some(b) = cst::parse(out) else { return fail("output-invalid", show(out)) };
    if cst::places(c) > cst::Places::Lists { return Ok(()) }
    let mut verdict = Ok(());
    neighbours(&b.root, &mut |p, x, y| {
        let gap = &out[x.end..y.start];
        if verdict.is_err() || gap.contains('\n') || b.comment_in(x.end, y.start) || p.kind == "program" { return }
        // before the first argument that isn't a hole
        let leading = LISTS.contains(&p.kind) && p.kids.iter().filter(|k| k.start < y.start).all(|k| k.kind == "comma" || opens(k));
        let Some(want) = blanks(p, x, y, leading) else { *n.entry("neighbours without a rule").or_default() += 1; return };
        *n.entry(if want == 0 { "neighbours that touch" } else { "neighbours with a blank between" }).or_default() += 1;
        if gap != &"  "[..want] {
            verdict = fail("blanks", format!("{gap:?} between {} and {} in {} {}", show(x.text(out)), show(y.text(out)), p.kind, show(out)));
        }
    });
    verdict?;
    // comments behind code
    for &(s, _) in &b.comments {
        let line = out[..s].rfind('\n').map_or(0, |i| i + 1);
        let before = &out[line..s];
        if before.trim().is_empty() || before.ends_with(['(', '[', '{']) { continue }
        *n.entry("comments behind code").or_default() += 1;
        if !before.ends_with(' ') || before.ends_with("  ") { return fail("blanks-before-comment", format!("{} in {}", show(before), show(out))) }
    }
    Ok(())
}

struct Lines<'a> {
    c: &'a Cst,
    starts: Vec<usize>,
    /// units of indentation
    levels: Vec<usize>,
}

impl<'a> Lines<'a> {
    fn new(c: &'a Cst, s: &Settings) -> Self {
        let mut starts = vec![0];
        starts.extend(c.src.match_indices('\n').map(|(i, _)| i + 1));
        let unit = s.unit().len();
        let levels = starts.iter().map(|&i| (c.src[i..].len() - c.src[i..].trim_start_matches([' ', '\t']).len()) / unit).collect();
        Lines { c, starts, levels }
    }
    fn of(&self, at: usize) -> usize {
        self.starts.partition_point(|s| *s <= at) - 1
    }
    fn level(&self, at: usize) -> usize {
        self.levels[self.of(at)]
    }
    fn newline(&self, a: usize, b: usize) -> bool {
        self.c.src[a..b].contains('\n')
    }
}

/// From the root down to the token at `at`.
fn path<'a>(n: &'a N, at: usize, out: &mut Vec<&'a N>) {
    out.push(n);
    if is_atom(n) { return }
    if let Some(k) = n.kids.iter().find(|k| k.start <= at && at < k.end) { path(k, at, out) }
}

/// The level that a line has, by what begins it.
fn expected(l: &Lines, root: &N, at: usize) -> Option<usize> {
    let mut p = vec![];
    path(root, at, &mut p);
    let comment = l.c.comments.iter().any(|x| x.0 == at);
    // the node in which something is before it on other lines
    let mut k = p.len() - 1;
    if !comment {
        while k > 0 && p[k - 1].start == at { k -= 1 }
        if k == 0 { return Some(0) }
        let (n, y) = (p[k - 1], p[k]);
        let whole = matches!(n.kind, "program" | "call_arguments" | "subset_arguments" | "subset2_arguments" | "parameters" | "braced_expression" | "parenthesized_expression");
        let condition = matches!(n.kind, "if_statement" | "while_statement" | "for_statement") && (!matches!(y.field, Some("consequence" | "alternative" | "body")) && y.kind != "else" && y.kind != "else_clause");
        if !(whole || condition || n.kind == "binary_operator" && y.field == Some("rhs") || n.kind == "unary_operator" && y.start > n.start) { return None }
    }
    let last = if comment { p[k] } else { p[k - 1] };
    let mut level = 0;
    // a chain that has been indented already, as a whole
    let mut left = false;
    for (i, n) in p[..=k].iter().enumerate() {
        let y = p.get(i + 1).copied().filter(|_| i < k);
        let end = std::ptr::eq(*n, last);
        let closing = y.is_some_and(|y| closes(y) && y.kids.is_empty());
        let broken = |o: &N, n: &N| n.kids.iter().find(|x| x.start >= o.end && x.kind != "comma").is_some_and(|x| l.newline(o.end, x.start));
        let bracket = n.kids.iter().find(|o| opens(o) && o.kids.is_empty());
        match n.kind {
            "program" => (),
            "braced_expression" => level += usize::from(!closing && bracket.is_some_and(|o| broken(o, n) || end)),
            "call_arguments" | "subset_arguments" | "subset2_arguments" | "parameters" | "parenthesized_expression" | "if_statement" | "while_statement" | "for_statement" => {
                let inside = y.is_none_or(|y| bracket.is_some_and(|o| y.start >= o.end) && n.kids.iter().any(|c| closes(c) && c.kids.is_empty() && y.start < c.start));
                let broken = bracket.is_some_and(|o| broken(o, n));
                // default values with lines of their own, in a function that is the last argument
                if n.kind == "parameters" && y.is_some() && !broken && !closing { return Some(usize::MAX) }
                level += usize::from(!closing && inside && broken);
            }
            "binary_operator" => {
                if comment && end { return None }
                let rhs = y.is_some_and(|y| y.field == Some("rhs"));
                let op = operator(n);
                let chain = CHAIN.contains(&op);
                if rhs {
                    let o = n.kid("operator")?;
                    let broken = l.newline(o.end, y?.start);
                    level += usize::from(broken && !(chain && left));
                    left = broken && matches!(op, "<-" | "=" | "<<-" | "~");
                } else if !chain { left = false }
                if end { break }
                continue
            }
            // (a comment in the operand)
            "unary_operator" => level += usize::from(y.is_some_and(|y| y.start > n.start && l.newline(n.start, y.start))),
            _ => (),
        }
        left = false;
        if end { break }
    }
    Some(level)
}

/// R16: lines are indented by what they are in, lists are on a line or one item to a line.
pub fn r16(c: &Cst, s: &Settings, out: &str, n: &mut Counts) -> Verdict {
    let lone = out.replace("\r\n", "\n");
    let out = lone.as_str();
    let Some(b) = cst::parse(out) else { return fail("output-invalid", show(out)) };
    if cst::places(c) > cst::Places::Lists { return Ok(()) }
    let l = Lines::new(&b, s);
    let mut strings = vec![];
    b.root.walk(&mut |k| if matches!(k.kind, "string" | "identifier") { strings.push((k.start, k.end)) });
    for (i, &start) in l.starts.iter().enumerate() {
        let line = out[start..].split('\n').next().unwrap_or("");
        if line.trim().is_empty() || strings.iter().any(|x| x.0 < start && start < x.1) { continue }
        let at = start + line.len() - line.trim_start_matches([' ', '\t']).len();
        let Some(want) = expected(&l, &b.root, at) else {
            *n.entry("lines that begin in an unusual way").or_default() += 1;
            if !b.comments.iter().any(|x| x.0 == at) { return fail("line-break", format!("before {} in {}", show(line), show(out))) }
            continue
        };
        if want == usize::MAX { *n.entry("lines in parameters on one line").or_default() += 1; continue }
        *n.entry("lines by their nesting").or_default() += 1;
        *n.entry(["lines of level 0", "lines of level 1", "lines of level 2"].get(want).copied().unwrap_or("lines of a higher level")).or_default() += 1;
        if l.levels[i] != want { return fail("nesting", format!("{} is at level {}, not {want}, in {}", show(line), l.levels[i], show(out))) }
    }
    // the items of lists
    let mut verdict = Ok(());
    fn walk<'a>(k: &'a N, p: Option<&'a N>, f: &mut impl FnMut(&'a N, Option<&'a N>)) {
        f(k, p);
        if is_atom(k) { return }
        for x in &k.kids { walk(x, Some(k), f) }
    }
    walk(&b.root, None, &mut |k, p| {
        if verdict.is_err() || b.comment_in(k.start, k.end) { return }
        if LISTS.contains(&k.kind) && !p.is_some_and(cst::test_call) {
            let items: Vec<&N> = k.kids.iter().filter(|x| matches!(x.kind, "argument" | "parameter")).skip_while(|x| hole(x)).collect();
            if items.is_empty() || items.iter().any(|x| hole(x)) { return }
            let mut breaks: Vec<bool> = items.windows(2).map(|w| l.newline(w[0].end, w[1].start)).collect();
            breaks.push(l.newline(k.start, items[0].start));
            breaks.push(l.newline(items[items.len() - 1].end, k.end));
            *n.entry(if breaks[0] { "lists with an item per line" } else { "lists on one line" }).or_default() += 1;
            if breaks.iter().any(|x| *x != breaks[0]) { verdict = fail("list-half-broken", format!("{} in {}", show(k.text(out)), show(out))) }
            // an item with lines of its own is at one end
            else if !breaks[0] {
                let long = |x: &N| out[x.start..x.end].match_indices('\n').any(|(i, _)| !strings.iter().any(|t| t.0 <= x.start + i && x.start + i < t.1));
                let inner = items.iter().enumerate().filter(|(i, x)| *i > 0 && i + 1 < items.len() && long(x)).count();
                if inner > 0 && k.kind != "parameters" { verdict = fail("item-on-lines-within-a-line", format!("{} in {}", show(k.text(out)), show(out))) }
            }
        }
        let inner = p.is_some_and(|p| p.kind == "binary_operator" && CHAIN.contains(&operator(p)) && k.field == Some("lhs"));
        if k.kind == "binary_operator" && CHAIN.contains(&operator(k)) && !inner {
            let mut breaks = vec![];
            let mut at = k;
            loop {
                let (Some(o), Some(r), Some(lhs)) = (at.kid("operator"), at.kid("rhs"), at.kid("lhs")) else { break };
                breaks.push(l.newline(o.end, r.start));
                if lhs.kind == "binary_operator" && CHAIN.contains(&operator(lhs)) { at = lhs } else { break }
            }
            if breaks.len() > 1 { *n.entry("chains").or_default() += 1 }
            if breaks.iter().any(|x| *x != breaks[0]) { verdict = fail("chain-half-broken", format!("{} in {}", show(k.text(out)), show(out))) }
        }
    });
    verdict
}

/// Statements and the comments on lines of their own between them, with the blank lines before each;
/// by list, from the outside in.
fn blank_lines(c: &Cst) -> Vec<(bool, Vec<(usize, String)>)> {
    let mut out = vec![];
    // `{{ x }}`
    let mut double = std::collections::HashSet::new();
    c.root.walk(&mut |n| if n.kind == "braced_expression" && let [k] = n.statements()[..] && k.kind == "braced_expression"
        && let [x] = k.statements()[..] && x.kind == "identifier" { double.extend([n as *const N, k as *const N]) });
    c.root.walk(&mut |n| {
        if !matches!(n.kind, "program" | "braced_expression") || double.contains(&(n as *const N)) { return }
        let mut items: Vec<(usize, usize, String)> = n.statements().iter().map(|k| (k.start, k.end, "code".to_string())).collect();
        let (from, to) = if n.kind == "program" { (0, c.src.len()) } else { (n.start + 1, n.end - 1) };
        items.extend(c.comments.iter().filter(|x| from <= x.0 && x.1 <= to && !n.kids.iter().any(|k| k.start < x.0 && x.1 < k.end)).map(|x| (x.0, x.1, c.src[x.0..x.1].trim_end().to_string())));
        items.sort();
        let mut at = from;
        let list = items.into_iter().map(|(s, e, t)| {
            let blank = c.src[at..s].matches('\n').count();
            at = e;
            (blank, t)
        }).collect();
        out.push((n.kind == "program", list));
    });
    out
}

/// R17: blank lines between statements.
pub fn r17(c: &Cst, out: &str, n: &mut Counts) -> Verdict {
    let Some(b) = cst::parse(out) else { return fail("output-invalid", show(out)) };
    if cst::places(c) > cst::Places::Statements { return Ok(()) }
    let (x, y) = (blank_lines(c), blank_lines(&b));
    // (braces that have been added)
    if x.len() != y.len() { *n.entry("programs with braces added").or_default() += 1; return Ok(()) }
    for ((top, x), (_, y)) in x.iter().zip(&y) {
        if x.iter().map(|i| &i.1).ne(y.iter().map(|i| &i.1)) { return Ok(()) }
        let (list, mut behind) = (x, false);
        for (i, (x, y)) in x.iter().zip(y).enumerate() {
            // two between a statement and what comes with the next, one elsewhere
            let comments = x.1 != "code" && x.0 == 0;
            let most = if *top && behind && list[i..].iter().any(|k| k.1 == "code") { 3 } else { 2 };
            behind = x.1 == "code" || behind && comments;
            // a comment at the end of a line stays there; a statement behind another gets its own
            let want = match (x.0, x.1.as_str()) {
                (0, "code") => usize::from(i > 0 || !*top),
                (0, _) => usize::from(i == 0 && !*top),
                _ if i == 0 => usize::from(!*top),
                (k, _) => k.min(most),
            };
            *n.entry(["ends of lines", "next lines", "one blank line", "two blank lines"][y.0.min(3)]).or_default() += 1;
            if y.0 != want { return fail("blank-lines", format!("{} line breaks before {:?}, not {want}, in {}", y.0, y.1, show(out))) }
        }
    }
    // one between arguments, and behind the operators of a chain
    crate::layout::both(&c.root, None, &b.root, &mut |x, parent, y| {
        if c.comment_in(x.start, x.end) || x.kids.len() != y.kids.len() { return Ok(()) }
        let list = matches!(x.kind, "call_arguments" | "subset_arguments" | "subset2_arguments");
        let chain = x.kind == "binary_operator" && CHAIN.contains(&operator(x));
        let holes = x.kids.windows(2).any(|w| w[1].kind == "comma" && (w[0].kind == "comma" || opens(&w[0])) || w[0].kind == "comma" && closes(&w[1]));
        if !list && !chain || holes || parent.is_some_and(cst::test_call) { return Ok(()) }
        for (v, w) in x.kids.windows(2).zip(y.kids.windows(2)) {
            let before = c.src[v[0].end..v[1].start].matches('\n').count();
            let after = out[w[0].end..w[1].start].matches('\n').count();
            let kept = before > 1 && (list && v[0].kind == "comma" || chain && v[0].field == Some("operator"));
            if kept { *n.entry("empty lines within an expression").or_default() += 1 }
            if kept != (after > 1) || after > 2 { return fail("empty-lines-within", format!("{} became {}", show(x.text(&c.src)), show(y.text(out)))) }
        }
        Ok(())
    })
}

/// Gaps whose line breaks say nothing.
fn free(c: &Cst, persistent: bool) -> Vec<(usize, usize)> {
    let mut out = vec![];
    fn go(n: &N, c: &Cst, persistent: bool, out: &mut Vec<(usize, usize)>) {
        if is_atom(n) { return }
        let mut add = |a: usize, b: usize| {
            let gap = &c.src[a..b];
            if gap.matches('\n').count() <= 1 && gap.trim().is_empty() { out.push((a, b)) }
        };
        let holes = n.kids.iter().any(hole) || n.kids.windows(2).any(|w| w[1].kind == "comma" && (w[0].kind == "comma" || opens(&w[0])) || w[0].kind == "comma" && closes(&w[1]));
        if LISTS.contains(&n.kind) && !holes && n.kids.len() > 2 {
            for w in n.kids.windows(2) {
                // the first decides
                if persistent && opens(&w[0]) && w[0].kids.is_empty() { continue }
                add(w[0].end, w[1].start);
            }
        }
        if matches!(n.kind, "parenthesized_expression" | "argument" | "parameter") {
            for w in n.kids.windows(2) { add(w[0].end, w[1].start) }
        }
        if n.kind == "binary_operator" && let (Some(o), Some(r), Some(l)) = (n.kid("operator"), n.kid("rhs"), n.kid("lhs")) {
            let op = operator(n);
            let chained = CHAIN.contains(&op) && l.kind == "binary_operator" && CHAIN.contains(&operator(l));
            let deciding = CHAIN.contains(&op) && !chained || matches!(op, "<-" | "=" | "<<-" | "~");
            if !persistent || !deciding { add(o.end, r.start) }
        }
        if matches!(n.kind, "if_statement" | "while_statement" | "for_statement") {
            let close = n.kids.iter().position(|k| k.kind == ")").unwrap_or(0);
            for w in n.kids[..=close].windows(2) { add(w[0].end, w[1].start) }
        }
        // bodies that are in braces in any case, and the brackets of braces
        if matches!(n.kind, "for_statement" | "while_statement" | "repeat_statement" | "function_definition" | "if_statement") {
            for w in n.kids.windows(2) {
                let always = matches!(n.kind, "for_statement" | "while_statement" | "repeat_statement");
                let body = matches!(w[1].field, Some("body" | "consequence" | "alternative"));
                if body && (always || w[1].kind == "braced_expression") || w[1].kind == "parameters" { add(w[0].end, w[1].start) }
            }
        }
        if n.kind == "braced_expression" {
            for w in n.kids.windows(2) { if opens(&w[0]) && w[0].kids.is_empty() || closes(&w[1]) && w[1].kids.is_empty() { add(w[0].end, w[1].start) } }
        }
        for k in &n.kids { go(k, c, persistent, out) }
    }
    go(&c.root, c, persistent, &mut out);
    out.sort();
    out.dedup();
    out
}

/// R18: only some line breaks are for the author to decide on.
pub fn r18(c: &Cst, s: &Settings, out: &str, n: &mut Counts) -> Verdict {
    if cst::places(c) > cst::Places::Statements { return Ok(()) }
    let gaps: std::collections::HashSet<(usize, usize)> = gaps(c).into_iter().collect();
    let free: Vec<(usize, usize)> = free(c, s.persistent).into_iter().filter(|g| gaps.contains(g)).collect();
    if free.is_empty() { return Ok(()) }
    let mut r = Rng::new(vkit::hash_str(&c.src));
    for round in 0..3 {
        let (mut other, mut at, mut changed) = (String::new(), 0, 0);
        for &(a, b) in &free {
            other += &c.src[at..a];
            let broken = c.src[a..b].contains('\n');
            let want = match round { 0 => false, 1 => true, _ => r.bool() };
            if want == broken { other += &c.src[a..b] } else {
                changed += 1;
                other += if want { if c.src.contains("\r\n") { "\r\n" } else { "\n" } } else { " " };
            }
            at = b;
        }
        other += &c.src[at..];
        if changed == 0 { continue }
        let Some(d) = cst::parse(&other) else { continue };
        if cst::same(c, &d, cst::Assign::Preserve, &mut Default::default()).is_err() { continue }
        *n.entry("programs with other line breaks").or_default() += 1;
        *n.entry("line breaks put or taken").or_default() += changed;
        match format(&other, s) {
            Outcome::Formatted(o) if o == out => (),
            Outcome::Formatted(o) => return fail("line-breaks-matter", format!("{} and {}: {}; {} / {}", show(&c.src), show(&other), first_difference(out, &o), show(out), show(&o))),
            _ => return fail("refused", show(&other)),
        }
    }
    Ok(())
}
