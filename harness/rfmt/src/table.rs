//! R12: calls that are formatted as tables.
use crate::cst::{self, Cst, N};
use crate::layout::{Counts, Verdict, both};
use crate::settings::Settings;
use crate::{Outcome, first_difference, format};
use vkit::{Rng, show};

fn fail(key: &str, detail: String) -> Verdict {
    Err((key.into(), detail))
}

const NAMES: &[&str] = &["tribble", "fcase", "tab", "tibble::tribble", "data.table::fcase", "pkg:::tab", "other"];

fn cell(r: &mut Rng, column: usize) -> String {
    let digits = |r: &mut Rng| { let n = r.range(1, 5); (0..n).map(|_| char::from(b'1' + r.below(9) as u8)).collect::<String>() };
    let number = |r: &mut Rng| {
        let (a, b) = (digits(r), digits(r));
        match r.below(9) { 0..=2 => a, 3 | 4 => format!("{a}.{b}"), 5 => format!("{a}L"), 6 => format!(".{b}"), 7 => format!("{a}."), _ => format!("{a}e{}", r.below(9)) }
    };
    match (column + r.below(12)) % 12 {
        0..=3 => number(r),
        4 => format!("{}{}{}", r.word(&["-", "+"]), r.word(&["", "", " "]), number(r)),
        5 | 6 => r.word(&["\"a\"", "'b c'", "\"\"", "\"caf\u{e9}\"", "\"long enough for a column\"", "\"#no\""]).into(),
        7 => r.word(&["x", "TRUE", "NULL", "NA", "Inf", "NA_integer_", "..."]).into(),
        8 => r.word(&["~x", "~ customer", "~`a b`", "!x", "--1", "-x", "a$b", "a::b", "x[1]", "x [[ 'a' ]]"]).into(),
        9 => r.word(&["f(x)", "f( )", "list(1,2)", "c(a = 1, b=2)", "Sys.Date( )", "f(g(h(1)))"]).into(),
        10 => r.word(&["a+b", "x>1 & y<2", "x |> f()", "a %in% b", "(a)", "1:3"]).into(),
        _ => r.word(&["function(x) x", "\\(x) x", "if (a) b", "{ a }", "f(\n a)", "\"a\nb\"", "c(\n 1,\n 2)", ""]).into(),
    }
}

fn call(r: &mut Rng) -> String {
    let name = r.word(NAMES);
    let (rows, columns) = (r.range(1, 6), r.range(1, 5));
    let plain = r.bool();
    let mut out = format!("{name}(");
    let nl = |r: &mut Rng| { let blank = if r.chance(1, 6) { "\n" } else { "" }; format!("\n{blank}{}", " ".repeat(r.below(5) as usize)) };
    if r.chance(4, 5) { out += &nl(r) }
    let mut first = true;
    for row in 0..rows {
        let width = if r.chance(1, 6) { r.range(1, 6) } else { columns };
        for col in 0..width {
            if !first {
                out += r.word(&[",", ", ", " ,", "  ,  "]);
                if col == 0 && row > 0 {
                    if !plain && r.chance(1, 6) { out += r.word(&[" # end", "# e"]) }
                    out += &nl(r);
                    if !plain && r.chance(1, 6) { out += "# own line\n" }
                }
            }
            first = false;
            let mut c = cell(r, col * 3);
            if plain { while c.contains(['\n', '{']) || c.is_empty() || c.contains("function") || c.contains("\\(") || c.contains("if") { c = cell(r, col * 3) } }
            out += &c;
        }
    }
    if r.chance(1, 4) { out += r.word(&[",\n default = 1", ", default=f(x)", ",\n a = 1, b = 2", ", x = 1, 2"]) }
    if r.chance(1, 3) { out += "," }
    if r.chance(4, 5) { out += "\n" }
    out + ")"
}

pub fn program(r: &mut Rng) -> String {
    let mut out = String::new();
    for _ in 0..r.range(1, 3) {
        let t = call(r);
        if r.chance(1, 3) { out += r.word(&["# fmt: table\n", "# fmt: table\n", "#fmt:table\n", "# before\n# fmt: table\n"]) }
        out += &match r.below(8) {
            0 => format!("x <- {t}"),
            1 => format!("f <- function(x) {{\n{t}\n}}"),
            2 => format!("f(\n# fmt: table\n{t}, 1)"),
            3 => format!("{{\n x = {t}\n y\n}}"),
            4 => format!("if (a) {t} else {}", call(r)),
            5 => format!("{t} |> f()"),
            _ => t,
        };
        out += r.word(&["\n", "\n\n", " # c\n"]);
    }
    out
}

fn called<'a>(c: &'a Cst, n: &N) -> Option<&'a str> {
    let f = n.kid("function")?;
    let f = if f.kind == "namespace_operator" { f.kid("rhs")? } else { f };
    (f.kind == "identifier").then(|| f.text(&c.src))
}

fn is_directive(t: &str) -> bool {
    t.trim_start_matches('#').trim_start().strip_prefix("fmt:").is_some_and(|x| x.trim() == "table")
}

/// Is the statement or argument that starts at `at` preceded by a directive on a line of its own?
fn directed(c: &Cst, at: usize) -> bool {
    let mut end = at;
    for x in c.comments.iter().rev() {
        if x.1 > end { continue }
        if !c.src[x.1..end].trim().is_empty() { break }
        let own = c.src[..x.0].rsplit('\n').next().unwrap_or("").trim().is_empty();
        if own && is_directive(c.src[x.0..x.1].trim_end()) { return true }
        end = x.0;
    }
    false
}

pub fn listed(s: &Settings, name: &str) -> bool {
    s.table.iter().any(|t| t == name) || s.default_table && (name == "tribble" || name == "fcase")
}

/// `Some(true)`: a table. `Some(false)`: not one. `None`: nothing is said.
fn is_table(c: &Cst, s: &Settings, n: &N, parents: &[&N]) -> Option<bool> {
    if called(c, n).is_some_and(|f| listed(s, f)) { return Some(true) }
    let Some(p) = parents.last() else { return Some(false) };
    let directive_near = parents.iter().any(|p| directed(c, p.start)) || directed(c, n.start);
    if !directive_near { return Some(false) }
    if matches!(p.kind, "program" | "braced_expression") && n.start > p.start && directed(c, n.start) { return Some(true) }
    if p.kind == "program" && directed(c, n.start) { return Some(true) }
    if p.kind == "binary_operator" && p.kid("operator").is_some_and(|o| matches!(o.kind, "<-" | "=" | "<<-")) && n.field == Some("rhs") && p.start < n.start {
        let q = parents.get(parents.len().wrapping_sub(2))?;
        if matches!(q.kind, "program" | "braced_expression") && directed(c, p.start) { return Some(true) }
    }
    None
}

/// Is one of these a call with a directive?
fn directed_call(c: &Cst, chain: &[&N]) -> bool {
    chain.iter().any(|p| directed(c, p.start) && p.kind != "program")
        && chain.iter().any(|p| p.kind == "call")
}

fn width(t: &str) -> usize {
    t.chars().count()
}

/// The number of characters before the (implied) decimal point of a number.
fn point(c: &Cst, n: &N) -> Option<usize> {
    let (sign, v) = match n.kind {
        "unary_operator" if n.kid("operator").is_some_and(|o| matches!(o.kind, "+" | "-")) => (1, n.kid("rhs")?),
        _ => (0, n),
    };
    if !matches!(v.kind, "integer" | "float") { return None }
    let t = v.text(&c.src);
    Some(sign + t.find(['.', 'L']).unwrap_or(t.len()))
}

pub fn r12(c: &Cst, s: &Settings, out: &str, n: &mut Counts) -> Verdict {
    let Some(b) = cst::parse(out) else { return fail("output-invalid", show(out)) };
    let mut plain_names = true;
    let mut chain: Vec<&N> = vec![];
    let mut tables = 0;
    let verdict = both(&c.root, None, &b.root, &mut |x, _, y| {
        chain.retain(|p| p.start <= x.start && x.end <= p.end && (p.start, p.end, p.kind) != (x.start, x.end, x.kind));
        let verdict = if x.kind == "call" {
            let within = chain.iter().any(|p| p.kind == "call" && is_table(c, s, p, &[]) != Some(false)) || directed_call(c, &chain);
            match is_table(c, s, x, &chain) {
                _ if within => { plain_names = false; Ok(()) }
                Some(true) => { tables += 1; table(c, s, x, &b, y, n) }
                Some(false) => Ok(()),
                None => { plain_names = false; Ok(()) }
            }
        } else { Ok(()) };
        chain.push(x);
        verdict
    });
    verdict?;
    // without one, the names mean nothing
    if tables == 0 && plain_names && !c.comment_texts().iter().any(|t| t.contains("fmt")) {
        let other = c.src.replace("tribble", "tribblx").replace("fcase", "fcasx").replace("tab", "tax");
        if other != c.src {
            *n.entry("names that are not in the list").or_default() += 1;
            let want = out.replace("tribble", "tribblx").replace("fcase", "fcasx").replace("tab", "tax");
            match format(&other, s) {
                Outcome::Formatted(o) if o == want => (),
                Outcome::Formatted(o) => return fail("table-without-reason", format!("{}; {}", first_difference(&want, &o), show(out))),
                _ => return fail("refused", show(&other)),
            }
        }
    }
    Ok(())
}

fn table(c: &Cst, s: &Settings, x: &N, b: &Cst, y: &N, n: &mut Counts) -> Verdict {
    // with an argument of no length for each hole
    let args = |k: &N| {
        let mut out: Vec<N> = vec![];
        for k in k.kid("arguments").iter().flat_map(|a| &a.kids).filter(|k| k.kind == "argument" || k.kind == "comma") {
            if k.kind == "comma" && out.last().is_none_or(|l| l.kind == "comma") { out.push(N { kind: "argument", field: None, start: k.start, end: k.start, kids: vec![] }) }
            out.push(k.clone());
        }
        out
    };
    let (from, to) = (args(x), args(y));
    let named = |a: &N| a.kid("name").is_some();
    let cells = from.iter().filter(|a| a.kind == "argument").take_while(|a| !named(a)).count();
    if from.len() != to.len() || cells == 0 { return Ok(()) }
    // what keeps a cell from being put on a line; holes
    let cells_of = |v: &[N]| v.iter().filter(|a| a.kind == "argument").take(cells).cloned().collect::<Vec<_>>();
    for a in cells_of(&from) {
        let mut simple = !c.comment_in(a.start, a.end);
        a.walk(&mut |k| simple &= !matches!(k.kind, "function_definition" | "if_statement" | "for_statement" | "while_statement" | "repeat_statement" | "braced_expression")
            && !(k.kind == "string" && k.text(&c.src).contains('\n'))
            && !(k.kind == "call" && called(c, k).is_some_and(|f| listed(s, f))));
        // (`1.5L`, which R warns about)
        a.walk(&mut |k| simple &= !(k.kind == "integer" && k.text(&c.src).contains('.')));
        // (a chain that is broken anyway)
        a.walk(&mut |k| simple &= !(k.kind == "binary_operator" && k.text(&c.src).contains('\n')));
        a.walk(&mut |k| simple &= !(matches!(k.kind, "call_arguments" | "subset_arguments" | "subset2_arguments") && k.text(&c.src).contains('\n')));
        // (the comma goes before the comment)
        simple &= from.iter().find(|k| k.kind == "comma" && k.start >= a.end).is_none_or(|k| !c.comment_in(a.end, k.start));
        if !simple { *n.entry("tables with unusual cells").or_default() += 1; return Ok(()) }
    }
    *n.entry("tables").or_default() += 1;
    let text = show(y.text(&b.src));
    // rows of (argument in the source, argument in the output, comma in the output)
    let mut rows: Vec<Vec<(&N, &N, Option<&N>)>> = vec![];
    let mut end = (0, 0);
    let mut count = 0;
    for (i, (p, q)) in from.iter().zip(&to).enumerate() {
        if p.kind == "argument" && count < cells {
            let new = count == 0 || c.src[end.0..p.start].contains('\n');
            let has = count == 0 || b.src[end.1..q.start].contains('\n');
            if new != has { return fail("row-changed", format!("before {}: {text}", show(q.text(&b.src)))) }
            if new { rows.push(vec![]) }
            rows.last_mut().unwrap().push((p, q, to.get(i + 1).filter(|k| k.kind == "comma")));
            if q.text(&b.src).contains('\n') { return fail("cell-on-lines", text) }
            count += 1;
        } else if p.kind == "argument" && p.end > p.start {
            // what follows the table is on lines of its own
            if !b.src[end.1..q.start].contains('\n') { return fail("named-argument-in-row", text) }
        }
        end = (p.end, q.end);
    }
    *n.entry("rows").or_default() += rows.len() as u64;
    let column = |at: usize| { let start = b.src[..at].rfind('\n').map_or(0, |i| i + 1); width(&b.src[start..at]) };
    let Some(a) = y.kid("arguments") else { return Ok(()) };
    if !b.src[a.start..rows[0][0].1.start].contains('\n') { return fail("table-on-first-line", text) }
    if !b.src[to.last().unwrap().end..a.end].contains('\n') { return fail("closing-on-last-line", text) }
    let most = rows.iter().map(|r| r.len()).max().unwrap_or(0);
    let line = |k: &N| { let start = b.src[..k.start].rfind('\n').map_or(0, |i| i + 1); let l = &b.src[start..]; l.len() - l.trim_start_matches([' ', '\t']).len() };
    // the indentation, which is that of a row starting with something other than a number, or the least
    let indent = rows.iter().map(|r| line(r[0].1)).min().unwrap();
    let mut left = indent;
    for j in 0..most {
        let col: Vec<_> = rows.iter().filter_map(|r| r.get(j)).collect();
        let commas: Vec<usize> = col.iter().filter_map(|k| k.2.map(|k| column(k.start))).collect();
        if commas.iter().any(|k| *k != commas[0]) { return fail("commas-not-aligned", format!("column {j}: {commas:?}: {text}")) }
        let col: Vec<_> = col.into_iter().filter(|k| k.1.end > k.1.start).collect();
        *n.entry("holes").or_default() += u64::from(col.len() < rows.iter().filter(|r| r.len() > j).count());
        let points: Vec<usize> = col.iter().filter_map(|k| point(b, &k.1.kids[0]).map(|p| column(k.1.start) + p)).collect();
        *n.entry("numbers").or_default() += points.len() as u64;
        if points.iter().any(|p| *p != points[0]) { return fail("points-not-aligned", format!("column {j}: {points:?}: {text}")) }
        for k in &col {
            if point(b, &k.1.kids[0]).is_none() {
                *n.entry("other cells").or_default() += 1;
                if column(k.1.start) != left { return fail("not-left-aligned", format!("column {j}: {}: {text}", show(k.1.text(&b.src)))) }
            }
        }
        if !col.is_empty() && !col.iter().any(|k| column(k.1.start) == left) { return fail("column-too-far-right", format!("column {j}: {text}")) }
        let Some(comma) = commas.first() else { continue };
        if !col.is_empty() && !col.iter().any(|k| column(k.1.end) + 1 == *comma) { return fail("column-too-wide", format!("column {j}: {text}")) }
        left = comma + 2;
    }
    Ok(())
}
