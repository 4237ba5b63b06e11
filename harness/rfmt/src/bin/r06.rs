//! R06: the parser against the tree-sitter tree it reads, and against the text.
use air_r_parser::{RParserOptions, parse};
use air_r_syntax::RSyntaxKind as K;
use biome_rowan::Direction;
use rfmt::corpus::Corpus;
use rfmt::cst::{self, Cst, N};
use rfmt::{generate, on_large_stack, shrink};
use serde_json::json;
use vkit::*;

type Verdict = Result<(), (String, String)>;

fn fail(key: &str, detail: String) -> Verdict {
    Err((key.into(), detail))
}

/// The kind of air's node for one of tree-sitter's.
fn kind(n: &N) -> Option<K> {
    Some(match n.kind {
        "identifier" => return None,
        "unary_operator" => K::R_UNARY_EXPRESSION,
        "binary_operator" => K::R_BINARY_EXPRESSION,
        "extract_operator" => K::R_EXTRACT_EXPRESSION,
        "namespace_operator" => K::R_NAMESPACE_EXPRESSION,
        "function_definition" => K::R_FUNCTION_DEFINITION,
        "parameters" => K::R_PARAMETERS,
        "parameter" => K::R_PARAMETER,
        "if_statement" => K::R_IF_STATEMENT,
        "for_statement" => K::R_FOR_STATEMENT,
        "while_statement" => K::R_WHILE_STATEMENT,
        "repeat_statement" => K::R_REPEAT_STATEMENT,
        "braced_expression" => K::R_BRACED_EXPRESSIONS,
        "parenthesized_expression" => K::R_PARENTHESIZED_EXPRESSION,
        "call" => K::R_CALL,
        "subset" => K::R_SUBSET,
        "subset2" => K::R_SUBSET2,
        "call_arguments" => K::R_CALL_ARGUMENTS,
        "subset_arguments" => K::R_SUBSET_ARGUMENTS,
        "subset2_arguments" => K::R_SUBSET2_ARGUMENTS,
        "argument" if n.end > n.start => K::R_ARGUMENT,
        "integer" => K::R_INTEGER_VALUE,
        "float" => K::R_DOUBLE_VALUE,
        "complex" => K::R_COMPLEX_VALUE,
        "string" => K::R_STRING_VALUE,
        "next" => K::R_NEXT_EXPRESSION,
        "break" => K::R_BREAK_EXPRESSION,
        "true" => K::R_TRUE_EXPRESSION,
        "false" => K::R_FALSE_EXPRESSION,
        "null" => K::R_NULL_EXPRESSION,
        "inf" => K::R_INF_EXPRESSION,
        "nan" => K::R_NAN_EXPRESSION,
        "na" => K::R_NA_EXPRESSION,
        _ => return None,
    })
}

fn range(r: biome_rowan::TextRange) -> (usize, usize) {
    (usize::from(r.start()), usize::from(r.end()))
}

struct Counts {
    nodes: u64,
    tokens: u64,
    comments: u64,
}

fn judge(src: &str, c: Option<&Cst>, n: &mut Counts) -> Verdict {
    let parsed = match guard(|| parse(src, RParserOptions::default())) {
        Ok(p) => p,
        Err(p) => return fail("panics", p),
    };
    let root = parsed.syntax();
    if root.kind() != K::R_ROOT { return fail("root", format!("{:?}", root.kind())) }
    let text = root.text_with_trivia().to_string();
    if text != src { return fail("text-differs", format!("the tree's text is {}", show(&text))) }
    let Some(c) = c else {
        return if parsed.has_error() { Ok(()) } else { fail("no-error", String::new()) };
    };
    if let Some(e) = parsed.error() { return fail("error-for-valid", e.to_string()) }
    if let Some(b) = root.descendants().find(|d| format!("{:?}", d.kind()).contains("BOGUS")) { return fail("bogus", format!("{:?} in the tree of a valid program", b.kind())) }
    // tokens: every one a run of tree-sitter's, all of them, in order
    let leaves = c.root.leaves();
    let mut i = 0;
    let mut comments = vec![];
    let mut last_end: Option<usize> = None;
    for t in root.descendants_tokens(Direction::Next) {
        let (start, end) = range(t.text_trimmed_range());
        for (leading, trivia) in [(true, t.leading_trivia()), (false, t.trailing_trivia())] {
            for p in trivia.pieces() {
                let (a, b) = range(p.text_range());
                let what = &src[a..b];
                if p.is_comments() {
                    comments.push((a, b));
                    let same_line = |x: usize, y: usize| !src[x..y].contains('\n');
                    if !leading && !same_line(end, a) { return fail("comment-side", format!("{what:?} trails a token on another line")) }
                    if leading && last_end.is_some_and(|e| same_line(e, a)) { return fail("comment-side", format!("{what:?} leads the next token, not that on its line")) }
                } else if p.is_newline() != (what == "\n" || what == "\r\n") {
                    return fail("trivia-kind", format!("{what:?}"));
                } else if !leading && p.is_newline() {
                    return fail("newline-trails", format!("behind {:?}", t.text_trimmed()));
                } else if !what.chars().all(|x| x.is_whitespace() || x == ';') {
                    return fail("trivia-text", format!("{what:?}"));
                }
            }
        }
        if end == start { continue }
        last_end = Some(end);
        n.tokens += 1;
        if leaves.get(i).is_none_or(|l| l.start != start) { return fail("token-start", format!("{:?} at {start}", t.text_trimmed())) }
        while leaves.get(i).is_some_and(|l| l.end < end) { i += 1 }
        if leaves.get(i).is_none_or(|l| l.end != end) { return fail("token-end", format!("{:?} up to {end}", t.text_trimmed())) }
        i += 1;
    }
    if i != leaves.len() { return fail("token-lost", format!("{} of {}", leaves.len() - i, leaves.len())) }
    n.comments += comments.len() as u64;
    // a comment's text may end in a carriage return
    let trim = |v: &[(usize, usize)]| v.iter().map(|x| (x.0, x.0 + src[x.0..x.1].trim_end().len())).collect::<Vec<_>>();
    if trim(&comments) != trim(&c.comments) { return fail("comments", format!("{comments:?} for {:?}", c.comments)) }
    // nodes: of the same kinds at the same places
    let mut want = vec![];
    fn go(n: &N, want: &mut Vec<((usize, usize), K)>) {
        if let Some(k) = kind(n) { want.push(((n.start, n.end), k)) }
        for k in &n.kids { go(k, want) }
    }
    go(&c.root, &mut want);
    let kinds: Vec<K> = want.iter().map(|w| w.1).collect();
    let mut got = vec![];
    for d in root.descendants() {
        let r = range(d.text_trimmed_range());
        if kinds.contains(&d.kind()) && r.1 > r.0 { got.push((r, d.kind())) }
    }
    n.nodes += got.len() as u64;
    let sort = |v: &mut Vec<((usize, usize), K)>| v.sort_by_key(|x| (x.0, format!("{:?}", x.1)));
    sort(&mut want);
    sort(&mut got);
    if want != got {
        let d = want.iter().zip(&got).find(|(a, b)| a != b);
        return fail("nodes-differ", format!("{d:?}, {} for {}", got.len(), want.len()));
    }
    // statements: as many as there are
    let lists: usize = root.descendants().filter(|d| d.kind() == K::R_EXPRESSION_LIST).map(|d| d.children().count()).sum();
    let mut statements = 0;
    c.root.walk(&mut |x| statements += x.statements().len());
    if lists != statements { return fail("statements", format!("{lists} for {statements}")) }
    Ok(())
}

/// Texts on which the stand-ins may differ from what they stand for.
fn left_out(src: &str) -> bool {
    src.starts_with('\u{feff}') || src.replace("\r\n", "").contains('\r') || src.chars().any(|c| !c.is_ascii() && c.is_whitespace() || c == '\0')
}

fn damage(r: &mut Rng, src: &str) -> String {
    let mut t: Vec<char> = src.chars().collect();
    for _ in 0..r.range(1, 5) {
        let i = r.below(t.len() + 1);
        match r.below(5) {
            0 if i < t.len() => { t.remove(i); }
            1 => { let j = (i + r.range(1, 12)).min(t.len()); t.drain(i..j); }
            2 if i < t.len() => { let c = t[i]; t.insert(i, c) }
            _ => {
                let w = r.word(&["(", ")", "{", "}", "[", "[[", "]]", "\"", "'", "`", "#", "\n", ";", ",", "=", "<-", "\\", "%", "function", "else", "if (", "é", "\u{1F600}", "\u{301}", "r\"(", "@", "1x", "\r\n", "|>", "::", "in", "\u{c}"]);
                for (k, c) in w.chars().enumerate() { t.insert(i + k, c) }
            }
        }
    }
    t.into_iter().collect()
}

fn main() {
    on_large_stack(work)
}

fn work() {
    let mut m = Monitor::new("R06");
    let mut n = Counts { nodes: 0, tokens: 0, comments: 0 };
    if let Some(v) = m.replay.clone() {
        if let Some(src) = v["src"].as_str() {
            if let Err((k, d)) = judge(src, cst::parse(src).as_ref(), &mut n) { m.violation(k, d, v.clone()) }
        }
        return m.finish();
    }
    let corpus = Corpus::load();
    let mut r = m.rng("r06");
    while m.running() {
        let base = match r.below(3) { 0 => corpus.piece(&mut r), _ => { let c = r.chance(1, 2); generate::program(&mut r, c) } };
        let src = match r.below(6) {
            0 | 1 => base,
            2 => corpus.mutate(&mut r, &base, true).map_or(base, |c| c.src),
            3 => { let k = r.below(40); (0..k).map(|_| char::from_u32(r.below(0x300) as u32).unwrap_or('x')).collect() }
            _ => damage(&mut r, &base),
        };
        let src = if r.chance(1, 5) { src.replace("\r\n", "\n").replace('\n', "\r\n") } else { src };
        if left_out(&src) { m.count("left out"); continue }
        let c = cst::parse(&src);
        m.count(if c.is_some() { "valid" } else { "invalid" });
        if src.contains("\r\n") { m.count("with CRLF") }
        m.inflight(&json!({"src": src}).to_string());
        m.eval_str(&src, src.len() > 3);
        if let Err((key, _)) = judge(&src, c.as_ref(), &mut n) {
            let fails = |t: &str| judge(t, cst::parse(t).as_ref(), &mut Counts { nodes: 0, tokens: 0, comments: 0 }).is_err_and(|e| e.0 == key);
            let small = if c.is_some() { shrink::shrink(&src, fails) } else { src.clone() };
            let d = judge(&small, cst::parse(&small).as_ref(), &mut n).err().map(|e| e.1).unwrap_or_default();
            m.violation(key, format!("{}: {d}", show(&small)), json!({"src": small}));
        }
    }
    m.add("nodes compared", n.nodes);
    m.add("tokens compared", n.tokens);
    m.add("comments compared", n.comments);
    for what in ["valid", "invalid", "with CRLF", "nodes compared", "tokens compared", "comments compared"] { m.require(what, 50) }
    m.finish();
}
