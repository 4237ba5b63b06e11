//! The concrete syntax tree, read off tree-sitter directly (not through air's parser), and what
//! formatting may change in it.
use tree_sitter::{Node, Parser};

#[derive(Clone, Debug)]
pub struct N {
    pub kind: &'static str,
    pub field: Option<&'static str>,
    pub start: usize,
    pub end: usize,
    pub kids: Vec<N>,
}

#[derive(Clone, Debug)]
pub struct Cst {
    pub src: String,
    pub root: N,
    /// byte ranges, in order
    pub comments: Vec<(usize, usize)>,
}

impl N {
    pub fn text<'a>(&self, src: &'a str) -> &'a str {
        &src[self.start..self.end]
    }
    pub fn kid(&self, field: &str) -> Option<&N> {
        self.kids.iter().find(|k| k.field == Some(field))
    }
    pub fn walk<'a>(&'a self, f: &mut impl FnMut(&'a N)) {
        f(self);
        for k in &self.kids { k.walk(f) }
    }
    pub fn leaves(&self) -> Vec<&N> {
        let mut out = vec![];
        self.walk(&mut |n| if n.kids.is_empty() && n.end > n.start && n.kind != "program" { out.push(n) });
        out
    }
    pub fn all(&self) -> Vec<&N> {
        let mut out = vec![];
        self.walk(&mut |n| out.push(n));
        out
    }
    /// The expressions of a program or braces.
    pub fn statements(&self) -> Vec<&N> {
        match self.kind {
            "program" => self.kids.iter().collect(),
            "braced_expression" => self.kids.iter().filter(|k| k.field == Some("body")).collect(),
            _ => vec![],
        }
    }
}

/// `None`: a syntax error.
pub fn parse(src: &str) -> Option<Cst> {
    let mut parser = Parser::new();
    parser.set_language(&tree_sitter_r::LANGUAGE.into()).ok()?;
    let tree = parser.parse(src, None)?;
    let root = tree.root_node();
    if root.has_error() { return None }
    let mut comments = vec![];
    let root = convert(root, None, &mut comments);
    comments.sort();
    Some(Cst { src: src.into(), root, comments })
}

fn convert(node: Node, field: Option<&'static str>, comments: &mut Vec<(usize, usize)>) -> N {
    let mut kids = vec![];
    let mut cursor = node.walk();
    // these have a part, but only one token
    let token = matches!(node.kind(), "integer" | "complex" | "na");
    if !token && cursor.goto_first_child() {
        loop {
            let n = cursor.node();
            if n.kind() == "comment" {
                comments.push((n.start_byte(), n.end_byte()));
            } else {
                kids.push(convert(n, cursor.field_name(), comments));
            }
            if !cursor.goto_next_sibling() { break }
        }
    }
    N { kind: node.kind(), field, start: node.start_byte(), end: node.end_byte(), kids }
}

impl Cst {
    pub fn comment_texts(&self) -> Vec<&str> {
        self.comments.iter().map(|c| self.src[c.0..c.1].trim_end()).collect()
    }
    /// How the text between `a` and `b` matters: whether a comment is in it.
    pub fn comment_in(&self, a: usize, b: usize) -> bool {
        self.comments.iter().any(|c| c.0 >= a && c.1 <= b)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Assign { Arrow, Equal, Preserve }

/// What the comparison saw.
#[derive(Default, Debug)]
pub struct Seen {
    pub nodes: u64,
    pub braced: u64,
    pub reassigned: u64,
}

/// Is `b` the program `a` after formatting?
pub fn same(a: &Cst, b: &Cst, assign: Assign, seen: &mut Seen) -> Result<(), String> {
    same_node(&a.root, &a.src, &b.root, &b.src, assign, seen)
}

fn cut(s: &str) -> String {
    if s.chars().count() > 60 { s.chars().take(60).collect::<String>() + "..." } else { s.into() }
}

fn is_body(parent: &N, kid: &N) -> bool {
    matches!(
        (parent.kind, kid.field),
        ("function_definition" | "for_statement" | "while_statement" | "repeat_statement", Some("body"))
            | ("if_statement", Some("consequence" | "alternative"))
    )
}

fn same_node(a: &N, sa: &str, b: &N, sb: &str, assign: Assign, seen: &mut Seen) -> Result<(), String> {
    seen.nodes += 1;
    let differ = |what: &str| Err(format!("{what}: {} `{}` became {} `{}`", a.kind, cut(a.text(sa)), b.kind, cut(b.text(sb))));
    if a.kind != b.kind {
        // an assignment operator
        if a.field == Some("operator") && b.field == Some("operator") {
            let ok = match (a.kind, b.kind) {
                ("=", "<-") => assign == Assign::Arrow,
                ("<-", "=") => assign == Assign::Equal,
                _ => false,
            };
            if ok {
                seen.reassigned += 1;
                return Ok(());
            }
        }
        return differ("other construct");
    }
    if a.kids.len() != b.kids.len() { return differ("other parts") }
    if a.kids.is_empty() && a.kind != "program" {
        // the printer writes the line ending of the settings inside strings as well
        let norm = |s: &str| s.replace("\r\n", "\n");
        if norm(a.text(sa)) != norm(b.text(sb)) { return differ("other token") }
        return Ok(());
    }
    for (x, y) in a.kids.iter().zip(&b.kids) {
        if x.field != y.field { return differ("other role") }
        if is_body(a, x) && x.kind != "braced_expression" && y.kind == "braced_expression" {
            let inside = y.statements();
            if inside.len() != 1 { return differ("braces around something else") }
            seen.braced += 1;
            same_node(x, sa, inside[0], sb, assign, seen)?;
        } else {
            same_node(x, sa, y, sb, assign, seen)?;
        }
    }
    Ok(())
}

/// Whether R itself takes the program: tree-sitter-r is laxer about where `=` may assign, and what
/// to. (Assigning to an assignment, `a <- 1 = 2`, parses but never means anything.)
pub fn plausible(c: &Cst) -> bool {
    fn go(n: &N, parent: Option<&N>, c: &Cst) -> bool {
        // statements with nothing between them
        if n.statements().windows(2).any(|w| !c.src[w[0].end..w[1].start].contains(['\n', ';'])) { return false }
        // a missing right-hand side, which tree-sitter-r lets pass
        if matches!(n.kind, "extract_operator" | "namespace_operator") && n.kid("rhs").is_none() { return false }
        if n.kind == "binary_operator" {
            let op = n.kid("operator").map_or("", |o| o.kind);
            let lhs_op = n.kid("lhs").filter(|l| l.kind == "binary_operator").and_then(|l| l.kid("operator")).map_or("", |o| o.kind);
            let assigns = |o: &str| matches!(o, "=" | "<-" | "<<-" | ":=" | "->" | "->>");
            if assigns(op) && assigns(lhs_op) && !(op.starts_with('-') && lhs_op.starts_with('-')) { return false }
            if op == "=" {
                let ok = parent.is_none_or(|p| match p.kind {
                    "program" | "braced_expression" | "parenthesized_expression" => true,
                    "binary_operator" => p.kid("operator").is_some_and(|o| matches!(o.kind, "=" | "?")),
                    "unary_operator" => p.kid("operator").is_some_and(|o| o.kind == "?"),
                    _ => is_body(p, n),
                });
                if !ok { return false }
            }
        }
        n.kids.iter().all(|k| go(k, Some(n), c))
    }
    go(&c.root, None, c)
}

/// Where the comments of a program are, from the usual to the odd.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Places {
    Nowhere,
    /// between statements
    Statements,
    /// and between arguments or parameters
    Lists,
    /// and behind binary operators
    Operators,
    Anywhere,
}

pub fn place(c: &Cst, at: (usize, usize)) -> Places {
    fn deepest<'a>(n: &'a N, at: (usize, usize)) -> &'a N {
        // innermost node with code on both sides
        n.kids.iter().find(|k| k.start < at.0 && at.1 <= k.end && k.end > at.1).map_or(n, |k| deepest(k, at))
    }
    let n = deepest(&c.root, at);
    let prev = n.kids.iter().filter(|k| k.end <= at.0).last();
    let next = n.kids.iter().find(|k| k.start >= at.1);
    let is = |k: Option<&N>, kinds: &[&str]| k.is_some_and(|k| kinds.contains(&k.kind));
    match n.kind {
        // `{{ x }}`
        "braced_expression" if n.statements().len() == 1 && n.statements()[0].kind == "braced_expression" => Places::Anywhere,
        "program" | "braced_expression" => Places::Statements,
        "call_arguments" | "subset_arguments" | "subset2_arguments" | "parameters" => {
            let item = is(next, &["argument", "parameter"]) && is(prev, &["comma", "(", "[", "[["]);
            let last = is(next, &[")", "]", "]]"]) && is(prev, &["argument", "parameter"]);
            if item || last { Places::Lists } else { Places::Anywhere }
        }
        "binary_operator"
            if prev.is_some_and(|k| k.field == Some("operator") && !matches!(k.kind, "?" | "->" | "->>" | "<-" | "<<-" | "=" | ":=" | "~" | ":" | "^" | "**" | "<" | ">" | "<=" | ">=" | "==" | "!=")) =>
        {
            Places::Operators
        }
        _ => Places::Anywhere,
    }
}

pub fn places(c: &Cst) -> Places {
    c.comments.iter().map(|at| place(c, *at)).max().unwrap_or(Places::Nowhere)
}

/// Known limits of air, and so not in the workload: a comment between a function and its
/// arguments, or around `::`, in parentheses, where a line break is none.
pub fn odd_comment(c: &Cst) -> bool {
    let mut odd = false;
    c.root.walk(&mut |n| {
        let between = |a: &N, b: &N| c.comment_in(a.end, b.start);
        if matches!(n.kind, "call" | "subset" | "subset2" | "namespace_operator" | "extract_operator") {
            odd |= n.kids.windows(2).any(|w| between(&w[0], &w[1]));
        }
        odd |= test_call(n) && n.kid("arguments").is_some_and(|a| a.kids.windows(2).any(|w| between(&w[0], &w[1])));
    });
    odd
}

/// A known limit of air: a function in a parameter's default in an argument may get its braces while
/// the parameters around it are kept on one line, which they aren't once it has them.
pub fn braces_within_parameters(c: &Cst) -> bool {
    let mut found = false;
    c.root.walk(&mut |n| {
        if n.kind == "argument" && n.kid("value").is_some_and(|v| v.kind == "function_definition") {
            let parameters = n.kid("value").and_then(|v| v.kid("parameters"));
            parameters.into_iter().for_each(|p| p.walk(&mut |k| found |= k.kids.iter().any(|b| is_body(k, b) && b.kind != "braced_expression")));
        }
    });
    found
}

/// `anything("text", { ... })`, which air keeps on one line at any width.
pub fn test_call(n: &N) -> bool {
    if n.kind != "call" { return false }
    let args: Vec<&N> = n.kid("arguments").iter().flat_map(|a| &a.kids).filter(|k| k.kind == "argument").collect();
    args.len() == 2 && args[0].kid("value").is_some_and(|v| v.kind == "string") && args[1].kid("value").is_some_and(|v| v.kind == "braced_expression")
}
