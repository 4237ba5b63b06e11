//! G01: the ungrammar parser against a printer, and against an independent recursive-descent reference.
use biome_ungrammar::{Grammar, Rule};
use serde_json::{Value, json};
use std::collections::HashMap;
use vkit::*;

// ------------------------------------------------ model

#[derive(Clone, Debug, PartialEq)]
enum R {
    Node(String),
    Tok(String),
    Lab(String, Box<R>),
    Seq(Vec<R>),
    Alt(Vec<R>),
    Some(Vec<R>),
    All(Vec<R>),
    Opt(Box<R>),
    Rep(Box<R>),
}

#[derive(Clone, Debug, PartialEq, Default)]
struct Model { nodes: Vec<(String, R)>, tokens: Vec<String> }

/// First mentions, in the order of the text: a rule's name, then its right-hand side, left to right.
fn mentions(rules: &[(String, R)]) -> Model {
    fn walk(r: &R, nodes: &mut Vec<String>, toks: &mut Vec<String>) {
        match r {
            R::Node(n) => if !nodes.contains(n) { nodes.push(n.clone()) },
            R::Tok(t) => if !toks.contains(t) { toks.push(t.clone()) },
            R::Lab(_, r) | R::Opt(r) | R::Rep(r) => walk(r, nodes, toks),
            R::Seq(v) | R::Alt(v) | R::Some(v) | R::All(v) => v.iter().for_each(|r| walk(r, nodes, toks)),
        }
    }
    let (mut nodes, mut toks) = (vec![], vec![]);
    for (n, r) in rules {
        if !nodes.contains(n) { nodes.push(n.clone()) }
        walk(r, &mut nodes, &mut toks);
    }
    let by: HashMap<&String, &R> = rules.iter().map(|(n, r)| (n, r)).collect();
    Model { nodes: nodes.iter().map(|n| (n.clone(), by[n].clone())).collect(), tokens: toks }
}

fn observed(g: &Grammar) -> Model {
    fn rule(g: &Grammar, r: &Rule) -> R {
        let v = |rs: &Vec<Rule>| rs.iter().map(|r| rule(g, r)).collect::<Vec<_>>();
        match r {
            Rule::Labeled { label, rule: r } => R::Lab(label.clone(), Box::new(rule(g, r))),
            Rule::Node(n) => R::Node(g[*n].name.clone()),
            Rule::Token(t) => R::Tok(g[*t].name.clone()),
            Rule::Seq(rs) => R::Seq(v(rs)),
            Rule::Alt(rs) => R::Alt(v(rs)),
            Rule::UnorderedSome(rs) => R::Some(v(rs)),
            Rule::UnorderedAll(rs) => R::All(v(rs)),
            Rule::Opt(r) => R::Opt(Box::new(rule(g, r))),
            Rule::Rep(r) => R::Rep(Box::new(rule(g, r))),
        }
    }
    Model { nodes: g.iter().map(|n| (g[n].name.clone(), rule(g, &g[n].rule))).collect(), tokens: g.tokens().map(|t| g[t].name.clone()).collect() }
}

// ------------------------------------------------ printing

struct Printer<'a> { r: &'a mut Rng, out: String, plain: bool }

impl Printer<'_> {
    fn gap(&mut self, needed: bool) {
        if self.plain { self.out.push(' '); return }
        let n = if needed { 1 + self.r.below(2) } else { self.r.below(3) };
        for _ in 0..n {
            match self.r.below(8) {
                0 | 1 => self.out.push('\n'),
                2 => self.out.push('\t'),
                3 => { self.out.push_str(self.r.word(&["// x = 'y'\n", "//\n", "/// (é\n", "// '\n", "//// \r\n"])); }
                _ => self.out.push(' '),
            }
        }
    }
    fn tok(&mut self, t: &str) {
        self.out.push('\'');
        for c in t.chars() { if c == '\\' || c == '\'' { self.out.push('\\') } self.out.push(c) }
        self.out.push('\'');
    }
    /// level 0: a whole right-hand side or parenthesized; 1: an operand of a combinator; 2: an atom
    fn rule(&mut self, r: &R, level: u8) {
        let needs = match r {
            R::Alt(_) | R::Some(_) | R::All(_) => level > 0,
            R::Seq(_) => level > 1,
            // a postfix operator binds tighter than a label, and only one is taken per atom
            R::Lab(..) | R::Opt(_) | R::Rep(_) => level > 2,
            _ => false,
        };
        let extra = !self.plain && self.r.chance(1, 12);
        let n = needs as usize + extra as usize;
        for _ in 0..n { self.out.push('('); self.gap(false) }
        match r {
            R::Node(n) => self.out.push_str(n),
            R::Tok(t) => self.tok(t),
            R::Lab(l, r) => { self.out.push_str(l); self.gap(false); self.out.push(':'); self.gap(false); self.rule(r, 2) }
            R::Opt(r) | R::Rep(r) => {
                let c = if matches!(**r, R::Opt(_) | R::Rep(_) | R::Lab(..)) { 3 } else { 2 };
                let rr: &R = r;
                self.rule(rr, c);
                self.gap(false);
            }
            R::Seq(v) => for (i, r) in v.iter().enumerate() { if i > 0 { self.gap(true) } self.rule(r, 2) },
            R::Alt(v) | R::Some(v) | R::All(v) => {
                let op = match r { R::Alt(_) => "|", R::Some(_) => "||", _ => "&&" };
                for (i, x) in v.iter().enumerate() { if i > 0 { self.gap(false); self.out.push_str(op); self.gap(false) } self.rule(x, 1) }
            }
        }
        match r { R::Opt(_) => self.out.push('?'), R::Rep(_) => self.out.push('*'), _ => {} }
        for _ in 0..n { self.gap(false); self.out.push(')') }
    }
}

fn print(r: &mut Rng, rules: &[(String, R)], plain: bool) -> String {
    let mut p = Printer { r, out: String::new(), plain };
    p.gap(false);
    for (n, rule) in rules {
        p.out.push_str(n);
        p.gap(false);
        p.out.push('=');
        p.gap(false);
        p.rule(rule, 0);
        p.gap(true);
    }
    p.out
}

// ------------------------------------------------ reference parser: text -> model or error position

#[derive(Clone, Debug, PartialEq)]
enum T { Id(String), Lit(String), P(&'static str) }

#[derive(Debug, PartialEq, Clone)]
struct Bad { at: Option<(usize, usize)> }

type Res<X> = Result<X, Bad>;

fn lex(text: &str) -> Res<Vec<(T, (usize, usize))>> {
    let c: Vec<char> = text.chars().collect();
    let (mut i, mut line, mut col) = (0, 1, 1);
    let mut out = vec![];
    while i < c.len() {
        let at = (line, col);
        let fail = Err(Bad { at: Some(at) });
        let from = i;
        match c[i] {
            ' ' | '\t' | '\n' => i += 1,
            '/' if c.get(i + 1) == Some(&'/') => { while i < c.len() && c[i] != '\n' { i += 1 } if i < c.len() { i += 1 } }
            '\'' => {
                let mut s = String::new();
                i += 1;
                loop {
                    match c.get(i) {
                        None => return fail,
                        Some('\'') => { i += 1; break }
                        Some('\\') => match c.get(i + 1) { Some(x @ ('\\' | '\'')) => { s.push(*x); i += 2 } _ => return fail },
                        Some(x) => { s.push(*x); i += 1 }
                    }
                }
                out.push((T::Lit(s), at));
            }
            x if x.is_ascii_alphanumeric() || x == '_' => {
                while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') { i += 1 }
                out.push((T::Id(c[from..i].iter().collect()), at));
            }
            x => {
                let two: String = c[i..c.len().min(i + 2)].iter().collect();
                let t = match (x, two.as_str()) {
                    (_, "||") => "||", (_, "&&") => "&&",
                    ('|', _) => "|", ('=', _) => "=", ('*', _) => "*", ('?', _) => "?", ('(', _) => "(", (')', _) => ")", (':', _) => ":",
                    _ => return fail,
                };
                i += t.len();
                out.push((T::P(t), at));
            }
        }
        for x in &c[from..i] { if *x == '\n' { line += 1; col = 1 } else { col += 1 } }
    }
    Ok(out)
}

struct Ref { t: Vec<(T, (usize, usize))>, i: usize }

impl Ref {
    fn is(&self, k: usize, p: &str) -> bool { matches!(self.t.get(self.i + k), Some((T::P(x), _)) if *x == p) }
    fn here(&self) -> Bad { Bad { at: self.t.get(self.i).map(|t| t.1) } }
    fn grammar(&mut self) -> Res<Vec<(String, R)>> {
        let mut rules: Vec<(String, R)> = vec![];
        while self.i < self.t.len() {
            let (name, at) = match &self.t[self.i] { (T::Id(n), at) => (n.clone(), *at), _ => return Err(self.here()) };
            self.i += 1;
            if !self.is(0, "=") { return Err(self.here()) }
            self.i += 1;
            if rules.iter().any(|(n, _)| *n == name) { return Err(Bad { at: Some(at) }) }
            let r = self.alternatives()?;
            rules.push((name, r));
        }
        Ok(rules)
    }
    fn alternatives(&mut self) -> Res<R> {
        let mut all = vec![self.sequence()?];
        let mut op = "";
        loop {
            let Some(o) = ["|", "||", "&&"].into_iter().find(|o| self.is(0, o)) else { break };
            if op != "" && op != o { return Err(self.here()) }
            op = o;
            self.i += 1;
            all.push(self.sequence()?);
        }
        Ok(match op { "|" => R::Alt(all), "||" => R::Some(all), "&&" => R::All(all), _ => all.remove(0) })
    }
    fn sequence(&mut self) -> Res<R> {
        let mut v = vec![];
        while let Some(a) = self.atom()? { v.push(a) }
        match v.len() { 0 => Err(self.here()), 1 => Ok(v.remove(0)), _ => Ok(R::Seq(v)) }
    }
    fn atom(&mut self) -> Res<Option<R>> {
        let base = match self.t.get(self.i).map(|t| t.0.clone()) {
            Some(T::Id(n)) => {
                if self.is(1, "=") { return Ok(None) }
                if self.is(1, ":") {
                    self.i += 2;
                    return match self.atom()? { Some(r) => Ok(Some(R::Lab(n, Box::new(r)))), None => Err(self.here()) };
                }
                self.i += 1;
                R::Node(n)
            }
            Some(T::Lit(t)) => { self.i += 1; R::Tok(t) }
            Some(T::P("(")) => {
                self.i += 1;
                let r = self.alternatives()?;
                if !self.is(0, ")") { return Err(self.here()) }
                self.i += 1;
                r
            }
            _ => return Ok(None),
        };
        let post = if self.is(0, "?") { R::Opt(Box::new(base)) } else if self.is(0, "*") { R::Rep(Box::new(base)) } else { return Ok(Some(base)) };
        self.i += 1;
        Ok(Some(post))
    }
}

fn reference(text: &str) -> Res<Model> {
    let t = lex(text)?;
    let rules = Ref { t, i: 0 }.grammar()?;
    // every node mentioned is defined
    fn undefined(r: &R, rules: &[(String, R)]) -> bool {
        match r {
            R::Node(n) => !rules.iter().any(|(m, _)| m == n),
            R::Tok(_) => false,
            R::Lab(_, r) | R::Opt(r) | R::Rep(r) => undefined(r, rules),
            R::Seq(v) | R::Alt(v) | R::Some(v) | R::All(v) => v.iter().any(|r| undefined(r, rules)),
        }
    }
    if rules.iter().any(|(_, r)| undefined(r, &rules)) { return Err(Bad { at: None }) }
    Ok(mentions(&rules))
}

// ------------------------------------------------ judging

/// `line:column` at the start of a message.
fn position(msg: &str) -> Option<(usize, usize)> {
    let mut p = msg.splitn(3, ':');
    let (a, b) = (p.next()?.parse().ok()?, p.next()?.parse().ok()?);
    p.next()?;
    Some((a, b))
}

fn judge(m: &mut Monitor, text: &str, want: Option<&Model>) {
    m.inflight(&json!({"text": text}).to_string());
    let case = || json!({"text": text});
    let reference = reference(text);
    if let Some(w) = want {
        // the printer and the reference have to agree, or the harness is wrong
        if reference.as_ref() != Ok(w) {
            m.inconclusive(format!("the reference reads {text:?} as {reference:?} instead of {w:?}"));
            m.note("starved", true);
            return;
        }
    }
    m.eval(hash_str(text), reference.is_ok() || text.len() > 3);
    match (guard(|| text.parse::<Grammar>().map(|g| observed(&g)).map_err(|e| e.to_string())), reference) {
        (Err(p), _) => m.violation("panic", format!("{} panicked: {p}", show(text)), case()),
        (Ok(Ok(got)), Ok(want)) => {
            m.count("grammars read back");
            m.add("rules", want.nodes.len() as u64);
            m.max("most rules in a grammar", want.nodes.len() as u64);
            if got.nodes.iter().map(|n| &n.0).ne(want.nodes.iter().map(|n| &n.0)) {
                m.violation("node-order", format!("{}: nodes {:?} instead of {:?}", show(text), got.nodes, want.nodes), case());
            } else if got.tokens != want.tokens {
                m.violation("token-order", format!("{}: tokens {:?} instead of {:?}", show(text), got.tokens, want.tokens), case());
            } else if got != want {
                let i = (0..got.nodes.len()).find(|i| got.nodes[*i] != want.nodes[*i]).unwrap_or(0);
                m.violation("structure", format!("{}: {:?} instead of {:?}", show(text), got.nodes[i], want.nodes[i]), case());
            }
        }
        (Ok(Ok(got)), Err(b)) => m.violation("accepted", format!("{} should be refused at {:?}, but is read as {got:?}", show(text), b.at), case()),
        (Ok(Err(e)), Ok(w)) => m.violation("refused", format!("{} is refused with {e:?} but means {w:?}", show(text)), case()),
        (Ok(Err(e)), Err(b)) => {
            m.count("texts refused");
            // at the end of the text, and for names never defined, there is no token to point at
            if let Some(at) = b.at {
                m.count("error positions compared");
                if position(&e) != Some(at) {
                    m.violation("position", format!("{} has its error at {at:?}, reported as {e:?}", show(text)), case());
                }
            }
        }
    }
    m.sample(|| json!(show(text)));
}

// ------------------------------------------------ generation

const NAMES: &[&str] = &["A", "B", "Expr", "name", "a_b", "_", "0", "R9", "Ident", "x", "X", "AnyR", "List"];
const TOKS: &[&str] = &["+", "if", "'", "\\", "\\'", "", " ", "//", "é", "\n", "{", "=", "日本", "a b", "\r", "''"];

fn gen_rule(r: &mut Rng, names: &[String], depth: usize) -> R {
    let leaf = depth == 0 || r.chance(2, 5);
    if leaf {
        return if r.bool() { R::Node(r.pick(names).clone()) } else { R::Tok(r.word(TOKS).into()) };
    }
    let list = |r: &mut Rng, not: u8| -> Vec<R> {
        let n = if r.chance(1, 15) { r.range(5, 20) } else { r.range(2, 4) };
        (0..n).map(|_| loop {
            let x = gen_rule(r, names, depth - 1);
            let _ = not;
            break x;
        }).collect()
    };
    match r.below(8) {
        0 | 1 => R::Seq(list(r, 0)),
        2 => R::Alt(list(r, 1)),
        3 => R::Some(list(r, 2)),
        4 => R::All(list(r, 3)),
        5 => R::Opt(Box::new(gen_rule(r, names, depth - 1))),
        6 => R::Rep(Box::new(gen_rule(r, names, depth - 1))),
        _ => R::Lab(r.word(NAMES).into(), Box::new(gen_rule(r, names, depth - 1))),
    }
}

fn gen_model(r: &mut Rng) -> Vec<(String, R)> {
    let n = if r.chance(1, 20) { r.range(10, 60) } else { r.range(0, 6) };
    let mut names: Vec<String> = vec![];
    while names.len() < n {
        let c = if r.chance(1, 3) || names.len() >= NAMES.len() { format!("{}{}", r.word(NAMES), r.below(200)) } else { r.word(NAMES).to_string() };
        if !names.contains(&c) { names.push(c) }
    }
    let mut rules: Vec<(String, R)> = vec![];
    let depth = r.range(0, 5);
    for k in &names { rules.push((k.clone(), gen_rule(r, &names, depth))) }
    rules
}

fn main() {
    // deep nesting needs stack, in the code under test as much as in the reference
    std::thread::Builder::new().stack_size(256 << 20).spawn(run).unwrap().join().unwrap();
}

fn run() {
    let mut m = Monitor::new("G01");
    if let Some(c) = m.replay.clone() {
        judge(&mut m, c["text"].as_str().unwrap_or(""), None);
        return m.finish();
    }
    let mut r = m.rng("grammars");
    // every sequence of up to n tokens from an alphabet: acceptance, structure and error position
    let alphabet = ["A", "B", "'t'", "=", "|", "||", "&&", "?", "*", "(", ")", ":"];
    let max = m.n(5, 6);
    for len in 0..=max {
        let total = alphabet.len().pow(len as u32);
        for code in 0..total {
            let (mut c, mut v) = (code, vec![]);
            for _ in 0..len { v.push(alphabet[c % alphabet.len()]); c /= alphabet.len() }
            if len == max && v[1] != "=" { continue }
            judge(&mut m, &v.join(" "), None);
        }
        if m.saturated() { break }
    }
    m.note("exhaustive_up_to_tokens", max);
    // lexical alphabet
    let chars = ["'", "\\", "/", "&", "|", "A", " ", "\n", "\r", "é"];
    for len in 0..=m.n(5, 6) {
        for code in 0..chars.len().pow(len as u32) {
            let (mut c, mut s) = (code, String::new());
            for _ in 0..len { s.push_str(chars[c % chars.len()]); c /= chars.len() }
            judge(&mut m, &s, None);
            if len < 5 { judge(&mut m, &format!("A ={s}"), None) }
        }
        if m.saturated() { break }
    }
    let mut texts: Vec<String> = vec![];
    for _ in 0..m.n(60000, 400_000) {
        if !m.running() { break }
        let rules = gen_model(&mut r);
        let plain = r.chance(1, 6);
        let text = print(&mut r, &rules, plain);
        let want = mentions(&rules);
        judge(&mut m, &text, Some(&want));
        if text.len() < 600 { if texts.len() < 200 { texts.push(text) } else { let i = r.below(200); texts[i] = text } }
        // mutations of what was just printed
        for _ in 0..3 {
            if texts.is_empty() { break }
            let mut s: Vec<char> = r.pick(&texts).chars().collect();
            for _ in 0..r.range(1, 4) {
                if s.is_empty() { break }
                let i = r.below(s.len());
                match r.below(4) {
                    0 => { s.remove(i); }
                    1 => s.insert(i, *r.pick(&['|', '&', '\'', '\\', '(', ')', '=', ':', '*', '?', ' ', '\r', 'é', 'A', '/', '-', '"', '\u{a0}', '\u{b}'])),
                    2 => { let j = r.below(s.len()); s.swap(i, j) }
                    _ => s.truncate(i),
                }
            }
            let s: String = s.into_iter().collect();
            judge(&mut m, &s, None);
        }
    }
    // the repository's own grammars, and deep nesting
    for f in ["crates/biome_ungrammar/ungrammar.ungram", "xtask/codegen/r.ungram", "crates/biome_ungrammar/rust.ungram"] {
        if let Ok(t) = std::fs::read_to_string(format!("/repo/{f}")) { judge(&mut m, &t, None); m.count("grammar files of the repository") }
    }
    for d in [10, 100, 1000, 5000] {
        judge(&mut m, &format!("A = {}'x'{}", "(".repeat(d), ")".repeat(d)), None);
        judge(&mut m, &format!("A = {}'x'{}", "(".repeat(d), ")".repeat(d - 1)), None);
        judge(&mut m, &format!("A = {}'x'", "l:".repeat(d)), None);
        m.max("deepest nesting", d as u64);
    }
    m.require("grammars read back", 5000);
    m.require("error positions compared", 20_000);
    m.finish();
}
