//! Random R programs: a token list of a random program, then a random layout of it.
use vkit::Rng;

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    /// text; whether a line may end after it in any scope
    T(String, bool),
    /// `else`: on a new line only within braces or brackets
    Else,
    /// between two statements
    Sep,
    /// where braces open or close: lines may break, or not
    Soft,
}

#[derive(Clone, Debug)]
pub struct Options {
    pub statements: usize,
    pub budget: i32,
    /// tables, `switch()` holes and the like
    pub unusual: bool,
}

pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub out: Vec<Tok>,
    budget: i32,
}

const NAMES: &[&str] = &[
    "x", "y", "z", "df", "a", "b", "value", "data_frame", "some.dotted.name", ".hidden", "i", "n", "fun", "map", "mutate", "print",
    "a_rather_long_variable_name", "an_even_longer_variable_name_than_that_one", "é", "变量", "T", "`back ticked`", "`a\\`b`", "`if`", "xs", "test_that",
    "c", "list", "switch", "tryCatch", "ggplot", "...", "..1", "..12", "_",
];
const CALLEES: &[&str] = &[
    "f", "g", "c", "list", "map", "mutate", "filter", "test_that", "switch", "tryCatch", "if_else", "library", "stop", "paste0", "a_long_function_name_indeed",
    "fun.dotted", "`odd name`", "return", "quote",
];
const VALUES: &[&str] = &[
    "1", "0", "42", "1L", "100000L", "1e5", "1.5e-3", ".5", "5.", "0x1F", "0xFFL", "1i", "2.5i", "TRUE", "FALSE", "NULL", "NA", "NA_integer_", "NA_character_", "Inf",
    "NaN", "\"\"", "''", "\"text\"", "'single'", "\"with 'quotes'\"", "'with \"quotes\"'", "\"esc\\\"aped\"", "\"# no comment\"", "r\"(raw)\"", "R'---[raw]---'",
    "r\"{a \"quoted\" b}\"", "\"ünïcödé 日本\"", "\"a string long enough to push things over the line width\"", "\"two\nlines\"", "\"trailing  \n  spaces\n\"", "r\"(raw\n  lines)\"", "'tab\t.'",
    "\"back\\\\\"", "\"😀\"",
];
const OPS: &[&str] = &[
    "+", "-", "*", "/", "^", "**", "%%", "%in%", "%>%", "%||%", "|>", "&", "&&", "|", "||", ":", "~", "+", "|>", "%>%", "&&",
];
const COMPARE: &[&str] = &["<", ">", "<=", ">=", "==", "!="];

impl<'a> Gen<'a> {
    pub fn new(r: &'a mut Rng, budget: i32) -> Self {
        Gen { r, out: vec![], budget }
    }
    fn t(&mut self, s: &str) {
        self.out.push(Tok::T(s.into(), false));
    }
    fn tn(&mut self, s: &str) {
        self.out.push(Tok::T(s.into(), true));
    }
    fn word(&mut self, l: &[&str]) {
        let w = self.r.word(l).to_string();
        self.t(&w);
    }
    pub fn program(&mut self, statements: usize) {
        for i in 0..statements {
            if i > 0 { self.out.push(Tok::Sep) }
            self.statement(4);
        }
    }
    pub fn statement(&mut self, depth: u32) {
        match self.r.below(12) {
            0..=3 => {
                let op = *self.r.pick(&["<-", "<-", "=", "=", "<<-", ":="]);
                match self.r.below(6) {
                    0 => { self.word(NAMES); self.t("$"); self.word(NAMES) }
                    1 => { self.word(NAMES); self.t("["); self.expr(1); self.t("]") }
                    _ => self.word(&NAMES[..20]),
                }
                self.tn(op);
                if self.r.chance(1, 8) {
                    self.word(&NAMES[..20]);
                    // (to the left of `=` there may be no other operator)
                    let op = if op == "=" { self.r.word(&["=", "=", "<-", "<<-"]).to_string() } else { self.r.word(&["<-", "<-", "<<-", op]).to_string() };
                    self.tn(&op)
                }
                self.expr(depth);
            }
            4 => { self.expr(depth.min(2)); let op = *self.r.pick(&["->", "->>"]); self.tn(op); self.word(&NAMES[..20]) }
            5 => self.control(depth),
            6 => self.chain(depth),
            _ => self.expr(depth),
        }
    }
    fn control(&mut self, depth: u32) {
        self.budget -= 2;
        let d = depth.saturating_sub(1);
        match self.r.below(6) {
            0..=2 => {
                self.tn("if"); self.t("("); self.expr(d.min(2)); self.tn(")");
                self.body(d);
                if self.r.chance(1, 2) {
                    self.out.push(Tok::Else);
                    if self.r.chance(1, 3) { self.control(d) } else { self.body(d) }
                }
            }
            3 => { self.tn("for"); self.t("("); self.word(&["i", "x", "nm", "`odd name`", "a_loop_variable"]); self.t("in"); self.expr(d.min(2)); self.tn(")"); self.body(d) }
            4 => { self.tn("while"); self.t("("); self.expr(d.min(2)); self.tn(")"); self.body(d) }
            _ => { self.tn("repeat"); self.body(d) }
        }
    }
    fn body(&mut self, depth: u32) {
        if self.r.chance(1, 2) { self.braces(depth) } else if self.r.chance(1, 8) { self.word(&["next", "break"]) } else if self.r.chance(1, 3) {
            self.statement(depth)
        } else { self.expr(depth) }
    }
    fn braces(&mut self, depth: u32) {
        self.tn("{");
        let n = if self.budget < 0 { self.r.below(2) } else { self.r.below(4) };
        self.out.push(Tok::Soft);
        for i in 0..n {
            if i > 0 { self.out.push(Tok::Sep) }
            self.statement(depth.saturating_sub(1));
        }
        if n > 0 { self.out.push(Tok::Soft) }
        self.t("}");
    }
    fn chain(&mut self, depth: u32) {
        let n = self.r.range(1, 5);
        let d = depth.saturating_sub(1);
        let op = self.r.word(&["|>", "%>%", "+", "&&", "||", "*"]).to_string();
        self.word(&NAMES[..20]);
        for _ in 0..n {
            self.tn(&op);
            if self.r.chance(3, 4) { self.call(d) } else { self.atom() }
        }
    }
    fn atom(&mut self) {
        self.budget -= 1;
        if self.r.chance(1, 2) { self.word(NAMES) } else { self.word(VALUES) }
    }
    fn function(&mut self, depth: u32) {
        let f = *self.r.pick(&["function", "function", "\\"]);
        self.tn(f);
        self.t("(");
        let n = self.r.below(4);
        for i in 0..n {
            if i > 0 { self.t(",") }
            let name = if self.r.chance(1, 8) { "...".to_string() } else { format!("{}{i}", self.r.word(&["x", "arg", "a_long_parameter_name_", "."])) };
            self.t(&name);
            if self.r.chance(1, 3) { self.t("="); self.expr(depth.min(2).saturating_sub(1)) }
        }
        self.tn(")");
        self.body(depth.saturating_sub(1));
    }
    fn args(&mut self, depth: u32, close: &str) {
        let n = match self.r.below(5) { 0 => 0, 1 | 2 => 1, 3 => 2, _ => self.r.range(2, 6) };
        let d = depth.saturating_sub(1);
        for i in 0..n {
            if i > 0 { self.t(",") }
            let last = i + 1 == n;
            match self.r.below(14) {
                0 if !(n == 1) => {}
                1..=3 => {
                    self.word(&["x", "na.rm", "data", "a_long_argument_name", "`odd arg`", "\"quoted arg\"", "NULL", "...", "by"]);
                    self.t("=");
                    if !self.r.chance(1, 12) { if last && self.r.chance(1, 4) { self.function(d) } else { self.expr(d) } }
                }
                4 if last || self.r.chance(1, 5) => self.function(d),
                5 if last || self.r.chance(1, 5) => self.braces(d),
                6 => { self.t("{"); self.t("{"); self.out.push(Tok::Soft); self.word(&NAMES[..20]); self.out.push(Tok::Soft); self.t("}"); self.t("}") }
                7 => { self.word(&NAMES[..20]); self.tn(":="); self.expr(d) }
                _ => self.expr(d),
            }
        }
        if n > 0 && self.r.chance(1, 20) { self.t(",") }
        self.t(close);
    }
    fn call(&mut self, depth: u32) {
        self.budget -= 1;
        match self.r.below(10) {
            0 => { self.word(&["pkg", "dplyr"]); self.t("::"); self.word(CALLEES) }
            1 => { self.word(&NAMES[..20]); self.t("$"); self.word(CALLEES) }
            2 if depth > 1 => { self.t("("); self.function(depth - 1); self.t(")") }
            _ => self.word(CALLEES),
        }
        self.t("(");
        self.args(depth, ")");
        if self.r.chance(1, 16) { self.t("("); self.args(depth.min(1), ")") }
    }
    pub fn expr(&mut self, depth: u32) {
        self.budget -= 1;
        if depth == 0 || self.budget < 0 { return self.atom() }
        let d = depth - 1;
        match self.r.below(24) {
            0..=2 => self.atom(),
            3..=8 => self.call(depth),
            9..=11 => { self.expr(d); let op = self.r.word(OPS).to_string(); self.tn(&op); self.expr(d) }
            12 => { self.expr(d); let op = self.r.word(COMPARE).to_string(); self.tn(&op); self.atom() }
            13 => { let op = self.r.word(&["-", "+", "!", "~", "!!", "!!!"]).to_string(); for c in op.chars() { self.tn(&c.to_string()) } self.expr(d) }
            14 => { self.t("("); if self.r.chance(1, 6) { self.statement(d) } else { self.expr(d) } self.t(")") }
            15 => self.function(depth),
            16 => self.control(depth),
            17 => self.braces(d),
            18 => { self.word(&NAMES[..20]); let op = *self.r.pick(&["$", "@"]); self.t(op); self.word(&["x", "y", "`odd name`", "\"string\"", "slot"]) }
            19 => { self.word(&["pkg", "stats", "\"pkg\""]); let op = *self.r.pick(&["::", ":::"]); self.t(op); self.word(&["f", "x", "`odd`"]) }
            20 => { self.word(&NAMES[..20]); self.t("["); self.args(d, "]") }
            21 => { self.word(&NAMES[..20]); self.t("[["); self.args(d.min(1), "]]") }
            22 => self.chain(depth),
            _ => { self.word(&NAMES[..20]); let op = *self.r.pick(&["<-", "?", ":"]); self.tn(op); self.expr(d) }
        }
    }
}

/// How a token list is laid out.
#[derive(Clone, Debug)]
pub struct Layout {
    /// per mille, at every place where the grammar allows it
    pub newline: usize,
    pub comment: usize,
    pub blank: usize,
    /// additional spaces
    pub space: usize,
    pub tabs: bool,
    pub semicolon: usize,
    /// end of file without a newline, blank lines at the start
    pub edges: bool,
    pub crlf: bool,
}

impl Layout {
    pub fn random(r: &mut Rng, comments: bool) -> Self {
        Layout {
            newline: *r.pick(&[0, 20, 100, 300, 700]),
            comment: if comments { *r.pick(&[5, 30, 100, 300]) } else { 0 },
            blank: *r.pick(&[0, 0, 200, 500]),
            space: *r.pick(&[0, 50, 300, 800]),
            tabs: r.chance(1, 4),
            semicolon: *r.pick(&[0, 0, 100, 400]),
            edges: r.chance(1, 3),
            crlf: r.chance(1, 8),
        }
    }
}

const COMMENTS: &[&str] = &[
    "# note", "#' roxygen @param", "#", "##", "#!", "#| label: x", "# with trailing   ", "#nospace", "# \"quoted\" (paren] {brace", "# ünïcödé 😀", "#\ttab", "# a comment which is quite long, longer than many a line width that is set in the options",
    "# fmt", "# styler: off", "# x <- 1", "#######",
];

fn word_like(c: char) -> bool {
    c.is_alphanumeric() || matches!(c, '_' | '.' | '"' | '\'' | '`')
}

/// Whether two tokens may be written without a space between them.
fn may_touch(a: &str, b: &str) -> bool {
    let (x, y) = (a.chars().last().unwrap_or(' '), b.chars().next().unwrap_or(' '));
    if "([{,".contains(x) || ")]},".contains(y) { return true }
    if "([".contains(y) { return word_like(x) || x == ')' || x == ']' || x == '\\' }
    // an operator beside a word
    (word_like(x) && "+-*/^:$@~!=&|,?".contains(y) && !x.is_ascii_digit()) || ("+-*/^:$@~!=&|?".contains(x) && word_like(y) && y != '.')
}

pub fn render(toks: &[Tok], r: &mut Rng, l: &Layout) -> String {
    let mut out = String::new();
    let mut scopes: Vec<char> = vec![];
    let mut counter = 0;
    let mut comment = |r: &mut Rng| {
        counter += 1;
        format!("{} {counter}{}", r.word(COMMENTS), if r.chance(1, 10) { "  " } else { "" })
    };
    if l.edges {
        for _ in 0..r.below(3) { out.push_str(if r.bool() { "\n" } else { "  \n" }) }
    }
    if r.chance(l.comment, 1000) { out += &comment(r); out.push('\n') }
    let spaces = |r: &mut Rng, out: &mut String, least: usize| {
        let n = if r.chance(l.space, 1000) { r.range(1, 4) } else { 0 };
        for _ in 0..n.max(least) { out.push(if l.tabs && r.bool() { '\t' } else { ' ' }) }
    };
    let mut lines = |r: &mut Rng, out: &mut String, forced: bool, allowed: bool| -> bool {
        let mut broke = false;
        if (allowed || forced) && r.chance(l.comment, 1000) {
            out.push_str(r.word(&["", " ", "  "]));
            *out += &comment(r);
            out.push('\n');
            broke = true;
            while r.chance(l.comment, 1500) {
                spaces(r, out, 0);
                *out += &comment(r);
                out.push('\n');
                if r.chance(l.blank, 1500) { out.push('\n') }
            }
        }
        if forced || (allowed && r.chance(l.newline, 1000)) {
            if !broke || r.bool() { out.push('\n') }
            broke = true;
        }
        if broke && r.chance(l.blank, 1000) {
            for _ in 0..r.range(1, 3) { out.push_str(r.word(&["\n", "\n", " \n"])) }
        }
        if broke { for _ in 0..r.below(3) { out.push_str(r.word(&["  ", "", "    "])) } }
        broke
    };
    let inner = |scopes: &Vec<char>| matches!(scopes.last(), Some('(' | '['));
    let mut i = 0;
    while i < toks.len() {
        match &toks[i] {
            Tok::Sep => {
                // within parentheses a brace scope is open, or this is the top level
                if r.chance(l.semicolon, 1000) {
                    out.push_str(r.word(&[";", "; ", " ;", ";;", ";\n"]));
                } else {
                    lines(r, &mut out, true, true);
                }
            }
            Tok::Soft => {
                let least = usize::from(r.bool());
                if !lines(r, &mut out, false, true) { spaces(r, &mut out, least) }
            }
            Tok::Else => {
                out.push(' ');
                lines(r, &mut out, false, !scopes.is_empty());
                out.push_str("else");
                out.push(' ');
                lines(r, &mut out, false, true);
            }
            Tok::T(t, nl) => {
                match t.as_str() {
                    "(" | "[" | "{" => scopes.push(t.chars().next().unwrap()),
                    "[[" => scopes.push('['),
                    ")" | "]" | "]]" | "}" => { scopes.pop(); }
                    _ => {}
                }
                out.push_str(t);
                let Some(next) = toks.get(i + 1) else { i += 1; continue };
                let Tok::T(next, _) = next else { i += 1; continue };
                let free = *nl || inner(&scopes);
                if !lines(r, &mut out, false, free) {
                    let tight = may_touch(t, next) && (l.space < 800 || r.bool());
                    let cozy = matches!(next.as_str(), "," | ")" | "]" | "]]" | "(" | "[" | "[[" | "$" | "@" | "::" | ":::") || matches!(t.as_str(), "(" | "[" | "[[" | "$" | "@" | "::" | ":::" | "!" | "\\");
                    let least = if tight && (cozy || r.chance(1, 4)) { 0 } else { 1 };
                    spaces(r, &mut out, least);
                }
            }
        }
        i += 1;
    }
    if r.chance(l.comment, 1000) { out.push_str("  "); out += &comment(r) }
    match if l.edges { r.below(4) } else { 3 } {
        0 => {}
        1 => out.push_str("\n\n\n"),
        2 => { out.push_str("\n\n"); out += &if l.comment > 0 { comment(r) } else { String::new() } }
        _ => out.push('\n'),
    }
    if l.crlf { out = out.replace("\r\n", "\n").replace('\n', "\r\n") }
    out
}

/// A random program, possibly invalid.
pub fn program(r: &mut Rng, comments: bool) -> String {
    let statements = *r.pick(&[1, 1, 2, 3, 6]);
    let budget = *r.pick(&[6, 15, 40, 90]);
    let toks = {
        let mut g = Gen::new(r, budget);
        g.program(statements);
        g.out
    };
    let layout = Layout::random(r, comments);
    render(&toks, r, &layout)
}
