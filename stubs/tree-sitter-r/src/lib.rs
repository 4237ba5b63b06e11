//! Stand-in for tree-sitter-r: a hand-written parser of R that builds the same trees, for
//! programs without syntax errors. A program with one gives a tree that only says so.

use tree_sitter::{LanguageFn, RawNode, RawTree};

pub const LANGUAGE: LanguageFn = LanguageFn(parse);

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum T {
    Newline,
    Semicolon,
    /// Keyword, operator or bracket: kind of the anonymous node.
    P(&'static str),
    Special,
    Ident,
    Dots,
    DotDotI,
    Float,
    Integer,
    Complex,
    /// Lengths of the opening and closing delimiter.
    Str(u8, u8),
    Na(&'static str),
    Const(&'static str),
    Eof,
}

#[derive(Clone, Copy)]
struct Token {
    t: T,
    start: usize,
    end: usize,
    /// How many scopes are open.
    depth: usize,
}

struct Failed;
type R<X> = Result<X, Failed>;

fn ident_start(c: char) -> bool {
    c.is_alphabetic() || c == '.'
}
fn ident_continue(c: char) -> bool {
    c.is_alphanumeric()
        || matches!(c, '.' | '_' | '\u{b7}' | '\u{387}' | '\u{300}'..='\u{36f}' | '\u{203f}' | '\u{2040}')
}

struct Lexer<'a> {
    text: &'a str,
    pos: usize,
    scopes: Vec<&'static str>,
    tokens: Vec<Token>,
    comments: Vec<(usize, usize)>,
}

impl<'a> Lexer<'a> {
    fn rest(&self) -> &'a str {
        &self.text[self.pos..]
    }

    fn run(mut self) -> R<(Vec<Token>, Vec<(usize, usize)>)> {
        loop {
            let rest = self.rest();
            let Some(c) = rest.chars().next() else { break };
            let start = self.pos;
            match c {
                ' ' | '\t' | '\x0c' | '\r' => self.pos += 1,
                '\n' => {
                    self.pos += 1;
                    if self.scopes.last().is_none_or(|scope| *scope == "{") {
                        self.push(T::Newline, start);
                    }
                }
                '#' => {
                    let len = rest.find('\n').unwrap_or(rest.len());
                    // The line ending is not part of the comment, a carriage return included.
                    let len = if rest[..len].ends_with('\r') { len - 1 } else { len };
                    self.pos += len;
                    self.comments.push((start, self.pos));
                }
                ';' => {
                    self.pos += 1;
                    self.push(T::Semicolon, start);
                }
                _ => {
                    let t = self.token(c)?;
                    self.push(t, start);
                }
            }
        }
        if !self.scopes.is_empty() {
            return Err(Failed);
        }
        self.push(T::Eof, self.pos);
        Ok((self.tokens, self.comments))
    }

    fn push(&mut self, t: T, start: usize) {
        self.tokens.push(Token { t, start, end: self.pos, depth: self.scopes.len() });
    }

    fn token(&mut self, c: char) -> R<T> {
        let rest = self.rest();
        let bytes = rest.as_bytes();
        if c == '"' || c == '\'' {
            return self.string(c);
        }
        if (c == 'r' || c == 'R') && matches!(bytes.get(1), Some(b'"' | b'\'')) {
            return self.raw_string();
        }
        if c == '`' {
            let mut chars = rest.char_indices().skip(1);
            while let Some((i, c)) = chars.next() {
                match c {
                    '\\' => {
                        chars.next();
                    }
                    '`' => {
                        self.pos += i + 1;
                        return Ok(T::Ident);
                    }
                    _ => {}
                }
            }
            return Err(Failed);
        }
        if c.is_ascii_digit() || (c == '.' && bytes.get(1).is_some_and(u8::is_ascii_digit)) {
            return Ok(self.number());
        }
        if c == '_' {
            let next = rest[1..].chars().next();
            if next.is_some_and(ident_continue) {
                return Err(Failed);
            }
            self.pos += 1;
            return Ok(T::Ident);
        }
        if ident_start(c) {
            let len = rest.find(|c| !ident_continue(c)).unwrap_or(rest.len());
            self.pos += len;
            return Ok(word(&rest[..len]));
        }
        if c == '%' {
            let len = rest[1..].find(['%', '\n']).ok_or(Failed)? + 2;
            if !rest[..len].ends_with('%') {
                return Err(Failed);
            }
            self.pos += len;
            return Ok(T::Special);
        }
        let top = self.scopes.last().copied();
        let op = match c {
            ']' => match top {
                Some("[[") if rest.starts_with("]]") => "]]",
                Some("[") => "]",
                _ => return Err(Failed),
            },
            _ => *[
                "->>", "<<-", ":::", "->", "<-", ":=", "::", "<=", ">=", "==", "!=", "||", "&&",
                "|>", "**", "[[", "{", "}", "(", ")", "[", "?", "~", "=", "|", "&", "<", ">", "+",
                "-", "*", "/", "^", ":", "$", "@", "!", ",", "\\",
            ]
            .iter()
            .find(|op| rest.starts_with(**op))
            .ok_or(Failed)?,
        };
        match op {
            "{" | "(" | "[" | "[[" => self.scopes.push(op),
            "}" | ")" | "]" | "]]" => {
                let open = match op {
                    "}" => "{",
                    ")" => "(",
                    "]" => "[",
                    _ => "[[",
                };
                if self.scopes.pop() != Some(open) {
                    return Err(Failed);
                }
            }
            _ => {}
        }
        self.pos += op.len();
        Ok(T::P(op))
    }

    fn string(&mut self, quote: char) -> R<T> {
        let mut chars = self.rest().char_indices().skip(1);
        while let Some((i, c)) = chars.next() {
            if c == '\\' {
                chars.next();
            } else if c == quote {
                self.pos += i + 1;
                return Ok(T::Str(1, 1));
            }
        }
        Err(Failed)
    }

    fn raw_string(&mut self) -> R<T> {
        let rest = self.rest();
        let quote = &rest[1..2];
        let dashes = rest[2..].len() - rest[2..].trim_start_matches('-').len();
        let close = match rest[2 + dashes..].chars().next() {
            Some('(') => ")",
            Some('[') => "]",
            Some('{') => "}",
            _ => return Err(Failed),
        };
        let open_len = 3 + dashes;
        let closing = format!("{close}{}{quote}", "-".repeat(dashes));
        let content = rest[open_len..].find(&closing).ok_or(Failed)?;
        self.pos += open_len + content + closing.len();
        Ok(T::Str(open_len as u8, closing.len() as u8))
    }

    fn number(&mut self) -> T {
        let bytes = self.rest().as_bytes();
        let at = |i: usize| bytes.get(i).copied().unwrap_or(0);
        let mut i = 0;
        if at(0) == b'0' && matches!(at(1), b'x' | b'X') {
            i = 2;
            while at(i).is_ascii_hexdigit() || at(i) == b'.' {
                i += 1;
            }
            if matches!(at(i), b'p' | b'P') {
                i += 1;
                if matches!(at(i), b'+' | b'-') {
                    i += 1;
                }
                while at(i).is_ascii_digit() {
                    i += 1;
                }
            }
        } else {
            while at(i).is_ascii_digit() {
                i += 1;
            }
            if at(i) == b'.' {
                i += 1;
                while at(i).is_ascii_digit() {
                    i += 1;
                }
            }
            if matches!(at(i), b'e' | b'E') {
                let sign = usize::from(matches!(at(i + 1), b'+' | b'-'));
                i += 1 + sign;
                while at(i).is_ascii_digit() {
                    i += 1;
                }
            }
        }
        let t = match at(i) {
            b'L' => T::Integer,
            b'i' => T::Complex,
            _ => T::Float,
        };
        self.pos += i + usize::from(t != T::Float);
        t
    }
}

fn word(word: &str) -> T {
    match word {
        "function" => T::P("function"),
        "if" => T::P("if"),
        "else" => T::P("else"),
        "for" => T::P("for"),
        "in" => T::P("in"),
        "while" => T::P("while"),
        "repeat" => T::P("repeat"),
        "next" => T::Const("next"),
        "break" => T::Const("break"),
        "TRUE" => T::Const("true"),
        "FALSE" => T::Const("false"),
        "NULL" => T::Const("null"),
        "Inf" => T::Const("inf"),
        "NaN" => T::Const("nan"),
        "NA" => T::Na("NA"),
        "NA_integer_" => T::Na("NA_integer_"),
        "NA_real_" => T::Na("NA_real_"),
        "NA_complex_" => T::Na("NA_complex_"),
        "NA_character_" => T::Na("NA_character_"),
        "..." => T::Dots,
        _ => match word.strip_prefix("..") {
            Some(digits) if !digits.is_empty() && digits.bytes().all(|b| b.is_ascii_digit()) => {
                T::DotDotI
            }
            _ => T::Ident,
        },
    }
}

/// Left and right binding power.
fn binary(t: T) -> Option<(u8, u8)> {
    let left = |rank: u8| Some((rank * 2, rank * 2 + 1));
    let right = |rank: u8| Some((rank * 2, rank * 2));
    match t {
        T::Special => left(13),
        T::P(op) => match op {
            "?" => left(1),
            "=" => right(3),
            "<-" | "<<-" | ":=" => right(4),
            "->" | "->>" => left(5),
            "~" => left(6),
            "|" | "||" => left(7),
            "&" | "&&" => left(8),
            "<" | ">" | "<=" | ">=" | "==" | "!=" => left(10),
            "+" | "-" => left(11),
            "*" | "/" => left(12),
            "|>" => left(13),
            ":" => left(14),
            "^" | "**" => right(16),
            "$" | "@" => left(17),
            _ => None,
        },
        _ => None,
    }
}

const LOW: u8 = 4;
const POSTFIX: u8 = 40;

struct Parser {
    tokens: Vec<Token>,
    pos: usize,
    nodes: Vec<RawNode>,
}

impl Parser {
    fn peek(&self) -> T {
        self.tokens[self.pos].t
    }
    fn at(&self, p: &str) -> bool {
        matches!(self.peek(), T::P(q) if p == q)
    }
    fn newlines(&mut self) {
        while self.peek() == T::Newline {
            self.pos += 1;
        }
    }
    fn separators(&mut self) {
        while matches!(self.peek(), T::Newline | T::Semicolon) {
            self.pos += 1;
        }
    }

    fn add(&mut self, kind: &'static str, named: bool, start: usize, end: usize) -> u32 {
        self.nodes.push(RawNode { kind, named, start, end, field: None, children: Vec::new() });
        self.nodes.len() as u32 - 1
    }
    fn leaf(&mut self, kind: &'static str, named: bool) -> u32 {
        let token = self.tokens[self.pos];
        self.pos += 1;
        self.add(kind, named, token.start, token.end)
    }
    fn anonymous(&mut self) -> u32 {
        match self.peek() {
            T::P(",") => self.leaf("comma", true),
            T::P(kind) => self.leaf(kind, false),
            T::Special => self.leaf("special", true),
            _ => unreachable!(),
        }
    }
    fn expect(&mut self, p: &str) -> R<u32> {
        if self.at(p) { Ok(self.anonymous()) } else { Err(Failed) }
    }
    fn node(&mut self, kind: &'static str, children: Vec<u32>) -> u32 {
        let start = self.nodes[children[0] as usize].start;
        let end = self.nodes[*children.last().unwrap() as usize].end;
        let id = self.add(kind, true, start, end);
        self.nodes[id as usize].children = children;
        id
    }
    fn field(&mut self, id: u32, name: &'static str) -> u32 {
        self.nodes[id as usize].field = Some(name);
        id
    }

    fn program(&mut self, len: usize) -> R<()> {
        // The root is there already.
        self.separators();
        let mut children = Vec::new();
        while self.peek() != T::Eof {
            // As in tree-sitter-r, nothing has to separate two expressions.
            children.push(self.expr(0)?);
            self.separators();
        }
        self.nodes[0].end = len;
        self.nodes[0].children = children;
        Ok(())
    }

    fn expr(&mut self, min: u8) -> R<u32> {
        let mut left = self.prefix()?;
        loop {
            let t = self.peek();
            if let T::P(open @ ("(" | "[" | "[[")) = t {
                if POSTFIX < min {
                    break;
                }
                let (kind, args, close) = match open {
                    "(" => ("call", "call_arguments", ")"),
                    "[" => ("subset", "subset_arguments", "]"),
                    _ => ("subset2", "subset2_arguments", "]]"),
                };
                let arguments = self.arguments(args, close)?;
                let function = self.field(left, "function");
                let arguments = self.field(arguments, "arguments");
                left = self.node(kind, vec![function, arguments]);
                continue;
            }
            let Some((lbp, rbp)) = binary(t) else { break };
            if lbp < min {
                break;
            }
            let op = self.anonymous();
            let op = self.field(op, "operator");
            let before = self.pos;
            self.newlines();
            if matches!(t, T::P("$" | "@")) {
                // As in tree-sitter-r, the right-hand side is optional.
                let mut children = vec![self.field(left, "lhs"), op];
                match self.selector() {
                    Ok(right) => children.push(self.field(right, "rhs")),
                    Err(Failed) => self.pos = before,
                }
                left = self.node("extract_operator", children);
                continue;
            }
            let right = self.expr(rbp)?;
            let (left_, right) = (self.field(left, "lhs"), self.field(right, "rhs"));
            left = self.node("binary_operator", vec![left_, op, right]);
        }
        Ok(left)
    }

    fn selector(&mut self) -> R<u32> {
        match self.peek() {
            T::Ident => Ok(self.leaf("identifier", true)),
            T::Str(..) => Ok(self.string()),
            T::Dots => Ok(self.leaf("dots", true)),
            T::DotDotI => Ok(self.leaf("dot_dot_i", true)),
            _ => Err(Failed),
        }
    }

    fn string(&mut self) -> u32 {
        let Token { t, start, end, .. } = self.tokens[self.pos];
        self.pos += 1;
        let T::Str(open, close) = t else { unreachable!() };
        let (open, close) = (start + open as usize, end - close as usize);
        let mut children = vec![self.add("string_open", true, start, open)];
        if open < close {
            let content = self.add("string_content", true, open, close);
            children.push(self.field(content, "content"));
        }
        children.push(self.add("string_close", true, close, end));
        self.node("string", children)
    }

    fn prefix(&mut self) -> R<u32> {
        match self.peek() {
            T::Ident | T::Str(..) | T::Dots | T::DotDotI => {
                let left = self.selector()?;
                if !self.at("::") && !self.at(":::") {
                    return Ok(left);
                }
                let op = self.anonymous();
                let mut children = vec![self.field(left, "lhs"), self.field(op, "operator")];
                if let Ok(right) = self.selector() {
                    children.push(self.field(right, "rhs"));
                }
                if self.at("::") || self.at(":::") {
                    return Err(Failed);
                }
                Ok(self.node("namespace_operator", children))
            }
            T::Float => Ok(self.leaf("float", true)),
            T::Integer | T::Complex => {
                let kind = if self.peek() == T::Integer { "integer" } else { "complex" };
                let suffix = if kind == "integer" { "L" } else { "i" };
                let id = self.leaf(kind, true);
                let end = self.nodes[id as usize].end;
                let suffix = self.add(suffix, false, end - 1, end);
                self.nodes[id as usize].children.push(suffix);
                Ok(id)
            }
            T::Const(kind) => Ok(self.leaf(kind, true)),
            T::Na(kind) => {
                let inner = self.leaf(kind, false);
                Ok(self.node("na", vec![inner]))
            }
            T::P(p) => self.construct(p),
            T::Special | T::Newline | T::Semicolon | T::Eof => Err(Failed),
        }
    }

    fn construct(&mut self, p: &str) -> R<u32> {
        match p {
            "+" | "-" | "!" | "~" | "?" => {
                let power = match p {
                    "+" | "-" => 15,
                    "!" => 9,
                    "~" => 6,
                    _ => 1,
                } * 2
                    + 1;
                let op = self.anonymous();
                let op = self.field(op, "operator");
                self.newlines();
                let rhs = self.expr(power)?;
                let rhs = self.field(rhs, "rhs");
                Ok(self.node("unary_operator", vec![op, rhs]))
            }
            "(" => {
                let open = self.anonymous();
                let body = self.expr(0)?;
                let body = self.field(body, "body");
                let close = self.expect(")")?;
                let open = self.field(open, "open");
                let close = self.field(close, "close");
                Ok(self.node("parenthesized_expression", vec![open, body, close]))
            }
            "{" => {
                let open = self.anonymous();
                let mut children = vec![self.field(open, "open")];
                self.separators();
                while !self.at("}") {
                    let expr = self.expr(0)?;
                    children.push(self.field(expr, "body"));
                    self.separators();
                }
                let close = self.anonymous();
                children.push(self.field(close, "close"));
                Ok(self.node("braced_expression", children))
            }
            "function" | "\\" => {
                let name = self.anonymous();
                let name = self.field(name, "name");
                self.newlines();
                let parameters = self.parameters()?;
                let parameters = self.field(parameters, "parameters");
                self.newlines();
                let body = self.expr(LOW)?;
                let body = self.field(body, "body");
                Ok(self.node("function_definition", vec![name, parameters, body]))
            }
            "if" => {
                // Newlines are no tokens in the other scopes, so any scope will do.
                let scoped = self.tokens[self.pos].depth > 0;
                let mut children = vec![self.anonymous()];
                self.newlines();
                let open = self.expect("(")?;
                children.push(self.field(open, "open"));
                let condition = self.expr(0)?;
                children.push(self.field(condition, "condition"));
                let close = self.expect(")")?;
                children.push(self.field(close, "close"));
                self.newlines();
                let consequence = self.expr(LOW)?;
                children.push(self.field(consequence, "consequence"));
                let before = self.pos;
                if scoped {
                    self.newlines();
                }
                if self.at("else") {
                    children.push(self.anonymous());
                    self.newlines();
                    let alternative = self.expr(LOW)?;
                    children.push(self.field(alternative, "alternative"));
                } else {
                    self.pos = before;
                }
                Ok(self.node("if_statement", children))
            }
            "for" => {
                let mut children = vec![self.anonymous()];
                self.newlines();
                let open = self.expect("(")?;
                children.push(self.field(open, "open"));
                if self.peek() != T::Ident {
                    return Err(Failed);
                }
                let variable = self.leaf("identifier", true);
                children.push(self.field(variable, "variable"));
                children.push(self.expect("in")?);
                let sequence = self.expr(0)?;
                children.push(self.field(sequence, "sequence"));
                let close = self.expect(")")?;
                children.push(self.field(close, "close"));
                self.newlines();
                let body = self.expr(LOW)?;
                children.push(self.field(body, "body"));
                Ok(self.node("for_statement", children))
            }
            "while" => {
                let mut children = vec![self.anonymous()];
                self.newlines();
                let open = self.expect("(")?;
                children.push(self.field(open, "open"));
                let condition = self.expr(0)?;
                children.push(self.field(condition, "condition"));
                let close = self.expect(")")?;
                children.push(self.field(close, "close"));
                self.newlines();
                let body = self.expr(LOW)?;
                children.push(self.field(body, "body"));
                Ok(self.node("while_statement", children))
            }
            "repeat" => {
                let repeat = self.anonymous();
                self.newlines();
                let body = self.expr(LOW)?;
                let body = self.field(body, "body");
                Ok(self.node("repeat_statement", vec![repeat, body]))
            }
            _ => Err(Failed),
        }
    }

    fn parameters(&mut self) -> R<u32> {
        let open = self.expect("(")?;
        let mut children = vec![self.field(open, "open")];
        if !self.at(")") {
            loop {
                let name = match self.peek() {
                    T::Ident => self.leaf("identifier", true),
                    T::Dots => self.leaf("dots", true),
                    T::DotDotI => self.leaf("dot_dot_i", true),
                    _ => return Err(Failed),
                };
                let mut parts = vec![self.field(name, "name")];
                if self.at("=") {
                    parts.push(self.anonymous());
                    let default = self.expr(0)?;
                    parts.push(self.field(default, "default"));
                }
                let parameter = self.node("parameter", parts);
                children.push(self.field(parameter, "parameter"));
                if !self.at(",") {
                    break;
                }
                children.push(self.anonymous());
            }
        }
        let close = self.expect(")")?;
        children.push(self.field(close, "close"));
        Ok(self.node("parameters", children))
    }

    fn arguments(&mut self, kind: &'static str, close: &str) -> R<u32> {
        let open = self.anonymous();
        let mut children = vec![self.field(open, "open")];
        loop {
            if self.at(",") {
                children.push(self.anonymous());
                continue;
            }
            if self.at(close) {
                break;
            }
            let named = matches!(
                self.peek(),
                T::Ident | T::Str(..) | T::Dots | T::DotDotI | T::Const("null")
            ) && self.tokens[self.pos + 1].t == T::P("=");
            let mut parts = Vec::new();
            if named {
                let name = if self.peek() == T::Const("null") {
                    self.leaf("null", true)
                } else {
                    self.selector()?
                };
                parts.push(self.field(name, "name"));
                parts.push(self.anonymous());
            }
            if !named || (!self.at(",") && !self.at(close)) {
                let value = self.expr(0)?;
                parts.push(self.field(value, "value"));
            }
            let argument = self.node("argument", parts);
            children.push(self.field(argument, "argument"));
            if !self.at(",") && !self.at(close) {
                return Err(Failed);
            }
        }
        let close = self.anonymous();
        children.push(self.field(close, "close"));
        Ok(self.node(kind, children))
    }
}

/// Puts each comment into the innermost node with something on both sides of it.
fn place_comments(nodes: &mut Vec<RawNode>, comments: &[(usize, usize)]) {
    for &(start, end) in comments {
        let mut at = 0u32;
        let index = loop {
            let children = &nodes[at as usize].children;
            let index = children.partition_point(|c| nodes[*c as usize].start < start);
            if let Some(i) = index.checked_sub(1)
                && nodes[children[i] as usize].end > end
            {
                at = children[i];
                continue;
            }
            break index;
        };
        nodes.push(RawNode {
            kind: "comment",
            named: true,
            start,
            end,
            field: None,
            children: Vec::new(),
        });
        let id = nodes.len() as u32 - 1;
        nodes[at as usize].children.insert(index, id);
    }
}

fn parse(text: &str) -> RawTree {
    let failed = || RawTree {
        nodes: vec![RawNode {
            kind: "ERROR",
            named: true,
            start: 0,
            end: text.len(),
            field: None,
            children: Vec::new(),
        }],
        has_error: true,
    };
    let lexer = Lexer {
        text,
        pos: 0,
        scopes: Vec::new(),
        tokens: Vec::new(),
        comments: Vec::new(),
    };
    let Ok((tokens, comments)) = lexer.run() else { return failed() };
    let many = tokens.len() > 2000;
    let run = move || {
        let mut parser = Parser { tokens, pos: 0, nodes: Vec::new() };
        parser.add("program", true, 0, text.len());
        let done = parser.program(text.len()).is_ok();
        (done, parser.nodes)
    };
    // Recursive: long programs may be deep.
    let (done, mut nodes) = if many {
        std::thread::scope(|scope| {
            std::thread::Builder::new()
                .stack_size(1 << 30)
                .spawn_scoped(scope, run)
                .expect("a thread")
                .join()
                .expect("no panic")
        })
    } else {
        run()
    };
    if !done {
        return failed();
    }
    place_comments(&mut nodes, &comments);
    RawTree { nodes, has_error: false }
}
