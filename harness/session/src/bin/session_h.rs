//! X01-X04: language server sessions.
use rfmt::corpus::Corpus;
use rfmt::cst::{self, Assign, Cst, Seen};
use rfmt::settings::Settings;
use rfmt::{Outcome, first_difference, format, generate, on_large_stack};
use serde_json::{Value, json};
use session::client::{Client, Fault};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use tower_lsp::lsp_types::{Range, TextEdit};
use utils::buffer::{self, Units};
use vkit::*;

/// Which property a mismatch belongs to, key, detail.
type Bad = (&'static str, String, String);

fn bad<T>(prop: &'static str, key: &str, detail: String) -> Result<T, Bad> {
    Err((prop, key.into(), detail))
}

fn protocol(f: Fault) -> Bad {
    ("X01", f.0, f.1)
}

#[derive(Clone, Debug, PartialEq)]
struct Toml {
    s: Settings,
    exclude: bool,
    default_exclude: bool,
}

impl Toml {
    fn text(&self) -> String {
        let mut t = self.s.toml();
        if self.exclude { t += "exclude = [\"skipme*\"]\n" }
        if !self.default_exclude { t += "default-exclude = false\n" }
        t
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind { File, Untitled, Notebook }

struct Doc {
    uri: String,
    path: PathBuf,
    kind: Kind,
    /// with `\n`
    text: String,
    eol: &'static str,
    version: i32,
    before: Vec<String>,
}

impl Doc {
    fn raw(&self) -> String {
        if self.eol == "\n" { self.text.clone() } else { self.text.replace('\n', self.eol) }
    }
}

/// What a request is to be answered with.
enum Want {
    /// document, its text when it was asked, the text after, the texts under other settings, and what the case is
    Text { prop: &'static str, raw: String, eol: &'static str, notebook: bool, want: Option<String>, others: Vec<(String, String)>, what: String },
    /// what may not change, and the program
    Range { raw: String, eol: &'static str, prefix: String, suffix: String, text: String, assign: Assign, what: String },
    View { want: String, what: String },
    Error { code: Option<i64>, what: String },
    /// a result or "cancelled"
    Any,
    Ok,
}

struct Session<'a> {
    r: Rng,
    prop: &'a str,
    c: Client,
    corpus: &'a Corpus,
    root: PathBuf,
    units: Units,
    docs: Vec<Doc>,
    closed: u64,
    /// toml files as they are: directory -> settings
    tomls: BTreeMap<PathBuf, (bool, Toml)>,
    /// open folders, each with what governed it when it was last looked at
    folders: BTreeMap<PathBuf, Option<Toml>>,
    /// settings that were in force once
    history: Vec<Toml>,
    wants: BTreeMap<i64, Want>,
    sync: bool,
    /// whether the server has been told so
    sync_known: bool,
    n: BTreeMap<&'static str, u64>,
    trace: Vec<String>,
}

fn plain() -> Settings {
    Settings { default_table: true, assign: Assign::Arrow, ..Settings::default() }
}

/// Each node on a line: four columns per level, field, kind, and where it is, counted in `text` itself.
fn nodes(text: &str) -> Option<String> {
    let mut parser = tree_sitter::Parser::new();
    parser.set_language(&tree_sitter_r::LANGUAGE.into()).ok()?;
    let tree = parser.parse(text, None)?;
    if tree.root_node().has_error() { return Some("*Parse error*".into()) }
    let place = |at: usize| { let line = text[..at].rfind('\n').map_or(0, |k| k + 1); format!("[{}, {}]", text[..at].matches('\n').count(), at - line) };
    let mut out = String::new();
    let mut todo = vec![(tree.root_node(), 0)];
    while let Some((node, depth)) = todo.pop() {
        let field = node.parent().and_then(|p| {
            let mut c = p.walk();
            if !c.goto_first_child() { return None }
            loop { if c.node().id() == node.id() { return c.field_name() } if !c.goto_next_sibling() { return None } }
        });
        let field = field.map_or(String::new(), |f| format!("{f}: "));
        out += &format!("{}{field}{} {} - {}\n", "    ".repeat(depth), node.kind(), place(node.start_byte()), place(node.end_byte()));
        for k in (0..node.child_count()).rev() { todo.push((node.child(k)?, depth + 1)) }
    }
    Some(out)
}

fn view(kind: &str, text: &str) -> Option<Result<String, ()>> {
    use air_r_formatter::context::RFormatOptions;
    if kind == "TreeSitter" { return nodes(text).map(Ok) }
    let parse = air_r_parser::parse(text, Default::default());
    if parse.has_error() { return Some(Ok("*Parse error*".into())) }
    Some(match kind {
        "SyntaxTree" => Ok(format!("{:#?}", parse.syntax())),
        _ => {
            let width = settings::LineWidth::try_from(80).ok()?;
            let o = RFormatOptions::default().with_indent_style(settings::IndentStyle::Space).with_line_width(width);
            match air_r_formatter::format_node(o, &parse.syntax()) {
                Ok(f) => Ok(format!("{}", f.into_document())),
                Err(_) => Err(()),
            }
        }
    })
}

/// The range of a statement with the comments that go with it; of `\n` text.
fn extent(c: &Cst, i: usize) -> (usize, usize) {
    let s = c.root.statements();
    let prev = if i == 0 { 0 } else { s[i - 1].end };
    let from = if i == 0 { 0 } else { c.src[prev..s[i].start].find('\n').map_or(s[i].start, |k| prev + k) };
    let start = c.comments.iter().find(|k| k.0 >= from && k.0 < s[i].start).map_or(s[i].start, |k| k.0);
    let line = c.src[s[i].end..].find('\n').map_or(c.src.len(), |k| s[i].end + k);
    let next = s.get(i + 1).map_or(c.src.len(), |n| n.start);
    let end = c.comments.iter().find(|k| k.0 >= s[i].end && k.0 < line.min(next)).map_or(s[i].end, |k| k.1);
    (start, end)
}

impl Session<'_> {
    fn count(&mut self, what: &'static str) {
        *self.n.entry(what).or_default() += 1;
    }

    fn log(&mut self, what: String) {
        if self.trace.len() > 400 { self.trace.remove(0); }
        self.trace.push(what);
    }

    // ------------------------------------------------------------ texts

    fn program(&mut self) -> String {
        for _ in 0..20 {
            let r = &mut self.r;
            let text = match r.below(5) {
                0 | 1 => self.corpus.piece(r),
                _ => generate::program(r, true),
            };
            let mut text = text.replace("\r\n", "\n");
            if text.contains('\r') || text.len() > 3000 { continue }
            if r.chance(1, 8) {
                let line = utils::text::text(r, 1).replace('\n', "");
                text = format!("# {line} 😀é\n{text}");
            }
            if !text.ends_with('\n') && r.chance(3, 4) { text.push('\n') }
            let start = Instant::now();
            if matches!(format(&text, &plain()), Outcome::Panicked(_)) || start.elapsed() > Duration::from_millis(300) { continue }
            return text;
        }
        "x <- 1\n".into()
    }

    /// An edit of a text: (from, to, new).
    fn edit(&mut self, text: &str) -> (usize, usize, String) {
        let starts: Vec<usize> = std::iter::once(0).chain(text.match_indices('\n').map(|m| m.0 + 1)).collect();
        let stmts: Vec<usize> = match cst::parse(text) {
            Some(c) => c.root.statements().iter().map(|s| text[..s.start].rfind('\n').map_or(0, |i| i + 1)).collect(),
            None => starts.clone(),
        };
        let stmts = if stmts.is_empty() { vec![0] } else { stmts };
        match self.r.below(8) {
            // typing
            0 => {
                let b = utils::text::boundaries(text);
                let i = *self.r.pick(&b);
                (i, i, self.r.word(&["a", "\n", " ", "é", "😀", "1", "(", "\"", "x\n", "# y\n"]).into())
            }
            1 => {
                let b = utils::text::boundaries(text);
                let (i, j) = (self.r.below(b.len()), self.r.below(6));
                (b[i], b[(i + j).min(b.len() - 1)], self.r.word(&["", "b", "\n"]).into())
            }
            // a comment line
            2 => {
                let i = *self.r.pick(&stmts);
                let line = utils::text::text(&mut self.r, 1).replace('\n', "");
                (i, i, format!("# {line}\n"))
            }
            // statements
            3 | 4 => {
                let i = *self.r.pick(&stmts);
                let mut p = self.program();
                if !p.ends_with('\n') { p.push('\n') }
                (i, i, p)
            }
            5 => {
                let (i, j) = (*self.r.pick(&stmts), *self.r.pick(&stmts));
                (i.min(j), i.max(j), String::new())
            }
            6 => {
                let i = *self.r.pick(&starts);
                (i, i, self.r.word(&["\n", "\n\n", "  ", "\t"]).into())
            }
            _ => {
                let p = self.program();
                let end = text.len();
                (*self.r.pick(&stmts), end, p)
            }
        }
    }

    // ------------------------------------------------------------ settings

    fn found(&self, folder: &Path) -> Option<Toml> {
        folder.ancestors().find_map(|d| self.tomls.get(d)).map(|t| t.1.clone())
    }

    fn governing(&self, d: &Doc) -> Option<Toml> {
        match d.kind {
            Kind::Notebook => None,
            Kind::Untitled if self.folders.len() == 1 => self.folders.values().next().unwrap().clone(),
            Kind::Untitled => None,
            Kind::File => d.path.ancestors().skip(1).find_map(|p| self.folders.get(p)).cloned().flatten(),
        }
    }

    fn excluded(&self, d: &Doc) -> bool {
        if d.kind == Kind::Untitled { return false }
        let t = self.governing(d);
        let parts: Vec<String> = d.path.strip_prefix(&self.root).unwrap().components().map(|c| c.as_os_str().to_string_lossy().into_owned()).collect();
        let default = t.as_ref().is_none_or(|t| t.default_exclude);
        default && (parts.iter().any(|p| p == "renv") || parts.last().unwrap() == "cpp11.R")
            || t.as_ref().is_some_and(|t| t.exclude) && parts.iter().any(|p| p.starts_with("skipme"))
    }

    fn random_toml(&mut self) -> Toml {
        let mut s = Settings::random(&mut self.r);
        s.width = s.width.max(10);
        if self.r.chance(1, 4) { s.ending = "auto" }
        s.default_table = true;
        Toml { s, exclude: self.r.chance(1, 5), default_exclude: !self.r.chance(1, 6) }
    }

    // ------------------------------------------------------------ operations

    fn pump(&mut self) -> Result<(), Bad> {
        self.c.pump(Duration::ZERO).map_err(protocol)?;
        self.judge()
    }

    fn drain(&mut self) -> Result<(), Bad> {
        self.c.until(|c| c.pending.is_empty()).map_err(protocol)?;
        self.judge()
    }

    fn send(&mut self, method: &str, params: Option<Value>, want: Want) -> i64 {
        let id = self.c.request(method, params);
        self.log(format!("{id} {method}"));
        self.wants.insert(id, want);
        id
    }

    /// Judges the answers that are there.
    fn judge(&mut self) -> Result<(), Bad> {
        let ids: Vec<i64> = self.c.answers.keys().copied().filter(|i| self.wants.contains_key(i)).collect();
        for id in ids {
            let m = self.c.answers.remove(&id).unwrap();
            let w = self.wants.remove(&id).unwrap();
            self.verdict(id, &m, w)?;
        }
        Ok(())
    }

    fn apply(&self, raw: &str, result: &Value) -> Result<Option<String>, String> {
        if result.is_null() { return Ok(None) }
        let edits: Vec<TextEdit> = serde_json::from_value(result.clone()).map_err(|e| format!("{e}: {result}"))?;
        if edits.is_empty() { return Ok(None) }
        buffer::apply_edits(raw, &edits, self.units).map(Some)
    }

    /// Views show the order of messages as well as themselves.
    fn viewer(&self) -> &'static str { if self.prop == "X06" { "X06" } else { "X01" } }

    fn verdict(&mut self, id: i64, m: &Value, w: Want) -> Result<(), Bad> {
        match w {
            Want::Any => match m["error"]["code"].as_i64() {
                None => { self.count("cancelled too late"); Ok(()) }
                Some(-32800) => { self.count("cancelled"); Ok(()) }
                Some(_) => bad("X01", "cancel-error", m.to_string()),
            },
            Want::Ok => if m.get("error").is_some() { bad("X01", "unexpected-error", m.to_string()) } else { Ok(()) },
            Want::Error { code, what } => {
                self.count("errors asked for");
                if m.get("error").is_none() || code.is_some_and(|c| m["error"]["code"].as_i64() != Some(c)) { return bad("X01", "no-error", format!("{what}: {m}")) }
                Ok(())
            }
            Want::View { want, what } => {
                let Some(got) = m["result"].as_str() else { return bad(self.viewer(), "view-error", format!("{what}: {m}")) };
                self.count("views");
                if want != "*Parse error*" { self.count("views of programs") }
                if got != want { return bad(self.viewer(), "view-differs", format!("{id} {what}: {}; expected {}, got {}", first_difference(&want, got), show(&want), show(got))) }
                Ok(())
            }
            Want::Text { prop, raw, eol, notebook, want, others, what } => {
                let Some(result) = m.get("result") else { return bad(prop, "format-error", format!("{what}: {m}; {}", show(&raw))) };
                let got = match self.apply(&raw, result) {
                    Ok(g) => g,
                    Err(e) => return bad(prop, "bad-edits", format!("{what}: {e}; {}", show(&raw))),
                };
                let cut = |s: &str| if notebook { s.trim_end_matches(['\n', '\r']).to_string() } else { s.to_string() };
                let Some(want) = want else {
                    self.count("texts to be left alone");
                    if got.as_ref().is_some_and(|g| *g != raw) { return bad(prop, "edits-for-nothing", format!("{what}: {result}; {}", show(&raw))) }
                    return Ok(());
                };
                let got = got.unwrap_or_else(|| raw.clone());
                // (without a line break there are no line endings)
                let got = if raw.contains('\n') { got } else { got.replace("\r\n", "\n") };
                let eol = if raw.contains('\n') { eol } else { "\n" };
                let expected = want.replace('\n', eol);
                self.count(match prop { "X02" => "documents formatted", _ => "selections formatted" });
                if cut(&expected) != cut(&raw) { self.count("changes") }
                if others.iter().any(|o| o.0 != want) { self.count("answers that depend on the settings") }
                if cut(&got) == cut(&expected) { return Ok(()) }
                if let Some((_, which)) = others.iter().find(|o| cut(&o.0.replace('\n', eol)) == cut(&got)) {
                    return bad("X04", "settings-of-another-moment", format!("{what}: formatted by {which}; {}", show(&raw)));
                }
                let key = if cut(&got.replace(eol, "\n").replace('\r', "")) == cut(&want) { "line-endings" } else if prop == "X02" { "format-differs" } else { "selection-differs" };
                bad(prop, key, format!("{what}: {}; of {} expected {} got {}", first_difference(&expected, &got), show(&raw), show(&expected), show(&got)))
            }
            Want::Range { raw, eol, prefix, suffix, text, assign, what } => {
                let Some(result) = m.get("result") else { return bad("X03", "format-error", format!("{what}: {m}; {}", show(&raw))) };
                let got = match self.apply(&raw, result) {
                    Ok(g) => g.unwrap_or_else(|| raw.clone()),
                    Err(e) => return bad("X03", "bad-edits", format!("{what}: {e}; {}", show(&raw))),
                };
                self.count("selections anywhere");
                if got != raw { self.count("changes") }
                let got = if raw.contains('\n') { got } else { got.replace("\r\n", "\n") };
                let eol = if raw.contains('\n') { eol } else { "\n" };
                // semicolons may go
                let blank = |c: char| c == ';' || c != '\n' && c.is_whitespace();
                let suffix = if suffix.trim_start_matches(blank).len() < suffix.len() { suffix.trim_start_matches(blank).to_string() } else { suffix };
                let detail = || format!("{what}: of {} got {}", show(&raw), show(&got));
                let (p, s) = (prefix.replace('\n', eol), suffix.replace('\n', eol));
                if got.len() < p.len() + s.len() || !got.starts_with(&p) || !got.ends_with(&s) { return bad("X03", "outside-changed", detail()) }
                let lf = got.replace(eol, "\n");
                if lf.contains('\r') || eol == "\r\n" && lf.matches('\n').count() != got.matches("\r\n").count() { return bad("X03", "line-endings", detail()) }
                let (Some(a), Some(b)) = (cst::parse(&text), cst::parse(&lf)) else { return bad("X03", "output-invalid", detail()) };
                if let Err(e) = cst::same(&a, &b, assign, &mut Seen::default()) { return bad("X03", "program-changed", format!("{e}; {}", detail())) }
                let chars = |c: &Cst| { let mut v: Vec<char> = c.comment_texts().concat().chars().filter(|c| !c.is_whitespace()).collect(); v.sort(); v };
                if chars(&a) != chars(&b) { return bad("X03", "comments-changed", detail()) }
                Ok(())
            }
        }
    }

    fn open(&mut self) {
        let names = ["a.R", "b/c.R", "in/d.R", "in/deep/e.R", "renv/f.R", "skipme.R", "in/skipme2.R", "other/g.R", "cpp11.R", "x y/é.R", "inn/h.R"];
        let kind = match self.r.below(10) { 0 => Kind::Untitled, 1 => Kind::Notebook, _ => Kind::File };
        let name = self.r.word(&names).to_string();
        let path = self.root.join("w").join(&name);
        let uri = match kind {
            Kind::File => format!("file://{}", path.display().to_string().replace(' ', "%20").replace('é', "%C3%A9")),
            Kind::Untitled => format!("untitled:Untitled-{}", self.r.below(3)),
            Kind::Notebook => format!("vscode-notebook-cell://{}#W{}s", self.root.join("w/nb.ipynb").display(), self.r.below(3)),
        };
        let path = if kind == Kind::Notebook { self.root.join("w/nb.ipynb") } else { path };
        if self.docs.iter().any(|d| d.uri == uri) { return }
        let text = if self.r.chance(1, 12) { String::new() } else { self.program() };
        let eol = if self.r.chance(1, 3) { "\r\n" } else { "\n" };
        let d = Doc { uri, path, kind, text, eol, version: self.r.below(5) as i32, before: vec![] };
        self.log(format!("open {} {} {}", d.uri, d.version, show(&d.raw())));
        self.c.notify("textDocument/didOpen", json!({"textDocument": {"uri": d.uri, "languageId": "r", "version": d.version, "text": d.raw()}}));
        if self.sync { self.sync_known = true } else { self.sync_known = false }
        self.docs.push(d);
        self.count("documents opened");
    }

    fn close(&mut self, i: usize) {
        let d = self.docs.swap_remove(i);
        self.log(format!("close {}", d.uri));
        self.c.notify("textDocument/didClose", json!({"textDocument": {"uri": d.uri}}));
        self.closed += 1;
        if self.r.chance(1, 4) {
            let what = format!("formatting of {}, which is closed", d.uri);
            self.send("textDocument/formatting", Some(json!({"textDocument": {"uri": d.uri}, "options": {"tabSize": 2, "insertSpaces": true}})), Want::Error { code: None, what });
        }
    }

    fn change(&mut self, i: usize) {
        let mut text = self.docs[i].text.clone();
        let mut eol = self.docs[i].eol;
        let mut changes = vec![];
        for _ in 0..*self.r.pick(&[1, 1, 1, 2, 3, 6]) {
            if self.r.chance(1, 8) {
                // everything, maybe with other line endings
                let whole = self.r.bool();
                let raw = text.replace('\n', eol);
                let all = Range { start: buffer::position(&raw, 0, self.units), end: buffer::position(&raw, raw.len(), self.units) };
                text = if self.r.chance(1, 3) { text } else { self.program() };
                if self.r.chance(1, 3) { eol = if eol == "\n" { "\r\n" } else { "\n" }; self.count("changes of line endings") }
                let new = text.replace('\n', eol);
                changes.push(if whole { json!({"text": new}) } else { json!({"range": all, "text": new}) });
                continue;
            }
            let (from, to, new) = self.edit(&text);
            let mut after = text.clone();
            after.replace_range(from..to, &new);
            if after.len() > 6000 { continue }
            // as the editor has it
            let raw = text.replace('\n', eol);
            let at = |k: usize| k + text[..k].matches('\n').count() * (eol.len() - 1);
            let range = Range { start: buffer::position(&raw, at(from), self.units), end: buffer::position(&raw, at(to), self.units) };
            if !text.contains('\n') && self.r.chance(1, 4) { eol = if eol == "\n" { "\r\n" } else { "\n" } }
            changes.push(json!({"range": range, "text": new.replace('\n', eol)}));
            text = after;
        }
        if changes.is_empty() { return }
        let old = std::mem::replace(&mut self.docs[i].text, text);
        self.docs[i].eol = eol;
        self.docs[i].before.push(old);
        if self.docs[i].before.len() > 3 { self.docs[i].before.remove(0); }
        self.docs[i].version += self.r.range(1, 3) as i32;
        self.send_changes(i, changes);
    }

    fn send_changes(&mut self, i: usize, changes: Vec<Value>) {
        let d = &self.docs[i];
        let (uri, version) = (d.uri.clone(), d.version);
        self.log(format!("change {uri} {version} {}", Value::from(changes.clone())));
        self.c.notify("textDocument/didChange", json!({"textDocument": {"uri": uri, "version": version}, "contentChanges": changes}));
        self.count("change notifications");
    }

    /// Back to a text that was there before, by a whole replacement.
    fn restore(&mut self, i: usize) {
        if let Some(t) = self.docs[i].before.pop() {
            self.docs[i].text = t;
            self.docs[i].version += 1;
            let raw = self.docs[i].raw();
            self.send_changes(i, vec![json!({"text": raw})]);
        }
    }

    fn options(&mut self) -> (Value, Settings) {
        let tab = *self.r.pick(&[2usize, 4, 8, 3, 24, 1, 0, 25, 300, 70000]);
        let spaces = self.r.chance(2, 3);
        let s = Settings { indent: if (1..=24).contains(&tab) { tab as u8 } else { 2 }, tab: !spaces, ..plain() };
        (json!({"tabSize": tab, "insertSpaces": spaces}), s)
    }

    /// The settings for a document, and others it could have been formatted by.
    fn settings(&mut self, i: usize, fallback: &Settings) -> (Settings, Vec<(Settings, String)>) {
        let g = self.governing(&self.docs[i]);
        let mut others = vec![(fallback.clone(), "the request's options".to_string())];
        for t in self.history.iter().chain(self.tomls.values().map(|t| &t.1)) {
            others.push((t.s.clone(), format!("{:?}", t.s)));
        }
        let s = g.map_or_else(|| fallback.clone(), |t| t.s);
        let s = Settings { ending: "lf", ..s };
        let mut seen = vec![s.clone()];
        others.retain_mut(|o| {
            o.0.ending = "lf";
            let new = !seen.contains(&o.0);
            seen.push(o.0.clone());
            new
        });
        others.truncate(4);
        (s, others)
    }

    fn format(&mut self, i: usize) -> Option<i64> {
        let (options, fallback) = self.options();
        let (s, others) = self.settings(i, &fallback);
        let d = &self.docs[i];
        let want = if self.excluded(d) { None } else {
            match format(&d.text, &s) {
                Outcome::Formatted(o) => Some(o),
                Outcome::Refused(_) => None,
                Outcome::Panicked(_) => return None,
            }
        };
        let others = if want.is_some() && self.prop == "X04" {
            others.into_iter().filter_map(|(s, w)| match format(&d.text, &s) { Outcome::Formatted(o) => Some((o, w)), _ => None }).collect()
        } else { vec![] };
        let what = format!("formatting of {} under {}{options}", d.uri, if self.governing(d).is_some() { format!("{s:?}, ") } else { String::new() });
        let w = Want::Text { prop: "X02", raw: d.raw(), eol: d.eol, notebook: d.kind == Kind::Notebook, want, others, what };
        let p = json!({"textDocument": {"uri": d.uri}, "options": options});
        if self.r.chance(1, 25) {
            let id = self.send("textDocument/formatting", Some(p), Want::Any);
            if self.r.bool() { self.c.flush() }
            self.c.notify("$/cancelRequest", json!({"id": id}));
            return None;
        }
        Some(self.send("textDocument/formatting", Some(p), w))
    }

    /// Formats, applies the edits as an editor does, tells the server, and formats again.
    fn format_and_apply(&mut self, i: usize) -> Result<(), Bad> {
        let Some(id) = self.format(i) else { return Ok(()) };
        let m = self.c.wait(id).map_err(protocol)?;
        let w = self.wants.remove(&id).unwrap();
        self.verdict(id, &m, w)?;
        let edits: Vec<TextEdit> = serde_json::from_value(m["result"].clone()).unwrap_or_default();
        if edits.is_empty() { return Ok(()) }
        let raw = self.docs[i].raw();
        let Ok(new) = buffer::apply_edits(&raw, &edits, self.units) else { return Ok(()) };
        let changes: Vec<Value> = if self.r.chance(1, 4) { vec![json!({"text": new})] } else {
            edits.iter().rev().map(|e| json!({"range": e.range, "text": e.new_text})).collect()
        };
        // (the server decides on the first line break)
        if !raw.contains('\n') { self.docs[i].eol = if new.contains("\r\n") { "\r\n" } else { "\n" } }
        let eol = self.docs[i].eol;
        self.docs[i].text = new.replace(eol, "\n");
        self.docs[i].version += 1;
        self.send_changes(i, changes);
        self.count("edits applied");
        self.view(i);
        self.format(i);
        Ok(())
    }

    fn view(&mut self, i: usize) {
        let kind = self.r.word(&["SyntaxTree", "SyntaxTree", "FormatTree", "TreeSitter"]).to_string();
        let place = json!({"line": self.r.below(3), "character": self.r.below(3)});
        let d = &self.docs[i];
        let Ok(Some(want)) = guard(|| view(&kind, &d.text)) else { return };
        let what = format!("{kind} of {} at version {}", d.uri, d.version);
        let p = json!({"textDocument": {"uri": d.uri}, "position": place, "kind": kind});
        self.count(match kind.as_str() { "SyntaxTree" => "syntax trees", "FormatTree" => "formatting trees", _ => "tree-sitter trees" });
        let w = match want { Ok(want) => Want::View { want, what }, Err(()) => Want::Error { code: None, what } };
        self.send("air/viewFile", Some(p), w);
    }

    fn range(&mut self, i: usize) {
        let (options, fallback) = self.options();
        let (s, _) = self.settings(i, &fallback);
        let d = &self.docs[i];
        let (raw, text, eol) = (d.raw(), d.text.clone(), d.eol);
        let at = |k: usize| k + text[..k].matches('\n').count() * (eol.len() - 1);
        let whole = |k: usize| buffer::position(&raw, at(k), self.units);
        let request = |from: usize, to: usize| json!({"textDocument": {"uri": d.uri}, "options": options, "range": {"start": whole(from), "end": whole(to)}});
        let left_alone = |what: String| Want::Text { prop: "X03", raw: raw.clone(), eol, notebook: false, want: None, others: vec![], what };
        let c = cst::parse(&text);
        let invalid = air_r_parser::parse(&text, Default::default()).has_error();
        let b = utils::text::boundaries(&text);
        let (mut from, mut to) = (*self.r.pick(&b), *self.r.pick(&b));
        if from > to { (from, to) = (to, from) }
        if self.r.chance(1, 5) { to = from }
        if self.excluded(d) || invalid {
            let what = format!("selection {from}..{to} of {}, excluded or invalid", d.uri);
            let (p, w) = (request(from, to), left_alone(what));
            self.send("textDocument/rangeFormatting", Some(p), w);
            return;
        }
        let Some(c) = c else { return };
        let st = c.root.statements();
        let ok = !matches!(format(&text, &s), Outcome::Panicked(_) | Outcome::Refused(_));
        if st.is_empty() || !ok || !cst::plausible(&c) || cst::odd_comment(&c) || cst::braces_within_parameters(&c) || rfmt::skip::broken_callee(&c, &s) || c.comments.iter().any(|k| c.src[k.0..k.1].contains('\r')) { return }
        let skipped = rfmt::skip::skips_file(&c);
        let semicolons = text.contains(';');
        let what = |from: usize, to: usize| format!("selection {from}..{to} {:?} of {} under {s:?}", &text[from..to], d.uri);
        if self.r.chance(1, 2) && !semicolons {
            // whole statements
            let i = self.r.below(st.len());
            let j = (i + self.r.below(4)).min(st.len() - 1);
            let (mut from, mut to) = (st[i].start, st[j].end);
            let (start, end) = (extent(&c, i).0, extent(&c, j).1);
            // Selections are widened to whole statements. (Within a single one they may be to those of its braces.)
            if (i < j || !text[from..to].contains('{')) && self.r.chance(1, 2) {
                let within = |k: usize, b: &usize| st[k].start <= *b && *b <= st[k].end && text.is_char_boundary(*b);
                let a: Vec<usize> = b.iter().copied().filter(|b| within(i, b) && *b < st[i].end).collect();
                from = *self.r.pick(&a);
                let z: Vec<usize> = b.iter().copied().filter(|b| within(j, b) && *b >= from).collect();
                to = *self.r.pick(&z);
                *self.n.entry("selections within statements").or_default() += 1;
            }
            let region = &text[start..end];
            // (what stands indented stays so)
            if [start, st[i].start].iter().any(|k| *k > 0 && text.as_bytes()[k - 1] != b'\n') { return }
            let Outcome::Formatted(f) = format(region, &s) else { return };
            let f = f.strip_suffix('\n').unwrap_or(&f);
            let want = if skipped { text.clone() } else { format!("{}{f}{}", &text[..start], &text[end..]) };
            let w = Want::Text { prop: "X03", raw: raw.clone(), eol, notebook: false, want: Some(want), others: vec![], what: what(from, to) };
            let p = request(from, to);
            self.send("textDocument/rangeFormatting", Some(p), w);
            return;
        }
        // anything: what it touches
        let touched: Vec<usize> = (0..st.len()).filter(|i| {
            let prev = if *i == 0 { 0 } else { st[i - 1].end };
            // what is blank behind it belongs to its line
            let end = extent(&c, *i).1;
            let blank = text[end..].len() - text[end..].trim_start_matches([' ', '\t', '\u{c}', ';']).len();
            prev <= to && from <= end + blank
        }).collect();
        let p = request(from, to);
        let w = if skipped { left_alone(what(from, to)) } else if touched.is_empty() { left_alone(what(from, to)) } else {
            let start = extent(&c, touched[0]).0;
            let end = extent(&c, *touched.last().unwrap()).1;
            Want::Range { raw: raw.clone(), eol, prefix: text[..start].into(), suffix: text[end..].into(), text: text.clone(), assign: s.assign, what: what(from, to) }
        };
        self.send("textDocument/rangeFormatting", Some(p), w);
    }

    /// A selection within braces: of a formatted text with blanks added to some of its statements,
    /// formatting these gives back the formatted text.
    fn range_within(&mut self, i: usize) {
        let (options, fallback) = self.options();
        let (s, _) = self.settings(i, &fallback);
        let d = &self.docs[i];
        if self.excluded(d) { return }
        let Outcome::Formatted(f) = format(&d.text, &s) else { return };
        let Some(c) = cst::parse(&f) else { return };
        if rfmt::skip::skips_file(&c) || !cst::plausible(&c) || f.contains(['\r', ';']) { return }
        let braces: Vec<&cst::N> = c.root.all().into_iter().filter(|n| n.kind == "braced_expression" && !n.statements().is_empty()).collect();
        if braces.is_empty() { return }
        let st = self.r.pick(&braces).statements();
        let i1 = self.r.below(st.len());
        let j1 = (i1 + self.r.below(3)).min(st.len() - 1);
        let (start, end) = (st[i1].start, st[j1].end);
        // (whether the value of the last is used, is not known to the part)
        let bare = |n: &cst::N| n.kind == "if_statement" && n.kid("consequence").is_some_and(|k| k.kind != "braced_expression");
        if j1 == st.len() - 1 && st[j1].all().into_iter().any(bare) { return }
        // on lines of its own
        let line = f[..start].rfind('\n').map_or(0, |k| k + 1);
        if line == 0 || !f[line..start].trim().is_empty() { return }
        let mut strings = vec![];
        c.root.walk(&mut |n| if n.kind == "string" { strings.push((n.start, n.end)) });
        let leaves: Vec<&cst::N> = c.root.leaves().into_iter().filter(|n| n.start >= start && n.end <= end).collect();
        let gaps: Vec<usize> = leaves.windows(2).filter(|w| &f[w[0].end..w[1].start] == " " && !strings.iter().any(|s| s.0 < w[0].end && w[1].start < s.1)).map(|w| w[0].end).collect();
        if gaps.is_empty() { return }
        let mut text = f.clone();
        let mut added = 0;
        for k in gaps.iter().rev() {
            let n = self.r.below(3);
            text.insert_str(*k, &"  "[..n]);
            added += n;
        }
        if added == 0 || text.len() > 8000 || !matches!(format(&text, &s), Outcome::Formatted(o) if o == f) { return }
        // (the indentation of its first line is not counted)
        let column = f[line..start].chars().map(|k| if k == '\t' { s.indent as usize } else { 1 }).sum::<usize>();
        let wider = Settings { width: (s.width as usize + column).min(320) as _, ..s.clone() };
        if s.width as usize + column > 320 || !matches!(format(&text, &wider), Outcome::Formatted(o) if o == f) { return }
        let (i1, to) = (start, end + added);
        let d = &mut self.docs[i];
        d.text = text.clone();
        d.version += 1;
        let (raw, eol, uri) = (d.raw(), d.eol, d.uri.clone());
        self.send_changes(i, vec![json!({"text": raw})]);
        let at = |k: usize| buffer::position(&raw, k + text[..k].matches('\n').count() * (eol.len() - 1), self.units);
        let p = json!({"textDocument": {"uri": uri}, "options": options, "range": {"start": at(i1), "end": at(to)}});
        let what = format!("selection {i1}..{to} {:?} of {uri} under {s:?}", &text[i1..to]);
        let w = Want::Text { prop: "X03", raw, eol, notebook: false, want: Some(f), others: vec![], what };
        self.send("textDocument/rangeFormatting", Some(p), w);
        self.count("selections within braces");
    }

    // ------------------------------------------------------------ settings files and folders

    fn toml_change(&mut self) -> Result<(), Bad> {
        // what the server reads is what is there when it gets to it
        self.drain()?;
        let dirs = [self.root.join("w"), self.root.join("w/in"), self.root.join("w/other"), self.root.clone(), self.root.join("w/in/deep")];
        let dir = self.r.pick(&dirs).clone();
        let mut changes = vec![];
        let name = |hidden: bool| if hidden { ".air.toml" } else { "air.toml" };
        let uri = |p: &Path| format!("file://{}", p.display());
        if let (Some((hidden, _)), true) = (self.tomls.get(&dir).cloned(), self.r.chance(1, 3)) {
            let f = dir.join(name(hidden));
            std::fs::remove_file(&f).unwrap();
            self.tomls.remove(&dir);
            changes.push(json!({"uri": uri(&f), "type": 3}));
            self.log(format!("delete {}", f.display()));
            self.count("settings files deleted");
        } else {
            let t = self.random_toml();
            let old = self.tomls.get(&dir).cloned();
            let hidden = old.as_ref().map_or(self.r.chance(1, 4), |o| o.0);
            let f = dir.join(name(hidden));
            std::fs::write(&f, t.text()).unwrap();
            self.log(format!("write {}: {:?}", f.display(), t));
            changes.push(json!({"uri": uri(&f), "type": if old.is_some() { 2 } else { 1 }}));
            self.history.push(t.clone());
            self.tomls.insert(dir.clone(), (hidden, t));
            self.count("settings files written");
        }
        if self.history.len() > 3 { self.history.remove(0); }
        if self.r.chance(1, 4) { changes.insert(0, json!({"uri": uri(&dir.join("a.R")), "type": 2})) }
        self.c.notify("workspace/didChangeWatchedFiles", json!({"changes": changes}));
        // folders at and below it, and above
        let folders: Vec<PathBuf> = self.folders.keys().filter(|f| dir.starts_with(f) || f.starts_with(&dir)).cloned().collect();
        for f in folders {
            let t = self.found(&f);
            self.folders.insert(f, t);
        }
        // (until the server has read it)
        self.barrier()
    }

    fn barrier(&mut self) -> Result<(), Bad> {
        let p = json!({"textDocument": {"uri": "file:///nowhere"}, "position": {"line": 0, "character": 0}, "kind": "SyntaxTree"});
        let id = self.send("air/viewFile", Some(p), Want::Error { code: None, what: "a document that is not open".into() });
        self.c.until(|c| c.answers.contains_key(&id)).map_err(protocol)?;
        self.judge()
    }

    fn folder_change(&mut self) -> Result<(), Bad> {
        let all = [self.root.join("w"), self.root.join("w/in"), self.root.join("w/other"), self.root.join("w/in/deep")];
        let mut added = vec![];
        let mut removed = vec![];
        let item = |p: &Path| json!({"uri": format!("file://{}", p.display()), "name": "x"});
        for _ in 0..self.r.range(1, 2) {
            let f = self.r.pick(&all).clone();
            if added.contains(&f) || removed.contains(&f) { continue }
            if self.folders.remove(&f).is_some() { removed.push(f) } else {
                let t = self.found(&f);
                self.folders.insert(f.clone(), t);
                added.push(f);
            }
        }
        self.log(format!("folders + {added:?} - {removed:?}"));
        self.count("changes of folders");
        let (a, r): (Vec<_>, Vec<_>) = (added.iter().map(|p| item(p)).collect(), removed.iter().map(|p| item(p)).collect());
        self.c.notify("workspace/didChangeWorkspaceFolders", json!({"event": {"added": a, "removed": r}}));
        self.barrier()
    }

    fn configuration_change(&mut self) -> Result<(), Bad> {
        self.drain()?;
        self.barrier()?;
        if self.r.chance(1, 3) { self.sync = !self.sync }
        self.log(format!("configuration: sync {}", self.sync));
        self.c.config.insert("air.syncFileSettingsWithClient".into(), self.sync.into());
        let indent = if self.r.bool() { json!("tabSize") } else { json!(self.r.below(9)) };
        self.c.config.insert("editor.indentSize".into(), indent);
        self.c.config.insert("editor.insertSpaces".into(), self.r.bool().into());
        self.c.config.insert("editor.tabSize".into(), self.r.below(9).into());
        self.c.notify("workspace/didChangeConfiguration", json!({"settings": null}));
        self.sync_known = self.sync;
        self.count("changes of configuration");
        self.barrier()
    }

    /// Does a client that keeps what the last notification said know the settings of all documents?
    fn check_sync(&mut self) -> Result<(), Bad> {
        if self.prop != "X04" || !self.c.can_configure || !self.sync || !self.sync_known { return Ok(()) }
        self.drain()?;
        self.barrier()?;
        let mut want = BTreeMap::new();
        let mut others = vec![];
        for d in &self.docs {
            match self.governing(d) {
                Some(t) => { want.insert(d.uri.clone(), json!({"indent_style": if t.s.tab { "tab" } else { "space" }, "indent_width": t.s.indent, "line_width": t.s.width})); }
                None => others.push(d.uri.clone()),
            }
        }
        if want.is_empty() && others.is_empty() { return Ok(()) }
        let differs = |c: &Client| -> Option<String> {
            let known: BTreeMap<String, Value> = c.synced.as_ref().and_then(|v| v["file_settings"].as_array()).into_iter().flatten()
                .map(|f| (f["url"].as_str().unwrap_or("").to_string(), f["format"].clone())).collect();
            for (u, s) in &want {
                if known.get(u) != Some(s) { return Some(format!("the client knows {:?} for {u}, not {s}", known.get(u))) }
            }
            others.iter().find(|u| known.contains_key(*u)).map(|u| format!("the client knows {} for {u}, which no settings govern", known[u]))
        };
        let start = Instant::now();
        while differs(&self.c).is_some() && start.elapsed() < Duration::from_secs(10) {
            self.c.pump(Duration::from_millis(20)).map_err(protocol)?;
            if start.elapsed() > Duration::from_millis(300) { self.barrier()? }
        }
        self.count("synchronizations checked");
        *self.n.entry("settings the client knew").or_default() += want.len() as u64;
        match differs(&self.c) {
            Some(e) => bad("X04", "client-not-informed", e),
            None => Ok(()),
        }
    }

    // ------------------------------------------------------------ the session

    fn run(&mut self, utf8: bool) -> Result<(), Bad> {
        let mut caps = json!({"general": {"positionEncodings": if utf8 { json!(["utf-16", "utf-8"]) } else { json!(["utf-16"]) }}, "workspace": {"configuration": self.c.can_configure}});
        if self.r.chance(2, 3) {
            caps["workspace"]["didChangeConfiguration"] = json!({"dynamicRegistration": self.r.bool()});
            caps["workspace"]["didChangeWatchedFiles"] = json!({"dynamicRegistration": self.r.bool()});
        }
        let folders: Vec<Value> = self.folders.keys().map(|f| json!({"uri": format!("file://{}", f.display()), "name": "w"})).collect();
        let client = if self.r.chance(1, 6) { "Visual Studio Code" } else { "Some Editor" };
        let params = json!({"processId": null, "rootUri": null, "capabilities": caps, "workspaceFolders": folders, "clientInfo": {"name": client}});
        let id = self.c.request("initialize", Some(params));
        let m = self.c.wait(id).map_err(protocol)?;
        let got = &m["result"]["capabilities"];
        let encoding = if utf8 { "utf-8" } else { "utf-16" };
        if got["positionEncoding"] != encoding || got["textDocumentSync"] != 2 || got["documentFormattingProvider"] != true || got["documentRangeFormattingProvider"] != true {
            return bad("X01", "capabilities", m.to_string());
        }
        self.c.notify("initialized", json!({}));
        if self.r.bool() { self.barrier()? }
        for _ in 0..self.r.range(15, 60) {
            if !self.docs.is_empty() && self.c.pending.len() < 60 {
                let i = self.r.below(self.docs.len());
                let range = if self.prop == "X03" { 14 } else { 4 };
                let settings = if self.prop == "X04" { 5 } else { 1 };
                match self.r.below(30 + range + 2 * settings) {
                    0..=9 => self.change(i),
                    10..=11 => self.restore(i),
                    12..=16 if self.prop == "X06" => self.view(i),
                    12..=18 => { self.format(i); }
                    19 | 20 => self.format_and_apply(i)?,
                    21..=24 => self.view(i),
                    25 => self.close(i),
                    26 | 27 => self.open(),
                    28 => match self.r.below(4) {
                        0 => {
                            let m = self.r.word(&["textDocument/hover", "air/other", "workspace/symbol"]).to_string();
                            self.send(&m, Some(json!({"textDocument": {"uri": "file:///x"}})), Want::Error { code: Some(-32601), what: m.clone() });
                        }
                        1 => {
                            let what = "of a document that was never opened".to_string();
                            self.send("textDocument/formatting", Some(json!({"textDocument": {"uri": "file:///nowhere"}, "options": {"tabSize": 2, "insertSpaces": true}})), Want::Error { code: None, what });
                        }
                        2 => {
                            let uri = self.docs[i].uri.clone();
                            self.c.notify("textDocument/didSave", json!({"textDocument": {"uri": uri}}));
                        }
                        _ => self.c.notify(if self.r.bool() { "$/setTrace" } else { "$/cancelRequest" }, json!({"id": 100_000, "value": "off"})),
                    },
                    29 => if self.r.chance(1, 4) { self.configuration_change()? },
                    n if n < 30 + range => if self.r.chance(1, 4) { self.range_within(i) } else { self.range(i) },
                    n if n < 30 + range + settings => self.toml_change()?,
                    _ => self.folder_change()?,
                }
            } else { self.open() }
            if self.r.chance(1, 3) { self.pump()? }
            if self.r.chance(1, 8) { self.drain()? }
            if self.r.chance(1, 6) { self.check_sync()? }
        }
        if self.r.chance(3, 4) { self.drain()? }
        match self.r.below(5) {
            // the editor goes away
            0 => {
                // (what it does with questions that nobody will answer is tower-lsp's)
                self.drain()?;
                self.barrier()?;
                self.c.end(true, true).map_err(protocol)?;
                self.count("sessions that ended without a word");
            }
            k => {
                // what was asked before is answered before
                self.drain()?;
                let id = self.send("shutdown", None, Want::Ok);
                self.c.until(|c| c.answers.contains_key(&id)).map_err(protocol)?;
                self.judge()?;
                if k == 1 {
                    self.send("textDocument/formatting", Some(json!({"textDocument": {"uri": "file:///nowhere"}, "options": {"tabSize": 2, "insertSpaces": true}})), Want::Error { code: None, what: "after shutdown".into() });
                    self.drain()?;
                }
                self.c.notify("exit", Value::Null);
                let close = self.r.chance(1, 2);
                let code = self.c.end(true, close).map_err(protocol)?;
                self.count(if close { "sessions that ended with exit and the end of the input" } else { "sessions that ended with exit" });
                if code != Some(0) { return bad("X01", "exit-code", format!("{code:?} after shutdown and exit")) }
            }
        }
        Ok(())
    }
}

fn session(prop: &str, seed: u64, corpus: &Corpus, scratch: &Path) -> (Result<(), Bad>, BTreeMap<&'static str, u64>, Vec<String>) {
    let mut r = Rng::new(seed);
    let dir = Scratch::new(&format!("s{}", seed % 1_000_000));
    let _ = scratch;
    let root = dir.path().canonicalize().unwrap();
    for d in ["w/in/deep", "w/other", "w/renv", "w/b", "w/x y", "w/inn"] { std::fs::create_dir_all(root.join(d)).unwrap() }
    let level = if r.chance(1, 6) { "trace" } else { "error" };
    let c = match Client::start(&root, seed, &[("AIR_LOG_LEVEL", level)]) {
        Ok(c) => c,
        Err(e) => return (bad("X01", "inconclusive", e), BTreeMap::new(), vec![]),
    };
    let utf8 = r.bool();
    let mut s = Session {
        r, prop, c, corpus, root: root.clone(), units: if utf8 { Units::Utf8 } else { Units::Utf16 }, docs: vec![], closed: 0, tomls: BTreeMap::new(),
        folders: BTreeMap::new(), history: vec![], wants: BTreeMap::new(), sync: false, sync_known: false, n: BTreeMap::new(), trace: vec![],
    };
    s.sync = s.r.chance(2, 3);
    s.c.can_configure = s.r.chance(4, 5);
    for (k, v) in [("editor.insertSpaces", json!(true)), ("editor.indentSize", json!("tabSize")), ("editor.tabSize", json!(4)), ("positron.r.diagnostics.enable", Value::Null),
        ("air.logLevel", Value::Null), ("air.dependencyLogLevels", Value::Null), ("air.syncFileSettingsWithClient", json!(s.sync))] {
        s.c.config.insert(k.into(), v);
    }
    for (d, p) in [("", 8), ("w", 2), ("w/in", 3), ("w/other", 3)] {
        if s.r.chance(1, p) {
            let t = s.random_toml();
            let d = if d.is_empty() { root.clone() } else { root.join(d) };
            std::fs::write(d.join("air.toml"), t.text()).unwrap();
            s.log(format!("toml in {}: {t:?}", d.display()));
            s.tomls.insert(d, (false, t));
        }
    }
    for (d, p, q) in [("w", 3, 4), ("w/in", 1, 4), ("w/other", 1, 6)] {
        if s.r.chance(p, q) {
            let f = root.join(d);
            let t = s.found(&f);
            s.log(format!("folder {}", f.display()));
            s.folders.insert(f, t);
        }
    }
    let out = s.run(utf8);
    let mut n = std::mem::take(&mut s.n);
    for (k, v) in &s.c.stats { *n.entry(k).or_default() += v }
    *n.entry("settings notifications").or_default() += s.c.syncs;
    (out, n, std::mem::take(&mut s.trace))
}

fn main() {
    on_large_stack(|| {
        let prop = std::env::var("VK_PROP").expect("VK_PROP");
        let m = Monitor::new(&prop);
        let scratch: PathBuf = std::env::var("VK_SCRATCH").unwrap_or("/tmp".into()).into();
        let corpus = Arc::new(Corpus::load());
        let replay: Vec<u64> = match &m.replay { Some(v) => v["seed"].as_u64().into_iter().flat_map(|s| [s; 8]).collect(), None => vec![] };
        let replaying = m.replay.is_some();
        let base = m.rng("sessions").next();
        let next = Arc::new(AtomicU64::new(0));
        let m = Arc::new(Mutex::new(m));
        let workers: Vec<_> = (0..8).map(|_| {
            let (m, next, corpus, scratch, prop, replay) = (m.clone(), next.clone(), corpus.clone(), scratch.clone(), prop.clone(), replay.clone());
            std::thread::Builder::new().stack_size(256 << 20).spawn(move || loop {
                if !replaying && !m.lock().unwrap().running() { return }
                let k = next.fetch_add(1, Ordering::SeqCst);
                if replaying && k as usize >= replay.len() { return }
                let seed = if replaying { replay[k as usize] } else { hash_str(&format!("{base} {k}")) };
                let (out, n, trace) = session(&prop, seed, &corpus, &scratch);
                let mut m = m.lock().unwrap();
                alive();
                let busy = n.get("answers").copied().unwrap_or(0) > 3;
                m.eval(seed, busy);
                m.count("sessions");
                for (k, v) in n { m.add(k, v) }
                m.sample(|| json!({"seed": seed, "begins": trace.iter().take(4).map(|t| show(t)).collect::<Vec<_>>()}));
                match out {
                    Ok(()) => (),
                    Err((_, key, why)) if key == "inconclusive" || key == "gave-up" => m.inconclusive(why),
                    Err((p, key, detail)) if p == prop => {
                        let tail: Vec<&String> = trace.iter().rev().take(12).rev().collect();
                        m.violation(key, format!("{detail}\nlast: {}", tail.iter().map(|t| show(t)).collect::<Vec<_>>().join("\n  ")), json!({"seed": seed}));
                    }
                    Err((p, key, detail)) => {
                        m.count("sessions cut short by what another property judges");
                        if std::env::var("VK_SHOW_OTHERS").is_ok() { eprintln!("{p} {key} {seed}: {}", detail.chars().take(600).collect::<String>()) }
                    }
                }
            }).unwrap()
        }).collect();
        for w in workers { w.join().unwrap() }
        let mut m = Arc::try_unwrap(m).ok().unwrap().into_inner().unwrap();
        m.require("sessions", 20);
        match prop.as_str() {
            "X01" => { m.require("views of programs", 200); m.require("answers", 1000); m.require("errors asked for", 50) }
            "X06" => { m.require("views of programs", 200); m.require("syntax trees", 50); m.require("formatting trees", 50); m.require("tree-sitter trees", 50) }
            "X02" => { m.require("documents formatted", 300); m.require("edits applied", 50) }
            "X03" => { m.require("selections formatted", 100); m.require("selections within statements", 30); m.require("selections within braces", 15); m.require("selections anywhere", 100) }
            _ => { m.require("synchronizations checked", 50); m.require("settings files written", 50); m.require("answers that depend on the settings", 50) }
        }
        m.finish();
    });
}
