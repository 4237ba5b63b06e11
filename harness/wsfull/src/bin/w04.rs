//! W04: discovery of R files against an independent walk of the same tree, with the walker's threads
//! disturbed through air's own trace events.
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::path::{Path, PathBuf};
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use vkit::gitignore::{Pat, decide, decide_up, parse};
use vkit::*;
use workspace::discovery::{Exclude, Include, Mode, discover_r_file_paths, discover_settings};
use workspace::resolve::PathResolver;
use workspace::settings::Settings;
use wsfull::*;

// ------------------------------------------------ disturbed schedules

/// A subscriber that delays the threads it is called on.
struct Disturb;
static LEVEL: AtomicUsize = AtomicUsize::new(0);
static TICK: AtomicU64 = AtomicU64::new(0);
static THREADS: Mutex<Option<HashSet<std::thread::ThreadId>>> = Mutex::new(None);
static DELAYS: AtomicU64 = AtomicU64::new(0);

impl tracing::Subscriber for Disturb {
    fn enabled(&self, _: &tracing::Metadata<'_>) -> bool { true }
    fn new_span(&self, _: &tracing::span::Attributes<'_>) -> tracing::span::Id { tracing::span::Id::from_u64(1) }
    fn record(&self, _: &tracing::span::Id, _: &tracing::span::Record<'_>) {}
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, _: &tracing::Event<'_>) {
        if let Some(t) = THREADS.lock().unwrap().as_mut() { t.insert(std::thread::current().id()); }
        let level = LEVEL.load(Ordering::Relaxed);
        if level == 0 { return }
        let mut r = Rng::new(TICK.fetch_add(1, Ordering::Relaxed));
        match r.below(8) {
            0..=2 => std::thread::yield_now(),
            3 if level > 1 => { DELAYS.fetch_add(1, Ordering::Relaxed); std::thread::sleep(std::time::Duration::from_micros(r.range(1, 300) as u64)) }
            _ => {}
        }
    }
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}

// ------------------------------------------------ cases

#[derive(Clone, Debug, Default)]
struct Case {
    tree: Tree,
    /// directory -> (exclude patterns, default-exclude)
    tomls: BTreeMap<String, (Vec<String>, bool)>,
    /// as given: relative to the root of the tree
    args: Vec<String>,
    /// how to write the arguments: relative to the current directory, with a trailing slash, with `.` and `..`
    style: Vec<u8>,
    exclude: bool,
    include: bool,
}

impl Case {
    fn json(&self) -> Value {
        json!({"dirs": self.tree.dirs, "files": self.tree.files, "links": self.tree.links,
            "tomls": self.tomls.iter().map(|(d, (p, e))| json!([d, p, e])).collect::<Vec<_>>(),
            "args": self.args, "style": self.style, "exclude": self.exclude, "include": self.include})
    }
    fn from(v: &Value) -> Option<Case> {
        let strs = |v: &Value| -> Vec<String> { v.as_array().into_iter().flatten().filter_map(|x| x.as_str().map(String::from)).collect() };
        let pairs = |v: &Value| -> Vec<(String, String)> { v.as_array().into_iter().flatten().map(|x| (x[0].as_str().unwrap_or("").into(), x[1].as_str().unwrap_or("").into())).collect() };
        Some(Case {
            tree: Tree { dirs: strs(&v["dirs"]).into_iter().collect(), files: pairs(&v["files"]), links: pairs(&v["links"]) },
            tomls: v["tomls"].as_array()?.iter().map(|t| (t[0].as_str().unwrap_or("").to_string(), (strs(&t[1]), t[2].as_bool().unwrap_or(true)))).collect(),
            args: strs(&v["args"]),
            style: v["style"].as_array()?.iter().map(|x| x.as_u64().unwrap_or(0) as u8).collect(),
            exclude: v["exclude"].as_bool()?,
            include: v["include"].as_bool()?,
        })
    }
}

fn segs(p: &str) -> Vec<Vec<u8>> { p.split('/').filter(|c| !c.is_empty()).map(|c| c.bytes().collect()).collect() }

fn default_excluded(name: &str, dir: bool) -> bool {
    (dir && matches!(name, ".git" | "renv" | "revdep"))
        || matches!(name, "cpp11.R" | "RcppExports.R" | "extendr-wrappers.R")
        || (name.starts_with("import-standalone-") && name.ends_with(".R"))
}

struct Oracle<'a> {
    case: &'a Case,
    /// directories whose configuration is loaded
    loaded: BTreeSet<String>,
    reason: BTreeMap<&'static str, u64>,
    global: Vec<Pat>,
}

impl Oracle<'_> {
    fn new(case: &Case) -> Oracle<'_> {
        let mut loaded = BTreeSet::new();
        for a in &case.args {
            if let Some(d) = prefixes(a).into_iter().rev().find(|d| case.tomls.contains_key(d)) { loaded.insert(d); }
        }
        Oracle { case, loaded, reason: BTreeMap::new(), global: vec![parse("everywhere-ignored.R").unwrap()] }
    }
    /// the configuration that governs a path, with its directory
    fn governing(&self, path: &str) -> Option<(&str, Vec<Pat>, bool)> {
        prefixes(path).into_iter().rev().find_map(|d| self.loaded.get(&d)).map(|d| {
            let (p, e) = &self.case.tomls[d];
            (d.as_str(), p.iter().filter_map(|l| parse(l)).collect(), *e)
        })
    }
    fn excluded(&self, path: &str, dir: bool, direct: bool) -> bool {
        if !self.case.exclude { return false }
        let (defaults, user) = match self.governing(path) {
            Some((d, pats, e)) => {
                let rel = path.strip_prefix(d).unwrap().trim_start_matches('/');
                let s = segs(rel);
                (e, if s.is_empty() { None } else if direct { decide_up(&pats, &s, dir) } else { decide(&pats, &s, dir) })
            }
            None => (true, None),
        };
        if user == Some(true) { return true }
        let mut parts: Vec<&str> = path.split('/').collect();
        let name = parts.pop().unwrap();
        defaults && (default_excluded(name, dir) || (direct && parts.iter().any(|p| default_excluded(p, true))))
    }
    /// gitignore files and hidden entries: (skipped, by what)
    fn filtered(&self, path: &str, dir: bool) -> Option<&'static str> {
        let t = &self.case.tree;
        let parent = path.rsplit_once('/').map_or("", |x| x.0);
        let in_git = prefixes(parent).iter().any(|d| t.taken(&if d.is_empty() { ".git".into() } else { format!("{d}/.git") }));
        let mut verdict = None;
        if in_git {
            // from the entry's directory up to the repository's, the closest that says something
            let mut local = None;
            let mut repo = None;
            for d in prefixes(parent).iter().rev() {
                let pre = if d.is_empty() { String::new() } else { format!("{d}/") };
                let rel = path.strip_prefix(&pre).unwrap();
                if local.is_none() && let Some(text) = t.text(&format!("{pre}.gitignore")) {
                    let pats: Vec<Pat> = text.lines().filter_map(parse).collect();
                    local = decide(&pats, &segs(rel), dir);
                }
                if repo.is_none() && let Some(text) = t.text(&format!("{pre}.git/info/exclude")) {
                    let pats: Vec<Pat> = text.lines().filter_map(parse).collect();
                    repo = decide(&pats, &segs(rel), dir);
                }
                if t.taken(&format!("{pre}.git")) { break }
            }
            verdict = local.or(repo).or(decide(&self.global, &segs(path), dir));
        }
        match verdict {
            Some(true) => Some("ignored by git"),
            Some(false) => None,
            None if path.rsplit('/').next().unwrap().starts_with('.') => Some("hidden"),
            None => None,
        }
    }
    fn note(&mut self, what: &'static str) { *self.reason.entry(what).or_default() += 1 }
    fn offer(&mut self, path: &str, out: &mut BTreeMap<String, usize>) {
        let name = path.rsplit('/').next().unwrap();
        // the extension R or r, of an entry that may have no stem
        if !self.case.include || name.ends_with(".R") || name.ends_with(".r") {
            *out.entry(path.into()).or_default() += 1;
            self.note("found");
        } else { self.note("not an R file") }
    }
    fn walk(&mut self, dir: &str, out: &mut BTreeMap<String, usize>) {
        let pre = if dir.is_empty() { String::new() } else { format!("{dir}/") };
        let mut entries: Vec<(String, bool)> = vec![];
        let t = &self.case.tree;
        let child = |p: &str| p.strip_prefix(&pre).is_some_and(|r| !r.is_empty() && !r.contains('/'));
        for d in &t.dirs { if child(d) { entries.push((d.clone(), true)) } }
        for (f, _) in t.files.iter().chain(&t.links) { if child(f) { entries.push((f.clone(), false)) } }
        for (e, is_dir) in entries {
            if let Some(why) = self.filtered(&e, is_dir) { self.note(why); continue }
            if self.excluded(&e, is_dir, false) { self.note(if is_dir { "excluded directory" } else { "excluded file" }); continue }
            if is_dir { self.walk(&e, out) } else { self.offer(&e, out) }
        }
    }
    /// path -> how often; and how many errors
    fn expect(&mut self) -> (BTreeMap<String, usize>, usize) {
        let mut out = BTreeMap::new();
        let mut errors = 0;
        for a in &self.case.args {
            let t = &self.case.tree;
            let is_dir = a.is_empty() || t.dirs.contains(a);
            if !is_dir && !t.taken(a) { errors += 1; self.note("missing argument"); continue }
            if self.excluded(a, is_dir, true) { self.note("excluded argument"); continue }
            if is_dir { self.walk(a, &mut out) } else { self.offer(a, &mut out) }
        }
        (out, errors)
    }
}

fn spelled(root: &Path, rel: &str, style: u8) -> PathBuf {
    match style {
        // relative to the current directory, which holds the root
        1 => below(Path::new(root.file_name().unwrap()), rel),
        2 => format!("./{}/{rel}", root.file_name().unwrap().display()).into(),
        3 => root.join("x").join("..").join(rel),
        _ => below(root, rel),
    }
}

fn one(m: &mut Monitor, case: &Case, scratch: &Path, repeats: usize) {
    static N: AtomicUsize = AtomicUsize::new(0);
    let root = scratch.join(format!("t{}", N.fetch_add(1, Ordering::Relaxed)));
    let _ = std::fs::create_dir_all(&root);
    let mut tree = case.tree.clone();
    for (d, (pats, e)) in &case.tomls {
        let f = if d.is_empty() { "air.toml".to_string() } else { format!("{d}/air.toml") };
        let mut t = String::from("[format]\n");
        t.push_str(&format!("exclude = {}\n", json!(pats)));
        if !e { t.push_str("default-exclude = false\n") }
        tree.file(&f, &t);
    }
    if let Err(e) = tree.build(&root) {
        m.inconclusive(format!("tree: {e}"));
        return;
    }
    let case = &Case { tree, ..case.clone() };
    let args: Vec<PathBuf> = case.args.iter().zip(&case.style).map(|(a, s)| spelled(&root, a, *s)).collect();
    let mut oracle = Oracle::new(case);
    let (want, want_errors) = oracle.expect();
    m.eval_str(&case.json().to_string(), want.len() > 1);
    for (w, n) in &oracle.reason { m.add(w, *n) }
    m.max("most files found", want.len() as u64);
    let class = |extra: &str| format!("{extra}{}{}{}", if case.exclude { "" } else { ":force" }, if case.tomls.is_empty() { "" } else { ":configured" }, if case.args.len() > 1 { ":several" } else { "" });
    let mut resolver = PathResolver::new(Settings::default());
    match guard(|| discover_settings(&args)) {
        Ok(Ok(found)) => for d in found { resolver.add(d.directory, d.settings); },
        Ok(Err(e)) => { m.violation(class("settings"), format!("discover_settings failed: {e}"), case.json()); return }
        Err(e) => { m.violation(class("settings-panic"), e, case.json()); return }
    }
    let mut orders = HashSet::new();
    for round in 0..repeats {
        LEVEL.store(round.min(2), Ordering::Relaxed);
        *THREADS.lock().unwrap() = Some(HashSet::new());
        // each round with the arguments in another order
        let mut args = args.clone();
        if round > 0 { Rng::new(round as u64).shuffle(&mut args) }
        let got = guard(|| discover_r_file_paths(&args, &resolver, Mode::Format,
            if case.exclude { Exclude::Matched } else { Exclude::Nothing },
            if case.include { Include::Matched } else { Include::Everything }));
        alive();
        let threads = THREADS.lock().unwrap().take().unwrap().len();
        m.max("most threads that took part", threads as u64);
        if threads > 1 { m.count("walks with several threads") }
        let got = match got {
            Ok(g) => g,
            Err(e) => { m.violation(class("panic"), format!("discovery panicked: {e}"), case.json()); break }
        };
        m.count("walks");
        orders.insert(hash_str(&format!("{got:?}")));
        let mut paths: BTreeMap<String, usize> = BTreeMap::new();
        let mut errors = 0;
        for g in got {
            match g {
                Err(_) => errors += 1,
                Ok(p) => {
                    let rel = p.strip_prefix(&root).map(|r| r.to_string_lossy().into_owned()).unwrap_or_else(|_| format!("outside: {}", p.display()));
                    *paths.entry(rel).or_default() += 1;
                }
            }
        }
        if paths != want {
            let missing: Vec<_> = want.iter().filter(|(p, n)| paths.get(*p).copied().unwrap_or(0) < **n).map(|(p, _)| p).take(5).collect();
            let extra: Vec<_> = paths.iter().filter(|(p, n)| want.get(*p).copied().unwrap_or(0) < **n).map(|(p, _)| p).take(5).collect();
            let kind = if !missing.is_empty() { "missing" } else { "extra" };
            m.violation(class(kind), format!("arguments {:?} (round {round}, {threads} threads): not found {missing:?}, found too often or wrongly {extra:?}; configurations {:?}", case.args, case.tomls), case.json());
            break;
        }
        if errors != want_errors {
            m.violation(class("errors"), format!("arguments {:?}: {errors} errors instead of {want_errors}", case.args), case.json());
            break;
        }
    }
    m.add("distinct result orders", orders.len() as u64);
    LEVEL.store(0, Ordering::Relaxed);
    m.sample(|| json!({"args": case.args, "files": case.tree.files.len(), "found": want.keys().take(5).collect::<Vec<_>>()}));
    let _ = std::fs::remove_dir_all(&root);
}

// ------------------------------------------------ generation

const DIRS: &[&str] = &["a", "b", "R", "renv", "revdep", "tests", "sub", "data-raw", "é", "x.R", ".hidden", "a b", "renv2", "vendor"];
const FILES: &[&str] = &["a.R", "b.r", "test.R", "x.R", "cpp11.R", "RcppExports.R", "extendr-wrappers.R", "import-standalone-a.R", "notes.md", "x.qmd", "Makefile", ".Rprofile", ".hidden.R", ".R", "r", "a.Rmd", "é.R", "a b.R", "import-standalone.R", "Cpp11.R", "everywhere-ignored.R", "gen-1.R", "cpp11.r"];
const PATS: &[&str] = &["a.R", "sub/", "/a/", "/sub", "*.r", "test*", "vendor/", "**/tests/", "a/*.R", "a/**", "/*.R", "x.R", "!a.R", "!keep.R", "*", "*/", "gen-*.R", "b", "!b/", "R/x.R", "/R/", "[ab].R", "?.R", "**/sub/*.R", "# a.R", "", "data-raw", "a b.R", "é"];
const GIT: &[&str] = &["a.R", "sub/", "vendor", "*.r", "gen-*.R", "!b.r", "tests/", "x.R", "!a.R", "/a.R", "/sub/", "a/x.R", "/b/*.R"];

fn generate(r: &mut Rng) -> Case {
    let mut t = Tree::default();
    let big = r.chance(1, 12);
    for _ in 0..r.range(1, if big { 40 } else { 9 }) {
        let depth = r.range(1, 5);
        let d: Vec<&str> = (0..depth).map(|_| *r.pick(DIRS)).collect();
        // no directory where a file is
        let p = d.join("/");
        if prefixes(&p).iter().any(|x| t.files.iter().any(|(f, _)| f == x)) { continue }
        t.dir(&p);
    }
    let mut dirs: Vec<String> = t.dirs.iter().cloned().collect();
    dirs.push(String::new());
    let at = |d: &str, f: &str| if d.is_empty() { f.to_string() } else { format!("{d}/{f}") };
    for d in &dirs {
        for _ in 0..r.below(if big { 12 } else { 5 }) {
            let f = *r.pick(FILES);
            t.file(&at(d, f), "x <- 1\n");
        }
    }
    // git
    let git = r.chance(2, 5);
    if git {
        for d in &dirs {
            if r.chance(1, if d.is_empty() { 2 } else { 12 }) && !t.taken(&at(d, ".git")) {
                t.dir(&at(d, ".git"));
                if r.chance(1, 3) {
                    let n = r.range(1, 3);
                    let text: String = (0..n).map(|_| format!("{}\n", r.pick(GIT))).collect();
                    t.file(&at(d, ".git/info/exclude"), &text);
                }
                if r.chance(1, 3) { t.file(&at(d, ".git/hook.R"), "x\n"); }
            }
        }
    }
    if git || r.chance(1, 6) {
        for d in &dirs {
            if r.chance(1, if d.is_empty() { 2 } else { 6 }) {
                let n = r.range(1, 4);
                let text: String = (0..n).map(|_| format!("{}\n", r.pick(GIT))).collect();
                t.file(&at(d, ".gitignore"), &text);
            }
        }
    }
    // not honoured by air
    if r.chance(1, 6) { t.file(".ignore", "*.R\n"); }
    if r.chance(1, 6) {
        for _ in 0..2 {
            let d = r.pick(&dirs).clone();
            let l = at(&d, r.word(&["link.R", "link", "sym.r"]));
            let to = r.word(&["a.R", "nowhere.R", "..", "."]);
            if !t.taken(&l) && !t.dirs.contains(&l) { t.links.push((l, to.into())) }
        }
    }
    let mut c = Case { tree: t, exclude: !r.chance(1, 6), include: !r.chance(1, 6), ..Default::default() };
    if r.chance(2, 3) {
        for d in &dirs {
            if d.split('/').any(|x| x == ".git") { continue }
            if r.chance(1, if d.is_empty() { 2 } else { 8 }) {
                let n = r.below(4);
                let pats = (0..n).map(|_| r.pick(PATS).to_string()).collect();
                c.tomls.insert(d.clone(), (pats, !r.chance(1, 3)));
            }
        }
    }
    let mut all: Vec<String> = dirs.clone();
    all.extend(c.tree.files.iter().map(|(f, _)| f.clone()));
    let n = match r.below(10) { 0..=4 => 1, 5..=7 => r.range(2, 4), _ => r.range(3, 12) };
    for _ in 0..n {
        let a = match r.below(12) {
            0..=3 => String::new(),
            4 => format!("missing{}", r.below(3)),
            5 if !c.args.is_empty() => r.pick(&c.args).clone(),
            _ => r.pick(&all).clone(),
        };
        c.args.push(a);
    }
    restrict(&mut c);
    c.style = c.args.iter().map(|_| r.below(4) as u8).collect();
    c
}

/// Leaves out what the `ignore` crate (0.4.23) itself gets wrong: it matches the patterns of
/// gitignore files above an argument against paths from which directories in between are missing,
/// so that only patterns that look at the name alone have a meaning there.
fn restrict(c: &mut Case) {
    let above: BTreeSet<String> = c.args.iter().flat_map(|a| {
        let mut p = prefixes(a);
        p.pop();
        p
    }).collect();
    for (f, text) in c.tree.files.iter_mut() {
        let d = f.strip_suffix(".gitignore").or(f.strip_suffix(".git/info/exclude"));
        if let Some(d) = d && above.contains(d.trim_end_matches('/')) {
            *text = text.lines().filter(|l| !l.trim_end_matches('/').contains('/')).map(|l| format!("{l}\n")).collect();
        }
    }
}

/// A tree that keeps many threads busy.
fn stress(r: &mut Rng) -> Case {
    let mut c = Case { exclude: true, include: true, ..Default::default() };
    let (w, d) = *r.pick(&[(40, 1), (12, 2), (6, 3), (3, 5)]);
    fn fill(t: &mut Tree, at: &str, w: usize, d: usize, r: &mut Rng) {
        for i in 0..r.range(1, 4) { t.files.push((format!("{at}f{i}.R"), String::new())); }
        if d == 0 { return }
        for i in 0..w { let sub = format!("{at}d{i}"); t.dir(&sub); fill(t, &format!("{sub}/"), w, d - 1, r) }
    }
    fill(&mut c.tree, "", w, d, r);
    c.tomls.insert(String::new(), (vec!["d1/f0.R".into(), "d2/".into()], true));
    c.args = (0..r.range(1, 4)).map(|i| if i == 0 { String::new() } else { format!("d{}", r.below(w)) }).collect();
    c.style = c.args.iter().map(|_| 0).collect();
    c
}

fn main() {
    let mut m = Monitor::new("W04");
    tracing::subscriber::set_global_default(Disturb).unwrap();
    let scratch = Scratch::new("w04");
    let home = scratch.path().join("home");
    let work = scratch.path().join("work");
    std::fs::create_dir_all(home.join(".config/git")).unwrap();
    std::fs::create_dir_all(&work).unwrap();
    std::fs::write(home.join(".config/git/ignore"), "everywhere-ignored.R\n").unwrap();
    unsafe {
        std::env::set_var("HOME", &home);
        std::env::remove_var("XDG_CONFIG_HOME");
        std::env::remove_var("GIT_DIR");
    }
    // once: air remembers the current directory
    std::env::set_current_dir(&work).unwrap();
    if let Some(c) = m.replay.clone() {
        if let Some(c) = Case::from(&c) { for _ in 0..20 { one(&mut m, &c, &work, 3) } }
        m.finish();
        return;
    }
    // what is above the scratch directory must not matter
    for a in work.ancestors() {
        for f in ["air.toml", ".air.toml", ".git"] {
            if a.join(f).exists() { m.inconclusive(format!("{} exists", a.join(f).display())) }
        }
        if let Some(n) = a.file_name() && default_excluded(&n.to_string_lossy(), true) { m.inconclusive("scratch directory is excluded by name") }
    }
    let mut r = m.rng("trees");
    let (quick, thorough) = if std::env::var("VK_FEW").is_ok() { (60, 600) } else { (800, 8000) };
    for i in 0..m.n(quick, thorough) {
        if !m.running() { break }
        let c = if i % 25 == 3 { stress(&mut r) } else { generate(&mut r) };
        one(&mut m, &c, &work, if i % 25 == 3 { 6 } else { 3 });
    }
    m.add("delays injected", DELAYS.load(Ordering::Relaxed));
    let f = if std::env::var("VK_FEW").is_ok() { 20 } else { 1 };
    for what in ["found", "hidden", "ignored by git", "excluded directory", "excluded file", "excluded argument", "not an R file", "walks with several threads"] {
        m.require(what, 100 / f);
    }
    m.finish();
}
