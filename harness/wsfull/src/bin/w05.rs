//! W05: which configuration governs which path, against an independent lookup on the same tree.
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};
use vkit::*;
use workspace::discovery::discover_settings;
use workspace::resolve::PathResolver;
use workspace::settings::Settings;
use workspace::toml::{find_air_toml, find_air_toml_in_directory, is_air_toml};
use wsfull::*;

#[derive(Clone, Debug, Default)]
struct Case {
    tree: Tree,
    /// configuration file -> kind: a line width, or how it is broken
    tomls: BTreeMap<String, String>,
    args: Vec<String>,
    style: Vec<u8>,
}

impl Case {
    fn json(&self) -> Value {
        json!({"dirs": self.tree.dirs, "files": self.tree.files, "tomls": self.tomls, "args": self.args, "style": self.style})
    }
    fn from(v: &Value) -> Option<Case> {
        let strs = |v: &Value| -> Vec<String> { v.as_array().into_iter().flatten().filter_map(|x| x.as_str().map(String::from)).collect() };
        Some(Case {
            tree: Tree {
                dirs: strs(&v["dirs"]).into_iter().collect(),
                files: v["files"].as_array()?.iter().map(|x| (x[0].as_str().unwrap_or("").into(), x[1].as_str().unwrap_or("").into())).collect(),
                links: vec![],
            },
            tomls: v["tomls"].as_object()?.iter().map(|(k, v)| (k.clone(), v.as_str().unwrap_or("").into())).collect(),
            args: strs(&v["args"]),
            style: v["style"].as_array()?.iter().map(|x| x.as_u64().unwrap_or(0) as u8).collect(),
        })
    }
    /// the configuration file of a directory, if it has one
    fn toml_in(&self, dir: &str) -> Option<(String, &str)> {
        ["air.toml", ".air.toml"].iter().find_map(|n| {
            let f = if dir.is_empty() { n.to_string() } else { format!("{dir}/{n}") };
            match self.tomls.get(&f).map(|k| k.as_str()) {
                // something by that name that is no file
                None | Some("directory") | Some("dangling") => None,
                Some(k) => Some((f, k)),
            }
        })
    }
    fn nearest(&self, path: &str) -> Option<(String, String, &str)> {
        prefixes(path).into_iter().rev().find_map(|d| self.toml_in(&d).map(|(f, k)| (d, f, k)))
    }
}

fn write_toml(path: &Path, kind: &str) -> std::io::Result<()> {
    match kind {
        "directory" => std::fs::create_dir_all(path),
        "dangling" => std::os::unix::fs::symlink("nowhere", path),
        "syntax" => std::fs::write(path, "[format\nline-width = 80\n"),
        "unknown" => std::fs::write(path, "[format]\nlinewidth = 80\n"),
        "range" => std::fs::write(path, "[format]\nline-width = 0\n"),
        "utf8" => std::fs::write(path, b"[format]\nline-width = 80 # \xff\n"),
        "pattern" => std::fs::write(path, "[format]\nexclude = [\"a[\"]\n"),
        "empty" => std::fs::write(path, ""),
        w => std::fs::write(path, format!("[format]\nline-width = {w}\n")),
    }
}
const BROKEN: &[&str] = &["syntax", "unknown", "range", "utf8", "pattern"];

fn width(kind: &str) -> u16 { kind.parse().unwrap_or(80) }

fn spelled(root: &Path, rel: &str, style: u8) -> PathBuf {
    match style {
        1 => below(Path::new(root.file_name().unwrap()), rel),
        2 => format!("./{}/{rel}", root.file_name().unwrap().display()).into(),
        3 => root.join("x").join("..").join(rel),
        4 => format!("{}//{rel}/", root.display()).into(),
        _ => below(root, rel),
    }
}

fn one(m: &mut Monitor, case: &Case, scratch: &Path) {
    static N: AtomicUsize = AtomicUsize::new(0);
    let root = scratch.join(format!("t{}", N.fetch_add(1, Ordering::Relaxed)));
    let _ = std::fs::create_dir_all(&root);
    let built = case.tree.build(&root).and_then(|_| case.tomls.iter().try_for_each(|(f, k)| write_toml(&root.join(f), k)));
    if let Err(e) = built { return m.inconclusive(format!("tree: {e}")) }
    check(m, case, &root);
    let _ = std::fs::remove_dir_all(&root);
}

fn check(m: &mut Monitor, case: &Case, root: &Path) {
    m.eval_str(&case.json().to_string(), !case.tomls.is_empty());
    let several = if case.args.len() > 1 { ":several" } else { "" };
    let mut want: BTreeMap<String, &str> = BTreeMap::new();
    let mut broken: BTreeSet<String> = BTreeSet::new();
    for a in &case.args {
        match case.nearest(a) {
            Some((d, f, k)) => {
                m.count(if d == *a { "configured right there" } else if d.is_empty() { "configured at the root" } else { "configured in between" });
                if f.ends_with(".air.toml") { m.count("hidden configuration files") }
                if BROKEN.contains(&k) { broken.insert(f); }
                if want.insert(d, k).is_some() { m.count("one configuration for several arguments") }
            }
            None => m.count("not configured"),
        }
    }
    let args: Vec<PathBuf> = case.args.iter().zip(&case.style).map(|(a, s)| spelled(root, a, *s)).collect();
    let got = match guard(|| discover_settings(&args).map_err(|e| format!("{e:#}"))) {
        Ok(g) => g,
        Err(e) => return m.violation(format!("panic{several}"), format!("{:?}: {e}", case.args), case.json()),
    };
    let found = match got {
        Err(e) => {
            if broken.is_empty() {
                m.violation(format!("refused{several}"), format!("{:?} refused: {e}", case.args), case.json());
            } else if !broken.iter().any(|f| case.tomls[f] == "pattern" || e.contains(&root.join(f).display().to_string())) {
                m.violation(format!("error-names-no-file{several}"), format!("none of {broken:?} is named in: {e}"), case.json());
            }
            m.count("broken configurations reported");
            return;
        }
        Ok(f) if !broken.is_empty() => {
            let _ = f;
            return m.violation(format!("accepted{several}"), format!("{:?} accepted although {broken:?} is broken", case.args), case.json());
        }
        Ok(f) => f,
    };
    let dirs: Vec<String> = found.iter().map(|d| d.directory.strip_prefix(root).map(|p| p.to_string_lossy().into_owned()).unwrap_or_else(|_| d.directory.display().to_string())).collect();
    let set: BTreeSet<String> = dirs.iter().cloned().collect();
    if set.len() != dirs.len() {
        return m.violation(format!("loaded-twice{several}"), format!("{:?} loads {dirs:?}", case.args), case.json());
    }
    if set != want.keys().cloned().collect() {
        return m.violation(format!("loaded{several}"), format!("{:?} loads {dirs:?} instead of {want:?} among {:?}", case.args, case.tomls), case.json());
    }
    let mut resolver = PathResolver::new(Settings::default());
    for d in found {
        let rel = d.directory.strip_prefix(root).unwrap().to_string_lossy().into_owned();
        let w = d.settings.format.line_width.value();
        if w != width(want[&rel]) {
            return m.violation(format!("wrong-file{several}"), format!("the configuration loaded for {rel:?} has width {w}, of {:?}", case.tomls), case.json());
        }
        resolver.add(d.directory, d.settings);
    }
    // every argument, and everything there is, by the closest directory loaded
    let everything: Vec<&String> = case.args.iter().chain(&case.tree.dirs).chain(case.tree.files.iter().map(|f| &f.0)).collect();
    for p in everything {
        let best = prefixes(p).into_iter().rev().find_map(|d| want.get(&d).map(|k| width(k)));
        let got = resolver.resolve_or_fallback(below(root, p)).format.line_width.value();
        m.count("resolutions");
        if got != best.unwrap_or(80) {
            return m.violation(format!("resolved{several}"), format!("{p:?} resolves to width {got} instead of {best:?}; arguments {:?}, loaded {want:?}", case.args), case.json());
        }
    }
    // the lookup of single files
    for p in case.args.iter().chain(&case.tree.dirs) {
        let at = below(root, p);
        let found = find_air_toml(&at);
        let expect = case.nearest(p).map(|(_, f, _)| root.join(f));
        if found != expect {
            return m.violation("find_air_toml", format!("find_air_toml({p:?}) is {found:?} instead of {expect:?}"), case.json());
        }
        let here = find_air_toml_in_directory(&at);
        let expect = case.toml_in(p).map(|(f, _)| root.join(f));
        if here != expect {
            return m.violation("find_air_toml_in_directory", format!("in {p:?}: {here:?} instead of {expect:?}"), case.json());
        }
        for f in found.iter().chain(&here) {
            if !is_air_toml(f) { return m.violation("is_air_toml", format!("{f:?} is not recognized"), case.json()) }
        }
    }
    m.sample(|| json!({"args": case.args, "configurations": case.tomls, "loaded": dirs}));
}

const DIRS: &[&str] = &["a", "b", "ab", "a b", "é", "R", "pkg", ".github", "a.R", "air", "tests"];

/// What marks a project, a repository or a home to other tools; it says nothing about air's configuration.
const MARKS: &[&str] = &[".git/HEAD", ".git", ".hg/store", ".svn/entries", "DESCRIPTION", "NAMESPACE", "pkg.Rproj", ".Rproj.user/x", ".here", "_quarto.yml", "renv.lock", "renv/x",
    ".Rprofile", ".gitignore", ".ignore", ".airignore", "package.json", ".vscode/settings.json", "pyproject.toml", "ruff.toml", "rustfmt.toml", ".editorconfig", ".lintr", "air", ".air",
    ".air/air.toml.bak", ".config/x", "air.json", "air.yaml", "AIR.toml", "Air.toml", "air.toml~", "_air.toml", ".bashrc", "Cargo.toml"];

fn generate(r: &mut Rng) -> Case {
    let mut c = Case::default();
    for _ in 0..r.range(1, 7) {
        let n = r.range(1, 5);
        let d: Vec<&str> = (0..n).map(|_| *r.pick(DIRS)).collect();
        c.tree.dir(&d.join("/"));
    }
    let mut dirs: Vec<String> = c.tree.dirs.iter().cloned().collect();
    dirs.push(String::new());
    let mut files = vec![];
    for d in &dirs {
        for f in ["x.R", "y.r", "air.R", "air.toml.R", "xair.toml"] {
            if r.chance(1, 4) {
                let f = if d.is_empty() { f.to_string() } else { format!("{d}/{f}") };
                if c.tree.file(&f, "") { files.push(f) }
            }
        }
        while r.chance(1, 3) {
            let f = r.word(MARKS);
            let f = if d.is_empty() { f.to_string() } else { format!("{d}/{f}") };
            if f.ends_with(".gitignore") { c.tree.file(&f, "*\n"); } else { c.tree.file(&f, "root = true\n"); }
        }
        let mut k = 0;
        for n in ["air.toml", ".air.toml"] {
            if r.chance(1, if d.is_empty() { 2 } else { 4 }) {
                let f = if d.is_empty() { n.to_string() } else { format!("{d}/{n}") };
                let kind = match r.below(20) {
                    0 => r.word(&["directory", "dangling"]).to_string(),
                    1 if r.chance(1, 2) => r.word(BROKEN).to_string(),
                    2 => "empty".to_string(),
                    // told apart by their line width
                    _ => format!("{}", 100 + (c.tomls.len() * 2 + k) % 200),
                };
                k += 1;
                c.tomls.insert(f, kind);
            }
        }
    }
    let n = match r.below(6) { 0..=2 => 1, 3 | 4 => r.range(2, 4), _ => r.range(4, 12) };
    for _ in 0..n {
        let a = match r.below(10) {
            0 => String::new(),
            // nothing there: as an editor or `--stdin-file-path` may ask
            1 => { let d = r.pick(&dirs).clone(); if d.is_empty() { "new/x.R".into() } else { format!("{d}/new/x.R") } }
            2 if !c.args.is_empty() => r.pick(&c.args).clone(),
            3..=5 if !files.is_empty() => r.pick(&files).clone(),
            _ => r.pick(&dirs).clone(),
        };
        c.args.push(a);
    }
    c.style = c.args.iter().map(|_| r.below(5) as u8).collect();
    c
}

fn names(m: &mut Monitor) {
    for (p, want) in [("air.toml", true), (".air.toml", true), ("a/air.toml", true), ("/a/b/.air.toml", true), ("xair.toml", false), ("a/x.air.toml", false),
        ("air.toml/x", false), ("air.toml.bak", false), ("Air.toml", false), ("..air.toml", false), ("air", false), ("", false), ("airXtoml", false), ("a/b-air.toml", false)] {
        m.eval_str(&format!("name {p}"), true);
        if is_air_toml(p) != want { m.violation("is_air_toml", format!("is_air_toml({p:?}) is {}", !want), json!({"name": p})) }
    }
}

fn main() {
    let mut m = Monitor::new("W05");
    let scratch = Scratch::new("w05");
    let work = scratch.path().to_path_buf();
    std::env::set_current_dir(&work).unwrap();
    if let Some(c) = m.replay.clone() {
        names(&mut m);
        if let Some(c) = Case::from(&c) { one(&mut m, &c, &work) }
        m.finish();
        return;
    }
    for a in work.ancestors() {
        for f in ["air.toml", ".air.toml"] {
            if a.join(f).exists() { m.inconclusive(format!("{} exists", a.join(f).display())) }
        }
    }
    names(&mut m);
    let mut r = m.rng("trees");
    for _ in 0..m.n(3000, 40_000) {
        if !m.running() { break }
        let c = generate(&mut r);
        one(&mut m, &c, &work);
    }
    for what in ["configured right there", "configured at the root", "configured in between", "not configured", "one configuration for several arguments", "hidden configuration files", "broken configurations reported"] {
        m.require(what, 50);
    }
    m.finish();
}
