//! A01-A03: the command line, on trees of files in a scratch directory.
use rfmt::corpus::Corpus;
use rfmt::settings::Settings;
use rfmt::{Outcome, format, generate, on_large_stack};
use rfmt::cst::Assign;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::os::unix::fs::{MetadataExt, PermissionsExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use vkit::gitignore::{Pat, decide, decide_up, parse};
use vkit::*;

/// Which property a mismatch belongs to, key, detail.
type Bad = (&'static str, String, String);

fn bad<T>(prop: &'static str, key: &str, detail: String) -> Result<T, Bad> {
    Err((prop, key.into(), detail))
}

#[derive(Clone, Debug)]
struct Toml {
    s: Settings,
    exclude: Vec<&'static str>,
    default_exclude: bool,
    hidden: bool,
}

impl Toml {
    fn text(&self) -> String {
        let mut t = self.s.toml();
        if !self.exclude.is_empty() { let _ = writeln!(t, "exclude = {}", json!(self.exclude)); }
        if !self.default_exclude { t += "default-exclude = false\n" }
        t
    }
}

#[derive(Clone, Debug, PartialEq)]
struct Entry {
    /// none for directories
    bytes: Option<Vec<u8>>,
    mode: u32,
    times: (i64, i64, i64, i64),
    inode: u64,
    link: Option<PathBuf>,
}

type Snapshot = BTreeMap<String, Entry>;

/// Of a tree all of which is readable for whoever looks, who is the owner.
fn snapshot(root: &Path, dir: &Path, out: &mut Snapshot) -> std::io::Result<()> {
    let m = std::fs::symlink_metadata(dir)?;
    let rel = dir.strip_prefix(root).unwrap().to_string_lossy().into_owned();
    let locked = m.mode() & 0o400 == 0;
    if locked { std::fs::set_permissions(dir, PermissionsExt::from_mode(0o700))? }
    let mut e = Entry { bytes: None, mode: m.mode(), times: (m.mtime(), m.mtime_nsec(), 0, 0), inode: m.ino(), link: None };
    if !locked { e.times = (m.mtime(), m.mtime_nsec(), m.ctime(), m.ctime_nsec()) }
    let mut result = Ok(());
    if m.is_symlink() { e.link = Some(std::fs::read_link(dir)?) }
    else if m.is_dir() {
        for d in std::fs::read_dir(dir)? { result = result.and(snapshot(root, &d?.path(), out)) }
    } else { e.bytes = Some(std::fs::read(dir)?) }
    if locked { std::fs::set_permissions(dir, PermissionsExt::from_mode(m.mode() & 0o7777))? }
    out.insert(rel, e);
    result
}

fn difference(a: &Snapshot, b: &Snapshot) -> Option<String> {
    for (p, e) in a {
        match b.get(p) {
            None => return Some(format!("{p} is gone")),
            Some(f) if f.bytes != e.bytes => return Some(format!("{p} changed from {} to {}", show_bytes(e), show_bytes(f))),
            Some(f) if f != e => return Some(format!("{p}: {e:?} became {f:?}")),
            _ => (),
        }
    }
    b.keys().find(|p| !a.contains_key(*p)).map(|p| format!("{p} is new"))
}

fn show_bytes(e: &Entry) -> String {
    show(&String::from_utf8_lossy(e.bytes.as_deref().unwrap_or(b"(a directory)")))
}

#[derive(Clone, Debug)]
enum Arg { Missing, Dir, File }

struct Case<'a> {
    r: Rng,
    corpus: &'a Corpus,
    root: PathBuf,
    air: PathBuf,
    /// path -> contents, permissions
    files: BTreeMap<String, (Vec<u8>, u32)>,
    /// path -> path of a file that is no R file
    links: BTreeMap<String, String>,
    dirs: BTreeSet<String>,
    locked: BTreeSet<String>,
    tomls: BTreeMap<String, Toml>,
    broken_toml: BTreeSet<String>,
    loaded: BTreeSet<String>,
    force: bool,
    args: Vec<(String, Arg)>,
    n: BTreeMap<&'static str, u64>,
    trace: Vec<String>,
}

/// What becomes of a file that is looked at.
#[derive(Clone, Debug, PartialEq)]
enum Fate { Same, New(String), Fails(&'static str) }

struct Run { code: Option<i32>, out: Vec<u8>, err: String, listed: Vec<String>, failed: Vec<(String, String)> }

fn plain_ansi(s: &str) -> String {
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find("\x1b[") {
        out.push_str(&rest[..i]);
        let end = rest[i + 2..].find(|c: char| c.is_ascii_alphabetic()).map_or(rest.len(), |k| i + 2 + k + 1);
        rest = &rest[end..];
    }
    out.push_str(rest);
    out
}

fn prefixes(p: &str) -> Vec<&str> {
    let mut v = vec![""];
    for (i, _) in p.match_indices('/') { v.push(&p[..i]) }
    if !p.is_empty() { v.push(p) }
    v
}

fn default_excluded(name: &str, dir: bool) -> bool {
    (dir && matches!(name, ".git" | "renv" | "revdep"))
        || matches!(name, "cpp11.R" | "RcppExports.R" | "extendr-wrappers.R")
        || (name.starts_with("import-standalone-") && name.ends_with(".R"))
}

fn segs(p: &str) -> Vec<Vec<u8>> { p.split('/').filter(|c| !c.is_empty()).map(|c| c.bytes().collect()).collect() }

impl Case<'_> {
    fn count(&mut self, what: &'static str) { *self.n.entry(what).or_default() += 1 }
    fn log(&mut self, what: String) { self.trace.push(what) }
    fn abs(&self, rel: &str) -> PathBuf { if rel.is_empty() { self.root.clone() } else { self.root.join(rel) } }

    // ------------------------------------------------ what is expected

    fn governing(&self, path: &str) -> Option<(&str, &Toml)> {
        prefixes(path).into_iter().rev().find(|d| self.loaded.contains(*d)).map(|d| { let (k, t) = self.tomls.get_key_value(d).unwrap(); (k.as_str(), t) })
    }

    fn settings(&self, path: &str) -> Settings {
        self.governing(path).map_or(Settings { assign: Assign::Arrow, default_table: true, ending: "auto", ..Settings::default() }, |t| t.1.s.clone())
    }

    fn excluded(&self, path: &str, dir: bool, direct: bool) -> bool {
        if self.force { return false }
        let (defaults, user) = match self.governing(path) {
            Some((d, t)) => {
                let s = segs(path.strip_prefix(d).unwrap());
                let pats: Vec<Pat> = t.exclude.iter().filter_map(|l| parse(l)).collect();
                (t.default_exclude, if s.is_empty() { None } else if direct { decide_up(&pats, &s, dir) } else { decide(&pats, &s, dir) })
            }
            None => (true, None),
        };
        if user == Some(true) { return true }
        let mut parts: Vec<&str> = path.split('/').collect();
        let name = parts.pop().unwrap();
        defaults && (default_excluded(name, dir) || direct && parts.iter().any(|p| default_excluded(p, true)))
    }

    fn included(&self, path: &str) -> bool {
        self.force || path.ends_with(".R") || path.ends_with(".r")
    }

    fn walk(&self, dir: &str, out: &mut BTreeSet<String>, lost: &mut BTreeSet<String>) {
        if self.locked.contains(dir) { lost.insert(dir.into()); return }
        let pre = if dir.is_empty() { String::new() } else { format!("{dir}/") };
        let child = |p: &&String| p.strip_prefix(&pre).is_some_and(|r| !r.is_empty() && !r.contains('/') && !r.starts_with('.'));
        for d in self.dirs.iter().filter(child) {
            if !self.excluded(d, true, false) { self.walk(d, out, lost) }
        }
        for f in self.files.keys().chain(self.links.keys()).filter(child) {
            if !self.excluded(f, false, false) && self.included(f) { out.insert(f.clone()); }
        }
    }

    /// The files air looks at, and what it can't get at.
    fn found(&self) -> (BTreeSet<String>, BTreeSet<String>) {
        let (mut out, mut lost): (BTreeSet<String>, BTreeSet<String>) = Default::default();
        for (a, kind) in &self.args {
            match kind {
                Arg::Missing => { lost.insert(a.clone()); }
                Arg::Dir => if !self.excluded(a, true, true) { self.walk(a, &mut out, &mut lost) },
                Arg::File => if !self.excluded(a, false, true) && self.included(a) { out.insert(a.clone()); },
            }
        }
        (out, lost)
    }

    fn load(&mut self, places: &[String]) {
        self.loaded = places.iter().filter_map(|a| prefixes(a).into_iter().rev().find(|d| self.tomls.contains_key(*d)).map(String::from)).collect();
    }

    fn fate_of(&self, bytes: &[u8], s: &Settings) -> Option<Fate> {
        let Ok(text) = std::str::from_utf8(bytes) else { return Some(Fate::Fails("read")) };
        match format(text, s) {
            Outcome::Formatted(o) if o == text => Some(Fate::Same),
            Outcome::Formatted(o) => Some(Fate::New(o)),
            Outcome::Refused(_) => Some(Fate::Fails("format")),
            Outcome::Panicked(_) => None,
        }
    }

    fn fate(&self, path: &str) -> Option<Fate> {
        let at = self.links.get(path).map_or(path, |t| t);
        let Some((bytes, mode)) = self.files.get(at) else { return Some(Fate::Fails("read")) };
        if mode & 0o400 == 0 { return Some(Fate::Fails("read")) }
        self.fate_of(bytes, &self.settings(path))
    }

    // ------------------------------------------------ the workload

    fn program(&mut self) -> String {
        for _ in 0..20 {
            let r = &mut self.r;
            let text = match r.below(5) {
                0 | 1 => self.corpus.piece(r),
                _ => generate::program(r, true),
            };
            let text = text.replace("\r\n", "\n");
            if text.contains('\r') || text.len() > 2000 { continue }
            let start = Instant::now();
            if !matches!(format(&text, &Settings::default()), Outcome::Formatted(_)) || start.elapsed() > Duration::from_millis(200) { continue }
            return text;
        }
        "x=1\n".into()
    }

    fn contents(&mut self, path: &str) -> Vec<u8> {
        let s = self.settings(path);
        match self.r.below(20) {
            0 => vec![],
            1 => b"x = \"\xff\"\ny  =  1\n".to_vec(),
            2 => b"\xc3".to_vec(),
            3 | 4 => {
                let mut t = self.program();
                t.push_str(self.r.word(&["\nx <-", "\nf(", "\n}", "\n'abc", "\nif (", "\n1 +\n", "\na b"]));
                t.into_bytes()
            }
            5..=8 => {
                let t = self.program();
                match format(&t, &s) { Outcome::Formatted(o) => o.into_bytes(), _ => t.into_bytes() }
            }
            9 | 10 => self.program().replace('\n', "\r\n").into_bytes(),
            11 => {
                let t = self.program();
                t.trim_end().as_bytes().to_vec()
            }
            12 => {
                // larger than a pipe's buffer
                let mut t = self.program();
                if !t.ends_with('\n') { t.push('\n') }
                let n = t.len().max(1);
                if self.r.chance(1, 3) && n > 20 && n < 400 { t.repeat(70_000 / n + 1).into_bytes() } else { t.into_bytes() }
            }
            _ => self.program().into_bytes(),
        }
    }

    fn random_toml(&mut self) -> Toml {
        let mut s = Settings::random(&mut self.r);
        s.width = s.width.max(10);
        if self.r.chance(1, 4) { s.ending = "auto" }
        s.default_table = true;
        let exclude = match self.r.below(6) { 0 => vec!["skip*"], 1 => vec!["sub/"], 2 => vec!["*.r", "!b.r"], 3 => vec!["/a.R"], _ => vec![] };
        Toml { s, exclude, default_exclude: !self.r.chance(1, 5), hidden: self.r.chance(1, 4) }
    }

    fn build(&mut self) -> std::io::Result<bool> {
        for d in ["sub", "sub/deep", "renv", "o t", "dir.R", ".hid"] {
            if self.r.chance(2, 3) {
                for p in prefixes(d).into_iter().skip(1) { self.dirs.insert(p.into()); }
            }
        }
        let mut places: Vec<String> = self.dirs.iter().cloned().collect();
        places.push(String::new());
        for d in places.clone() {
            if self.r.chance(1, if d.is_empty() { 2 } else { 5 }) {
                let t = self.random_toml();
                self.tomls.insert(d, t);
            }
        }
        // arguments: mostly everything
        let names = ["a.R", "b.r", "c.Rmd", "skip1.R", ".dot.R", "cpp11.R", "é ü.R", "import-standalone-x.R", "noext", "d.R.txt", "e.R", "f.R", "g.r", "R"];
        let mut wanted = vec![];
        let many = self.r.chance(1, 25);
        for _ in 0..if many { 150 } else { self.r.range(1, 14) } {
            let d = self.r.pick(&places).clone();
            let name = if many { format!("{}{}.R", self.r.word(&["x", "y", "skip"]), self.r.below(1000)) } else { self.r.word(&names).to_string() };
            wanted.push(if d.is_empty() { name } else { format!("{d}/{name}") });
        }
        for _ in 0..*self.r.pick(&[1, 1, 1, 2, 3]) {
            let a = match self.r.below(8) {
                0..=2 => (String::new(), Arg::Dir),
                3 => { let d = self.r.pick(&places).clone(); (d, Arg::Dir) }
                4..=6 => { let f = self.r.pick(&wanted).clone(); if self.dirs.contains(&f) { (f, Arg::Dir) } else { (f, Arg::File) } }
                _ => (self.r.word(&["nowhere.R", "sub/nowhere.R", "nowhere", "x/y/z.R"]).to_string(), Arg::Missing),
            };
            self.args.push(a);
        }
        self.force = self.r.chance(1, 8);
        let at: Vec<String> = self.args.iter().map(|a| a.0.clone()).collect();
        self.load(&at);
        for f in wanted {
            if self.files.contains_key(&f) || self.dirs.contains(&f) { continue }
            let mut bytes = self.contents(&f);
            if self.fate_of(&bytes, &self.settings(&f)).is_none() { bytes = b"x=1\n".to_vec() }
            let mode = match self.r.below(16) { 0 => 0o000, 1 => 0o444, 2 => 0o600, 3 => 0o755, _ => 0o644 };
            self.files.insert(f, (bytes, mode));
        }
        if self.r.chance(1, 5) {
            let t = self.program();
            self.files.insert("target.txt".into(), (t.into_bytes(), 0o644));
            self.links.insert("link.R".into(), if self.r.bool() { "target.txt".into() } else { "nothing".into() });
            if self.r.chance(1, 4) { self.args.push(("link.R".into(), Arg::File)) }
        }
        // a link to a file that is formatted as well: which settings come last is anybody's guess
        if self.force && !self.links.is_empty() { self.links.clear(); self.files.remove("target.txt"); self.args.retain(|a| a.0 != "link.R") }
        self.args.retain(|a| !(a.0 == "link.R" && self.links.get("link.R").is_some_and(|t| t == "nothing")));
        if self.args.is_empty() { self.args.push((String::new(), Arg::Dir)) }
        if self.r.chance(1, 6) && self.dirs.contains("sub/deep") && !self.tomls.contains_key("sub/deep") && !self.args.iter().any(|a| a.0.starts_with("sub/deep/")) {
            self.locked.insert("sub/deep".into());
        }
        if self.r.chance(1, 12) && !self.tomls.is_empty() {
            let d: Vec<String> = self.tomls.keys().cloned().collect();
            self.broken_toml.insert(self.r.pick(&d).clone());
        }
        let at: Vec<String> = self.args.iter().map(|a| a.0.clone()).collect();
        self.load(&at);
        // on the disk
        for d in &self.dirs { std::fs::create_dir_all(self.root.join(d))? }
        for (d, t) in &self.tomls {
            let f = self.abs(d).join(if t.hidden { ".air.toml" } else { "air.toml" });
            let text = if self.broken_toml.contains(d) { "[format]\nline-width = true\n".to_string() } else { t.text() };
            std::fs::write(&f, &text)?;
            // `--force` is for any file
            if self.force {
                let rel = f.strip_prefix(&self.root).unwrap().to_string_lossy().into_owned();
                self.files.insert(rel, (text.into_bytes(), 0o644));
            }
        }
        for (f, (bytes, mode)) in &self.files {
            std::fs::write(self.root.join(f), bytes)?;
            std::fs::set_permissions(self.root.join(f), PermissionsExt::from_mode(*mode))?;
        }
        for (l, t) in &self.links { std::os::unix::fs::symlink(t, self.root.join(l))? }
        for d in &self.locked { std::fs::set_permissions(self.root.join(d), PermissionsExt::from_mode(0o300))? }
        let described = format!("args {:?}, force {}, tomls {:?}, broken {:?}, locked {:?}, files {:?}, links {:?}", self.args, self.force, self.tomls, self.broken_toml, self.locked,
            self.files.iter().map(|(f, (b, m))| format!("{f} {m:o} {}", String::from_utf8_lossy(b).chars().take(160).collect::<String>())).collect::<Vec<_>>(), self.links);
        self.log(described);
        Ok(true)
    }

    fn spell(&mut self, cwd: &str, rel: &str) -> PathBuf {
        let abs = self.abs(rel);
        match self.r.below(4) {
            0 => abs,
            1 => { // relative
                let up = cwd.split('/').filter(|c| !c.is_empty()).count();
                let mut p = PathBuf::new();
                if rel == cwd { return ".".into() }
                let pre = if cwd.is_empty() { String::new() } else { format!("{cwd}/") };
                if let Some(below) = rel.strip_prefix(&pre) { return if self.r.bool() { below.into() } else { Path::new(".").join(below) } }
                for _ in 0..up { p.push("..") }
                p.push(rel);
                p
            }
            2 => self.abs("").join("sub/..").join(rel),
            _ => if self.dirs.contains(rel) || rel.is_empty() { PathBuf::from(format!("{}/", abs.display())) } else { abs },
        }
    }

    fn air(&mut self, cwd: &str, args: &[std::ffi::OsString], stdin: Option<&[u8]>) -> Result<Run, Bad> {
        let mut c = Command::new(&self.air);
        c.current_dir(self.abs(cwd)).args(args).env("RUST_BACKTRACE", "0").stdout(Stdio::piped()).stderr(Stdio::piped())
            .stdin(if stdin.is_some() { Stdio::piped() } else { Stdio::null() });
        if self.r.chance(1, 4) { c.env("NO_COLOR", "1"); }
        self.log(format!("in {cwd:?}: air {args:?}"));
        let mut child = match c.spawn() { Ok(c) => c, Err(e) => return bad("A01", "inconclusive", e.to_string()) };
        let feeder = stdin.map(|b| { let mut p = child.stdin.take().unwrap(); let b = b.to_vec(); std::thread::spawn(move || { let _ = p.write_all(&b); }) });
        let (tx, rx) = std::sync::mpsc::channel();
        let pid = child.id();
        let waiter = std::thread::spawn(move || { let o = child.wait_with_output(); let _ = tx.send(()); o });
        if rx.recv_timeout(Duration::from_secs(60)).is_err() {
            let _ = Command::new("kill").arg("-9").arg(pid.to_string()).status();
            let _ = waiter.join();
            return bad(if stdin.is_some() { "A03" } else { "A02" }, "does-not-end", format!("air {args:?} did not end within 60 s"));
        }
        let o = match waiter.join().unwrap() { Ok(o) => o, Err(e) => return bad("A01", "inconclusive", e.to_string()) };
        if let Some(f) = feeder { let _ = f.join(); }
        let err = plain_ansi(&String::from_utf8_lossy(&o.stderr));
        let listed = err.lines().filter_map(|l| l.strip_prefix("Would reformat: ")).map(String::from).collect();
        let failed = err.lines().filter_map(|l| l.split_once("Failed to ")).filter_map(|(_, r)| r.split_once(' ')).map(|(a, b)| (a.to_string(), b.to_string())).collect();
        self.count("runs of air");
        Ok(Run { code: o.status.code(), out: o.stdout, err, listed, failed })
    }

    /// as in messages
    fn shown(&self, cwd: &str, rel: &str) -> String {
        let cwd = self.abs(cwd);
        let p = self.abs(rel);
        p.strip_prefix(&cwd).unwrap_or(&p).display().to_string()
    }

    fn look(&self) -> Result<Snapshot, Bad> {
        let mut s = Snapshot::new();
        match snapshot(&self.root, &self.root, &mut s) { Ok(()) => Ok(s), Err(e) => bad("A01", "inconclusive", format!("snapshot: {e}")) }
    }

    /// Are exactly these reported?
    fn reported(&self, cwd: &str, run: &Run, bad_ones: &BTreeMap<String, &'static str>) -> Option<String> {
        for (f, what) in bad_ones {
            let name = self.shown(cwd, f);
            // (which one isn't said)
            if self.locked.contains(f) && run.err.contains("Permission denied") { continue }
            if !run.failed.iter().any(|(w, rest)| (w == what || *what == "any") && rest.starts_with(&format!("{name}:"))) {
                return Some(format!("nothing is said of the failure to {what} {f}"));
            }
        }
        run.failed.iter().find(|(w, rest)| !bad_ones.iter().any(|(f, what)| (w == what || *what == "any") && rest.starts_with(&format!("{}:", self.shown(cwd, f)))))
            .map(|x| format!("unexpected: failed to {} {}", x.0, x.1))
    }

    fn run_all(&mut self) -> Result<(), Bad> {
        let mut flags: Vec<std::ffi::OsString> = vec!["format".into()];
        if self.force { flags.push("--force".into()) }
        match self.r.below(10) { 0 => flags.extend(["--log-level".into(), "trace".into()]), 1 => flags.extend(["--log-level".into(), "error".into()]), 2 => flags.push("--no-color".into()), _ => () }
        let cwds: Vec<String> = std::iter::once(String::new()).chain(self.dirs.iter().filter(|d| !self.locked.contains(*d)).cloned()).collect();
        let cwd = if self.r.chance(2, 3) { String::new() } else { self.r.pick(&cwds).clone() };
        let list = self.args.clone();
        let mut args: Vec<std::ffi::OsString> = list.iter().map(|a| self.spell(&cwd, &a.0).into()).collect();
        // `cd`s to nowhere
        if args.iter().any(|a| a.to_string_lossy().contains("sub/..")) && !self.dirs.contains("sub") {
            args = list.iter().map(|a| self.abs(&a.0).into()).collect();
        }
        let check: Vec<std::ffi::OsString> = flags.iter().cloned().chain(["--check".into()]).chain(args.iter().cloned()).collect();
        let write: Vec<std::ffi::OsString> = flags.iter().cloned().chain(args.iter().cloned()).collect();

        let (found, lost) = self.found();
        if found.len() > 1 { self.count("trees with several files to look at") }
        let mut fates = BTreeMap::new();
        for f in &found {
            let Some(fate) = self.fate(f) else { return Ok(()) };
            fates.insert(f.clone(), fate);
        }
        // settings are not to be formatted, and what is reached by several arguments is formatted several times
        for (f, fate) in &fates {
            let Fate::New(text) = fate else { continue };
            if f.ends_with("air.toml") { return Ok(()) }
            if self.args.len() > 1 && self.fate_of(text.as_bytes(), &self.settings(f)) != Some(Fate::Same) { self.count("files that aren't formatted at once"); return Ok(()) }
        }
        let aborts = self.loaded.iter().any(|d| self.broken_toml.contains(d));
        let before = self.look()?;

        // ---- check mode
        let run = self.air(&cwd, &check, None)?;
        let mut errors: BTreeMap<String, &'static str> = fates.iter().filter_map(|(f, x)| if let Fate::Fails(w) = x { Some((f.clone(), *w)) } else { None }).collect();
        errors.extend(lost.iter().map(|l| (l.clone(), "any")));
        let changing: Vec<String> = fates.iter().filter(|x| matches!(x.1, Fate::New(_))).map(|x| x.0.clone()).collect();
        if let Some(d) = difference(&before, &self.look()?) { return bad("A01", "check-writes", d) }
        if !run.out.is_empty() { return bad("A01", "check-output", show(&String::from_utf8_lossy(&run.out))) }
        if aborts {
            self.count("runs with broken settings");
            if run.code != Some(255) { return bad("A02", "broken-settings", format!("{:?}: {}", run.code, show(&run.err))) }
        } else {
            let mut want: Vec<String> = changing.iter().map(|f| self.shown(&cwd, f)).collect();
            want.sort();
            let mut got = run.listed.clone();
            got.sort();
            got.dedup();
            self.count("check runs judged");
            if got != want { return bad("A01", "listed", format!("would reformat {got:?}, to be reformatted are {want:?}; {}", show(&run.err))) }
            let code = if !errors.is_empty() { 255 } else if !changing.is_empty() { 1 } else { 0 };
            match code { 0 => self.count("check runs that pass"), 1 => self.count("check runs that fail"), _ => self.count("check runs with errors") }
            if run.code != Some(code) { return bad(if code == 255 { "A02" } else { "A01" }, "check-status", format!("{:?}, not {code}: {}", run.code, show(&run.err))) }
            if let Some(e) = self.reported(&cwd, &run, &errors) { return bad("A02", "check-report", format!("{e}; {}", show(&run.err))) }
        }

        // ---- standard input
        for _ in 0..if self.r.chance(2, 3) { 2 } else { 0 } { self.stdin(&cwd, &flags)? }
        if let Some(d) = difference(&before, &self.look()?) { return bad("A03", "stdin-writes", d) }
        let at: Vec<String> = self.args.iter().map(|a| a.0.clone()).collect();
        self.load(&at);

        // ---- write mode
        let run = self.air(&cwd, &write, None)?;
        let after = self.look()?;
        if aborts {
            if run.code != Some(255) { return bad("A02", "broken-settings", format!("{:?}: {}", run.code, show(&run.err))) }
            if let Some(d) = difference(&before, &after) { return bad("A02", "broken-settings-writes", d) }
            return Ok(());
        }
        let mut same = before.clone();
        let mut good = 0;
        for (f, fate) in &fates {
            let Fate::New(text) = fate else { continue };
            let at = self.links.get(f).unwrap_or(f);
            if self.files[at].1 & 0o200 == 0 { errors.insert(f.clone(), "write"); continue }
            let Some(now) = after.get(at) else { return bad("A01", "file-lost", format!("{at} is gone")) };
            if now.bytes.as_deref() != Some(text.as_bytes()) {
                let prop = if errors.is_empty() { "A01" } else { "A02" };
                return bad(prop, "not-formatted", format!("{f} {}, not {}; {}", show_bytes(now), show(text), show(&run.err)));
            }
            if now.mode != before[at].mode { return bad("A01", "mode-changed", format!("{f}: {:o} became {:o}", before[at].mode, now.mode)) }
            good += 1;
            same.insert(at.clone(), now.clone());
        }
        // a file may be replaced, but not a directory's other entries
        let mut now = after.clone();
        for (p, e) in &same { if e.bytes.is_none() && e.link.is_none() { if let Some(x) = now.get_mut(p) { x.times = e.times } } }
        if let Some(d) = difference(&same, &now) { return bad("A02", "others-changed", format!("{d}; {}", show(&run.err))) }
        *self.n.entry("files rewritten").or_default() += good;
        *self.n.entry("files left as they were").or_default() += before.values().filter(|e| e.bytes.is_some()).count() as u64 - good;
        *self.n.entry("files that can't be formatted").or_default() += errors.len() as u64;
        if good > 0 && !errors.is_empty() { self.count("runs with good and bad files") }
        if !run.out.is_empty() { return bad("A01", "output", show(&String::from_utf8_lossy(&run.out))) }
        let code = if errors.is_empty() { 0 } else { 255 };
        if run.code != Some(code) { return bad("A02", "status", format!("{:?}, not {code}: {}", run.code, show(&run.err))) }
        if let Some(e) = self.reported(&cwd, &run, &errors) { return bad("A02", "report", format!("{e}; {}", show(&run.err))) }

        // ---- and check mode again
        let mut again = BTreeSet::new();
        for (f, fate) in &fates {
            let Fate::New(text) = fate else { continue };
            if errors.contains_key(f) { again.insert(f.clone()); continue }
            match self.fate_of(text.as_bytes(), &self.settings(f)) {
                None => return Ok(()),
                Some(Fate::Same) => (),
                // (R01's business)
                Some(_) => { self.count("files that aren't formatted at once"); return Ok(()) }
            }
        }
        let run = self.air(&cwd, &check, None)?;
        let mut want: Vec<String> = again.iter().map(|f| self.shown(&cwd, f)).collect();
        want.sort();
        let mut got = run.listed.clone();
        got.sort();
        got.dedup();
        if got != want { return bad("A01", "listed-after", format!("after formatting, would reformat {got:?}, not {want:?}; {}", show(&run.err))) }
        let failing = errors.iter().any(|e| *e.1 != "write");
        let code = if failing { 255 } else if !again.is_empty() { 1 } else { 0 };
        if run.code != Some(code) { return bad("A01", "status-after", format!("{:?}, not {code}: {}", run.code, show(&run.err))) }
        if let Some(d) = difference(&after, &self.look()?) { return bad("A01", "check-writes", d) }
        self.count("check runs after formatting");
        Ok(())
    }

    fn stdin(&mut self, cwd: &str, flags: &[std::ffi::OsString]) -> Result<(), Bad> {
        let known: Vec<String> = self.files.keys().cloned().collect();
        let rel = match self.r.below(4) {
            0 => self.r.word(&["new.R", "sub/new.R", "sub/deep/er/new.r", "renv/new.R", "new.txt", "skip9.R", "sub/cpp11.R", ".hid/x.R", "o t/b.r"]).to_string(),
            _ => self.r.pick(&known).clone(),
        };
        if self.locked.iter().any(|d| rel.starts_with(&format!("{d}/"))) { return Ok(()) }
        self.load(std::slice::from_ref(&rel));
        let bytes = if self.r.chance(1, 3) && self.files.contains_key(&rel) { self.files[&rel].0.clone() } else { self.contents(&rel) };
        let s = self.settings(&rel);
        let formattable = !self.excluded(&rel, false, true) && self.included(&rel);
        let Some(fate) = self.fate_of(&bytes, &s) else { return Ok(()) };
        let aborts = self.loaded.iter().any(|d| self.broken_toml.contains(d));
        let check = self.r.chance(1, 3);
        let mut p = self.spell(cwd, &rel);
        if p.to_string_lossy().contains("sub/..") && !self.dirs.contains("sub") { p = self.abs(&rel) }
        let mut args: Vec<std::ffi::OsString> = flags.to_vec();
        if check { args.push("--check".into()) }
        args.push("--stdin-file-path".into());
        args.push(p.into());
        let conflict = self.r.chance(1, 20);
        if conflict { args.push(self.abs("").into()) }
        let run = self.air(cwd, &args, Some(&bytes))?;
        let what = || format!("{args:?} in {cwd:?} given {}: {:?}, {}, {}", show(&String::from_utf8_lossy(&bytes)), run.code, show(&String::from_utf8_lossy(&run.out)), show(&run.err));
        let (code, out): (i32, Option<Vec<u8>>) = if conflict || aborts { (255, None) }
            else if !formattable {
                if std::str::from_utf8(&bytes).is_err() { return Ok(()) }
                (0, if check { None } else { Some(bytes.clone()) })
            } else {
                match &fate {
                    Fate::Fails(_) => (255, None),
                    Fate::Same => (0, if check { None } else { Some(bytes.clone()) }),
                    Fate::New(t) => (if check { 1 } else { 0 }, if check { None } else { Some(t.clone().into_bytes()) }),
                }
            };
        self.count(if conflict { "standard input and paths" } else if !formattable { "standard input passed through" } else { match fate { Fate::New(_) => "standard input formatted", Fate::Same => "standard input as it should be", _ => "standard input that can't be formatted" } });
        if bytes.len() > 65_536 { self.count("standard input larger than a pipe") }
        if run.code != Some(code) { return bad("A03", if check { "stdin-check-status" } else { "stdin-status" }, format!("not {code}: {}", what())) }
        if run.out != out.clone().unwrap_or_default() { return bad("A03", "stdin-output", format!("not {}: {}", show(&String::from_utf8_lossy(&out.unwrap_or_default())), what())) }
        if code == 255 && run.err.trim().is_empty() { return bad("A03", "stdin-silent", what()) }
        Ok(())
    }
}

fn one(seed: u64, corpus: &Corpus, air: &Path) -> (Result<(), Bad>, BTreeMap<&'static str, u64>, Vec<String>) {
    let dir = Scratch::new(&format!("c{}", seed % 1_000_000));
    let root = dir.path().canonicalize().unwrap().join("t");
    std::fs::create_dir(&root).unwrap();
    let mut c = Case {
        r: Rng::new(seed), corpus, root, air: air.into(), files: BTreeMap::new(), links: BTreeMap::new(), dirs: BTreeSet::new(), locked: BTreeSet::new(), tomls: BTreeMap::new(),
        broken_toml: BTreeSet::new(), loaded: BTreeSet::new(), force: false, args: vec![], n: BTreeMap::new(), trace: vec![],
    };
    let out = match c.build() {
        Ok(_) => c.run_all(),
        Err(e) => bad("A01", "inconclusive", format!("tree: {e}")),
    };
    for d in &c.locked { let _ = std::fs::set_permissions(c.root.join(d), PermissionsExt::from_mode(0o700)); }
    (out, std::mem::take(&mut c.n), std::mem::take(&mut c.trace))
}

fn main() {
    on_large_stack(|| {
        let prop = std::env::var("VK_PROP").expect("VK_PROP");
        // permissions mean nothing to root
        assert!(!is_root(), "not to be run as root");
        let m = Monitor::new(&prop);
        let air: PathBuf = std::env::var("VK_AIR").expect("VK_AIR").into();
        let corpus = Arc::new(Corpus::load());
        let replay: Vec<u64> = match &m.replay { Some(v) => v["seed"].as_u64().into_iter().flat_map(|s| [s; 3]).collect(), None => vec![] };
        let replaying = m.replay.is_some();
        let base = m.rng("trees").next();
        let next = Arc::new(AtomicU64::new(0));
        let m = Arc::new(Mutex::new(m));
        let workers: Vec<_> = (0..8).map(|_| {
            let (m, next, corpus, air, prop, replay) = (m.clone(), next.clone(), corpus.clone(), air.clone(), prop.clone(), replay.clone());
            std::thread::Builder::new().stack_size(256 << 20).spawn(move || loop {
                if !replaying && !m.lock().unwrap().running() { return }
                let k = next.fetch_add(1, Ordering::SeqCst);
                if replaying && k as usize >= replay.len() { return }
                let seed = if replaying { replay[k as usize] } else { hash_str(&format!("{base} {k}")) };
                let (out, n, trace) = one(seed, &corpus, &air);
                let mut m = m.lock().unwrap();
                alive();
                m.eval(seed, n.contains_key("trees with several files to look at"));
                m.count("trees");
                for (k, v) in n { m.add(k, v) }
                m.sample(|| json!({"seed": seed, "tree": trace.first().map(|t| show(t)), "runs": trace.iter().skip(1).collect::<Vec<_>>()}));
                match out {
                    Ok(()) => (),
                    Err((_, key, why)) if key == "inconclusive" => m.inconclusive(why),
                    Err((p, key, detail)) if p == prop => m.violation(key, format!("{detail}\n{}", trace.join("\n")), json!({"seed": seed})),
                    Err((p, key, detail)) => {
                        m.count("trees cut short by what another property judges");
                        if std::env::var("VK_SHOW_OTHERS").is_ok() { eprintln!("{p} {key} {seed}: {}", detail.chars().take(600).collect::<String>()) }
                    }
                }
            }).unwrap()
        }).collect();
        for w in workers { w.join().unwrap() }
        let mut m = Arc::try_unwrap(m).ok().unwrap().into_inner().unwrap();
        m.require("trees", 20);
        match prop.as_str() {
            "A01" => { m.require("check runs that pass", 10); m.require("check runs that fail", 50); m.require("files rewritten", 100); m.require("check runs after formatting", 50) }
            "A02" => { m.require("files that can't be formatted", 100); m.require("runs with good and bad files", 50); m.require("files left as they were", 200) }
            _ => { m.require("standard input formatted", 100); m.require("standard input passed through", 30); m.require("standard input that can't be formatted", 20) }
        }
        m.finish();
    });
}

fn is_root() -> bool {
    std::fs::metadata("/proc/self").is_ok_and(|m| m.uid() == 0)
}

