//! A04: the surroundings of the `air` program - log levels, colors, outputs that are full, closed, slow or
//! given up by their reader, input in pieces - against the same command in ordinary ones.
use rfmt::corpus::Corpus;
use rfmt::settings::Settings;
use rfmt::{Outcome, format, generate, on_large_stack};
use serde_json::json;
use std::collections::BTreeMap;
use std::io::{Read as _, Write as _};
use std::os::unix::fs::{MetadataExt, PermissionsExt};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use vkit::*;

type Bad = (String, String);

fn bad<T>(key: impl Into<String>, detail: String) -> Result<T, Bad> {
    Err((key.into(), detail))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Sink { Pipe, Slow, Null, Full, Closed, Broken }

impl Sink {
    fn readable(self) -> bool { matches!(self, Sink::Pipe | Sink::Slow) }
    fn failing(self) -> bool { matches!(self, Sink::Full | Sink::Broken) }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Source { Null, Closed, Endless, Whole, Pieces }

const LEVELS: [&str; 5] = ["error", "warn", "info", "debug", "trace"];
const LABELS: [&str; 5] = ["ERROR", "WARN", "INFO", "DEBUG", "TRACE"];

#[derive(Clone, Debug)]
struct Surroundings { level: Option<usize>, equals: bool, in_front: bool, no_color: bool, env: Vec<(&'static str, &'static str)>, out: Sink, err: Sink, input: Source }

impl Surroundings {
    fn ordinary(input: Source) -> Self {
        Surroundings { level: None, equals: false, in_front: false, no_color: false, env: vec![], out: Sink::Pipe, err: Sink::Pipe, input }
    }
    fn random(r: &mut Rng, has_input: bool) -> Self {
        let mut env = vec![];
        for (k, v) in [("NO_COLOR", "1"), ("NO_COLOR", ""), ("CLICOLOR_FORCE", "1"), ("TERM", "dumb"), ("TERM", "xterm-256color"), ("RUST_LOG", "trace"), ("RUST_LOG", "off"), ("AIR_LOG_LEVEL", "off"), ("LC_ALL", "tr_TR.UTF-8"), ("COLUMNS", "10"), ("HOME", "/nonexistent"), ("XDG_CONFIG_HOME", "/nonexistent")] {
            if r.chance(1, 6) && !env.iter().any(|(x, _)| *x == k) { env.push((k, v)) }
        }
        let sink = |r: &mut Rng| *r.pick(&[Sink::Pipe, Sink::Pipe, Sink::Pipe, Sink::Slow, Sink::Null, Sink::Full, Sink::Closed, Sink::Broken]);
        Surroundings {
            level: if r.chance(2, 3) { Some(r.below(5)) } else { None }, equals: r.bool(), in_front: r.bool(), no_color: r.chance(1, 4), env, out: sink(r), err: sink(r),
            input: if has_input { *r.pick(&[Source::Whole, Source::Pieces]) } else { *r.pick(&[Source::Null, Source::Closed, Source::Endless]) },
        }
    }
    fn args(&self, command: &[String]) -> Vec<String> {
        let mut flags: Vec<String> = vec![];
        if let Some(l) = self.level {
            if self.equals { flags.push(format!("--log-level={}", LEVELS[l])) } else { flags.extend(["--log-level".into(), LEVELS[l].into()]) }
        }
        if self.no_color { flags.push("--no-color".into()) }
        if self.in_front { flags.into_iter().chain(command.iter().cloned()).collect() } else { command[..1].iter().cloned().chain(flags).chain(command[1..].iter().cloned()).collect() }
    }
    fn plain(&self) -> bool { self.no_color || self.env.contains(&("NO_COLOR", "1")) && !self.env.iter().any(|e| e.0 == "CLICOLOR_FORCE") }
}

struct Run { code: Option<i32>, signal: Option<i32>, out: Vec<u8>, err: String }

impl Run {
    fn how(&self) -> String { self.code.map_or_else(|| format!("signal {:?}", self.signal), |c| format!("status {c}")) }
}

/// Without what styles it, which the logger may have escaped.
fn strip(s: &str) -> String {
    let s = &s.replace("\\x1b[", "\x1b[");
    let s = s.as_str();
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find("\x1b[") {
        out.push_str(&rest[..i]);
        let end = rest[i + 2..].find(|c: char| c.is_ascii_alphabetic()).map_or(rest.len(), |k| i + 2 + k + 1);
        rest = &rest[end..];
    }
    out.push_str(rest);
    out
}

fn run(air: &Path, cwd: &Path, command: &[String], s: &Surroundings, input: &[u8], r: &mut Rng) -> Result<Run, Bad> {
    let args = s.args(command);
    // the shell closes what is to be closed
    let closing = match (s.out, s.err, s.input) {
        (o, e, i) => format!("{}{}{}", if o == Sink::Closed { " >&-" } else { "" }, if e == Sink::Closed { " 2>&-" } else { "" }, if i == Source::Closed { " <&-" } else { "" }),
    };
    let mut c = Command::new("/bin/sh");
    c.arg("-c").arg(format!("exec \"$0\" \"$@\"{closing}")).arg(air).args(&args).current_dir(cwd);
    c.env_clear().env("PATH", "/usr/bin:/bin").env("RUST_BACKTRACE", "0");
    for (k, v) in &s.env { c.env(k, v); }
    let io = |e: std::io::Error| ("inconclusive".to_string(), e.to_string());
    let sink = |k: Sink| -> Result<Stdio, Bad> {
        Ok(match k {
            Sink::Pipe | Sink::Slow => Stdio::piped(),
            Sink::Null | Sink::Closed => Stdio::null(),
            Sink::Full => std::fs::OpenOptions::new().write(true).open("/dev/full").map_err(io)?.into(),
            Sink::Broken => { let (reader, writer) = std::io::pipe().map_err(io)?; drop(reader); writer.into() }
        })
    };
    c.stdout(sink(s.out)?).stderr(sink(s.err)?);
    c.stdin(match s.input { Source::Null | Source::Closed => Stdio::null(), Source::Endless => std::fs::File::open("/dev/zero").map_err(io)?.into(), _ => Stdio::piped() });
    let mut child = c.spawn().map_err(io)?;
    let pieces: Vec<Vec<u8>> = if s.input == Source::Pieces {
        let mut v = vec![];
        let mut at = 0;
        while at < input.len() && v.len() < 40 { let n = r.range(1, 1 + input.len() / 4).min(input.len() - at); v.push(input[at..at + n].to_vec()); at += n }
        v.push(input[at..].to_vec());
        v
    } else { vec![input.to_vec()] };
    let feeder = child.stdin.take().map(|mut p| std::thread::spawn(move || for b in pieces {
        if p.write_all(&b).is_err() { return }
        std::thread::sleep(Duration::from_micros(300));
    }));
    let reader = |p: Option<Box<dyn std::io::Read + Send>>, k: Sink| p.map(|mut p| std::thread::spawn(move || {
        let mut all = vec![];
        if k == Sink::Slow {
            std::thread::sleep(Duration::from_millis(20));
            let mut part = [0; 4096];
            while let Ok(n) = p.read(&mut part) { if n == 0 { return all } all.extend_from_slice(&part[..n]); std::thread::yield_now() }
        }
        let _ = p.read_to_end(&mut all);
        all
    }));
    let out = reader(child.stdout.take().map(|p| Box::new(p) as _), s.out);
    let err = reader(child.stderr.take().map(|p| Box::new(p) as _), s.err);
    let start = Instant::now();
    let status = loop {
        if let Some(x) = child.try_wait().map_err(io)? { break x }
        if start.elapsed() > Duration::from_secs(60) {
            let _ = child.kill();
            let _ = child.wait();
            return bad("does-not-end", format!("air {args:?} with {s:?} did not end within 60 s"));
        }
        std::thread::sleep(Duration::from_micros(500));
    };
    if let Some(f) = feeder { let _ = f.join(); }
    let get = |t: Option<std::thread::JoinHandle<Vec<u8>>>| t.map(|t| t.join().unwrap()).unwrap_or_default();
    let (out, err) = (get(out), get(err));
    Ok(Run { code: status.code(), signal: status.signal(), out, err: String::from_utf8_lossy(&err).into_owned() })
}

type Tree = BTreeMap<String, (Vec<u8>, u32)>;

fn put(root: &Path, tree: &Tree) -> std::io::Result<()> {
    if root.exists() { std::fs::remove_dir_all(root)? }
    std::fs::create_dir(root)?;
    for (p, (bytes, mode)) in tree {
        let f = root.join(p);
        std::fs::create_dir_all(f.parent().unwrap())?;
        std::fs::write(&f, bytes)?;
        std::fs::set_permissions(&f, PermissionsExt::from_mode(*mode))?;
    }
    Ok(())
}

fn look(root: &Path, dir: &Path, out: &mut Tree) -> std::io::Result<()> {
    for e in std::fs::read_dir(dir)? {
        let p = e?.path();
        let m = std::fs::symlink_metadata(&p)?;
        if m.is_dir() { look(root, &p, out)?; continue }
        let locked = m.mode() & 0o400 == 0;
        if locked { std::fs::set_permissions(&p, PermissionsExt::from_mode(0o600))? }
        out.insert(p.strip_prefix(root).unwrap().to_string_lossy().into_owned(), (std::fs::read(&p)?, m.mode() & 0o7777));
        if locked { std::fs::set_permissions(&p, PermissionsExt::from_mode(m.mode() & 0o7777))? }
    }
    Ok(())
}

fn program(r: &mut Rng, corpus: &Corpus) -> String {
    for _ in 0..20 {
        let text = if r.bool() { corpus.piece(r) } else { generate::program(r, true) }.replace("\r\n", "\n");
        if text.contains('\r') || text.len() > 1500 { continue }
        let start = Instant::now();
        if !matches!(format(&text, &Settings::default()), Outcome::Formatted(_)) || start.elapsed() > Duration::from_millis(100) { continue }
        return text;
    }
    "x=1\n".into()
}

fn contents(r: &mut Rng, corpus: &Corpus) -> Vec<u8> {
    match r.below(10) {
        0 => b"f(\n".to_vec(),
        1 => b"x <- \"\xff\"\n".to_vec(),
        2 => b"x <- 1\n".to_vec(),
        3 => b"x=1".to_vec(),
        4 => program(r, corpus).trim_end().as_bytes().to_vec(),
        5 => program(r, corpus).replace('\n', "\r\n").into_bytes(),
        6 => { let t = program(r, corpus); match format(&t, &Settings::default()) { Outcome::Formatted(o) => o.into_bytes(), _ => t.into_bytes() } }
        _ => program(r, corpus).into_bytes(),
    }
}

fn messages(err: &str) -> (Vec<String>, Vec<String>, Vec<usize>) {
    let (mut errors, mut listed, mut levels) = (vec![], vec![], vec![]);
    for l in strip(err).lines() {
        if let Some(k) = LABELS.iter().position(|x| l.trim_start().strip_prefix(x).is_some_and(|t| t.starts_with(' '))) {
            levels.push(k);
            if k == 0 { errors.push(l.trim().to_string()) }
        } else if l.starts_with("Would reformat: ") { listed.push(l.to_string()) }
    }
    errors.sort();
    listed.sort();
    (errors, listed, levels)
}

fn one(seed: u64, corpus: &Corpus, air: &Path, n: &mut BTreeMap<String, u64>, trace: &mut Vec<String>) -> Result<(), Bad> {
    let mut count = |what: &str| *n.entry(what.to_string()).or_default() += 1;
    let mut r = Rng::new(seed);
    let r = &mut r;
    let dir = Scratch::new(&format!("s{}", seed % 10_000_000));
    let top = dir.path().canonicalize().unwrap();
    let root = top.join("t");
    let io = |e: std::io::Error| ("inconclusive".to_string(), e.to_string());
    // ---- a tree
    let mut tree = Tree::new();
    let crowd = r.chance(1, 12);
    let same = contents(r, corpus);
    for k in 0..if crowd { 400 } else { r.range(1, 9) } {
        let d = r.word(&["", "", "R/", "a b/", "renv/", "é/"]);
        let name = format!("{d}{}{k}{}", r.word(&["x", "y z", "ü"]), r.word(&[".R", ".R", ".R", ".r", ".txt"]));
        let bytes = if crowd { same.clone() } else { contents(r, corpus) };
        tree.insert(name, (bytes, match r.below(14) { 0 => 0o000, 1 => 0o444, _ => 0o644 }));
    }
    if r.chance(1, 3) { tree.insert("air.toml".into(), (r.word(&["[format]\nindent-width = 4\n", "[format]\nline-ending = \"crlf\"\n", "[format]\nexclude = [\"x*\"]\n", "[format]\nindent-wdth = 4\n"]).as_bytes().to_vec(), 0o644)); }
    // ---- a command
    let names: Vec<String> = tree.keys().cloned().collect();
    let mut command = vec!["format".to_string()];
    let mut input = vec![];
    let kind = match r.below(10) { 0..=4 => "paths", 5..=8 => "input", _ => "wrong" };
    let check = r.chance(1, 3);
    if check { command.push("--check".into()) }
    match kind {
        "paths" => {
            if r.chance(2, 3) { command.push(".".into()) } else { for _ in 0..r.range(1, 3) { command.push(r.pick(&names).clone()) } }
            if r.chance(1, 8) { command.push("nowhere.R".into()) }
            if r.chance(1, 8) { command.push("--force".into()); command.retain(|a| a != ".") ; if command.len() < 3 { command.push("air.R".into()) } }
        }
        "input" => {
            command.push("--stdin-file-path".into());
            command.push(r.word(&["x.R", "R/x.r", "renv/x.R", "x.txt", "no/such/x.R"]).to_string());
            input = contents(r, corpus);
            if r.chance(1, 8) { input = input.repeat(1 + 70_000 / input.len().max(1)); if input.len() > 120_000 || input.windows(2).filter(|w| w == b"(\n").count() > 3 { input.truncate(300) } }
        }
        _ => match r.below(6) {
            0 => command = vec!["format".into()],
            1 => command.extend([".".into(), "--no-such-option".into()]),
            2 => command.extend([".".into(), "--log-level".into(), "Loud".into()]),
            3 => command.extend([".".into(), "--stdin-file-path".into(), "x.R".into()]),
            4 => command = vec!["fmt".into(), ".".into()],
            _ => command.extend([".".into(), "--check=maybe".into()]),
        },
    }
    let has_input = kind == "input";
    let first = Surroundings::ordinary(if has_input { Source::Whole } else { Source::Null });
    let shown = |c: &[String], s: &Surroundings| format!("air {} with {s:?}", s.args(c).join(" "));
    trace.push(format!("{:?}; input {}", tree.iter().take(8).map(|(k, (b, m))| format!("{k} {m:o} {}", show(&String::from_utf8_lossy(b)).chars().take(120).collect::<String>())).collect::<Vec<_>>(), show(&String::from_utf8_lossy(&input)).chars().take(200).collect::<String>()));
    put(&root, &tree).map_err(io)?;
    let reference = run(air, &root, &command, &first, &input, r)?;
    let mut after = Tree::new();
    look(&root, &root, &mut after).map_err(io)?;
    trace.push(format!("air {}: {}, {}", command.join(" "), reference.how(), show(&reference.err).chars().take(300).collect::<String>()));
    count(&format!("reference runs with {}", reference.how()));
    let (errors, listed, levels) = messages(&reference.err);
    if levels.iter().any(|l| *l > 1) { return bad("default-level", format!("without a log level: {}", show(&reference.err))) }
    match reference.code {
        Some(0 | 1 | 255) if kind != "wrong" => (),
        Some(2) if kind == "wrong" => (),
        Some(255) if kind == "wrong" && command.contains(&"--stdin-file-path".to_string()) => (),
        _ => return bad("status", format!("{}: {}", shown(&command, &first), reference.how())),
    }
    if (kind == "wrong" || has_input || check) && after != tree { return bad("writes", format!("{} changed files", shown(&command, &first))) }
    if kind == "wrong" && reference.err.trim().is_empty() && reference.out.is_empty() { return bad("silent", shown(&command, &first)) }
    if kind == "paths" && !reference.out.is_empty() { return bad("output", show(&String::from_utf8_lossy(&reference.out))) }
    // ---- in other surroundings
    for _ in 0..3 {
        let s = Surroundings::random(r, has_input);
        if kind == "wrong" && command.len() == 1 && (s.no_color || s.level.is_some()) { continue }
        if kind == "wrong" && command.contains(&"Loud".to_string()) && s.level.is_some() { continue }
        put(&root, &tree).map_err(io)?;
        let x = run(air, &root, &command, &s, &input, r)?;
        let mut now = Tree::new();
        look(&root, &root, &mut now).map_err(io)?;
        let what = || format!("{}: {}, {}; ordinarily {}, {}", shown(&command, &s), x.how(), show(&x.err).chars().take(600).collect::<String>(), reference.how(), show(&reference.err).chars().take(400).collect::<String>());
        count("runs compared");
        count(&format!("output {:?}", s.out));
        count(&format!("messages {:?}", s.err));
        if let Some(sig) = x.signal { return bad("signal", format!("ends with signal {sig}: {}", what())) }
        if now != after {
            let which = now.iter().find(|(p, f)| after.get(*p) != Some(f)).map(|(p, f)| format!("{p} is {}", show(&String::from_utf8_lossy(&f.0))));
            return bad("files", format!("{which:?}: {}", what()));
        }
        // what can't be written is an error
        let lost = s.out.failing() && !reference.out.is_empty();
        if lost { count("output that can't be written") }
        // a list that can't be printed may be an error as well
        let unlisted = s.err.failing() && !listed.is_empty();
        let code = x.code.unwrap();
        let good = if kind == "wrong" { Some(code) == reference.code || lost || s.err.failing() && code != 0 }
            else if lost { code == 255 } else if unlisted { code == 255 || Some(code) == reference.code } else { Some(code) == reference.code };
        if !good { return bad(if lost { "lost-output" } else { "status" }, what()) }
        if lost && kind == "input" && s.err.readable() && x.err.trim().is_empty() { return bad("lost-output-silently", what()) }
        if s.out.readable() && x.out != reference.out { return bad("output", format!("{} not {}: {}", show(&String::from_utf8_lossy(&x.out)).chars().take(300).collect::<String>(), show(&String::from_utf8_lossy(&reference.out)).chars().take(300).collect::<String>(), what())) }
        if s.out.readable() && !reference.out.is_empty() { count("outputs compared") }
        if !s.err.readable() || kind == "wrong" { continue }
        let (e, l, v) = messages(&x.err);
        let limit = s.level.unwrap_or(1);
        if v.iter().any(|k| *k > limit) { return bad("level", format!("more than {} is logged: {}", LEVELS[limit], what())) }
        if lost { continue }
        if e != errors { return bad("errors", format!("{e:?}, not {errors:?}: {}", what())) }
        if l != listed { return bad("list", format!("{l:?}, not {listed:?}: {}", what())) }
        if !errors.is_empty() { count("error messages compared") }
        if limit == 4 && reference.code != Some(255) && v.is_empty() { return bad("level-ignored", what()) }
        if limit == 4 && !v.is_empty() { count("runs that log more") }
        if s.plain() && x.err.contains('\x1b') { return bad("colors", what()) }
        if s.plain() { count("runs without colors") }
    }
    Ok(())
}

fn main() {
    on_large_stack(|| {
        let prop = std::env::var("VK_PROP").expect("VK_PROP");
        // permissions mean nothing to root
        assert!(!std::fs::metadata("/proc/self").is_ok_and(|m| m.uid() == 0), "not to be run as root");
        let m = Monitor::new(&prop);
        let air: PathBuf = std::env::var("VK_AIR").expect("VK_AIR").into();
        let corpus = Arc::new(Corpus::load());
        let replay: Vec<u64> = match &m.replay { Some(v) => v["seed"].as_u64().into_iter().flat_map(|s| [s; 3]).collect(), None => vec![] };
        let replaying = m.replay.is_some();
        let base = m.rng("surroundings").next();
        let next = Arc::new(AtomicU64::new(0));
        let m = Arc::new(Mutex::new(m));
        let workers: Vec<_> = (0..8).map(|_| {
            let (m, next, corpus, air, replay) = (m.clone(), next.clone(), corpus.clone(), air.clone(), replay.clone());
            std::thread::Builder::new().stack_size(256 << 20).spawn(move || loop {
                if !replaying && !m.lock().unwrap().running() { return }
                let k = next.fetch_add(1, Ordering::SeqCst);
                if replaying && k as usize >= replay.len() { return }
                let seed = if replaying { replay[k as usize] } else { hash_str(&format!("{base} {k}")) };
                let (mut n, mut trace) = (BTreeMap::new(), vec![]);
                let out = one(seed, &corpus, &air, &mut n, &mut trace);
                let mut m = m.lock().unwrap();
                alive();
                m.eval(seed, n.contains_key("runs compared"));
                m.count("commands");
                for (k, v) in n { m.add(&k, v) }
                m.sample(|| json!({"seed": seed, "command": trace.get(1).map(|t| show(t))}));
                match out {
                    Ok(()) => (),
                    Err((key, why)) if key == "inconclusive" => m.inconclusive(why),
                    Err((key, detail)) => m.violation(key, format!("{detail}\n{}", trace.join("\n")), json!({"seed": seed})),
                }
            }).unwrap()
        }).collect();
        for w in workers { w.join().unwrap() }
        let mut m = Arc::try_unwrap(m).ok().unwrap().into_inner().unwrap();
        for (what, k) in [("commands", 50), ("outputs compared", 20), ("output that can't be written", 5), ("error messages compared", 20), ("runs that log more", 10), ("runs without colors", 20), ("messages Broken", 10), ("messages Full", 10), ("messages Closed", 10)] { m.require(what, k) }
        m.finish();
    });
}
