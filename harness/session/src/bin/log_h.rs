//! X05: the log settings of the editor.
use rfmt::settings::Settings;
use rfmt::{Outcome, format, on_large_stack};
use serde_json::{Value, json};
use session::client::{Client, Fault};
use std::collections::BTreeMap;
use std::path::Path;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant, SystemTime, UNIX_EPOCH};
use tower_lsp::lsp_types::TextEdit;
use utils::buffer::{self, Units};
use vkit::*;

const LEVELS: [&str; 5] = ["ERROR", "WARN", "INFO", "DEBUG", "TRACE"];
const SETTING: [&str; 5] = ["error", "warning", "info", "debug", "trace"];
const INFO: usize = 2;
const TRACE: usize = 4;

type Bad = (String, String);

fn bad<T>(key: &str, detail: String) -> Result<T, Bad> {
    Err((key.into(), detail))
}

fn protocol(f: Fault) -> Bad {
    f
}

/// Nanoseconds since 1970.
fn now() -> i128 {
    SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_nanos() as i128
}

/// When a message of the log was written, its level, and where in the sources; if it looks as expected.
fn read(message: &str) -> Option<(i128, usize, String)> {
    let mut words = message.split_whitespace();
    let at = instant(words.next()?)?;
    let level = words.next()?.trim_end_matches(':');
    let level = LEVELS.iter().position(|l| *l == level)?;
    let place = message.lines().rev().find_map(|l| l.trim_start().strip_prefix("at ")).unwrap_or("");
    Some((at, level, place.to_string()))
}

/// `2026-11-19T03:46:19.123456789+01:00`
fn instant(s: &str) -> Option<i128> {
    let (date, time) = s.split_once('T')?;
    let d: Vec<i128> = date.split('-').map(|x| x.parse().ok()).collect::<Option<_>>()?;
    let [y, mo, da] = d[..] else { return None };
    let (clock, zone) = match time.find(['Z', '+', '-']) {
        Some(i) => time.split_at(i),
        None => return None,
    };
    let offset = if zone == "Z" { 0 } else {
        let (h, m) = zone[1..].split_once(':')?;
        (h.parse::<i128>().ok()? * 3600 + m.parse::<i128>().ok()? * 60) * if zone.starts_with('-') { -1 } else { 1 }
    };
    let (clock, fraction) = clock.split_once('.').unwrap_or((clock, "0"));
    let c: Vec<i128> = clock.split(':').map(|x| x.parse().ok()).collect::<Option<_>>()?;
    let [h, mi, se] = c[..] else { return None };
    let nanos: i128 = format!("{fraction:0<9}").get(..9)?.parse().ok()?;
    // days since 1970, from March on
    let (y, mo) = if mo <= 2 { (y - 1, mo + 9) } else { (y, mo - 3) };
    let days = 365 * y + y / 4 - y / 100 + y / 400 + (mo * 306 + 5) / 10 + da - 1 - 719_468;
    Some(((days * 86_400 + h * 3600 + mi * 60 + se - offset) * 1_000_000_000) + nanos)
}

/// A time in which one level was in force, from `from` to `to`.
struct Phase {
    from: i128,
    to: i128,
    level: usize,
    /// whether there were requests in it
    asked: bool,
    /// whether a dependency had an error to tell, and whether its messages are wanted, if that's known
    dependency: Option<bool>,
    why: String,
}

struct S {
    r: Rng,
    c: Client,
    /// the level of the environment
    env: Option<usize>,
    env_dependencies: Option<String>,
    phases: Vec<Phase>,
    docs: Vec<(String, String)>,
    sync: bool,
    level: Option<usize>,
    dependencies: Option<String>,
    /// how this client says that there's no value
    n: BTreeMap<&'static str, u64>,
    trace: Vec<String>,
    keeps: bool,
}

/// Do these levels let an error of the library for the protocol through? For those that are plain.
fn wanted(levels: Option<&str>) -> Option<bool> {
    match levels {
        None | Some("tokio=info" | "ignore=trace,globset=off" | "off" | "tower_lsp=off" | "tower_lsp=off,tokio=trace") => Some(false),
        Some("tower_lsp=debug" | "tower_lsp=error" | "tower_lsp=debug,tokio=info" | "debug" | "error" | "trace") => Some(true),
        _ => None,
    }
}

fn dependency_levels(r: &mut Rng) -> String {
    match r.below(6) {
        3 | 4 => r.word(&["tower_lsp=debug", "tower_lsp=error", "tower_lsp=off", "tower_lsp=off,tokio=trace", "off", "error"]).into(),
        0 => r.word(&["tower_lsp=debug", "tokio=info", "tower_lsp=debug,tokio=info", "debug", "error", "ignore=trace,globset=off", "off", "trace"]).into(),
        1 => r.word(&["", ",", "=", "==", "a=b=c", "tokio=loud", "tokio", "tokio=", "=debug", "[span]=x", "[span{field=1}]=debug", "TRACE", "6", "tokio=3", " tokio = debug "]).into(),
        _ => {
            let mut s = String::new();
            for _ in 0..r.below(8) { s += r.word(&["tokio", "=", ",", "debug", "trace", " ", "é", "😀", "\n", "\"", "[", "]", "{", "}", "/", ".*", "::", "9", "off"]) }
            s
        }
    }
}

impl S {
    fn count(&mut self, what: &'static str) {
        *self.n.entry(what).or_default() += 1;
    }

    fn log(&mut self, what: String) {
        self.trace.push(what);
    }

    /// A request that has no effect; what was sent before has been handled when it's answered.
    fn barrier(&mut self) -> Result<(), Bad> {
        let p = json!({"textDocument": {"uri": "file:///nowhere"}, "position": {"line": 0, "character": 0}, "kind": "SyntaxTree"});
        let id = self.c.request("air/viewFile", Some(p));
        let m = self.c.wait(id).map_err(protocol)?;
        if m.get("error").is_none() { return bad("no-error", m.to_string()) }
        Ok(())
    }

    fn in_force(&self, setting: Option<usize>) -> usize {
        self.env.or(setting).unwrap_or(INFO)
    }

    fn begin(&mut self, level: usize, why: String) {
        self.phases.push(Phase { from: now(), to: i128::MAX, level, asked: false, dependency: None, why });
    }

    fn end_phase(&mut self) {
        let t = now();
        if let Some(p) = self.phases.last_mut() { if p.to == i128::MAX { p.to = t } }
    }

    /// Something that the library for the protocol logs as an error.
    fn trouble(&mut self) -> Result<(), Bad> {
        self.c.notify("textDocument/didSave", json!({"textDocument": 1}));
        self.barrier()?;
        let levels = self.env_dependencies.clone().or(self.dependencies.clone());
        let wanted = wanted(levels.as_deref());
        let p = self.phases.last_mut().unwrap();
        p.dependency = wanted;
        p.why += &format!(" (dependencies: {levels:?})");
        Ok(())
    }

    fn set_config(&mut self) {
        let level = self.level.map_or(Value::Null, |l| SETTING[l].into());
        self.c.config.insert("air.logLevel".into(), level);
        let d = self.dependencies.clone().map_or(Value::Null, Value::from);
        self.c.config.insert("air.dependencyLogLevels".into(), d);
        self.c.config.insert("air.syncFileSettingsWithClient".into(), self.sync.into());
        let indent = if self.r.bool() { json!("tabSize") } else { json!(self.r.below(30)) };
        self.c.config.insert("editor.indentSize".into(), indent);
        self.c.config.insert("editor.insertSpaces".into(), self.r.bool().into());
        self.c.config.insert("editor.tabSize".into(), self.r.below(30).into());
    }

    fn change(&mut self, governed: &Value) -> Result<(), Bad> {
        self.end_phase();
        let before = self.sync;
        let old = (self.level, self.dependencies.clone());
        let only = self.r.below(6);
        if only != 0 && self.r.chance(3, 4) { self.level = if self.r.chance(1, 6) { None } else { Some(self.r.below(5)) } }
        if only == 0 || only > 1 && self.r.chance(1, 2) { self.dependencies = if self.r.chance(1, 4) { None } else { Some(dependency_levels(&mut self.r)) } }
        if self.r.chance(1, 2) { self.sync = !self.sync }
        self.set_config();
        self.log(format!("level {:?}, dependencies {:?}, sync {}", self.level.map(|l| SETTING[l]), self.dependencies, self.sync));
        if !before && self.sync { self.c.synced = None }
        self.c.notify("workspace/didChangeConfiguration", json!({"settings": null}));
        self.barrier()?;
        self.count("changes of configuration");
        if old != (self.level, self.dependencies.clone()) { self.count("changes of log settings") }
        let why = format!("after the configuration changed to {:?}, {:?}, in an environment with {:?}", self.level.map(|l| SETTING[l]), self.dependencies, self.env.map(|l| LEVELS[l]));
        self.begin(self.in_force(self.level), why);
        self.barrier()?;
        self.trouble()?;
        self.phases.last_mut().unwrap().asked = true;
        if !before && self.sync && !self.docs.is_empty() {
            let start = Instant::now();
            while self.c.synced.is_none() && start.elapsed() < Duration::from_secs(15) { self.c.pump(Duration::from_millis(50)).map_err(protocol)?; }
            self.count("synchronizations turned on");
            let known: BTreeMap<String, Value> = self.c.synced.as_ref().and_then(|v| v["file_settings"].as_array()).into_iter().flatten()
                .map(|f| (f["url"].as_str().unwrap_or("").to_string(), f["format"].clone())).collect();
            for (uri, _) in &self.docs {
                if known.get(uri) != Some(governed) {
                    return bad("sync-setting-without-effect", format!("after synchronization was turned on the client knows {:?} for {uri}, not {governed}, {}", known.get(uri), self.phases.last().unwrap().why));
                }
            }
        }
        Ok(())
    }

    fn open(&mut self, root: &Path) -> Result<(), Bad> {
        let uri = format!("file://{}/w/f{}.R", root.display(), self.docs.len());
        let text: String = (0..self.r.range(1, 4)).map(|_| self.r.word(&["x<-1\n", "f( 1,2 )\n", "if(a)b\n", "# c\n", "function( x )x\n", "{\n\tx\n}\n", "é='é'\n"]).to_string()).collect();
        let text = if self.r.chance(1, 8) { format!("{text}(\n") } else { text };
        self.c.notify("textDocument/didOpen", json!({"textDocument": {"uri": uri, "languageId": "r", "version": 1, "text": text}}));
        self.docs.push((uri, text));
        self.count("documents opened");
        if self.r.bool() { self.barrier()? }
        Ok(())
    }

    fn format(&mut self, toml: &Settings) -> Result<(), Bad> {
        let (uri, text) = self.r.pick(&self.docs).clone();
        let id = self.c.request("textDocument/formatting", Some(json!({"textDocument": {"uri": uri}, "options": {"tabSize": 8, "insertSpaces": false}})));
        let m = self.c.wait(id).map_err(protocol)?;
        let Some(result) = m.get("result") else { return bad("format-error", format!("{m}; {}", show(&text))) };
        let edits: Vec<TextEdit> = serde_json::from_value(result.clone()).unwrap_or_default();
        let got = buffer::apply_edits(&text, &edits, Units::Utf16).unwrap_or_default();
        let want = match format(&text, toml) {
            Outcome::Formatted(f) => f,
            _ => text.clone(),
        };
        self.count("documents formatted");
        if got != want { return bad("format-differs", format!("{} gives {}, not {}", show(&text), show(&got), show(&want))) }
        Ok(())
    }

    fn judge(&mut self) -> Result<(), Bad> {
        let logs = self.c.logs.clone().unwrap_or_default();
        let mut seen: Vec<[u64; 5]> = vec![[0; 5]; self.phases.len()];
        let mut troubles = vec![0u64; self.phases.len()];
        let mut unread = 0;
        let mut first = None;
        for l in &logs {
            let Some((at, level, place)) = read(l) else { unread += 1; continue };
            if level == 0 && l.contains("Invalid parameters of textDocument/didSave") {
                for (k, p) in self.phases.iter().enumerate() { if at > p.from && at < p.to { troubles[k] += 1 } }
            }
            // (what else a dependency has to say is another matter)
            if !place.is_empty() && !place.contains("crates/") || place.contains("/registry/") || place.contains("stubs/") { continue }
            self.count("log messages read");
            for (k, p) in self.phases.iter().enumerate() {
                if at <= p.from || at >= p.to { continue }
                seen[k][level] += 1;
                if level > p.level && first.is_none() {
                    first = Some(format!("a message of level {}, where {} is in force, {}: {}", LEVELS[level], LEVELS[p.level], p.why, show(l)));
                }
            }
        }
        if let Some(f) = first { return bad("message-of-a-lesser-level", f) }
        if unread * 2 > logs.len() { return bad("inconclusive", format!("cannot read {unread} of {} messages: {:?}", logs.len(), logs.first())) }
        for (k, p) in self.phases.iter().enumerate() {
            self.n.entry(["times of error", "times of warning", "times of info", "times of debug", "times of trace"][p.level]).and_modify(|x| *x += 1).or_insert(1);
            if !p.asked || !self.keeps { continue }
            match p.dependency {
                Some(true) if troubles[k] == 0 => return bad("message-missing", format!("no message of a dependency, {}", p.why)),
                Some(false) if troubles[k] > 0 => return bad("message-of-a-dependency", format!("a dependency is heard, {}", p.why)),
                Some(w) => { self.n.entry(if w { "dependencies heard" } else { "dependencies silenced" }).and_modify(|x| *x += 1).or_insert(1); }
                None => (),
            }
            // every message to the server is worth one of these
            for level in [INFO, TRACE] {
                if p.level >= level && seen[k][level] == 0 { return bad("message-missing", format!("no message of level {} though {} is in force, {}; {:?}", LEVELS[level], LEVELS[p.level], p.why, seen[k])) }
            }
        }
        Ok(())
    }

    fn run(&mut self, root: &Path) -> Result<(), Bad> {
        let client = self.r.word(&["Visual Studio Code", "Visual Studio Code - Insiders", "Visual Studio Code", "Zed", "Zed Preview", "Neovim", ""]).to_string();
        self.keeps = client.starts_with("Visual") || client.starts_with("Zed");
        self.level = if self.r.chance(1, 4) { None } else { Some(self.r.below(5)) };
        self.dependencies = if self.r.bool() { None } else { Some(dependency_levels(&mut self.r)) };
        let toml = Settings { default_table: true, width: 40, indent: 3, tab: false, ..Settings::default() };
        std::fs::create_dir_all(root.join("w")).unwrap();
        std::fs::write(root.join("w/air.toml"), toml.toml()).unwrap();
        let governed = json!({"indent_style": "space", "indent_width": 3, "line_width": 40});
        let caps = json!({"workspace": {"configuration": self.c.can_configure, "didChangeConfiguration": {"dynamicRegistration": self.r.bool()}}});
        let mut p = json!({"processId": null, "rootUri": null, "capabilities": caps, "workspaceFolders": [{"uri": format!("file://{}/w", root.display()), "name": "w"}]});
        if !client.is_empty() { p["clientInfo"] = json!({"name": client}) }
        let mut o = json!({});
        if let Some(l) = self.level { o["logLevel"] = SETTING[l].into() } else if self.r.bool() { o["logLevel"] = Value::Null }
        if let Some(d) = &self.dependencies { o["dependencyLogLevels"] = d.clone().into() } else if self.r.bool() { o["dependencyLogLevels"] = Value::Null }
        if self.level.is_some() || self.dependencies.is_some() || self.r.bool() { p["initializationOptions"] = o }
        self.log(format!("{client:?} starts with {}, environment {:?}", p["initializationOptions"], self.env.map(|l| LEVELS[l])));
        self.set_config();
        let id = self.c.request("initialize", Some(p.clone()));
        let m = self.c.wait(id).map_err(protocol)?;
        if m.get("result").is_none() { return bad("initialize", m.to_string()) }
        let why = format!("after the start with {}, in an environment with {:?}", p["initializationOptions"], self.env.map(|l| LEVELS[l]));
        self.begin(self.in_force(self.level), why);
        self.c.notify("initialized", json!({}));
        self.barrier()?;
        self.barrier()?;
        self.trouble()?;
        self.phases[0].asked = true;
        for _ in 0..self.r.range(4, 14) {
            match self.r.below(if self.c.can_configure { 6 } else { 3 }) {
                0 => self.open(root)?,
                1 | 2 => if self.docs.is_empty() { self.open(root)? } else { self.format(&toml)? },
                _ => self.change(&governed)?,
            }
        }
        self.barrier()?;
        self.end_phase();
        // until the messages are all there
        let start = Instant::now();
        let mut quiet = Instant::now();
        while start.elapsed() < Duration::from_secs(20) {
            if self.c.pump(Duration::from_millis(10)).map_err(protocol)? { quiet = Instant::now() }
            if quiet.elapsed() < Duration::from_millis(20) { continue }
            match self.judge() {
                Err((k, _)) if k == "message-missing" => alive(),
                _ => break,
            }
        }
        self.n.retain(|k, _| !k.starts_with("times of") && !k.starts_with("dependencies") && *k != "log messages read");
        self.judge()?;
        let id = self.c.request("shutdown", None);
        self.c.wait(id).map_err(protocol)?;
        self.c.notify("exit", Value::Null);
        match self.c.end(true, false).map_err(protocol)? {
            Some(0) => Ok(()),
            code => bad("exit-code", format!("{code:?}")),
        }
    }
}

fn session(seed: u64) -> (Result<(), Bad>, BTreeMap<&'static str, u64>, Vec<String>) {
    let mut r = Rng::new(seed);
    let dir = Scratch::new(&format!("g{}", seed % 1_000_000));
    let root = dir.path().canonicalize().unwrap();
    // the environment
    let mut env = vec![];
    let mut level = None;
    match r.below(6) {
        0 => {
            let l = r.below(5);
            env.push(("AIR_LOG_LEVEL", ["error", "warn", "info", "debug", "trace"][l].to_string()));
            level = Some(l);
        }
        1 => env.push(("AIR_LOG_LEVEL", r.word(&["loud", "", "INFORMATION", "6", "é"]).to_string())),
        _ => (),
    }
    let mut env_dependencies = None;
    if r.chance(1, 6) {
        let d = dependency_levels(&mut r);
        env_dependencies = Some(d.clone());
        env.push(("AIR_DEPENDENCY_LOG_LEVELS", d))
    }
    let env: Vec<(&str, &str)> = env.iter().map(|(k, v)| (*k, v.as_str())).collect();
    let c = match Client::start(&root, seed, &env) {
        Ok(c) => c,
        Err(e) => return (bad("inconclusive", e), BTreeMap::new(), vec![]),
    };
    let mut s = S { r, c, env: level, env_dependencies, phases: vec![], docs: vec![], sync: false, level: None, dependencies: None, n: BTreeMap::new(), trace: vec![], keeps: false };
    s.c.logs = Some(vec![]);
    s.sync = s.r.bool();
    s.c.can_configure = s.r.chance(7, 8);
    s.c.config.insert("positron.r.diagnostics.enable".into(), Value::Null);
    let out = s.run(&root);
    if s.keeps { s.count("clients with a log") }
    let shape = s.phases.iter().map(|p| p.level as u64).fold(0, |a, b| a * 6 + b + 1);
    s.n.insert("shape", shape);
    (out, std::mem::take(&mut s.n), std::mem::take(&mut s.trace))
}

fn main() {
    on_large_stack(|| {
        let prop = std::env::var("VK_PROP").expect("VK_PROP");
        let m = Monitor::new(&prop);
        let replay: Vec<u64> = match &m.replay { Some(v) => v["seed"].as_u64().into_iter().flat_map(|s| [s; 4]).collect(), None => vec![] };
        let replaying = m.replay.is_some();
        let base = m.rng("log sessions").next();
        let next = Arc::new(AtomicU64::new(0));
        let m = Arc::new(Mutex::new(m));
        let workers: Vec<_> = (0..8).map(|_| {
            let (m, next, replay) = (m.clone(), next.clone(), replay.clone());
            std::thread::Builder::new().stack_size(64 << 20).spawn(move || loop {
                if !replaying && !m.lock().unwrap().running() { return }
                let k = next.fetch_add(1, Ordering::SeqCst);
                if replaying && k as usize >= replay.len() { return }
                let seed = if replaying { replay[k as usize] } else { hash_str(&format!("{base} {k}")) };
                let (out, mut n, trace) = session(seed);
                let mut m = m.lock().unwrap();
                alive();
                let changes = n.get("changes of log settings").copied().unwrap_or(0);
                m.eval(n.remove("shape").unwrap_or(0), changes > 0);
                m.count("sessions");
                for (k, v) in n { m.add(k, v) }
                m.sample(|| json!({"seed": seed, "steps": trace.iter().take(5).map(|t| show(t)).collect::<Vec<_>>()}));
                match out {
                    Ok(()) => (),
                    Err((key, why)) if key == "inconclusive" || key == "gave-up" => m.inconclusive(why),
                    Err((key, detail)) => m.violation(key, format!("{detail}\n  {}", trace.join("\n  ")), json!({"seed": seed})),
                }
            }).unwrap()
        }).collect();
        for w in workers { w.join().unwrap() }
        let mut m = Arc::try_unwrap(m).ok().unwrap().into_inner().unwrap();
        m.require("sessions", 20);
        m.require("changes of log settings", 50);
        m.require("synchronizations turned on", 20);
        m.require("documents formatted", 20);
        m.require("log messages read", 500);
        for t in ["dependencies heard", "dependencies silenced"] { m.require(t, 10) }
        for t in ["times of error", "times of warning", "times of info", "times of debug", "times of trace"] { m.require(t, 10) }
        m.finish();
    });
}
