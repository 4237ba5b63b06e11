//! An editor's end of the protocol: frames, ids, and what the server is told and asked.
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Read, Write};
use std::path::Path;
use std::process::{Child, Command, Stdio};
use std::sync::mpsc::{Receiver, RecvTimeoutError, Sender, channel};
use std::time::{Duration, Instant};
use vkit::Rng;

pub enum In {
    Message(Value),
    Bad(String),
    End,
}

enum Out {
    Bytes(Vec<u8>),
    Pause(u64),
}

/// What went wrong with the protocol itself: key, detail.
pub type Fault = (String, String);

pub fn fault<T>(key: &str, detail: impl Into<String>) -> Result<T, Fault> {
    Err((key.into(), detail.into()))
}

pub struct Client {
    child: Child,
    out: Option<Sender<Out>>,
    rx: Receiver<In>,
    next: i64,
    burst: Vec<u8>,
    r: Rng,
    held: Vec<Value>,
    pub pending: BTreeMap<i64, String>,
    pub answers: BTreeMap<i64, Value>,
    answered: BTreeSet<i64>,
    /// answers to `workspace/configuration`: (section, scope) -> value
    pub config: BTreeMap<String, Value>,
    pub can_configure: bool,
    /// the last `air/syncFileSettings`, and how many there were
    pub synced: Option<Value>,
    pub syncs: u64,
    /// messages for the log, if they are kept
    pub logs: Option<Vec<String>>,
    pub stats: BTreeMap<&'static str, u64>,
    ended: bool,
}

fn frame(v: &Value) -> Vec<u8> {
    let body = v.to_string();
    format!("Content-Length: {}\r\n\r\n{body}", body.len()).into_bytes()
}

fn read_frames(out: impl Read, tx: Sender<In>) {
    let mut r = BufReader::new(out);
    loop {
        let mut length = None;
        let mut any = false;
        loop {
            let mut line = vec![];
            match r.read_until(b'\n', &mut line) {
                Ok(0) if !any => { let _ = tx.send(In::End); return }
                Ok(n) if n > 0 && line.ends_with(b"\r\n") => (),
                other => { let _ = tx.send(In::Bad(format!("header {:?}: {other:?}", String::from_utf8_lossy(&line)))); return }
            }
            any = true;
            let line = String::from_utf8_lossy(&line[..line.len() - 2]).into_owned();
            if line.is_empty() { break }
            match line.split_once(": ") {
                Some(("Content-Length", n)) if length.is_none() => match n.parse::<usize>() {
                    Ok(n) => length = Some(n),
                    Err(e) => { let _ = tx.send(In::Bad(format!("header {line:?}: {e}"))); return }
                },
                Some(("Content-Type", _)) => (),
                _ => { let _ = tx.send(In::Bad(format!("header {line:?}"))); return }
            }
        }
        let Some(n) = length else { let _ = tx.send(In::Bad("no Content-Length".into())); return };
        let mut body = vec![0; n];
        if r.read_exact(&mut body).is_err() { let _ = tx.send(In::Bad("a message that ends early".into())); return }
        match serde_json::from_slice::<Value>(&body) {
            Ok(v) if v.is_object() && v["jsonrpc"] == "2.0" => { if tx.send(In::Message(v)).is_err() { return } }
            other => { let _ = tx.send(In::Bad(format!("{other:?}: {:?}", String::from_utf8_lossy(&body)))); return }
        }
    }
}

impl Client {
    pub fn start(cwd: &Path, seed: u64, env: &[(&str, &str)]) -> Result<Client, String> {
        let air = std::env::var("VK_AIR").map_err(|_| "VK_AIR is not set")?;
        let mut cmd = Command::new(&air);
        cmd.arg("language-server").current_dir(cwd).stdin(Stdio::piped()).stdout(Stdio::piped());
        for (k, v) in env { cmd.env(k, v); }
        // (what a sanitizer has to say)
        if std::env::var("VK_INHERIT").is_err() { cmd.stderr(Stdio::null()); }
        let mut child = cmd.spawn().map_err(|e| format!("{air}: {e}"))?;
        let mut stdin = child.stdin.take().unwrap();
        let stdout = child.stdout.take().unwrap();
        let (tx, rx) = channel();
        std::thread::spawn(move || read_frames(stdout, tx));
        let (out, outgoing) = channel::<Out>();
        let mut wr = Rng::new(seed ^ 0x77);
        std::thread::spawn(move || {
            for o in outgoing {
                match o {
                    Out::Pause(ms) => std::thread::sleep(Duration::from_millis(ms)),
                    Out::Bytes(b) => {
                        // in pieces of any size
                        let mut rest = &b[..];
                        let small = wr.chance(1, 3);
                        while !rest.is_empty() {
                            let n = if small && b.len() < 20_000 { wr.range(1, 400).min(rest.len()) } else { rest.len() };
                            if stdin.write_all(&rest[..n]).is_err() || stdin.flush().is_err() { return }
                            rest = &rest[n..];
                        }
                    }
                }
            }
        });
        Ok(Client {
            child, out: Some(out), rx, next: 1, burst: vec![], r: Rng::new(seed ^ 0x55), held: vec![], pending: BTreeMap::new(),
            answers: BTreeMap::new(), answered: BTreeSet::new(), config: BTreeMap::new(), can_configure: true, synced: None, syncs: 0, logs: None,
            stats: BTreeMap::new(), ended: false,
        })
    }

    pub fn stat(&mut self, what: &'static str) {
        *self.stats.entry(what).or_default() += 1;
    }

    fn put(&mut self, v: &Value) {
        self.burst.extend(frame(v));
        if self.r.chance(1, 3) || self.burst.len() > 50_000 { self.flush() }
        // an answer that was held back goes out between other messages
        if !self.held.is_empty() && self.r.chance(1, 4) {
            let v = self.held.remove(0);
            self.burst.extend(frame(&v));
        }
    }

    pub fn flush(&mut self) {
        if self.burst.is_empty() { return }
        let b = std::mem::take(&mut self.burst);
        if let Some(out) = &self.out {
            let _ = out.send(Out::Bytes(b));
            if self.r.chance(1, 20) { let _ = out.send(Out::Pause(self.r.range(1, 5) as u64)); }
        }
    }

    pub fn notify(&mut self, method: &str, params: Value) {
        self.stat("notifications sent");
        self.put(&json!({"jsonrpc": "2.0", "method": method, "params": params}));
    }

    pub fn request(&mut self, method: &str, params: Option<Value>) -> i64 {
        let id = self.next;
        self.next += 1;
        self.pending.insert(id, method.into());
        self.stat("requests sent");
        let mut m = json!({"jsonrpc": "2.0", "id": id, "method": method});
        if let Some(p) = params { m["params"] = p }
        self.put(&m);
        id
    }

    fn answer(&mut self, m: &Value) -> Result<(), Fault> {
        let method = m["method"].as_str().unwrap_or("");
        let result = match method {
            "client/registerCapability" => {
                self.stat("registrations");
                Value::Null
            }
            "workspace/configuration" if self.can_configure => {
                self.stat("configurations");
                let Some(items) = m["params"]["items"].as_array() else { return fault("bad-configuration-request", m.to_string()) };
                let mut out = vec![];
                for i in items {
                    let section = i["section"].as_str().unwrap_or("");
                    let Some(v) = self.config.get(section) else { return fault("bad-configuration-request", format!("section {section:?}: {m}")) };
                    if section.starts_with("editor.") != i.get("scopeUri").is_some_and(|s| !s.is_null()) {
                        return fault("bad-configuration-request", format!("scope of {section:?}: {m}"));
                    }
                    out.push(v.clone());
                }
                Value::Array(out)
            }
            _ => return fault("unexpected-request", m.to_string()),
        };
        let v = json!({"jsonrpc": "2.0", "id": m["id"], "result": result});
        if self.r.chance(1, 3) { self.held.push(v) } else { self.burst.extend(frame(&v)); self.flush() }
        Ok(())
    }

    fn take(&mut self, m: Value) -> Result<(), Fault> {
        if m.get("method").is_some() {
            if m.get("id").is_some() { return self.answer(&m) }
            match m["method"].as_str() {
                Some("air/syncFileSettings") => {
                    self.syncs += 1;
                    self.synced = Some(m["params"].clone());
                }
                Some("window/logMessage" | "window/showMessage") => {
                    self.stat("log messages");
                    if let Some(logs) = &mut self.logs { logs.push(m["params"]["message"].as_str().unwrap_or("").to_string()) }
                }
                _ => return fault("unexpected-notification", m.to_string()),
            }
            return Ok(());
        }
        let Some(id) = m["id"].as_i64() else { return fault("answer-to-nothing", m.to_string()) };
        if m.get("result").is_some() == m.get("error").is_some() { return fault("result-and-error", m.to_string()) }
        if self.answered.contains(&id) { return fault("answered-twice", format!("{}", m)) }
        if self.pending.remove(&id).is_none() { return fault("answer-to-nothing", m.to_string()) }
        self.answered.insert(id);
        self.stat("answers");
        self.answers.insert(id, m);
        Ok(())
    }

    /// Takes what has arrived; waits for something if `wait`.
    pub fn pump(&mut self, wait: Duration) -> Result<bool, Fault> {
        let mut any = false;
        loop {
            let m = if any { self.rx.try_recv().map_err(|_| RecvTimeoutError::Timeout) } else { self.rx.recv_timeout(wait) };
            match m {
                Ok(In::Message(m)) => { any = true; self.take(m)? }
                Ok(In::Bad(e)) => return fault("bad-frame", e),
                Ok(In::End) | Err(RecvTimeoutError::Disconnected) => {
                    self.ended = true;
                    return if self.pending.is_empty() && any { Ok(true) } else { fault("server-ended", format!("with {:?} unanswered", self.pending)) };
                }
                Err(RecvTimeoutError::Timeout) => return Ok(any),
            }
        }
    }

    fn cpu_ticks(&self) -> u64 {
        let stat = std::fs::read_to_string(format!("/proc/{}/stat", self.child.id())).unwrap_or_default();
        let f: Vec<&str> = stat.rsplit(')').next().unwrap_or("").split(' ').collect();
        f.get(12).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) + f.get(13).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0)
    }

    /// Until `done`: an error after a minute in which the server sent nothing and computed nothing.
    pub fn until(&mut self, mut done: impl FnMut(&Client) -> bool) -> Result<(), Fault> {
        let mut since = Instant::now();
        let mut ticks = self.cpu_ticks();
        let start = Instant::now();
        loop {
            if done(self) { return Ok(()) }
            while let Some(v) = self.held.pop() { self.burst.extend(frame(&v)) }
            self.flush();
            vkit::alive();
            if self.pump(Duration::from_millis(200))? { since = Instant::now() }
            let now = self.cpu_ticks();
            if now > ticks + 1 { ticks = now; since = Instant::now() }
            if since.elapsed() > Duration::from_secs(60) { return fault("no-answer", format!("to {:?}", self.pending)) }
            if start.elapsed() > Duration::from_secs(300) { return fault("gave-up", format!("after five minutes: {:?}", self.pending)) }
        }
    }

    pub fn wait(&mut self, id: i64) -> Result<Value, Fault> {
        self.until(|c| c.answers.contains_key(&id))?;
        Ok(self.answers.remove(&id).unwrap())
    }

    /// Waits for the server to end, its input closed if `close`. `quiet`: no answer may come any more.
    pub fn end(&mut self, quiet: bool, close: bool) -> Result<Option<i32>, Fault> {
        self.flush();
        if close { self.out = None }
        let start = Instant::now();
        while !self.ended {
            match self.rx.recv_timeout(Duration::from_millis(200)) {
                Ok(In::Message(m)) if m.get("method").is_some() => (),
                Ok(In::Message(m)) if !quiet && m["id"].as_i64().is_some_and(|i| self.pending.remove(&i).is_some()) => (),
                Ok(In::Message(m)) => return fault("answer-after-exit", m.to_string()),
                Ok(In::Bad(e)) => return fault("bad-frame", e),
                Ok(In::End) | Err(RecvTimeoutError::Disconnected) => self.ended = true,
                Err(RecvTimeoutError::Timeout) => (),
            }
            vkit::alive();
            if start.elapsed() > Duration::from_secs(60) { return fault("does-not-end", "the server runs on a minute after the end of its input") }
        }
        loop {
            if let Ok(Some(s)) = self.child.try_wait() { return Ok(s.code()) }
            std::thread::sleep(Duration::from_millis(5));
            vkit::alive();
            if start.elapsed() > Duration::from_secs(60) { return fault("does-not-end", "the process runs on a minute after its output ended") }
        }
    }
}

impl Drop for Client {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
