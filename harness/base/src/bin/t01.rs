//! T01: the build tasks' shell helpers: scopes, processes, deletion. Runs unprivileged below a scratch directory.
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use vkit::*;
use xtask::glue;

#[derive(Clone, Debug)]
enum Op { PushEnv(usize, usize), PushDir(usize), Pop, Run(Vec<String>, Option<Vec<u8>>), Fail(i32), RmRf(usize), Vanish, Unwind(usize, usize) }

const VARS: [&str; 3] = ["T01_A", "T01_B", "T01_C"];
const VALS: [&str; 4] = ["", "x", "a b", "é="];
const DIRS: [&str; 4] = ["d", "d/e", ".", ".."];
const WORDS: [&str; 10] = ["a", "b c", "", "é", "--x", "$HOME", "a\tb", "*", ";", "\"q\""];

fn snapshot(dir: &Path) -> BTreeMap<PathBuf, bool> {
    let mut out = BTreeMap::new();
    fn walk(p: &Path, out: &mut BTreeMap<PathBuf, bool>) {
        for e in std::fs::read_dir(p).into_iter().flatten().flatten() {
            let d = e.file_type().is_ok_and(|t| t.is_dir());
            out.insert(e.path(), d);
            if d { walk(&e.path(), out) }
        }
    }
    walk(dir, &mut out);
    out
}

/// The variables byte for byte, in a form to print
fn env() -> Vec<Option<String>> {
    use std::os::unix::ffi::OsStrExt;
    VARS.iter().map(|v| std::env::var_os(v).map(|x| String::from_utf8(x.as_bytes().to_vec()).unwrap_or_else(|_| format!("bytes {:?}", x.as_bytes())))).collect()
}

enum Guard { Env(#[allow(dead_code)] glue::Pushenv), Dir(#[allow(dead_code)] glue::Pushd) }

fn history(m: &mut Monitor, root: &Path, ops: &[Op], case: Value) {
    m.inflight(&case.to_string());
    m.eval_str(&case.to_string(), ops.len() > 1);
    std::env::set_current_dir(root).unwrap();
    for v in VARS { unsafe { std::env::remove_var(v) } }
    unsafe {
        use std::os::unix::ffi::OsStrExt;
        std::env::set_var(VARS[1], std::ffi::OsStr::from_bytes(b"\xff\xfe"));
        std::env::set_var(VARS[2], "outer");
    }
    // the model: what the surroundings were before each open scope
    let mut guards: Vec<Guard> = vec![];
    let mut saved: Vec<(Vec<Option<String>>, PathBuf)> = vec![];
    let (mut menv, mut mcwd) = (env(), root.to_path_buf());
    // the helper's idea of the current directory starts where its thread first looked
    let base = glue::pushd(root);
    for (i, op) in ops.iter().enumerate() {
        let ctx = format!("step {i} {op:?}");
        match op {
            Op::PushEnv(v, x) => {
                saved.push((menv.clone(), mcwd.clone()));
                guards.push(Guard::Env(glue::pushenv(VARS[*v], VALS[*x])));
                menv[*v] = Some(VALS[*x].into());
                m.count("scopes opened");
            }
            Op::PushDir(d) => {
                let target = mcwd.join(DIRS[*d]);
                let inside = std::fs::canonicalize(&target).is_ok_and(|t| t.starts_with(root));
                if !inside { continue }
                saved.push((menv.clone(), mcwd.clone()));
                guards.push(Guard::Dir(glue::pushd(DIRS[*d])));
                mcwd = std::fs::canonicalize(target).unwrap();
                m.count("scopes opened");
            }
            // the directory of the innermost scope is deleted before the scope is closed
            Op::Vanish => {
                if !matches!(guards.last(), Some(Guard::Dir(_))) || !mcwd.ends_with("d/e") || saved.iter().any(|(_, c)| c.ends_with("d/e")) { continue }
                let gone = mcwd.clone();
                std::fs::remove_dir(&gone).unwrap();
                let g = guards.pop();
                let r = guard(|| drop(g));
                (menv, mcwd) = saved.pop().unwrap();
                let c = std::env::current_dir().and_then(std::fs::canonicalize).unwrap_or_default();
                std::fs::create_dir(&gone).unwrap();
                m.count("scopes closed with their directory gone");
                if r.is_err() || c != mcwd { m.violation("directory-gone", format!("{ctx}: {r:?}, in {c:?} instead of {mcwd:?}"), case.clone()) }
            }
            // scopes closed by a panic
            Op::Unwind(v, x) => {
                let r = guard(|| {
                    let _a = glue::pushenv(VARS[*v], VALS[*x]);
                    let _b = glue::pushd(root.join("d"));
                    let _c = glue::pushenv(VARS[*v], "inner");
                    let _d = glue::pushenv(VARS[(*v + 1) % 3], "inner");
                    panic!("on purpose");
                });
                m.count("scopes closed by a panic");
                if r != Err("on purpose".to_string()) && !format!("{r:?}").contains("on purpose") { m.violation("unwinding", format!("{ctx}: {r:?}"), case.clone()) }
            }
            Op::Pop => if let Some(g) = guards.pop() {
                drop(g);
                (menv, mcwd) = saved.pop().unwrap();
                m.count("scopes closed");
            },
            Op::Run(words, stdin) => {
                // 'quoted' arguments arrive as they are
                let script = if stdin.is_some() { "'/bin/cat'".to_string() } else { format!("/usr/bin/printf '%s\\n' {}", words.iter().map(|w| format!("'{w}'")).collect::<Vec<_>>().join(" ")) };
                let r = guard(|| glue::run_process(script.clone(), false, stdin.as_deref()).map_err(|e| format!("{e:#}")));
                let want = match stdin {
                    Some(b) => String::from_utf8(b.clone()).map(|s| s.trim().to_string()).map_err(|_| ()),
                    None => Ok(words.iter().map(|w| format!("{w}\n")).collect::<String>().trim().to_string()),
                };
                m.count("processes run");
                match (&r, &want) {
                    (Ok(Ok(g)), Ok(w)) if g == w => {}
                    (Ok(Err(_)), Err(())) => {}
                    _ => m.violation("process", format!("{ctx}: {script} gave {r:?} instead of {want:?}"), case.clone()),
                }
                let pwd = guard(|| glue::run_process("/bin/pwd -P".into(), false, None).map_err(|e| format!("{e:#}")));
                if pwd != Ok(Ok(mcwd.to_string_lossy().into_owned())) { m.violation("process-directory", format!("{ctx}: ran in {pwd:?} instead of {mcwd:?}"), case.clone()) }
            }
            Op::Fail(code) => {
                let r = guard(|| glue::run_process(format!("/bin/sh -c 'exit {code}'"), false, None).map_err(|e| format!("{e:#}")));
                m.count("failing processes");
                if !matches!((&r, code), (Ok(Err(_)), 1..) | (Ok(Ok(_)), 0)) { m.violation("exit-status", format!("{ctx}: {r:?}"), case.clone()) }
            }
            Op::RmRf(k) => {
                let play = root.join("play");
                let _ = std::fs::remove_dir_all(&play);
                std::fs::create_dir_all(play.join("a/b")).unwrap();
                std::fs::create_dir_all(play.join("ab")).unwrap();
                std::fs::write(play.join("a/b/f"), "f").unwrap();
                std::fs::write(play.join("a/f"), "f").unwrap();
                std::fs::write(play.join("f"), "f").unwrap();
                let target = play.join(["a", "a/b", "f", "a/f", "none", "none/x", "ab"][*k]);
                let before = snapshot(&play);
                let r = guard(|| glue::rm_rf(&target).map_err(|e| format!("{e:#}")));
                let want: BTreeMap<_, _> = before.into_iter().filter(|(p, _)| !p.starts_with(&target)).collect();
                m.count("deletions");
                // links are no way out of the target
                let _ = std::fs::remove_dir_all(root.join("kept"));
                std::fs::create_dir_all(root.join("kept/x")).unwrap();
                std::fs::write(root.join("kept/f"), "f").unwrap();
                let inside = play.join("ab/in");
                if std::fs::create_dir_all(&inside).is_ok() {
                    std::os::unix::fs::symlink(root.join("kept"), inside.join("l")).unwrap();
                    std::os::unix::fs::symlink(root.join("kept/f"), inside.join("m")).unwrap();
                    let kept = snapshot(&root.join("kept"));
                    let _ = guard(|| glue::rm_rf(inside.join("l")).is_ok());
                    let _ = guard(|| glue::rm_rf(inside.join("m")).is_ok());
                    let r = guard(|| glue::rm_rf(&inside).map_err(|e| format!("{e:#}")));
                    if snapshot(&root.join("kept")) != kept { m.violation("deletion-through-link", ctx.clone(), case.clone()) }
                    if r != Ok(Ok(())) || inside.exists() { m.violation("deletion", format!("{ctx}: rm_rf of a directory with links: {r:?}"), case.clone()) }
                    m.count("deletions with links");
                    let _ = std::fs::remove_dir(play.join("ab"));
                    let _ = std::fs::create_dir(play.join("ab"));
                    if target.ends_with("ab") { let _ = std::fs::remove_dir(play.join("ab")); }
                }
                if r != Ok(Ok(())) || snapshot(&play) != want { m.violation("deletion", format!("{ctx}: rm_rf({target:?}) = {r:?} left {:?}", snapshot(&play)), case.clone()) }
            }
        }
        let (e, c) = (env(), std::env::current_dir().and_then(std::fs::canonicalize).unwrap_or_default());
        if e != menv { m.violation("environment", format!("{ctx}: {e:?} instead of {menv:?}"), case.clone()) }
        if c != mcwd { m.violation("directory", format!("{ctx}: {c:?} instead of {mcwd:?}"), case.clone()) }
    }
    while let Some(g) = guards.pop() {
        drop(g);
        (menv, mcwd) = saved.pop().unwrap();
        let (e, c) = (env(), std::env::current_dir().and_then(std::fs::canonicalize).unwrap_or_default());
        m.count("scopes closed");
        if e != menv || c != mcwd { m.violation("unwinding", format!("{e:?} in {c:?} instead of {menv:?} in {mcwd:?}"), case.clone()) }
    }
    drop(base);
    m.sample(|| case.clone());
}

fn gen_ops(k: u64) -> Vec<Op> {
    let mut r = Rng::stream(k, "t01");
    (0..r.range(1, 16)).map(|_| match r.below(23) {
        20 => Op::Unwind(r.below(3), r.below(4)),
        21 | 22 => Op::Vanish,
        0..=5 => Op::PushEnv(r.below(3), r.below(4)),
        6..=9 => Op::PushDir(r.below(4)),
        10..=15 => Op::Pop,
        16 => { let n = r.range(1, 5); Op::Run((0..n).map(|_| r.word(&WORDS).to_string()).collect(), None) }
        17 => { let n = r.len(20, 100_000); let bad = r.chance(1, 5); let mut b: Vec<u8> = (0..n).map(|_| *r.pick(b"ab \n")).collect(); if bad { b.push(0xff) } Op::Run(vec![], Some(b)) }
        18 => Op::Fail(r.below(4) as i32),
        _ => Op::RmRf(r.below(7)),
    }).collect()
}

fn main() {
    let mut m = Monitor::new("T01");
    if unsafe { libc::geteuid() } == 0 {
        m.inconclusive("refusing to run as root");
        m.note("starved", true);
        return m.finish();
    }
    let s = Scratch::new("t01");
    std::fs::create_dir_all(s.path().join("root/d/e")).unwrap();
    let root = std::fs::canonicalize(s.path().join("root")).unwrap();
    std::env::set_current_dir(&root).unwrap();
    if let Some(c) = m.replay.clone() {
        let ops = gen_ops(c["history"].as_u64().unwrap());
        history(&mut m, &root, &ops, c);
        std::env::set_current_dir("/").unwrap();
        return m.finish();
    }
    for k in 0..m.n(12500, 30_000) as u64 {
        if !m.running() { break }
        let h = m.seed.wrapping_mul(1 << 32) + k;
        let ops = gen_ops(h);
        history(&mut m, &root, &ops, json!({"history": h, "ops": show(&format!("{ops:?}"))}));
    }
    for (w, n) in [("scopes opened", 3000), ("scopes closed", 3000), ("processes run", 200), ("failing processes", 100), ("deletions", 200), ("scopes closed with their directory gone", 100), ("scopes closed by a panic", 100)] { m.require(w, n) }
    std::env::set_current_dir("/").unwrap();
    m.finish();
}
