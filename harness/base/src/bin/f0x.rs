//! F01 (paths) and F02 (R extension), by VK_PROP.
use serde_json::{Value, json};
use std::ffi::{OsStr, OsString};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};
use vkit::*;

fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).filter_map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect() }

/// Byte-level model of an absolute lexical normalization.
fn reference(path: &[u8], cwd: &[u8]) -> Vec<u8> {
    let mut parts: Vec<&[u8]> = vec![];
    let feed = |text: &[u8], parts: &mut Vec<Vec<u8>>| {
        for c in text.split(|b| *b == b'/') {
            match c {
                b"" | b"." => {}
                b".." => { parts.pop(); }
                c => parts.push(c.to_vec()),
            }
        }
    };
    let mut acc: Vec<Vec<u8>> = vec![];
    if path.first() != Some(&b'/') { feed(cwd, &mut acc) }
    feed(path, &mut acc);
    parts.clear();
    let mut out = vec![];
    for p in &acc { out.push(b'/'); out.extend_from_slice(p) }
    if out.is_empty() { out.push(b'/') }
    out
}

fn comps(path: &[u8]) -> (bool, Vec<Vec<u8>>) {
    let abs = path.first() == Some(&b'/');
    let v: Vec<Vec<u8>> = path.split(|b| *b == b'/').filter(|c| !c.is_empty()).map(|c| c.to_vec()).collect();
    // a `.` counts only as the very first component of a relative path
    let v = v.into_iter().enumerate().filter(|(i, c)| c != b"." || (*i == 0 && !abs && path.first() == Some(&b'.'))).map(|(_, c)| c).collect();
    (abs, v)
}

fn f01(m: &mut Monitor, path: &[u8], cwd: &[u8]) {
    let p = PathBuf::from(OsString::from_vec(path.to_vec()));
    let case = || json!({"path": hex(path), "text": String::from_utf8_lossy(path)});
    let class = {
        let t = String::from_utf8_lossy(path);
        format!("{}{}{}", if t.starts_with('/') { "abs" } else { "rel" }, if t.contains("..") { "+dotdot" } else { "" }, if t.split('/').any(|c| c == ".") { "+dot" } else { "" })
    };
    m.inflight(&hex(path));
    m.eval(hash_bytes(path), !path.is_empty());
    m.count(&format!("normalized {class}"));
    let want = reference(path, cwd);
    match guard(|| fs::normalize_path(&p)) {
        Err(e) => m.violation(format!("normalize-panic:{class}"), format!("normalize_path({p:?}) panicked: {e}"), case()),
        Ok(got) => {
            let g = got.as_os_str().as_bytes();
            // compare by components: trailing separators are no part of the meaning
            let (ga, gc) = (g.first() == Some(&b'/'), g.split(|b| *b == b'/').filter(|c| !c.is_empty()).map(|c| c.to_vec()).collect::<Vec<_>>());
            let wc = want.split(|b| *b == b'/').filter(|c| !c.is_empty()).map(|c| c.to_vec()).collect::<Vec<_>>();
            if !ga || gc != wc {
                m.violation(format!("normalize:{class}"), format!("normalize_path({p:?}) = {got:?} instead of {:?}", OsStr::from_bytes(&want)), case());
            }
            match guard(|| fs::normalize_path(&got)) {
                Ok(again) if again == got => {}
                other => m.violation(format!("idempotent:{class}"), format!("normalize_path({got:?}) = {other:?}"), case()),
            }
            relativize(m, &got, cwd, "normalized");
        }
    }
    relativize(m, &p, cwd, "raw");
    m.sample(|| json!({"path": String::from_utf8_lossy(path), "normalized": String::from_utf8_lossy(&want)}));
}

fn relativize(m: &mut Monitor, p: &Path, cwd: &[u8], how: &str) {
    let bytes = p.as_os_str().as_bytes();
    let case = || json!({"path": hex(bytes), "text": String::from_utf8_lossy(bytes)});
    let (abs, pc) = comps(bytes);
    let (_, cc) = comps(cwd);
    let under = abs && pc.len() >= cc.len() && pc[..cc.len()] == cc[..];
    m.count(if under { "relativized below the current directory" } else { "relativized elsewhere" });
    match guard(|| fs::relativize_path(p)) {
        Err(e) => m.violation(format!("relativize-panic:{how}"), format!("relativize_path({p:?}) panicked: {e}"), case()),
        Ok(got) => {
            let shown = p.display().to_string();
            if under {
                let rest = pc[cc.len()..].iter().map(|c| String::from_utf8_lossy(c).into_owned()).collect::<Vec<_>>();
                let g: Vec<String> = got.split('/').filter(|c| !c.is_empty() && *c != ".").map(String::from).collect();
                if got.starts_with('/') || g != rest {
                    m.violation(format!("relativize-under:{how}"), format!("relativize_path({p:?}) = {got:?} instead of {:?}", rest.join("/")), case());
                }
            } else if got != shown {
                m.violation(format!("relativize-elsewhere:{how}"), format!("relativize_path({p:?}) = {got:?} instead of {shown:?}"), case());
            }
        }
    }
}

fn f02(m: &mut Monitor, path: &[u8]) {
    let p = PathBuf::from(OsString::from_vec(path.to_vec()));
    let case = || json!({"path": hex(path), "text": String::from_utf8_lossy(path)});
    // last normal component, by hand
    let (_, c) = comps(path);
    let name = match c.last() { Some(n) if n != b".." && !(c.len() == 1 && n == b".") => n.clone(), _ => vec![] };
    let want = match name.iter().rposition(|b| *b == b'.') {
        None | Some(0) => false,
        Some(i) => matches!(&name[i + 1..], b"R" | b"r"),
    };
    m.inflight(&hex(path));
    m.eval(hash_bytes(path), !name.is_empty());
    m.count(if want { "R files" } else { "other files" });
    match guard(|| fs::has_r_extension(&p)) {
        Err(e) => m.violation("has-panic", format!("has_r_extension({p:?}) panicked: {e}"), case()),
        Ok(got) if got != want => m.violation(format!("has:{got}"), format!("has_r_extension({p:?}) = {got}"), case()),
        _ => {}
    }
    if let Ok(s) = std::str::from_utf8(path) {
        let want = s == "R" || s == "r";
        match guard(|| fs::is_r_extension(s)) {
            Err(e) => m.violation("is-panic", format!("is_r_extension({s:?}) panicked: {e}"), case()),
            Ok(got) if got != want => m.violation(format!("is:{got}"), format!("is_r_extension({s:?}) = {got}"), case()),
            _ => {}
        }
        if want { m.count("extension matches") }
    }
    m.sample(|| json!({"path": String::from_utf8_lossy(path), "is_r": want}));
}

fn main() {
    let prop = std::env::var("VK_PROP").unwrap_or("F01".into());
    let mut m = Monitor::new(&prop);
    let scratch = Scratch::new("fs");
    // several levels deep, with siblings that share a name prefix
    let cwd = scratch.path().join("proj/sub.R");
    std::fs::create_dir_all(&cwd).unwrap();
    std::env::set_current_dir(&cwd).unwrap();
    let cwd = cwd.as_os_str().as_bytes().to_vec();
    let f01p = prop == "F01";
    let run = |m: &mut Monitor, p: &[u8]| if f01p { f01(m, p, &cwd) } else { f02(m, p) };
    if let Some(c) = m.replay.clone() {
        let _: &Value = &c;
        run(&mut m, &unhex(c["path"].as_str().unwrap_or("")));
        m.finish();
        return;
    }
    let parts: Vec<&[u8]> = if f01p {
        vec![b"a", b"b", b"..", b".", b"", b"...", b"a.R", b"sub.R", b"\xff"]
    } else {
        vec![b"a", b".", b"R", b"r", b"/", b"..", b" ", b"Rmd", b"\xff", b"\xc3\xa9"]
    };
    let k = if f01p { m.n(5, 6) } else { m.n(5, 6) };
    for len in 0..=k {
        for code in 0..parts.len().pow(len as u32) {
            let mut c = code;
            let mut v: Vec<u8> = vec![];
            for i in 0..len {
                if f01p && i > 0 { v.push(b'/') }
                v.extend_from_slice(parts[c % parts.len()]);
                c /= parts.len();
            }
            run(&mut m, &v);
            if f01p && code % 3 == 0 {
                let mut w = b"/".to_vec(); w.extend_from_slice(&v); run(&mut m, &w);
            }
        }
        if !m.running() { break }
    }
    let mut r = m.rng("paths");
    for _ in 0..m.n(150000, 600_000) {
        if !m.running() { break }
        let mut v: Vec<u8> = vec![];
        if f01p {
            match r.below(5) {
                0 => v.extend_from_slice(&cwd),
                1 => { v.extend_from_slice(&cwd); v.extend_from_slice(*r.pick(&[b"x".as_slice(), b"-2", b"/", b"//", b"/./", b"/../sub.R", b".bak"])) }
                2 => v.push(b'/'),
                _ => {}
            }
            if r.chance(1, 8) && v.len() > 3 { let n = r.below(v.len()); v.truncate(n) }
        }
        for _ in 0..r.len(5, 40) {
            if r.chance(3, 4) { v.push(b'/') }
            match r.below(8) {
                0 | 1 => v.extend_from_slice(b".."),
                2 => v.push(b'.'),
                3 => v.extend_from_slice(*r.pick(&[b"x.R".as_slice(), b"x.r", b".R", b"..R", b"x.R.txt", b"x.Rmd", b"R", b"x.R ", b"x.\xffR", b"x..r", b"a b.R", b"\xe6\x97\xa5.R", b"x.", b"x.R."])),
                _ => for _ in 0..r.range(1, 4) { v.push(*r.pick(&[b'a', b'.', b'R', b'r', b'-', b' ', 0xe9])) },
            }
        }
        run(&mut m, &v);
    }
    if f01p {
        m.require("relativized below the current directory", 500);
        m.require("relativized elsewhere", 500);
        m.require("normalized rel+dotdot", 500);
        m.require("normalized abs+dotdot", 200);
    } else {
        m.require("R files", 200);
        m.require("other files", 500);
        m.require("extension matches", 2);
    }
    m.finish();
}
