//! Z01, Z02: the Zed extension against a scripted host, by VK_PROP. Runs as an unprivileged user,
//! below a scratch directory: the extension deletes what lies in its working directory.
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use vkit::*;
use zed_extension_api::{self as zed, host, Architecture, DownloadedFileType, Event, Extension, GithubRelease, GithubReleaseAsset, LanguageServerId, Os, Worktree};

use zed_air as extension;

const OSES: [Os; 3] = [Os::Mac, Os::Linux, Os::Windows];
const ARCHES: [Architecture; 3] = [Architecture::Aarch64, Architecture::X86, Architecture::X8664];

fn triple(os: Os, arch: Architecture) -> String {
    let a = match arch { Architecture::Aarch64 => "aarch64", Architecture::X86 => "x86", Architecture::X8664 => "x86_64" };
    let o = match os { Os::Mac => "apple-darwin", Os::Linux => "unknown-linux-gnu", Os::Windows => "pc-windows-msvc" };
    format!("{a}-{o}")
}
fn suffix(t: &str) -> &'static str { if t.contains("windows") { "zip" } else { "tar.gz" } }
fn asset_name(t: &str) -> String { format!("air-{t}.{}", suffix(t)) }

/// The targets releases are built for, from the release configuration.
fn published() -> Vec<String> {
    let text = std::fs::read_to_string("/repo/dist-workspace.toml").expect("dist-workspace.toml");
    let at = text.find("targets = [").expect("targets");
    text[at..].split(']').next().unwrap().lines().filter_map(|l| {
        let l = l.trim();
        (l.starts_with('"')).then(|| l.trim_end_matches(',').trim_matches('"').to_string())
    }).collect()
}

fn url(version: &str, name: &str) -> String { format!("https://github.com/posit-dev/air/releases/download/{version}/{name}") }

fn release(version: &str, targets: &[String]) -> GithubRelease {
    let mut assets = vec![];
    for n in ["air-installer.sh", "air-installer.ps1", "sha256.sum", "source.tar.gz", "air.schema.json"] { assets.push(n.to_string()) }
    for t in targets {
        let n = asset_name(t);
        assets.push(format!("{n}.sha256"));
        assets.push(n);
    }
    assets.sort();
    GithubRelease { version: version.into(), assets: assets.into_iter().map(|n| GithubReleaseAsset { download_url: url(version, &n), name: n }).collect() }
}

/// Unpacks what releases contain: a directory named like the asset in tarballs, no directory in zips.
fn unpack(root: &Path, u: &str, path: &str, kind: DownloadedFileType) -> Result<(), String> {
    let name = u.rsplit('/').next().unwrap();
    let is_zip = name.ends_with(".zip");
    let ok = if is_zip { kind == DownloadedFileType::Zip } else { name.ends_with(".tar.gz") && kind == DownloadedFileType::GzipTar };
    if !ok { return Err(format!("{name} is no {kind:?}")) }
    let stem = name.trim_end_matches(".zip").trim_end_matches(".tar.gz");
    let dir = root.join(path);
    let file = if is_zip { dir.join("air.exe") } else { dir.join(stem).join("air") };
    std::fs::create_dir_all(file.parent().unwrap()).map_err(|e| e.to_string())?;
    std::fs::write(file, u).map_err(|e| e.to_string())
}

fn tree(root: &Path) -> BTreeMap<PathBuf, Option<Vec<u8>>> {
    fn walk(p: &Path, base: &Path, out: &mut BTreeMap<PathBuf, Option<Vec<u8>>>) {
        for e in std::fs::read_dir(p).into_iter().flatten().flatten() {
            let q = e.path();
            let rel = q.strip_prefix(base).unwrap().to_path_buf();
            let t = e.file_type().unwrap();
            if t.is_dir() { out.insert(rel, None); walk(&q, base, out) }
            else if t.is_symlink() { out.insert(rel, Some(b"link".to_vec())); }
            else { out.insert(rel, Some(std::fs::read(&q).unwrap_or_default())); }
        }
    }
    let mut out = BTreeMap::new();
    walk(root, root, &mut out);
    out
}

fn fresh(s: &Scratch, n: usize) -> PathBuf {
    let p = s.path().join(format!("ext{n}"));
    std::fs::create_dir_all(&p).unwrap();
    std::env::set_current_dir(&p).unwrap();
    p
}

fn id() -> LanguageServerId { LanguageServerId::for_test("air") }

// ------------------------------------------------ Z01

fn z01_one(m: &mut Monitor, s: &Scratch, n: usize, os: Os, arch: Architecture, version: &str, all: bool) {
    let dir = fresh(s, n);
    let pubd = published();
    let t = triple(os, arch);
    let mut targets = pubd.clone();
    if all { for o in OSES { for a in ARCHES { let t = triple(o, a); if !targets.contains(&t) { targets.push(t) } } } }
    let case = || json!({"os": format!("{os:?}"), "arch": format!("{arch:?}"), "version": version, "all": all});
    let what = format!("{os:?}-{arch:?}");
    m.inflight(&case().to_string());
    m.eval_str(&case().to_string(), true);
    host(|h| {
        h.events.clear();
        h.platform = (os, arch);
        h.release = Ok(release(version, &targets));
        let d = dir.clone();
        h.download = Box::new(move |u, p, k| unpack(&d, u, p, k));
    });
    let mut ext = extension::__registered();
    let w = Worktree { path_air: None, lsp_settings: None };
    let got = match guard(|| ext.language_server_command(&id(), &w)) {
        Ok(g) => g,
        Err(p) => return m.violation(format!("panic:{what}"), p, case()),
    };
    let events = host(|h| std::mem::take(&mut h.events));
    for e in &events {
        if let Event::Latest { repo, pre_release, .. } = e {
            if repo != "posit-dev/air" || *pre_release { m.violation("repository", format!("asked for releases of {repo}, pre_release {pre_release}"), case()) }
        }
    }
    let downloads: Vec<_> = events.iter().filter_map(|e| if let Event::Download { url, path, kind } = e { Some((url.clone(), path.clone(), *kind)) } else { None }).collect();
    let want_dir = format!("air-{version}");
    if !targets.contains(&t) {
        m.count("platforms without a release asset");
        if got.is_ok() || !downloads.is_empty() { m.violation(format!("no-asset:{what}"), format!("nothing is published for {t}, yet: {got:?}, downloads {downloads:?}"), case()) }
        return;
    }
    m.count("downloads resolved");
    let want_kind = if os == Os::Windows { DownloadedFileType::Zip } else { DownloadedFileType::GzipTar };
    let want = vec![(url(version, &asset_name(&t)), want_dir.clone(), want_kind)];
    if downloads != want { m.violation(format!("download:{what}"), format!("downloads {downloads:?} instead of {want:?}"), case()) }
    match got {
        Err(e) => m.violation(format!("error:{what}"), format!("refused for {t} {version}: {e}"), case()),
        Ok(c) => {
            let p = Path::new(&c.command);
            let inside = p.is_relative() && p.starts_with(&want_dir) && p.components().all(|c| matches!(c, std::path::Component::Normal(_)));
            if !inside { m.violation(format!("outside:{what}"), format!("{} is not inside {want_dir}", c.command), case()) }
            if !dir.join(p).is_file() { m.violation(format!("missing:{what}"), format!("{} does not exist after unpacking: {:?}", c.command, tree(&dir).keys().collect::<Vec<_>>()), case()) }
            if c.args != ["language-server"] || !c.env.is_empty() { m.violation("arguments", format!("{c:?}"), case()) }
        }
    }
    m.sample(|| json!({"platform": t, "version": version, "download": downloads.first().map(|d| &d.0)}));
}

// ------------------------------------------------ Z02

#[derive(Clone, Debug)]
struct Step {
    version: usize,
    fault: u8, // 0 none, 1 release query, 2 asset missing, 3 download fails at once, 4 download fails half way
    path_air: bool,
    settings: u8, // 0 none, 1 path, 2 path+args, 3 args only, 4 unreadable, 5 no binary but settings
    remove_binary: bool,
    clutter: u8,
    restart: bool,
}

const VERSIONS: [&str; 4] = ["0.9.0", "0.10.0", "1.0.0-rc.1", "0.9"];

fn step(r: &mut Rng) -> Step {
    Step {
        version: r.below(VERSIONS.len()), fault: if r.chance(1, 3) { r.range(1, 4) as u8 } else { 0 }, path_air: r.chance(1, 8),
        settings: if r.chance(1, 3) { r.range(1, 5) as u8 } else { 0 }, remove_binary: r.chance(1, 4), clutter: r.below(5) as u8, restart: r.chance(1, 6),
    }
}

fn z02_history(m: &mut Monitor, s: &Scratch, n: usize, os: Os, steps: &[Step], case: Value) {
    m.inflight(&case.to_string());
    m.eval_str(&case.to_string(), steps.len() > 1);
    let dir = fresh(s, n);
    let outside = s.path().join(format!("outside{n}"));
    std::fs::create_dir_all(&outside).unwrap();
    std::fs::write(outside.join("keep"), b"keep").unwrap();
    let arch = Architecture::X8664;
    let t = triple(os, arch);
    let mut ext = extension::__registered();
    let mut cached: Option<String> = None; // the model's whole state
    for (i, st) in steps.iter().enumerate() {
        if st.restart { ext = extension::__registered(); cached = None; m.count("restarts") }
        let version = VERSIONS[st.version];
        let bin_dir = format!("air-{version}");
        let bin = if os == Os::Windows { format!("{bin_dir}/air.exe") } else { format!("{bin_dir}/air-{t}/air") };
        if st.remove_binary {
            if let Some(c) = &cached { let _ = std::fs::remove_file(dir.join(c)); m.count("cached binary deleted") }
        }
        let mut other = vec![];
        match st.clutter {
            1 => { std::fs::create_dir_all(dir.join("old/deep")).unwrap(); std::fs::write(dir.join("old/deep/x"), b"x").unwrap(); other.push("old") }
            2 => { std::fs::create_dir_all(dir.join("air-0.0.1")).unwrap(); other.push("air-0.0.1") }
            3 => { let _ = std::os::unix::fs::symlink(&outside, dir.join("link")); }
            4 => { std::fs::write(dir.join("plain"), b"p").unwrap(); }
            _ => {}
        }
        let lsp_settings = match st.settings {
            1 => Some(json!({"binary": {"path": "/opt/my air"}})),
            2 => Some(json!({"binary": {"path": "/opt/my air", "arguments": ["a", "b c"]}})),
            3 => Some(json!({"binary": {"arguments": ["--log", "x"]}})),
            5 => Some(json!({"settings": {"x": 1}, "initialization_options": {"y": [2]}})),
            _ => None,
        }.map(|v| v.to_string()).or((st.settings == 4).then(|| "{".to_string()));
        let w = Worktree { path_air: st.path_air.then(|| "/usr/bin/air".to_string()), lsp_settings };
        let before = tree(&dir);
        let mut targets = published();
        if st.fault == 2 { targets.retain(|x| *x != t) }
        let rel = if st.fault == 1 { Err("rate limit".to_string()) } else { Ok(release(version, &targets)) };
        let (d, fault) = (dir.clone(), st.fault);
        host(|h| {
            h.events.clear();
            h.platform = (os, arch);
            h.release = rel;
            h.download = Box::new(move |u, p, k| match fault {
                3 => Err("reset".into()),
                4 => { std::fs::create_dir_all(d.join(p)).unwrap(); Err("half way".into()) }
                _ => unpack(&d, u, p, k),
            });
        });
        let got = match guard(|| ext.language_server_command(&id(), &w)) {
            Ok(g) => g,
            Err(p) => return m.violation("panic", format!("step {i} {st:?}: {p}"), case.clone()),
        };
        let events = host(|h| std::mem::take(&mut h.events));
        let after = tree(&dir);
        let asked = events.iter().any(|e| matches!(e, Event::Latest { .. } | Event::ByTag { .. }));
        let downloads = events.iter().filter(|e| matches!(e, Event::Download { .. })).count();
        let args: Vec<String> = match st.settings { 2 => vec!["a".into(), "b c".into()], 3 => vec!["--log".into(), "x".into()], _ => vec!["language-server".into()] };
        // the model
        let cached_ok = cached.as_ref().is_some_and(|c| matches!(before.get(Path::new(c)), Some(Some(_))));
        let on_disk = matches!(before.get(Path::new(&bin)), Some(Some(_)));
        let (want, why, want_downloads): (Result<String, ()>, &str, usize) = if matches!(st.settings, 1 | 2) { (Ok("/opt/my air".into()), "user's path", 0) }
            else if st.path_air { (Ok("/usr/bin/air".into()), "PATH", 0) }
            else if cached_ok { (Ok(cached.clone().unwrap()), "earlier download", 0) }
            else if st.fault == 1 { (Err(()), "no release", 0) }
            else if st.fault == 2 { (Err(()), "no asset", 0) }
            else if on_disk { (Ok(bin.clone()), "already unpacked", 0) }
            else if st.fault >= 3 { (Err(()), "download failed", 1) }
            else { (Ok(bin.clone()), "fresh download", 1) };
        m.count(&format!("resolved by: {why}"));
        let ctx = format!("step {i} {st:?} on {os:?} ({why})");
        match (&got, &want) {
            (Ok(c), Ok(p)) if c.command == *p => {
                if c.args != args { m.violation("arguments", format!("{ctx}: {:?} instead of {args:?}", c.args), case.clone()) }
            }
            (Err(_), Err(())) => {}
            _ => m.violation(format!("binary:{why}"), format!("{ctx}: {got:?} instead of {want:?}"), case.clone()),
        }
        if downloads != want_downloads { m.violation(format!("downloads:{why}"), format!("{ctx}: {downloads} downloads instead of {want_downloads}"), case.clone()) }
        if asked && matches!(why, "user's path" | "PATH" | "earlier download") { m.violation(format!("asked:{why}"), format!("{ctx}: asked for releases"), case.clone()) }
        if why == "fresh download" {
            for k in after.keys().filter(|k| k.components().count() == 1) {
                if after[k].is_none() && k != Path::new(&bin_dir) { m.violation("left-over", format!("{ctx}: {k:?} was left in the extension's directory"), case.clone()) }
            }
            if !matches!(after.get(Path::new(&bin)), Some(Some(_))) { m.violation("removed-binary", format!("{ctx}: {bin} is gone"), case.clone()) }
            if !other.is_empty() { m.count("outdated directories removed") }
        } else {
            for (k, v) in &before {
                if after.get(k) != Some(v) { m.violation(format!("removed:{why}"), format!("{ctx}: {k:?} was changed or removed"), case.clone()); break }
            }
        }
        if !outside.join("keep").is_file() { return m.violation("outside", format!("{ctx}: a file outside the extension's directory was removed"), case.clone()) }
        if matches!(why, "already unpacked" | "fresh download") { cached = Some(bin.clone()) }
        // the other two answers of the extension
        let opts = guard(|| (ext.language_server_initialization_options(&id(), &w), ext.language_server_workspace_configuration(&id(), &w)));
        let (wi, ws) = if st.settings == 5 { (json!({"y": [2]}), json!({"x": 1})) } else { (Value::Null, Value::Null) };
        if opts != Ok((Ok(Some(wi.clone())), Ok(Some(ws.clone())))) { m.violation("configuration", format!("{ctx}: {opts:?} instead of {wi} and {ws}"), case.clone()) }
    }
    m.sample(|| case.clone());
    std::env::set_current_dir(s.path()).unwrap();
    let _ = std::fs::remove_dir_all(&dir);
    let _ = std::fs::remove_dir_all(&outside);
}

fn main() {
    let prop = std::env::var("VK_PROP").unwrap_or("Z01".into());
    let mut m = Monitor::new(&prop);
    let s = Scratch::new("zed");
    if unsafe { libc_geteuid() } == 0 && std::env::var_os("VK_AS_ROOT").is_none() {
        m.inconclusive("refusing to run as root");
        m.note("starved", true);
        return m.finish();
    }
    if prop == "Z01" {
        if let Some(c) = m.replay.clone() {
            let os = OSES.into_iter().find(|o| format!("{o:?}") == c["os"]).unwrap();
            let arch = ARCHES.into_iter().find(|o| format!("{o:?}") == c["arch"]).unwrap();
            z01_one(&mut m, &s, 0, os, arch, c["version"].as_str().unwrap(), c["all"] == true);
            return m.finish();
        }
        let mut r = m.rng("versions");
        let mut versions: Vec<String> = ["0.1.0", "0.9.0", "1.0.0", "10.20.30", "v0.9.0", "0.10.0-beta.1", "0.9", "2"].map(String::from).to_vec();
        for _ in 0..m.n(40, 600) { versions.push(format!("{}{}.{}.{}{}", r.word(&["", "", "v"]), r.below(30), r.below(200), r.below(30), r.word(&["", "", "-rc.1", "-alpha", "+build5"]))) }
        let mut n = 0;
        for v in &versions { for os in OSES { for arch in ARCHES { for all in [false, true] {
            if !m.running() { break }
            n += 1;
            z01_one(&mut m, &s, n, os, arch, v, all);
        } } } }
        m.note("platforms", 9);
        m.require("downloads resolved", 500);
        m.require("platforms without a release asset", 50);
    } else {
        let base = m.seed;
        let gen = |k: u64| {
            let mut r = Rng::stream(k, "z02");
            let os = *r.pick(&OSES);
            let steps: Vec<Step> = (0..r.range(1, 8)).map(|_| step(&mut r)).collect();
            (os, steps)
        };
        if let Some(c) = m.replay.clone() {
            let (os, steps) = gen(c["history"].as_u64().unwrap());
            z02_history(&mut m, &s, 0, os, &steps, c);
            return m.finish();
        }
        for k in 0..m.n(15000, 60_000) as u64 {
            if !m.running() { break }
            let h = base.wrapping_mul(1 << 32) + k;
            let (os, steps) = gen(h);
            z02_history(&mut m, &s, k as usize, os, &steps, json!({"history": h, "steps": format!("{steps:?}")}));
        }
        for w in ["user's path", "PATH", "earlier download", "no release", "no asset", "already unpacked", "download failed", "fresh download"] { m.require(&format!("resolved by: {w}"), 100) }
    }
    std::env::set_current_dir("/").unwrap();
    m.finish();
}

extern "C" {
    #[link_name = "geteuid"]
    fn libc_geteuid() -> u32;
}
