//! W03: the default include and exclude sets against a hand-written predicate.
use crate::settings::{DEFAULT_TABLE, DefaultExcludePatterns, DefaultIncludePatterns};
use serde_json::json;
use vkit::*;

fn excluded_entry(name: &str, dir: bool) -> bool {
    (dir && matches!(name, ".git" | "renv" | "revdep"))
        || matches!(name, "cpp11.R" | "RcppExports.R" | "extendr-wrappers.R")
        || (name.len() >= "import-standalone-".len() + 2 && name.starts_with("import-standalone-") && name.ends_with(".R"))
}

fn one(m: &mut Monitor, path: &str, dir: bool) {
    let parts: Vec<&str> = path.split('/').filter(|c| !c.is_empty()).collect();
    let Some(name) = parts.last() else { return };
    let own = excluded_entry(name, dir);
    let any = own || parts[..parts.len() - 1].iter().any(|p| excluded_entry(p, true));
    let inc = name.ends_with(".R") || name.ends_with(".r");
    let inc_any = inc || parts[..parts.len() - 1].iter().any(|p| p.ends_with(".R") || p.ends_with(".r"));
    m.eval_str(&format!("{path}|{dir}"), true);
    m.count(match (own, any) { (true, _) => "excluded itself", (_, true) => "excluded by a parent", _ => "not excluded" });
    m.count(if inc { "included" } else { "not included" });
    let case = || json!({"path": path, "dir": dir});
    let class = format!("{}{}", if path.starts_with('/') { "abs" } else { "rel" }, if parts.len() > 1 { ":nested" } else { "" });
    let got = guard(|| {
        let e = DefaultExcludePatterns::default();
        let i = DefaultIncludePatterns::default();
        (e.matched(path, dir).is_some(), e.matched_path_or_any_parents(path, dir).is_some(), i.matched(path, dir).is_some(), i.matched_path_or_any_parents(path, dir).is_some())
    });
    match got {
        Err(p) => m.violation("panic", format!("default patterns on {path:?} panicked: {p}"), case()),
        Ok((e, ea, i, ia)) => {
            for (what, got, want) in [("exclude", e, own), ("exclude-or-parent", ea, any), ("include", i, inc), ("include-or-parent", ia, inc_any)] {
                if got != want {
                    let odd = if name.chars().all(|c| c.is_alphanumeric() || ".-_".contains(c)) { "" } else { ":odd name" };
                    m.violation(format!("{what}:{got}:{class}{odd}"), format!("default {what} of {path:?} (dir {dir}) is {got} instead of {want}"), case());
                }
            }
        }
    }
    m.sample(|| json!({"path": path, "dir": dir, "excluded": any, "included": inc}));
}

pub fn main() {
    let mut m = Monitor::new("W03");
    if let Some(c) = m.replay.clone() {
        one(&mut m, c["path"].as_str().unwrap_or(""), c["dir"].as_bool().unwrap_or(false));
        m.finish();
        return;
    }
    m.eval_str("table", true);
    let t = DEFAULT_TABLE.as_slice().to_vec();
    if t != ["fcase", "tribble"] {
        m.violation("default-table", format!("the default table functions are {t:?}"), json!({"path": "", "dir": false}));
    }
    let names = [
        ".git", "renv", "revdep", "cpp11.R", "RcppExports.R", "extendr-wrappers.R", "import-standalone-x.R", "import-standalone-.R",
        "import-standalone-a-b.R", "import-standalone-types-check.R", "import-standalone-é.R", "import-standalone-x.R.R",
        "R", "src", "a.R", "a.r", ".R", ".r", "a", "x.Rmd", "x.R.txt", "aR", "x.R~", "x.,", "x.rR", "x.R ", "日本.R",
        // near misses
        "git", ".git2", ".gitignore", "a.git", "Renv", "renv2", "my-renv", "renv.R", "renv.lock", "revdeps", "rev", "cpp11.r", "cpp11.cpp", "xcpp11.R", "cpp11.RR", "cpp11R", "cpp11.R.bak",
        "rcppexports.R", "RcppExports.cpp", "RcppExports.r", "RcppExport.R", "extendr-wrappers.r", "extendr_wrappers.R", "my-extendr-wrappers.R",
        "import-standalone.R", "import-standalone-x.r", "import-standalone-x", "ximport-standalone-x.R", "import-standalonex.R", "Import-standalone-x.R", "import-standalone-x.Rmd",
    ];
    for a in names {
        for d in [false, true] {
            for pre in ["", "/", "./", "C:/"] {
                if pre == "./" { one(&mut m, &format!("./{a}"), d); continue }
                one(&mut m, &format!("{pre}{a}"), d);
                for b in names {
                    one(&mut m, &format!("{pre}{a}/{b}"), d);
                    if pre != "C:/" { for c in ["x", "renv", "a.R"] { one(&mut m, &format!("{pre}{c}/{a}/{b}"), d); one(&mut m, &format!("{pre}{a}/{c}/{b}"), d) } }
                }
            }
        }
    }
    let mut r = m.rng("paths");
    for _ in 0..m.n(100000, 800_000) {
        if !m.running() { break }
        let top = if r.chance(1, 10) { 20 } else { 6 };
        let n = r.range(1, top);
        let mut s = String::from(if r.bool() { "/" } else { "" });
        for i in 0..n {
            if i > 0 { s.push('/') }
            if r.chance(1, 3) {
                let k = r.range(1, 6);
                for _ in 0..k { s.push(*r.pick(&['a', 'R', 'r', '.', '-', '_', 'x', ',', 'e'])) }
                if s.ends_with("/.") || s.ends_with("..") || s == "." { s.push('a') }
            } else { s.push_str(r.word(&names)) }
        }
        let d = r.bool();
        one(&mut m, &s, d);
    }
    for what in ["excluded itself", "excluded by a parent", "not excluded", "included", "not included"] { m.require(what, 1000) }
    m.finish();
}
