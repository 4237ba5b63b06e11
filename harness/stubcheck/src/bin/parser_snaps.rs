//! Compares what the parser gives over the stand-ins with the snapshots of air's own tests.
use air_r_parser::{RParserOptions, parse};
use std::fmt::Write;

fn walk(dir: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    for entry in std::fs::read_dir(dir).unwrap() {
        let path = entry.unwrap().path();
        if path.is_dir() {
            walk(&path, out);
        } else if path.extension().is_some_and(|e| e == "R") {
            out.push(path);
        }
    }
}

fn main() {
    let only = std::env::args().nth(1);
    let mut files = Vec::new();
    walk("/repo/crates/air_r_parser/tests/snapshots".as_ref(), &mut files);
    let (mut same, mut differ) = (0, 0);
    for file in files {
        if let Some(only) = &only
            && !file.to_str().unwrap().contains(only.as_str())
        {
            continue;
        }
        let content = std::fs::read_to_string(&file).unwrap();
        let parsed = parse(&content, RParserOptions::default());
        let mut s = String::new();
        writeln!(s, "\n## Input\n\n```R\n{content}\n```\n\n").unwrap();
        writeln!(s, "## AST\n\n```\n{:#?}\n```\n\n## CST\n\n```\n{:#?}\n```\n", parsed.tree(), parsed.syntax()).unwrap();
        if let Some(error) = parsed.error() {
            writeln!(s, "## Errors\n\n```\n{error}\n```\n").unwrap();
        }
        let snap = std::fs::read_to_string(file.with_extension("R.snap")).unwrap();
        let snap = snap.splitn(3, "---\n").nth(2).unwrap();
        let norm = |s: &str| s.trim().replace("\r\n", "\n");
        if norm(snap) == norm(&s) {
            same += 1;
        } else {
            differ += 1;
            println!("DIFFERS {}", file.display());
            if only.is_some() {
                std::fs::write("/tmp/st/want", norm(snap)).unwrap();
                std::fs::write("/tmp/st/got", norm(&s)).unwrap();
            }
        }
    }
    println!("{same} same, {differ} differ");
}
