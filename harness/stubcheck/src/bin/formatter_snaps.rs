//! Compares what the formatter gives over the stand-ins with the snapshots of air's own tests,
//! and does air's own second pass (the output parses and is left alone).
use air_r_formatter::format_node;
use air_r_parser::{RParserOptions, parse};
use biome_formatter::FormatOptions;
use std::fmt::Write;

fn walk(dir: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    for entry in std::fs::read_dir(dir).unwrap() {
        let path = entry.unwrap().path();
        if path.is_dir() {
            walk(&path, out);
        } else if path.extension().is_some_and(|e| e == "R") {
            out.push(path);
        }
    }
}

fn snapshot(code: &str) -> String {
    let toml: Vec<&str> = code
        .lines()
        .skip_while(|line| line.is_empty())
        .take_while(|line| line.starts_with("#'"))
        .map(|line| line.strip_prefix("#'").unwrap().trim_start())
        .collect();
    let options = workspace::toml::parse_air_inline_toml(&toml.join("\n"))
        .unwrap()
        .into_settings("".as_ref())
        .unwrap()
        .format
        .to_format_options(code);
    let parsed = parse(code, RParserOptions::default());
    if let Some(error) = parsed.error() {
        return format!("PARSE ERROR {error}");
    }
    let formatted = format_node(options.clone(), &parsed.syntax()).unwrap().print().unwrap();
    let output = formatted.as_code();
    let mut s = String::new();
    writeln!(s, "\n# Input\n\n```R\n{code}\n```\n\n").unwrap();
    writeln!(s, "=============================\n\n# Outputs\n").unwrap();
    writeln!(s, "## Output 1\n\n-----\n{options}-----\n\n```R\n{output}```\n").unwrap();
    if !formatted.verbatim_ranges().is_empty() {
        writeln!(s, "\n\n## Unimplemented nodes/tokens\n").unwrap();
        for (range, text) in formatted.verbatim() {
            writeln!(s, "{text:?} => {range:?}").unwrap();
        }
    }
    let width = options.line_width().value() as usize;
    let long: Vec<_> = output.lines().enumerate().filter(|(_, l)| l.len() > width).collect();
    if !long.is_empty() {
        writeln!(s, "# Lines exceeding max width of {width} characters\n```").unwrap();
        for (i, line) in long {
            writeln!(s, "{:>5}: {line}", i + 1).unwrap();
        }
        writeln!(s, "```\n").unwrap();
    }
    let again = parse(output, RParserOptions::default());
    if let Some(error) = again.error() {
        return format!("{s}\nOUTPUT HAS PARSE ERROR {error}");
    }
    let second = format_node(options, &again.syntax()).unwrap().print().unwrap();
    if second.as_code() != output {
        return format!("{s}\nNOT STABLE\n{}", second.as_code());
    }
    s
}

fn main() {
    let only = std::env::args().nth(1);
    let mut files = Vec::new();
    walk("/repo/crates/air_r_formatter/tests/specs/r".as_ref(), &mut files);
    files.sort();
    let (mut same, mut differ) = (0, 0);
    for file in files {
        if let Some(only) = &only
            && !file.to_str().unwrap().contains(only.as_str())
        {
            continue;
        }
        let code = std::fs::read_to_string(&file).unwrap();
        let got = std::panic::catch_unwind(|| snapshot(&code))
            .unwrap_or_else(|_| "PANIC".to_string());
        let snap = std::fs::read_to_string(format!("{}.snap", file.display())).unwrap();
        let snap = snap.splitn(3, "---\n").nth(2).unwrap();
        if snap.trim() == got.trim() {
            same += 1;
        } else {
            differ += 1;
            println!("DIFFERS {}", file.display());
            if only.is_some() {
                std::fs::write("/tmp/st/want", snap.trim()).unwrap();
                std::fs::write("/tmp/st/got", got.trim()).unwrap();
            }
        }
    }
    println!("{same} same, {differ} differ");
}
