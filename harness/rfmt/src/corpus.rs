//! air's own specimen files, and mutations of them.
use crate::cst::{self, Cst, N};
use std::path::Path;
use vkit::Rng;

pub struct Corpus {
    pub files: Vec<(String, Cst)>,
    /// texts of expressions in them
    pool: Vec<String>,
}

fn collect(dir: &Path, out: &mut Vec<std::path::PathBuf>) {
    let Ok(entries) = std::fs::read_dir(dir) else { return };
    for e in entries.flatten() {
        let p = e.path();
        if p.is_dir() { collect(&p, out) } else if p.extension().is_some_and(|x| x == "R" || x == "r") { out.push(p) }
    }
}

impl Corpus {
    pub fn load() -> Corpus {
        let repo = std::env::var("VK_REPO").unwrap_or("/repo".into());
        let mut paths = vec![];
        collect(Path::new(&repo).join("crates").as_path(), &mut paths);
        paths.sort();
        let mut files = vec![];
        let mut pool = vec![];
        for p in paths {
            let Ok(text) = std::fs::read_to_string(&p) else { continue };
            // these start with what the stand-ins do not know
            if text.starts_with('\u{feff}') { continue }
            let Some(c) = cst::parse(&text) else { continue };
            c.root.walk(&mut |n: &N| {
                if is_expr(n) && n.end - n.start < 200 { pool.push(n.text(&text).to_string()) }
            });
            files.push((p.strip_prefix(&repo).unwrap_or(&p).display().to_string(), c));
        }
        Corpus { files, pool }
    }

    /// A part of a file, or all of it if it is short.
    pub fn piece(&self, r: &mut Rng) -> String {
        let (_, c) = r.pick(&self.files);
        let s = c.root.statements();
        if s.is_empty() || r.chance(1, 40) { return c.src.clone() }
        let i = r.below(s.len());
        let j = (i + r.range(1, 4)).min(s.len());
        // with the comments before it
        let from = if i == 0 { 0 } else {
            let end = s[i - 1].end;
            c.src[end..].find('\n').map_or(end, |k| (end + k + 1).min(s[i].start))
        };
        let to = c.src[s[j - 1].end..].find('\n').map_or(c.src.len(), |k| s[j - 1].end + k + 1);
        c.src[from..to].to_string()
    }

    /// A mutation of a valid program; still valid, or `None`.
    pub fn mutate(&self, r: &mut Rng, src: &str, comments: bool) -> Option<Cst> {
        let mut c = cst::parse(src)?;
        for _ in 0..r.range(1, 6) {
            let new = match r.below(8) {
                0 | 1 => self.splice(r, &c),
                2 => drop_node(r, &c),
                3 if comments => comment(r, &c),
                _ => respace(r, &c, comments),
            };
            if let Some(n) = new.and_then(|n| cst::parse(&n)) { c = n }
        }
        Some(c)
    }

    fn splice(&self, r: &mut Rng, c: &Cst) -> Option<String> {
        let at: Vec<&N> = c.root.all().into_iter().filter(|n| is_expr(n)).collect();
        if at.is_empty() { return None }
        let n = *r.pick(&at);
        let with = if r.chance(1, 3) { r.pick(&at).text(&c.src).to_string() } else { r.pick(&self.pool).clone() };
        Some(format!("{}{}{}", &c.src[..n.start], with, &c.src[n.end..]))
    }
}

pub fn is_expr(n: &N) -> bool {
    !n.kids.is_empty()
        && !matches!(n.kind, "program" | "argument" | "parameter" | "parameters" | "call_arguments" | "subset_arguments" | "subset2_arguments" | "na" | "integer" | "complex")
        || matches!(n.kind, "identifier" | "float" | "true" | "false" | "null")
}

fn drop_node(r: &mut Rng, c: &Cst) -> Option<String> {
    let at: Vec<&N> = c.root.all().into_iter().filter(|n| matches!(n.kind, "argument" | "comma" | "parameter") || is_expr(n)).collect();
    if at.is_empty() { return None }
    let n = *r.pick(&at);
    Some(format!("{}{}", &c.src[..n.start], &c.src[n.end..]))
}

/// Positions between tokens and comments: (end of the one, start of the next).
pub fn gaps(c: &Cst) -> Vec<(usize, usize)> {
    let mut items: Vec<(usize, usize)> = c.root.leaves().iter().map(|n| (n.start, n.end)).collect();
    // strings are leaves of their own parts: keep those together
    let mut strings = vec![];
    c.root.walk(&mut |n| if matches!(n.kind, "string" | "integer" | "complex" | "na") { strings.push((n.start, n.end)) });
    items.retain(|i| !strings.iter().any(|s| s.0 <= i.0 && i.1 <= s.1));
    items.extend(strings);
    items.extend(c.comments.iter().copied());
    items.sort();
    let mut out = vec![];
    let mut at = 0;
    for (s, e) in items {
        out.push((at, s));
        at = e;
    }
    out.push((at, c.src.len()));
    out
}

fn comment(r: &mut Rng, c: &Cst) -> Option<String> {
    let (s, e) = *r.pick(&gaps(c));
    let own = r.bool();
    let text = format!("{}# m{}\n", if own { "\n" } else { " " }, r.below(1000));
    Some(format!("{}{}{}", &c.src[..s], text, c.src[e..].trim_start_matches(' ')))
}

fn respace(r: &mut Rng, c: &Cst, _comments: bool) -> Option<String> {
    let mut out = String::new();
    let chance = *r.pick(&[20, 100, 400, 1000]);
    let newlines = r.below(4);
    let mut at = 0;
    for (s, e) in gaps(c) {
        out += &c.src[at..s];
        let old = &c.src[s..e];
        if !r.chance(chance, 1000) || old.contains(';') {
            out += old;
        } else if old.contains('\n') {
            out += r.word(&["\n", "\n\n", "\n\n\n\n", "\n  ", "\n\t", " \n"]);
        } else if newlines > 0 && r.chance(newlines, 8) {
            out += r.word(&["\n", "\n\n", "\n    "]);
        } else {
            out += r.word(&[" ", "  ", "\t", old]);
        }
        at = e;
    }
    Some(out + &c.src[at..])
}
