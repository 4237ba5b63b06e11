//! A reference matcher for gitignore patterns, segment by segment and byte by byte.

#[derive(Debug, Clone)]
enum Tok { Lit(u8), Any, One, Set(Vec<(u8, u8)>) }

#[derive(Debug, Clone)]
enum Seg { Stars, Glob(Vec<Tok>) }

#[derive(Debug, Clone)]
pub struct Pat { negated: bool, dir_only: bool, floating: bool, segs: Vec<Seg> }

fn glob(text: &str) -> Vec<Tok> {
    // byte-wise, as git's wildmatch is: `?` is one byte
    let c: Vec<u8> = text.bytes().collect();
    let (mut i, mut out) = (0, vec![]);
    while i < c.len() {
        match c[i] {
            b'*' => out.push(Tok::Any),
            b'?' => out.push(Tok::One),
            b'\\' if i + 1 < c.len() => { i += 1; out.push(Tok::Lit(c[i])) }
            b'[' => {
                let mut set = vec![];
                i += 1;
                while c[i] != b']' {
                    if i + 2 < c.len() && c[i + 1] == b'-' && c[i + 2] != b']' { set.push((c[i], c[i + 2])); i += 3 } else { set.push((c[i], c[i])); i += 1 }
                }
                out.push(Tok::Set(set));
            }
            x => out.push(Tok::Lit(x)),
        }
        i += 1;
    }
    out
}

/// None: a line without a pattern.
pub fn parse(line: &str) -> Option<Pat> {
    if line.starts_with('#') { return None }
    let mut s = if line.ends_with("\\ ") { line } else { line.trim_end() };
    if s.is_empty() { return None }
    let mut negated = false;
    if let Some(rest) = s.strip_prefix('!') { negated = true; s = rest }
    let mut floating = true;
    if let Some(rest) = s.strip_prefix('/') { floating = false; s = rest }
    let mut dir_only = false;
    if let Some(rest) = s.strip_suffix('/') { dir_only = true; s = rest }
    if s.contains('/') { floating = false }
    let segs = s.split('/').map(|x| if x == "**" { Seg::Stars } else { Seg::Glob(glob(x)) }).collect();
    Some(Pat { negated, dir_only, floating, segs })
}

fn seg_match(p: &[Tok], s: &[u8]) -> bool {
    match (p.first(), s.first()) {
        (None, None) => true,
        (None, _) => false,
        (Some(Tok::Any), _) => seg_match(&p[1..], s) || (!s.is_empty() && seg_match(p, &s[1..])),
        (_, None) => false,
        (Some(Tok::One), _) => seg_match(&p[1..], &s[1..]),
        (Some(Tok::Lit(c)), Some(x)) => c == x && seg_match(&p[1..], &s[1..]),
        (Some(Tok::Set(set)), Some(x)) => set.iter().any(|(a, b)| a <= x && x <= b) && seg_match(&p[1..], &s[1..]),
    }
}

fn path_match(p: &[Seg], path: &[Vec<u8>]) -> bool {
    match p.first() {
        None => path.is_empty(),
        // a trailing `**` needs something inside
        Some(Seg::Stars) if p.len() == 1 => !path.is_empty(),
        Some(Seg::Stars) => (0..=path.len()).any(|k| path_match(&p[1..], &path[k..])),
        Some(Seg::Glob(g)) => !path.is_empty() && seg_match(g, &path[0]) && path_match(&p[1..], &path[1..]),
    }
}

pub fn applies(p: &Pat, path: &[Vec<u8>], dir: bool) -> bool {
    if p.dir_only && !dir { return false }
    if p.floating { (0..path.len()).any(|k| path_match(&p.segs, &path[k..])) } else { path_match(&p.segs, path) }
}

/// Some(ignored) by the last pattern that applies.
pub fn decide(ps: &[Pat], path: &[Vec<u8>], dir: bool) -> Option<bool> {
    ps.iter().rev().find(|p| applies(p, path, dir)).map(|p| !p.negated)
}

pub fn decide_up(ps: &[Pat], path: &[Vec<u8>], dir: bool) -> Option<bool> {
    (1..=path.len()).rev().find_map(|k| decide(ps, &path[..k], dir || k < path.len()))
}
