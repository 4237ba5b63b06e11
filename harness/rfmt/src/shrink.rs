//! Makes a failing program smaller.
use crate::corpus::{gaps, is_expr};
use crate::cst;
use std::time::{Duration, Instant};

pub fn shrink(src: &str, fails: impl Fn(&str) -> bool) -> String {
    let end = Instant::now() + Duration::from_secs(8);
    let mut best = src.to_string();
    let mut progress = true;
    while progress && Instant::now() < end {
        progress = false;
        let Some(c) = cst::parse(&best) else { return best };
        let mut candidates: Vec<String> = vec![];
        let lines: Vec<&str> = best.split_inclusive('\n').collect();
        for size in [lines.len() / 2, lines.len() / 4, 2, 1] {
            if size == 0 { continue }
            for i in (0..lines.len()).step_by(size) {
                candidates.push(lines.iter().enumerate().filter(|(k, _)| *k < i || *k >= i + size).map(|(_, l)| *l).collect());
            }
        }
        for n in c.root.all() {
            if n.kind == "program" { continue }
            let put = |t: &str| format!("{}{}{}", &best[..n.start], t, &best[n.end..]);
            if is_expr(n) {
                for k in &n.kids { if k.end > k.start { candidates.push(put(k.text(&best))); for k in &k.kids { if is_expr(k) { candidates.push(put(k.text(&best))) } } } }
                if n.end - n.start > 1 { candidates.push(put("a")) }
            }
            candidates.push(put(""));
        }
        for (a, b) in c.comments.iter() { candidates.push(format!("{}{}", &best[..*a], &best[*b..])) ; candidates.push(format!("{}#{}", &best[..*a], &best[*b..])) }
        for (a, b) in gaps(&c) {
            if b - a > 0 { candidates.push(format!("{}{}", &best[..a], &best[b..])) }
            if b - a > 1 { for t in [" ", "\n"] { candidates.push(format!("{}{t}{}", &best[..a], &best[b..])) } }
        }
        for cand in candidates {
            if cand.len() >= best.len() || Instant::now() > end { continue }
            if cst::parse(&cand).is_some() && fails(&cand) {
                best = cand;
                progress = true;
                break;
            }
        }
    }
    best
}
