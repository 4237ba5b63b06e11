//! W01: PathResolver histories against a map and a component-wise prefix search.
use crate::resolve::PathResolver;
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use vkit::*;

#[derive(Clone, Debug)]
enum Op {
    Add(String, u64),
    Remove(String),
    Clear,
    Resolve(String),
    Bump(String),
}

fn comps(p: &str) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    if p.starts_with('/') { v.push("/".into()) }
    for (i, c) in p.split('/').enumerate() {
        if c.is_empty() || (c == "." && !(i == 0)) { continue }
        v.push(c.into())
    }
    v
}

fn to_json(h: &[Op]) -> Value {
    Value::Array(h.iter().map(|o| match o {
        Op::Add(p, v) => json!(["add", p, v]),
        Op::Remove(p) => json!(["remove", p]),
        Op::Clear => json!(["clear"]),
        Op::Resolve(p) => json!(["resolve", p]),
        Op::Bump(p) => json!(["bump", p]),
    }).collect())
}
fn from_json(v: &Value) -> Vec<Op> {
    v.as_array().into_iter().flatten().filter_map(|o| {
        let p = o[1].as_str().unwrap_or("").to_string();
        Some(match o[0].as_str()? {
            "add" => Op::Add(p, o[2].as_u64()?),
            "remove" => Op::Remove(p),
            "clear" => Op::Clear,
            "resolve" => Op::Resolve(p),
            _ => Op::Bump(p),
        })
    }).collect()
}

/// Runs a history; a description of the first disagreement.
fn play(h: &[Op], m: Option<&mut Monitor>) -> Option<(String, String)> {
    let mut real: PathResolver<u64> = PathResolver::new(u64::MAX);
    // keyed by components, which is what path equality means
    let mut model: BTreeMap<Vec<String>, (String, u64)> = BTreeMap::new();
    let mut counts: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut max_nest = 0u64;
    let mut result = None;
    for (i, op) in h.iter().enumerate() {
        let r = guard(|| -> Option<(&'static str, String)> {
            match op {
                Op::Add(p, v) => {
                    let got = real.add(p.as_str(), *v);
                    let c = comps(p);
                    let old = model.get(&c).map(|x| x.1);
                    let text = model.get(&c).map_or(p.clone(), |x| x.0.clone());
                    model.insert(c, (text, *v));
                    *counts.entry(if old.is_some() { "replacing adds" } else { "adds" }).or_default() += 1;
                    if got != old { return Some(("add-result", format!("add({p:?}) returned {got:?} instead of {old:?}"))) }
                }
                Op::Remove(p) => {
                    let got = real.remove(p.as_str());
                    let old = model.remove(&comps(p)).map(|x| x.1);
                    *counts.entry(if old.is_some() { "effective removes" } else { "void removes" }).or_default() += 1;
                    if got != old { return Some(("remove-result", format!("remove({p:?}) returned {got:?} instead of {old:?}"))) }
                }
                Op::Clear => {
                    real.clear();
                    model.clear();
                    *counts.entry("clears").or_default() += 1;
                }
                Op::Bump(p) => {
                    let c = comps(p);
                    let got = real.matches_mut(p.as_str()).map(|it| { *it.value_mut() += 1; it.path().to_path_buf() }).collect::<Vec<_>>();
                    let mut want = vec![];
                    for (k, v) in model.iter_mut() {
                        if k.len() <= c.len() && k[..] == c[..k.len()] { v.1 += 1; want.push(PathBuf::from(&v.0)) }
                    }
                    want.sort_by_key(|w| comps(w.to_str().unwrap()).len());
                    *counts.entry("matches_mut").or_default() += 1;
                    if got != want { return Some(("matches_mut", format!("matches_mut({p:?}) gave {got:?} instead of {want:?}"))) }
                }
                Op::Resolve(p) => {
                    let c = comps(p);
                    let mut want: Vec<(&Vec<String>, u64)> = model.iter().filter(|(k, _)| k.len() <= c.len() && k[..] == c[..k.len()]).map(|(k, v)| (k, v.1)).collect();
                    want.sort_by_key(|w| w.0.len());
                    max_nest = max_nest.max(want.len() as u64);
                    *counts.entry(match want.len() { 0 => "resolutions to the fallback", 1 => "resolutions with one candidate", _ => "resolutions with several candidates" }).or_default() += 1;
                    let got = real.resolve(p.as_str()).map(|it| (comps(it.path().to_str().unwrap()), *it.value()));
                    let best = want.last().map(|w| (w.0.clone(), w.1));
                    if got != best { return Some(("resolve", format!("resolve({p:?}) = {got:?} instead of {best:?}"))) }
                    let got = *real.resolve_or_fallback(p.as_str());
                    let best = want.last().map_or(u64::MAX, |w| w.1);
                    if got != best { return Some(("resolve_or_fallback", format!("resolve_or_fallback({p:?}) = {got} instead of {best}"))) }
                    let got: Vec<_> = real.matches(p.as_str()).map(|it| (comps(it.path().to_str().unwrap()), *it.value())).collect();
                    let want: Vec<_> = want.into_iter().map(|w| (w.0.clone(), w.1)).collect();
                    if got != want { return Some(("matches", format!("matches({p:?}) = {got:?} instead of {want:?}"))) }
                }
            }
            // content and order after every step
            if real.len() != model.len() || real.is_empty() != model.is_empty() || real.items().len() != model.len() {
                return Some(("len", format!("{} items instead of {}", real.len(), model.len())));
            }
            let mut items: Vec<(Vec<String>, u64)> = real.items().iter().map(|it| (comps(it.path().to_str().unwrap()), *it.value())).collect();
            if !real.items().windows(2).all(|w| w[0].path() < w[1].path()) {
                return Some(("order", format!("items are not in path order: {items:?}")));
            }
            items.sort();
            let want: Vec<(Vec<String>, u64)> = model.iter().map(|(k, v)| (k.clone(), v.1)).collect();
            if items != want { return Some(("items", format!("holds {items:?} instead of {want:?}"))) }
            if *real.fallback() != u64::MAX { return Some(("fallback", "fallback changed".into())) }
            None
        });
        match r {
            Ok(None) => {}
            Ok(Some((k, d))) => { result = Some((k.to_string(), format!("step {i} of {}: {d}", to_json(&h[..=i])))); break }
            Err(p) => { result = Some(("panic".into(), format!("step {i} of {} panicked: {p}", to_json(&h[..=i])))); break }
        }
    }
    if let Some(m) = m {
        for (k, v) in counts { m.add(k, v) }
        m.max("most candidates for one resolution", max_nest);
    }
    result
}

/// Greedy shrinking, for a short replay.
fn shrink(mut h: Vec<Op>, key: &str) -> Vec<Op> {
    let fails = |h: &[Op]| play(h, None).is_some_and(|(k, _)| k == key);
    let mut i = 0;
    while i < h.len() {
        let mut c = h.clone();
        c.remove(i);
        if fails(&c) { h = c } else { i += 1 }
    }
    h
}

fn path(r: &mut Rng) -> String {
    let names = ["a", "b", "a.R", "ab", "a-b", "A", "é", "a b", "aa", "b.c", ".a", "_", "a0", "pkg", "R"];
    let mut s = String::from(if r.chance(9, 10) { "/" } else { "" });
    let n = r.below(6);
    for i in 0..n {
        if i > 0 { s.push('/') }
        s.push_str(names[if r.chance(2, 3) { r.below(5) } else { r.below(names.len()) }]);
    }
    if n > 0 && r.chance(1, 12) { s.push('/') }
    s
}

pub fn main() {
    let mut m = Monitor::new("W01");
    if let Some(c) = m.replay.clone() {
        let h = from_json(&c);
        m.eval(0, true);
        if let Some((k, d)) = play(&h, None) { m.violation(k, d, c) }
        m.finish();
        return;
    }
    // all histories of two adds, an optional remove, and a query, over a small hostile path set
    let base = ["/", "/u", "/u/a", "/u/a/b", "/u/a.R", "/u/a-b", "/u/ab", "/u/b", "/u/A", ""];
    let mut hs: Vec<Vec<Op>> = vec![];
    for p in base { for q in base { for x in ["/u/a/b/f.R", "/u/a.R", "/u/a", "/u/ab/x", "/v", "/u/a-b/f", "rel/f.R"] {
        hs.push(vec![Op::Add(p.into(), 1), Op::Add(q.into(), 2), Op::Resolve(x.into()), Op::Remove(p.into()), Op::Resolve(x.into()), Op::Add(q.into(), 3), Op::Bump(x.into()), Op::Resolve(x.into())]);
        for s in base { hs.push(vec![Op::Add(p.into(), 1), Op::Add(q.into(), 2), Op::Add(s.into(), 3), Op::Resolve(x.into()), Op::Remove(q.into()), Op::Resolve(x.into())]) }
    } } }
    let mut r = m.rng("histories");
    for _ in 0..m.n(60000, 300_000) {
        // queries are drawn near the paths in use
        let pool: Vec<String> = (0..r.range(2, 14)).map(|_| path(&mut r)).collect();
        let n = r.len(25, 200);
        let h = (0..n).map(|i| match r.below(20) {
            0..=7 => Op::Add(r.pick(&pool).clone(), i as u64),
            8..=10 => Op::Remove(r.pick(&pool).clone()),
            11 if r.chance(1, 6) => Op::Clear,
            11 | 12 => Op::Bump(format!("{}/x", r.pick(&pool))),
            _ => {
                let b = r.pick(&pool).clone();
                Op::Resolve(match r.below(6) { 0 => b, 1 => format!("{b}.R"), 2 => format!("{b}/f.R"), 3 => format!("{b}/a/b/c.R"), 4 => path(&mut r), _ => format!("{}/{}", b, r.pick(&["a", "ab", "a-b/x", "b"])) })
            }
        }).collect();
        hs.push(h);
    }
    for h in hs {
        if !m.running() { break }
        let shape = to_json(&h).to_string();
        m.eval_str(&shape, h.len() > 1);
        if let Some((k, d)) = play(&h, Some(&mut m)) {
            let small = shrink(h, &k);
            let d = play(&small, None).map(|x| x.1).unwrap_or(d);
            m.violation(k, d, to_json(&small));
        }
        m.sample(|| json!({"history": shape.chars().take(300).collect::<String>()}));
    }
    for what in ["adds", "replacing adds", "effective removes", "void removes", "clears", "resolutions to the fallback", "resolutions with one candidate", "resolutions with several candidates"] {
        m.require(what, 100);
    }
    let _ = Path::new("");
    m.finish();
}
