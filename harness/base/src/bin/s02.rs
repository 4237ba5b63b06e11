//! S02: Skip/Table/SortedStrings against a plain set, over histories of construction and merging.
use serde_json::{Value, json};
use settings::{Skip, SortedStrings, Table};
use std::collections::BTreeSet;
use vkit::*;

#[derive(serde::Deserialize, Debug)]
struct Options { skip: Skip, table: Table }

fn strs(v: &Value) -> Vec<String> {
    v.as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(String::from)).collect()).unwrap_or_default()
}

fn size_class(n: usize) -> &'static str {
    match n { 0 => "0", 1 => "1", 2..=3 => "2-3", 4..=20 => "4-20", 21..=64 => "21-64", _ => "65+" }
}

/// One list: build by every route, query all members and near misses.
fn list(m: &mut Monitor, names: &[String], queries: &[String], r: &mut Rng) {
    let set: BTreeSet<&str> = names.iter().map(|s| s.as_str()).collect();
    let class = size_class(names.len());
    let case = || json!({"op": "list", "names": names, "queries": queries});
    m.eval_str(&names.join("\u{1}"), !names.is_empty());
    let json_text = serde_json::to_string(names).unwrap();
    let toml_text = {
        let mut t = toml::Table::new();
        for k in ["skip", "table"] {
            t.insert(k.into(), toml::Value::Array(names.iter().map(|s| toml::Value::String(s.clone())).collect()));
        }
        toml::to_string(&t).unwrap()
    };
    let built = guard(|| {
        let sorted = SortedStrings::new(names.to_vec());
        let table = Table::new(names.to_vec());
        let skip_json: Skip = serde_json::from_str(&json_text).map_err(|e| e.to_string())?;
        let table_json: Table = serde_json::from_str(&json_text).map_err(|e| e.to_string())?;
        let o: Options = toml::from_str(&toml_text).map_err(|e| e.to_string())?;
        Ok::<_, String>((sorted, table, skip_json, table_json, o))
    });
    let (sorted, table, skip_json, table_json, o) = match built {
        Err(p) => return m.violation(format!("build-panic:{class}"), format!("building from {} names panicked: {p}", names.len()), case()),
        Ok(Err(e)) => return m.violation(format!("build-error:{class}"), format!("building from {} names failed: {e}", names.len()), case()),
        Ok(Ok(x)) => x,
    };
    if table != table_json || table != o.table || skip_json != o.skip {
        m.violation(format!("routes-differ:{class}"), "the same names give different lists by different routes", case());
    }
    // queries
    for q in names.iter().chain(queries) {
        let want = set.contains(q.as_str());
        m.count(if want { "member queries" } else { "non-member queries" });
        let got = guard(|| [
            ("SortedStrings", sorted.contains(q)),
            ("Table", table.contains(q)),
            ("Skip(json)", skip_json.contains(q)),
            ("Table(toml)", o.table.contains(q)),
            ("Skip(toml)", o.skip.contains(q)),
        ]);
        match got {
            Err(p) => m.violation(format!("contains-panic:{class}"), format!("contains({}) panicked: {p}", show(q)), case()),
            Ok(got) => for (what, got) in got {
                if got != want {
                    m.violation(format!("{what}:contains-{want}:{class}"), format!("{what} of {names:?} contains({}) = {got}", show(q)), case());
                }
            }
        }
    }
    // content: the same set, sorted, nothing dropped
    for (what, slice) in [("SortedStrings", sorted.as_slice()), ("Table", table.as_slice())] {
        let got: BTreeSet<&str> = slice.iter().map(|s| s.as_str()).collect();
        if got != set {
            m.violation(format!("{what}:content:{class}"), format!("{what} of {names:?} holds {slice:?}"), case());
        }
        if !slice.is_sorted() {
            m.violation(format!("{what}:order:{class}"), format!("{what} of {names:?} holds {slice:?}"), case());
        }
    }
    // display: sorted, comma separated. Duplicates may be kept or dropped.
    let mut all = names.to_vec();
    all.sort();
    let with_dups = all.join(", ");
    all.dedup();
    let without = all.join(", ");
    for (what, text) in [("SortedStrings", sorted.to_string()), ("Table", table.to_string()), ("Skip", skip_json.to_string())] {
        if text != with_dups && text != without {
            m.violation(format!("{what}:display:{class}"), format!("{what} of {names:?} displays {text:?}"), case());
        }
    }
    // permutations are equal
    let mut perm = names.to_vec();
    r.shuffle(&mut perm);
    let (p1, p2) = (SortedStrings::new(perm.clone()), Table::new(perm.clone()));
    if p1 != sorted || p2 != table || p1.to_string() != sorted.to_string() {
        m.violation(format!("permutation:{class}"), format!("{names:?} and {perm:?} give different lists"), case());
    }
    m.count("lists");
    m.max("longest list", names.len() as u64);
    m.sample(|| json!({"names": names.iter().take(6).collect::<Vec<_>>(), "size": names.len(), "display": show(&without)}));
}

/// A history of merges, with every intermediate table still intact afterwards.
fn merges(m: &mut Monitor, lists: &[Vec<String>]) {
    let case = || json!({"op": "merges", "lists": lists});
    let mut acc = Table::default();
    let mut set: BTreeSet<String> = BTreeSet::new();
    m.eval_str(&format!("{lists:?}"), lists.len() > 1);
    for (i, l) in lists.iter().enumerate() {
        let t = Table::new(l.clone());
        let before_acc = acc.as_slice().to_vec();
        let merged = match guard(|| (acc.merge(&t), t.merge(&acc))) {
            Err(p) => return m.violation("merge-panic", format!("merge panicked: {p}"), case()),
            Ok((a, b)) => {
                if a.as_slice().iter().collect::<BTreeSet<_>>() != b.as_slice().iter().collect::<BTreeSet<_>>() {
                    m.violation("merge-commutes", format!("merge of {before_acc:?} and {l:?} depends on the order"), case());
                }
                if i % 2 == 0 { a } else { b }
            }
        };
        set.extend(l.iter().cloned());
        let got: BTreeSet<String> = merged.as_slice().iter().cloned().collect();
        if got != set {
            let class = if got.is_subset(&set) { "lost" } else { "added" };
            m.violation(format!("merge:{class}"), format!("merging {before_acc:?} with {l:?} gave {:?}", merged.as_slice()), case());
        }
        for n in &set {
            if !merged.contains(n) {
                m.violation("merge:contains", format!("merge of {before_acc:?} and {l:?} does not contain {n:?}"), case());
            }
        }
        if before_acc != acc.as_slice() || t.as_slice().iter().collect::<BTreeSet<_>>() != l.iter().collect::<BTreeSet<_>>() {
            m.violation("merge:operand", "merge changed an operand", case());
        }
        acc = merged;
        m.count("merges");
    }
    if acc.as_slice().iter().collect::<BTreeSet<_>>() != Table::new(set.iter().cloned().collect()).as_slice().iter().collect::<BTreeSet<_>>() {
        m.violation("merge:final", "final table differs from the union", case());
    }
}

fn name(r: &mut Rng) -> String {
    let pool = ["a", "b", "A", "B", "aa", "ab", "a.b", "a_b", "Z", "z", "_", "", " ", "é", "É", "日", "tribble", "fcase", "Tribble", "tribble ", "tribbl", "tribbles", "\u{1F600}", "e\u{301}", "10", "9", "a-b", "~", "{"];
    match r.below(4) {
        0 | 1 => pool[r.below(pool.len())].to_string(),
        2 => { let n = r.below(4); (0..n).map(|_| *r.pick(&['a', 'b', 'A', 'B', '.', '_'])).collect() }
        _ => { let n = r.len(6, 200); (0..n).map(|_| *r.pick(&['a', 'z', 'A', 'Z', '0', 'é', 'ß', '\u{10000}', '\u{ffff}'])).collect() }
    }
}
fn near(r: &mut Rng, s: &str) -> String {
    match r.below(6) {
        0 => s.to_uppercase(),
        1 => s.to_lowercase(),
        2 => format!("{s}a"),
        3 => { let mut c: Vec<char> = s.chars().collect(); c.pop(); c.into_iter().collect() }
        4 => format!(" {s}"),
        _ => s.chars().rev().collect(),
    }
}

fn main() {
    let mut m = Monitor::new("S02");
    let mut r = m.rng("lists");
    if let Some(c) = m.replay.clone() {
        if c["op"] == "merges" {
            let l: Vec<_> = c["lists"].as_array().cloned().unwrap_or_default().iter().map(strs).collect();
            merges(&mut m, &l);
        } else {
            list(&mut m, &strs(&c["names"]), &strs(&c["queries"]), &mut r);
        }
        m.finish();
        return;
    }
    // all lists of length <= 4 over a hostile alphabet
    let alpha = ["", "a", "A", "aa", "b", "é"];
    let queries: Vec<String> = alpha.iter().map(|s| s.to_string()).chain(["c".into(), "É".into()]).collect();
    for len in 0..=m.n(4, 5) {
        for code in 0..alpha.len().pow(len as u32) {
            let mut c = code;
            let names: Vec<String> = (0..len).map(|_| { let s = alpha[c % alpha.len()].to_string(); c /= alpha.len(); s }).collect();
            list(&mut m, &names, &queries, &mut r);
        }
    }
    for i in 0..m.n(15000, 60_000) {
        if !m.running() { break }
        let n = if i % 40 == 0 { r.range(50, 3000) } else { r.len(12, 120) };
        let names: Vec<String> = (0..n).map(|_| name(&mut r)).collect();
        let mut q: Vec<String> = (0..10).map(|_| name(&mut r)).collect();
        for _ in 0..10.min(n) { let i = r.below(n); q.push(near(&mut r, &names[i])) }
        list(&mut m, &names, &q, &mut r);
    }
    for _ in 0..m.n(10000, 40_000) {
        if !m.running() { break }
        let k = r.len(5, 20);
        let lists: Vec<Vec<String>> = (0..k).map(|_| { let n = r.len(5, 60); (0..n).map(|_| name(&mut r)).collect() }).collect();
        merges(&mut m, &lists);
    }
    m.require("lists", 1000);
    m.require("merges", 500);
    m.require("member queries", 1000);
    m.require("non-member queries", 1000);
    m.finish();
}
