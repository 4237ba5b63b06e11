//! U01, U02, U03: edits, positions and synchronization, against an editor that goes by the protocol.

use aether_lsp_utils::diff::diff;
use aether_lsp_utils::proto::{from_proto, to_proto, PositionEncoding};
use aether_lsp_utils::text_edit::{Indel, TextEdit};
use biome_line_index::{LineIndex, WideEncoding};
use biome_text_size::{TextRange, TextSize};
use lsp::documents::Document;
use serde_json::json;
use settings::LineEnding;
use tower_lsp::lsp_types::{self, Position, Range, TextDocumentContentChangeEvent};
use utils::buffer::{self, Units};
use utils::text;
use vkit::{guard, Monitor, Rng};

const ENCODINGS: [(PositionEncoding, Units); 3] = [
    (PositionEncoding::Utf8, Units::Utf8),
    (PositionEncoding::Wide(WideEncoding::Utf16), Units::Utf16),
    (PositionEncoding::Wide(WideEncoding::Utf32), Units::Utf32),
];

fn range(i: usize, j: usize) -> TextRange {
    TextRange::new(TextSize::from(i as u32), TextSize::from(j as u32))
}

/// What went wrong, by key, and how.
type Found = Result<(), (String, String)>;

fn fail<T>(key: &str, detail: String) -> Result<T, (String, String)> {
    Err((key.into(), detail))
}

fn run<T>(key: &str, detail: impl Fn() -> String, f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    guard(f).map_err(|p| (format!("{key}:panic"), format!("{}: {p}", detail())))
}

// ---------------------------------------------------------------- U01

/// Disjoint replacements of a text, in order; several insertions at one place are possible.
fn indels(rng: &mut Rng, source: &str, most: usize) -> Vec<(usize, usize, String)> {
    let b = text::boundaries(source);
    let mut out: Vec<(usize, usize, String)> = Vec::new();
    let mut at = 0;
    for _ in 0..rng.below(most + 1) {
        let i = (at + rng.len(2, 6)).min(b.len() - 1);
        let j = (i + if rng.chance(2, 5) { 0 } else { rng.len(3, 9) }).min(b.len() - 1);
        let new = if rng.chance(1, 4) && j > i { String::new() } else { text::piece(rng) };
        out.push((b[i], b[j], new));
        at = j;
        if at + 1 == b.len() && rng.bool() {
            break;
        }
    }
    out
}

fn applied(source: &str, indels: &[(usize, usize, String)]) -> String {
    let (mut out, mut at) = (String::new(), 0);
    for (i, j, new) in indels {
        out.push_str(&source[at..*i]);
        out.push_str(new);
        at = *j;
    }
    out + &source[at..]
}

/// Sorted, disjoint, inside the text and at character boundaries.
fn well_formed(edit: &TextEdit, source: &str) -> Result<(), String> {
    let mut end = 0;
    for (n, d) in edit.iter().enumerate() {
        let (i, j): (usize, usize) = (d.delete.start().into(), d.delete.end().into());
        if n > 0 && i < end {
            return Err(format!("not sorted and disjoint: {edit:?}"));
        }
        if j > source.len() || !source.is_char_boundary(i) || !source.is_char_boundary(j) {
            return Err(format!("outside the text or inside a character: {edit:?}"));
        }
        end = j;
    }
    Ok(())
}

fn u01_protocol(m: &mut Monitor, rng: &mut Rng, source: &str, edit: &TextEdit, target: &str, doc: bool) -> Found {
    let index = LineIndex::new(source);
    for (enc, units) in ENCODINGS {
        for (ending, all) in [(LineEnding::Lf, false), (LineEnding::Crlf, true), (LineEnding::Crlf, false)] {
            // what the editor shows, which the server knows with `\n` only
            let shown = match ending {
                LineEnding::Lf => source.to_string(),
                LineEnding::Crlf => text::endings(rng, source, all),
            };
            let what = || format!("from {source:?}\nto   {target:?}\nby {edit:?}\nin {units:?}, {ending:?}");
            let edits = run("to-proto", what, || to_proto::text_edit_vec(edit.clone(), &index, enc, ending))?;
            let mut edits = edits.or_else(|e| fail("to-proto:error", format!("{}: {e}", what())))?;
            // a client may process them in any order as long as it keeps that of insertions
            if rng.bool() && edits.windows(2).all(|w| w[0].range.start != w[1].range.start) {
                rng.shuffle(&mut edits);
            }
            let expected = match ending {
                LineEnding::Lf => target.to_string(),
                LineEnding::Crlf => target.replace('\n', "\r\n"),
            };
            m.count("edit lists applied by an editor");
            m.add("edits applied by an editor", edits.len() as u64);
            match buffer::apply_edits(&shown, &edits, units) {
                Err(e) => return fail("to-proto:edits", format!("{}: {e}\nedits {edits:?}", what())),
                Ok(got) if (all || ending == LineEnding::Lf) && got != expected => {
                    return fail("to-proto:result", format!("{}\nedits {edits:?}\nthe editor has {got:?}", what()));
                }
                Ok(got) if text::lf(&got) != target => {
                    return fail("to-proto:result", format!("{}\nedits {edits:?}\nthe editor has {got:?}", what()));
                }
                _ => {}
            }
            if doc {
                let changes = run("doc-edits", what, || to_proto::doc_edit_vec(edit.clone(), &index, enc, ending))?;
                let changes = changes.or_else(|e| fail("doc-edits:error", format!("{}: {e}", what())))?;
                m.count("change lists applied by an editor");
                match replay_changes(&shown, &changes, units) {
                    Ok(got) if text::lf(&got) == target => {}
                    other => {
                        return fail("doc-edits:result", format!("{}\nchanges {changes:?}, one after the other, give {other:?}", what()));
                    }
                }
                // and back
                let mut contents = source.to_string();
                let mut index = index.clone();
                run("apply-edits", what, || from_proto::apply_text_edits(&mut contents, edits.clone(), &mut index, enc))?;
                if contents != target {
                    return fail("apply-edits:result", format!("{}\nedits {edits:?}\napplied by apply_text_edits() {contents:?}", what()));
                }
            }
        }
    }
    Ok(())
}

/// Each change refers to what those before left.
fn replay_changes(source: &str, changes: &[TextDocumentContentChangeEvent], units: Units) -> Result<String, String> {
    let mut out = source.to_string();
    for c in changes {
        match c.range {
            None => out = c.text.clone(),
            Some(r) => {
                let (i, j) = buffer::span(&out, r, units)?;
                out.replace_range(i..j, &c.text);
            }
        }
    }
    Ok(out)
}

fn u01(m: &mut Monitor, rng: &mut Rng) -> Found {
    let source = text::text(rng, 6);
    match rng.below(7) {
        // as another server might send them
        6 => {
            // (many insertions at one place, too)
            let most = if rng.chance(1, 3) { 60 } else { 8 };
            let mut list = indels(rng, &source, most);
            if most > 8 && rng.bool() {
                let k = rng.below(list.len() + 1);
                let at = if k < list.len() { list[k].0 } else { source.len() };
                for n in 0..rng.range(10, 40) { list.insert(k, (at, at, format!("<{n}>"))) }
            }
            // what shares its place: any number of insertions before at most one replacement
            list.dedup_by(|b, a| a.0 == b.0 && a.0 < a.1);
            let (enc, units) = *rng.pick(&ENCODINGS);
            let mut edits: Vec<lsp_types::TextEdit> = list
                .iter()
                .map(|(i, j, new)| lsp_types::TextEdit {
                    range: Range::new(buffer::position(&source, *i, units), buffer::position(&source, *j, units)),
                    new_text: new.clone(),
                })
                .collect();
            // in any order that keeps the one of those
            for _ in 0..rng.below(12) {
                if edits.len() > 1 {
                    let k = rng.below(edits.len() - 1);
                    if edits[k].range.start != edits[k + 1].range.start {
                        edits.swap(k, k + 1);
                    }
                }
            }
            m.eval_str(&format!("{source:?} {edits:?}"), edits.len() > 1);
            m.count("edit lists as sent by another server");
            let what = || format!("in {units:?}, on {source:?}\nthe edits {edits:?}");
            let expected = buffer::apply_edits(&source, &edits, units).unwrap();
            let (mut contents, mut index) = (source.clone(), LineIndex::new(&source));
            run("apply-edits", what, || from_proto::apply_text_edits(&mut contents, edits.clone(), &mut index, enc))?;
            if contents != expected {
                return fail("apply-edits:result", format!("{}\ngive {contents:?}\nnot  {expected:?}", what()));
            }
        }
        // from one text to another
        0..=2 => {
            let target = match rng.below(8) {
                0 => text::text(rng, 6),
                1 => source.clone(),
                2 => String::new(),
                _ => text::mutate(rng, &source),
            };
            m.eval_str(&format!("{source:?} {target:?}"), source != target);
            m.count("texts compared");
            let what = || format!("from {source:?}\nto   {target:?}");
            let edit = run("diff", what, || diff(&source, &target))?;
            m.max("edits of one comparison, at most", edit.len() as u64);
            well_formed(&edit, &source).or_else(|e| fail("diff:edits", format!("{}: {e}", what())))?;
            if edit.is_empty() != (source == target) {
                return fail("diff:empty", format!("{}: {edit:?}", what()));
            }
            let mut got = source.clone();
            run("apply", what, || edit.apply(&mut got))?;
            if got != target {
                return fail("apply:result", format!("{}\nby {edit:?}\ngives {got:?}", what()));
            }
            u01_protocol(m, rng, &source, &edit, &target, true)?;
            // as the server answers
            let index = LineIndex::new(&source);
            let (enc, units) = *rng.pick(&ENCODINGS);
            let edits = run("replace-all", what, || to_proto::replace_all_edit(&source, &target, &index, enc, LineEnding::Lf))?;
            match edits.map_err(|e| e.to_string()).and_then(|e| buffer::apply_edits(&source, &e, units)) {
                Ok(got) if got == target => {}
                other => return fail("replace-all:result", format!("{}\ngives {other:?}", what())),
            }
        }
        // built by hand
        3..=4 => {
            let most = if rng.chance(1, 6) { 40 } else { 6 };
            let list = indels(rng, &source, most);
            let target = applied(&source, &list);
            m.eval_str(&format!("{source:?} {list:?}"), !list.is_empty());
            m.count("edits built");
            let what = || format!("on {source:?}\nthe edits {list:?}");
            // in any order, insertions at one place keep theirs
            let mut order: Vec<usize> = (0..list.len()).collect();
            rng.shuffle(&mut order);
            order.sort_by_key(|&n| if list[n].0 == list[n].1 { list[n].0 } else { 0 });
            if rng.bool() {
                order.sort();
            }
            // those that share their place keep the order of the list, whatever they are
            for k in 0..order.len() {
                for l in k + 1..order.len() {
                    if order[l] < order[k] && list[order[l]].1 >= list[order[k]].0 {
                        order.sort();
                    }
                }
            }
            let edit = run("builder", what, || {
                let mut b = TextEdit::builder();
                for &n in &order {
                    let (i, j, new) = &list[n];
                    if i == j {
                        b.insert(TextSize::from(*i as u32), new.clone());
                    } else if new.is_empty() {
                        b.delete(range(*i, *j));
                    } else {
                        b.replace(range(*i, *j), new.clone());
                    }
                }
                b.finish()
            })?;
            well_formed(&edit, &source).or_else(|e| fail("builder:edits", format!("{}: {e}", what())))?;
            m.max("edits built at once, at most", edit.len() as u64);
            let mut got = source.clone();
            run("apply", what, || edit.apply(&mut got))?;
            if got != target {
                return fail("apply:result", format!("{}\nas {edit:?}\ngives {got:?}\nnot   {target:?}", what()));
            }
            u01_protocol(m, rng, &source, &edit, &target, true)?;
            // where a place of the text is afterwards
            for b in text::boundaries(&source) {
                let got = run("apply-to-offset", what, || edit.apply_to_offset(TextSize::from(b as u32)))?;
                let inside = edit.iter().any(|d| usize::from(d.delete.start()) < b && b < usize::from(d.delete.end()));
                let before: Vec<_> = edit
                    .iter()
                    .filter(|d| usize::from(d.delete.start()) < b)
                    .map(|d| (usize::from(d.delete.start()), usize::from(d.delete.end()), d.insert.clone()))
                    .collect();
                let expected = if inside { None } else { Some(applied(&source[..b], &before).len()) };
                m.count("places followed");
                if got.map(usize::from) != expected {
                    return fail("apply-to-offset", format!("{}\nputs {b} at {got:?}, not {expected:?}", what()));
                }
            }
        }
        // united
        _ => {
            let list = indels(rng, &source, 8);
            let mut left = TextEdit::builder();
            let mut right = TextEdit::builder();
            let mut parts: [Vec<(usize, usize, String)>; 2] = [vec![], vec![]];
            let mut at = 0;
            for (i, j, new) in &list {
                // each at a place of its own
                if *i < at || (*i == at && at > 0) {
                    continue;
                }
                at = *j + 1;
                let which = rng.below(3);
                let d = if i == j { Indel::insert(TextSize::from(*i as u32), new.clone()) } else { Indel::replace(range(*i, *j), new.clone()) };
                for (n, (b, p)) in [(&mut left, 0), (&mut right, 1)].into_iter().enumerate() {
                    // in both: done once
                    // (equal insertions are two all the same)
                    if which == n || which == 2 {
                        b.replace(d.delete, d.insert.clone());
                        parts[p].push((*i, *j, new.clone()));
                    }
                }
            }
            let (mut left, right) = (left.finish(), right.finish());
            let mut all: Vec<_> = parts.concat();
            all.sort();
            all.dedup_by(|a, b| a == b && a.0 < a.1);
            let target = applied(&source, &all);
            m.eval_str(&format!("{source:?} {parts:?}"), !parts[0].is_empty() && !parts[1].is_empty());
            let what = || format!("on {source:?}\nthe edits {:?} and {:?}", parts[0], parts[1]);
            m.count("edits united");
            if parts[0].iter().any(|d| d.0 == d.1 && parts[1].contains(d)) { m.count("equal insertions united") }
            let clash = rng.chance(1, 4) && source.is_ascii() && left.iter().any(|d| d.delete.len() > TextSize::from(1));
            if clash {
                let d = left.iter().find(|d| d.delete.len() > TextSize::from(1)).unwrap().clone();
                let (i, j) = (usize::from(d.delete.start()), usize::from(d.delete.end()));
                let other = TextEdit::replace(range(i + 1, j), "clash".into());
                let before = left.iter().cloned().collect::<Vec<_>>();
                m.count("overlapping edits united");
                let r = run("union", what, || left.union(other))?;
                if r.is_ok() {
                    return fail("union:overlap", format!("{}\nunited with an overlapping edit", what()));
                }
                if before != left.iter().cloned().collect::<Vec<_>>() {
                    return fail("union:changed", format!("{}\na refused union changed the edit", what()));
                }
            }
            let r = run("union", what, || left.union(right))?;
            if r.is_err() {
                return fail("union:refused", what());
            }
            let mut got = source.clone();
            run("union:apply", what, || left.apply(&mut got))?;
            if got != target {
                return fail("union:result", format!("{}\ngive {got:?}\nnot  {target:?}", what()));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- U02

fn u02(m: &mut Monitor, rng: &mut Rng) -> Found {
    let lines = if rng.chance(1, 10) { 40 } else { 5 };
    let source = text::text(rng, lines);
    m.eval_str(&format!("{source:?}"), !source.is_empty());
    let index = LineIndex::new(&source);
    let bounds = text::boundaries(&source);
    for (enc, units) in ENCODINGS {
        for &b in &bounds {
            let expected = buffer::position(&source, b, units);
            let what = || format!("offset {b} of {source:?} in {units:?}");
            m.count("offsets converted");
            let got = run("position", what, || to_proto::position_from_offset(TextSize::from(b as u32), &index, enc))?;
            match got {
                Ok(got) if got == expected => {}
                other => return fail("position", format!("{} is {expected:?}, not {other:?}", what())),
            }
            let back = run("offset", what, || from_proto::offset_from_position(expected, &index, enc))?;
            match back {
                Ok(back) if usize::from(back) == b => {}
                other => return fail("offset", format!("{expected:?}, {}, gives {other:?}", what())),
            }
        }
        for _ in 0..4 {
            let (i, j) = (*rng.pick(&bounds), *rng.pick(&bounds));
            let (i, j) = (i.min(j), i.max(j));
            let expected = Range::new(buffer::position(&source, i, units), buffer::position(&source, j, units));
            let what = || format!("range {i}..{j} of {source:?} in {units:?}");
            m.count("ranges converted");
            match run("range", what, || to_proto::range(range(i, j), &index, enc))? {
                Ok(got) if got == expected => {}
                other => return fail("range", format!("{} is {expected:?}, not {other:?}", what())),
            }
            match run("text-range", what, || from_proto::text_range(expected, &index, enc))? {
                Ok(got) if got == range(i, j) => {}
                other => return fail("text-range", format!("{expected:?}, {}, gives {other:?}", what())),
            }
        }
        let lines = source.matches('\n').count() as u32 + 1;
        for line in [lines, lines + 1, lines + 1000, u32::MAX] {
            let p = Position::new(line, rng.below(3) as u32);
            m.count("positions on lines that do not exist");
            let what = || format!("{p:?} of {source:?} in {units:?}");
            match run("outside", what, || from_proto::offset_from_position(p, &index, enc))? {
                Err(_) => {}
                Ok(got) => return fail("outside", format!("{} gives {got:?}", what())),
            }
            let r = Range::new(Position::new(0, 0), p);
            if let Ok(got) = run("outside", what, || from_proto::text_range(r, &index, enc))? {
                return fail("outside", format!("{} as the end of a range gives {got:?}", what()));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- U03

fn u03(m: &mut Monitor, rng: &mut Rng) -> Found {
    let (enc, units) = *rng.pick(&ENCODINGS);
    // the line ending of the editor's buffer, of the text put in, or whatever comes
    let style = rng.below(4);
    let dress = |rng: &mut Rng, t: String| match style {
        0 => t,
        1 => text::endings(rng, &t, true),
        _ => text::endings(rng, &t, false),
    };
    let code = ["f(1)", "x<-1", "# é", "\"日\"", "if(a) b", "{1;2}", "x+\ny", "f(", "😀", ""];
    let start = if rng.bool() { text::text(rng, 8) } else { (0..rng.below(7)).map(|_| format!("{}\n", rng.word(&code))).collect() };
    let mut shown = dress(rng, start);
    let mut history = vec![format!("open {shown:?}")];
    let mut version = rng.below(100) as i32 - 50;
    let known = rng.chance(9, 10);
    let mut doc = run("open", || format!("{history:?}"), || Document::new(shown.clone(), known.then_some(version), enc))?;
    let steps = if rng.chance(1, 8) { 30 } else { rng.range(1, 6) };
    let mut several = false;
    for step in 0..=steps {
        if step > 0 {
            let mut changes = Vec::new();
            let n = match rng.below(10) {
                0..=5 => 1,
                6..=8 => rng.range(2, 5),
                _ => 0,
            };
            // one by one, or the edits of one command: all made in the text before, last one first
            if n > 1 && rng.chance(1, 2) {
                let b = places(&shown);
                let mut spots: Vec<(usize, usize)> = Vec::new();
                let mut at = 0;
                for _ in 0..n {
                    let i = (at + rng.len(4, 12)).min(b.len() - 1);
                    let j = (i + rng.len(2, 8)).min(b.len() - 1);
                    if spots.last().is_none_or(|s: &(usize, usize)| s.1 < b[i]) {
                        spots.push((b[i], b[j]));
                        at = j + 1;
                    }
                }
                for (i, j) in spots.into_iter().rev() {
                    let p = text::piece(rng);
                    let new = dress(rng, p);
                    changes.push(change(&shown, i, j, &new, units));
                    splice(&mut shown, i, j, &new);
                }
                m.count("batches from the end to the start");
            } else {
                for _ in 0..n {
                    if rng.chance(1, 12) {
                        let t = text::text(rng, 5);
                        shown = dress(rng, t);
                        changes.push(TextDocumentContentChangeEvent { range: None, range_length: None, text: shown.clone() });
                        m.count("texts replaced as a whole");
                        continue;
                    }
                    let b = places(&shown);
                    let (mut i, mut j) = (rng.below(b.len()), rng.below(b.len()));
                    if i > j {
                        (i, j) = (j, i);
                    }
                    if rng.chance(3, 4) {
                        j = j.min(i + rng.below(4));
                    }
                    let p = text::piece(rng);
                    let new = dress(rng, p);
                    changes.push(change(&shown, b[i], b[j], &new, units));
                    splice(&mut shown, b[i], b[j], &new);
                }
            }
            several |= changes.len() > 1;
            m.add("changes", changes.len() as u64);
            // not necessarily consecutive, never smaller
            version += [1, 1, 1, 2, 7][rng.below(5)];
            history.push(format!("{changes:?}"));
            let what = || format!("in {units:?}:\n{}", history.join("\n"));
            run("change", what, || doc.on_did_change(changes, version))?;
            if doc.version != Some(version) {
                return fail("version", format!("{}\nversion {:?}, not {version}", what(), doc.version));
            }
        }
        let what = || format!("in {units:?}:\n{}", history.join("\n"));
        m.count("states compared");
        let expected = text::lf(&shown);
        if doc.contents != expected {
            return fail("contents", format!("{}\nthe editor has {shown:?}\nthe server     {:?}", what(), doc.contents));
        }
        for b in text::boundaries(&expected) {
            let p = buffer::position(&expected, b, units);
            let got = run("index", what, || {
                (to_proto::position_from_offset(TextSize::from(b as u32), &doc.line_index, enc), from_proto::offset_from_position(p, &doc.line_index, enc))
            })?;
            match got {
                (Ok(q), Ok(c)) if q == p && usize::from(c) == b => {}
                other => return fail("index", format!("{}\nof {expected:?}: offset {b}, {p:?}, gives {other:?}", what())),
            }
        }
        // what it formats is what it shows
        let fresh = run("parse", what, || air_parse(&expected))?;
        let held = run("parse", what, || (doc.parse.has_error(), doc.parse.syntax().to_string()))?;
        if held.0 != fresh.0 || (!held.0 && held.1 != expected) {
            return fail("parse", format!("{}\nof {expected:?}: errors {}, not {}; tree of {:?}", what(), held.0, fresh.0, held.1));
        }
    }
    m.eval_str(&history.join("\n"), several);
    Ok(())
}

fn air_parse(source: &str) -> (bool, String) {
    let d = Document::new(source.into(), None, PositionEncoding::Utf8);
    (d.parse.has_error(), d.parse.syntax().to_string())
}

/// Where an editor's cursor can be: not between the halves of `\r\n`.
fn places(text: &str) -> Vec<usize> {
    text::boundaries(text).into_iter().filter(|&i| !(i > 0 && text.as_bytes()[i - 1] == b'\r' && text.as_bytes().get(i) == Some(&b'\n'))).collect()
}

fn change(shown: &str, i: usize, j: usize, new: &str, units: Units) -> TextDocumentContentChangeEvent {
    TextDocumentContentChangeEvent {
        range: Some(lsp_types::Range::new(buffer::position(shown, i, units), buffer::position(shown, j, units))),
        range_length: None,
        text: new.into(),
    }
}

fn splice(shown: &mut String, i: usize, j: usize, new: &str) {
    shown.replace_range(i..j, new);
}

fn main() {
    let property = std::env::var("VK_PROP").unwrap_or_else(|_| "U01".into());
    let mut m = Monitor::new(&property);
    let step = match property.as_str() {
        "U01" => u01,
        "U02" => u02,
        _ => u03,
    };
    if let Some(case) = m.replay.clone() {
        let seed = case["seed"].as_u64().unwrap_or(0);
        if let Err((key, detail)) = step(&mut m, &mut Rng::new(seed)) {
            m.violation(key, detail, case);
        }
        m.finish();
        return;
    }
    let mut seeds = m.rng("seeds");
    while m.running() {
        let seed = seeds.next() >> 1;
        if let Err((key, detail)) = step(&mut m, &mut Rng::new(seed)) {
            m.violation(key, detail, json!({ "seed": seed }));
        }
    }
    match property.as_str() {
        "U01" => {
            m.require("edit lists applied by an editor", 2000);
            m.require("change lists applied by an editor", 2000);
            m.require("places followed", 2000);
            m.require("edits united", 200);
        }
        "U02" => {
            m.require("offsets converted", 10000);
            m.require("positions on lines that do not exist", 1000);
        }
        _ => {
            m.require("states compared", 1000);
            m.require("batches from the end to the start", 100);
            m.require("texts replaced as a whole", 100);
        }
    }
    m.finish();
}
