//! Stand-in for `dissimilar`: a correct, small diff as equal, deleted and inserted chunks of the
//! two texts, a deletion always before the insertion that replaces it, and neighbouring chunks
//! never of the same kind.

#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
pub enum Chunk<'a> {
    Equal(&'a str),
    Delete(&'a str),
    Insert(&'a str),
}

pub fn diff<'a>(left: &'a str, right: &'a str) -> Vec<Chunk<'a>> {
    let prefix: usize = left.chars().zip(right.chars()).take_while(|(a, b)| a == b).map(|(a, _)| a.len_utf8()).sum();
    let (l, r) = (&left[prefix..], &right[prefix..]);
    let suffix: usize = l.chars().rev().zip(r.chars().rev()).take_while(|(a, b)| a == b).map(|(a, _)| a.len_utf8()).sum();
    let (l, r) = (&l[..l.len() - suffix], &r[..r.len() - suffix]);

    let mut out = vec![];
    let mut push = |chunk: Chunk<'a>| {
        let text = match chunk {
            Chunk::Equal(t) | Chunk::Delete(t) | Chunk::Insert(t) => t,
        };
        if !text.is_empty() {
            out.push(chunk);
        }
    };
    push(Chunk::Equal(&left[..prefix]));
    // byte offsets of characters
    let starts = |t: &str| -> Vec<usize> { t.char_indices().map(|(i, _)| i).chain([t.len()]).collect() };
    let (ls, rs) = (starts(l), starts(r));
    let (lc, rc): (Vec<char>, Vec<char>) = (l.chars().collect(), r.chars().collect());
    for op in similar::capture_diff_slices(similar::Algorithm::Myers, &lc, &rc) {
        let (tag, old, new) = op.as_tag_tuple();
        let old = &l[ls[old.start]..ls[old.end]];
        let new = &r[rs[new.start]..rs[new.end]];
        match tag {
            similar::DiffTag::Equal => push(Chunk::Equal(old)),
            similar::DiffTag::Delete => push(Chunk::Delete(old)),
            similar::DiffTag::Insert => push(Chunk::Insert(new)),
            similar::DiffTag::Replace => {
                push(Chunk::Delete(old));
                push(Chunk::Insert(new));
            }
        }
    }
    push(Chunk::Equal(&left[left.len() - suffix..]));
    merge(absorb(merge(out, left, right)), left, right)
}

/// Joins runs of changes between two equal chunks into at most one deletion and one insertion.
fn merge<'a>(chunks: Vec<Chunk<'a>>, left: &'a str, right: &'a str) -> Vec<Chunk<'a>> {
    let (mut lp, mut rp) = (0, 0);
    let (mut ls, mut rs) = (0, 0);
    let mut out = vec![];
    let flush = |out: &mut Vec<Chunk<'a>>, ls: usize, lp: usize, rs: usize, rp: usize| {
        if lp > ls {
            out.push(Chunk::Delete(&left[ls..lp]));
        }
        if rp > rs {
            out.push(Chunk::Insert(&right[rs..rp]));
        }
    };
    for chunk in chunks {
        match chunk {
            Chunk::Equal(t) => {
                flush(&mut out, ls, lp, rs, rp);
                match out.last_mut() {
                    Some(Chunk::Equal(last)) => *last = &left[lp - last.len()..lp + t.len()],
                    _ => out.push(chunk),
                }
                lp += t.len();
                rp += t.len();
                ls = lp;
                rs = rp;
            }
            Chunk::Delete(t) => lp += t.len(),
            Chunk::Insert(t) => rp += t.len(),
        }
    }
    flush(&mut out, ls, lp, rs, rp);
    out
}

/// As the original does: what is equal counts as changed where the changes on both sides of it
/// are at least as long.
fn absorb<'a>(chunks: Vec<Chunk<'a>>) -> Vec<Chunk<'a>> {
    let mut chunks = chunks;
    let changed = |part: &[Chunk]| {
        let (mut deleted, mut inserted) = (0, 0);
        for chunk in part {
            match chunk {
                Chunk::Delete(t) => deleted += t.chars().count(),
                Chunk::Insert(t) => inserted += t.chars().count(),
                Chunk::Equal(_) => unreachable!(),
            }
        }
        deleted.max(inserted)
    };
    loop {
        let found = (1..chunks.len().saturating_sub(1)).find(|&i| {
            let Chunk::Equal(t) = chunks[i] else { return false };
            let is_equal = |c: &Chunk| matches!(c, Chunk::Equal(_));
            let before = chunks[..i].iter().rposition(is_equal).map_or(0, |k| k + 1);
            let after = chunks[i + 1..].iter().position(is_equal).map_or(chunks.len(), |k| i + 1 + k);
            let n = t.chars().count();
            n <= changed(&chunks[before..i]) && n <= changed(&chunks[i + 1..after])
        });
        let Some(i) = found else { return chunks };
        let Chunk::Equal(t) = chunks[i] else { unreachable!() };
        chunks.splice(i..=i, [Chunk::Delete(t), Chunk::Insert(t)]);
    }
}
