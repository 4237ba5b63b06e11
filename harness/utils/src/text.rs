use vkit::Rng;

const CHARS: &[&str] = &["a", "b", "x", " ", "(", "é", "ß", "→", "日", "😀", "𝒳", "e\u{301}", "\t", "\u{200b}", "\u{feff}", "0"];

/// A text with `\n` line endings only.
pub fn text(rng: &mut Rng, lines: usize) -> String {
    let wide = rng.below(4);
    let mut out = String::new();
    for i in 0..rng.below(lines + 1) {
        if i > 0 {
            out.push('\n');
        }
        for _ in 0..rng.len(5, 30) {
            if rng.chance(wide, 4) {
                out.push_str(CHARS[rng.below(CHARS.len())]);
            } else {
                out.push((b'a' + rng.below(4) as u8) as char);
            }
        }
    }
    if rng.chance(2, 3) {
        out.push('\n');
    }
    out
}

/// Something to put in: short, maybe with lines.
pub fn piece(rng: &mut Rng) -> String {
    match rng.below(8) {
        0 => String::new(),
        1 => "\n".into(),
        2 => CHARS[rng.below(CHARS.len())].into(),
        3 => "\n\n".into(),
        4 => text(rng, 3),
        _ => {
            let n = rng.range(1, 4);
            (0..n).map(|_| if rng.chance(1, 5) { CHARS[rng.below(CHARS.len())] } else { "y" }).collect()
        }
    }
}

/// Character boundaries, 0 and the length included.
pub fn boundaries(text: &str) -> Vec<usize> {
    text.char_indices().map(|(i, _)| i).chain([text.len()]).collect()
}

/// A close relative of a text.
pub fn mutate(rng: &mut Rng, text: &str) -> String {
    let mut out = text.to_string();
    for _ in 0..rng.range(1, 5) {
        let b = boundaries(&out);
        let (mut i, mut j) = (*rng.pick(&b), *rng.pick(&b));
        if i > j {
            (i, j) = (j, i);
        }
        if rng.chance(2, 3) {
            j = (i + rng.below(4)).min(j);
            while !out.is_char_boundary(j) {
                j -= 1;
            }
        }
        let p = piece(rng);
        match rng.below(5) {
            0 => out.replace_range(i..j, ""),
            1 => out.insert_str(i, &p),
            // moved text
            2 => {
                let cut = out[i..j].to_string();
                out.replace_range(i..j, "");
                let b = boundaries(&out);
                out.insert_str(*rng.pick(&b), &cut);
            }
            _ => out.replace_range(i..j, &p),
        }
    }
    out
}

/// The same text with `\r\n` at the end of each line, or at the ends of some.
pub fn endings(rng: &mut Rng, text: &str, all: bool) -> String {
    let mut out = String::new();
    for c in text.chars() {
        if c == '\n' && (all || rng.bool()) {
            out.push('\r');
        }
        out.push(c);
    }
    out
}

pub fn lf(text: &str) -> String {
    text.replace("\r\n", "\n")
}
