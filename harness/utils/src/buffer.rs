//! What an editor does, by the protocol's words: lines end after `\n`, `\r\n` or `\r`, and a
//! position is a line and a number of code units of the negotiated encoding.

use tower_lsp::lsp_types::{Position, Range, TextEdit};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Units {
    Utf8,
    Utf16,
    Utf32,
}

impl Units {
    pub fn of(self, c: char) -> u32 {
        match self {
            Units::Utf8 => c.len_utf8() as u32,
            Units::Utf16 => {
                if c as u32 >= 0x10000 {
                    2
                } else {
                    1
                }
            }
            Units::Utf32 => 1,
        }
    }
}

/// The position of a byte offset, which is a character boundary and not inside `\r\n`.
pub fn position(text: &str, offset: usize, units: Units) -> Position {
    let (mut line, mut col) = (0, 0);
    let mut chars = text[..offset].chars().peekable();
    while let Some(c) = chars.next() {
        match c {
            '\n' => {
                line += 1;
                col = 0;
            }
            '\r' if chars.peek() != Some(&'\n') => {
                line += 1;
                col = 0;
            }
            '\r' => {}
            c => col += units.of(c),
        }
    }
    Position::new(line, col)
}

/// The byte offset of a position: an error if it is outside the text or inside a character.
pub fn offset(text: &str, position: Position, units: Units) -> Result<usize, String> {
    let mut line = 0;
    let mut col = 0;
    let bytes = text.as_bytes();
    for (i, c) in text.char_indices() {
        if line == position.line && col == position.character {
            return Ok(i);
        }
        if line > position.line || (line == position.line && col > position.character) {
            return Err(format!("{position:?} is inside a character"));
        }
        match c {
            '\r' if bytes.get(i + 1) == Some(&b'\n') => {
                if line == position.line {
                    return Err(format!("{position:?} is beyond the end of its line"));
                }
            }
            '\n' | '\r' => {
                if line == position.line {
                    return Err(format!("{position:?} is beyond the end of its line"));
                }
                line += 1;
                col = 0;
            }
            c => col += units.of(c),
        }
    }
    if line == position.line && col == position.character {
        return Ok(text.len());
    }
    Err(format!("{position:?} is outside the text"))
}

pub fn span(text: &str, range: Range, units: Units) -> Result<(usize, usize), String> {
    let (i, j) = (offset(text, range.start, units)?, offset(text, range.end, units)?);
    if i > j {
        return Err(format!("{range:?} ends before it starts"));
    }
    Ok((i, j))
}

/// Applies `TextEdit[]`: all ranges refer to the text before, they do not overlap, and of several
/// at one position those that come first come first in the result.
pub fn apply_edits(text: &str, edits: &[TextEdit], units: Units) -> Result<String, String> {
    let mut spans = Vec::new();
    for e in edits {
        let (i, j) = span(text, e.range, units)?;
        spans.push((i, j, e.new_text.as_str()));
    }
    spans.sort_by_key(|s| s.0);
    let mut out = String::new();
    let mut at = 0;
    for (i, j, new) in spans {
        if i < at {
            return Err(format!("edits overlap: {edits:?}"));
        }
        out.push_str(&text[at..i]);
        out.push_str(new);
        at = j;
    }
    out.push_str(&text[at..]);
    Ok(out)
}
