//! Stand-in for biome_line_index: lines end after `\n`; columns in UTF-8, UTF-16 or UTF-32 units.

use biome_text_size::TextSize;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum WideEncoding {
    Utf16,
    Utf32,
}

impl WideEncoding {
    pub fn measure(&self, text: &str) -> usize {
        match self {
            WideEncoding::Utf16 => text.encode_utf16().count(),
            WideEncoding::Utf32 => text.chars().count(),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct LineCol {
    pub line: u32,
    pub col: u32,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct WideLineCol {
    pub line: u32,
    pub col: u32,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct WideChar {
    pub start: TextSize,
    pub end: TextSize,
}

impl WideChar {
    fn len(&self) -> TextSize {
        self.end - self.start
    }
    fn wide_len(&self, enc: WideEncoding) -> usize {
        match enc {
            WideEncoding::Utf16 => {
                if self.len() == TextSize::from(4) {
                    2
                } else {
                    1
                }
            }
            WideEncoding::Utf32 => 1,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct LineIndex {
    /// Offset of the beginning of each line.
    pub newlines: Vec<TextSize>,
    /// Non-ASCII characters of each line.
    pub line_wide_chars: std::collections::BTreeMap<u32, Vec<WideChar>>,
}

impl LineIndex {
    pub fn new(text: &str) -> LineIndex {
        let mut line_wide_chars = std::collections::BTreeMap::new();
        let mut wide_chars = Vec::new();
        let mut newlines = vec![TextSize::from(0)];
        let mut row = TextSize::from(0);
        let mut col = TextSize::from(0);
        let mut line = 0u32;
        for c in text.chars() {
            let len = TextSize::of(c);
            row += len;
            if c == '\n' {
                newlines.push(row);
                if !wide_chars.is_empty() {
                    line_wide_chars.insert(line, std::mem::take(&mut wide_chars));
                }
                col = TextSize::from(0);
                line += 1;
                continue;
            }
            if !c.is_ascii() {
                wide_chars.push(WideChar { start: col, end: col + len });
            }
            col += len;
        }
        if !wide_chars.is_empty() {
            line_wide_chars.insert(line, wide_chars);
        }
        LineIndex { newlines, line_wide_chars }
    }

    pub fn len(&self) -> u32 {
        self.newlines.len() as u32
    }

    pub fn is_empty(&self) -> bool {
        false
    }

    pub fn line_col(&self, offset: TextSize) -> Option<LineCol> {
        let line = self.newlines.partition_point(|&it| it <= offset).checked_sub(1)?;
        let start = self.newlines.get(line)?;
        Some(LineCol { line: line as u32, col: (offset - start).into() })
    }

    pub fn offset(&self, line_col: LineCol) -> Option<TextSize> {
        self.newlines
            .get(line_col.line as usize)
            .map(|offset| offset + TextSize::from(line_col.col))
    }

    pub fn to_wide(&self, enc: WideEncoding, line_col: LineCol) -> Option<WideLineCol> {
        let mut col = line_col.col as usize;
        for c in self.chars(line_col.line) {
            if u32::from(c.end) <= line_col.col {
                col -= usize::from(c.len()) - c.wide_len(enc);
            } else {
                break;
            }
        }
        Some(WideLineCol { line: line_col.line, col: col as u32 })
    }

    pub fn to_utf8(&self, enc: WideEncoding, line_col: WideLineCol) -> LineCol {
        let mut col = line_col.col as usize;
        for c in self.chars(line_col.line) {
            if col > usize::from(c.start) {
                col += usize::from(c.len()) - c.wide_len(enc);
            } else {
                break;
            }
        }
        LineCol { line: line_col.line, col: col as u32 }
    }

    fn chars(&self, line: u32) -> &[WideChar] {
        self.line_wide_chars.get(&line).map_or(&[], Vec::as_slice)
    }
}
