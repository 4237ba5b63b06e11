use std::fmt;
use std::hash::{Hash, Hasher};
use std::sync::Arc;

use biome_text_size::{TextRange, TextSize};

use crate::green::{GreenToken, TriviaPiece};
use crate::{Direction, Language, SyntaxElement, SyntaxElementKey, SyntaxKind, SyntaxNode};

#[derive(Debug, Copy, Clone, PartialEq, Eq, Hash)]
pub enum TriviaPieceKind {
    Newline,
    Whitespace,
    SingleLineComment,
    MultiLineComment,
    Skipped,
}

impl TriviaPieceKind {
    pub const fn is_newline(&self) -> bool {
        matches!(self, TriviaPieceKind::Newline)
    }
    pub const fn is_whitespace(&self) -> bool {
        matches!(self, TriviaPieceKind::Whitespace)
    }
    pub const fn is_comment(&self) -> bool {
        self.is_single_line_comment() || self.is_multiline_comment()
    }
    pub const fn is_single_line_comment(&self) -> bool {
        matches!(self, TriviaPieceKind::SingleLineComment)
    }
    pub const fn is_multiline_comment(&self) -> bool {
        matches!(self, TriviaPieceKind::MultiLineComment)
    }
    pub const fn is_skipped(&self) -> bool {
        matches!(self, TriviaPieceKind::Skipped)
    }
}

/// Text of a token, sharing the token's storage.
#[derive(Clone)]
pub struct TokenText {
    token: Arc<GreenToken>,
    range: TextRange,
}

impl TokenText {
    pub fn text(&self) -> &str {
        &self.token.text[self.range]
    }
    pub fn len(&self) -> TextSize {
        self.range.len()
    }
    pub fn is_empty(&self) -> bool {
        self.range.is_empty()
    }
    pub fn range(&self) -> TextRange {
        self.range
    }
    pub fn slice(mut self, range: TextRange) -> TokenText {
        assert!(self.len() >= range.end());
        self.range = TextRange::at(self.range.start() + range.start(), range.len());
        self
    }
}
impl std::ops::Deref for TokenText {
    type Target = str;
    fn deref(&self) -> &str {
        self.text()
    }
}
impl AsRef<str> for TokenText {
    fn as_ref(&self) -> &str {
        self.text()
    }
}
impl PartialEq for TokenText {
    fn eq(&self, other: &Self) -> bool {
        self.text() == other.text()
    }
}
impl Eq for TokenText {}
impl PartialEq<str> for TokenText {
    fn eq(&self, other: &str) -> bool {
        self.text() == other
    }
}
impl PartialEq<&str> for TokenText {
    fn eq(&self, other: &&str) -> bool {
        self.text() == *other
    }
}
impl Hash for TokenText {
    fn hash<H: Hasher>(&self, state: &mut H) {
        self.text().hash(state)
    }
}
impl fmt::Display for TokenText {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.text())
    }
}
impl fmt::Debug for TokenText {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self.text())
    }
}

#[derive(Clone)]
pub struct SyntaxToken<L: Language> {
    pub(crate) green: Arc<GreenToken>,
    pub(crate) parent: Option<SyntaxNode<L>>,
    pub(crate) slot: usize,
    pub(crate) offset: TextSize,
}

impl<L: Language> SyntaxToken<L> {
    pub fn new_detached<Leading, Trailing>(
        kind: L::Kind,
        text: &str,
        leading: Leading,
        trailing: Trailing,
    ) -> Self
    where
        Leading: IntoIterator<Item = TriviaPiece>,
        Trailing: IntoIterator<Item = TriviaPiece>,
    {
        Self {
            green: Arc::new(GreenToken {
                kind: kind.to_raw(),
                text: text.into(),
                leading: leading.into_iter().collect(),
                trailing: trailing.into_iter().collect(),
            }),
            parent: None,
            slot: 0,
            offset: TextSize::from(0),
        }
    }

    pub fn kind(&self) -> L::Kind {
        L::Kind::from_raw(self.green.kind)
    }
    pub fn key(&self) -> SyntaxElementKey {
        SyntaxElementKey::new(Arc::as_ptr(&self.green) as *const u8 as usize, self.offset)
    }
    pub fn text_range(&self) -> TextRange {
        TextRange::at(self.offset, self.green.len())
    }
    pub fn text_range_with_trivia(&self) -> TextRange {
        self.text_range()
    }
    pub fn text_trimmed_range(&self) -> TextRange {
        let range = self.text_range();
        TextRange::new(
            range.start() + self.green.leading_len(),
            range.end() - self.green.trailing_len(),
        )
    }
    pub fn index(&self) -> usize {
        self.slot
    }
    pub fn text(&self) -> &str {
        &self.green.text
    }
    pub fn text_with_trivia(&self) -> &str {
        &self.green.text
    }
    pub fn text_trimmed(&self) -> &str {
        &self.green.text[self.text_trimmed_range() - self.offset]
    }
    pub fn token_text(&self) -> TokenText {
        TokenText { token: self.green.clone(), range: TextRange::up_to(self.green.len()) }
    }
    pub fn token_text_trimmed(&self) -> TokenText {
        TokenText { token: self.green.clone(), range: self.text_trimmed_range() - self.offset }
    }
    pub fn parent(&self) -> Option<SyntaxNode<L>> {
        self.parent.clone()
    }
    pub fn ancestors(&self) -> impl Iterator<Item = SyntaxNode<L>> + use<L> {
        std::iter::successors(self.parent(), SyntaxNode::parent)
    }
    pub fn next_sibling_or_token(&self) -> Option<SyntaxElement<L>> {
        self.parent.as_ref()?.element_after(self.slot)
    }
    pub fn prev_sibling_or_token(&self) -> Option<SyntaxElement<L>> {
        self.parent.as_ref()?.element_before(self.slot)
    }
    pub fn siblings_with_tokens(
        &self,
        direction: Direction,
    ) -> impl Iterator<Item = SyntaxElement<L>> + use<L> {
        let first = SyntaxElement::Token(self.clone());
        std::iter::successors(Some(first), move |it| match direction {
            Direction::Next => it.next_sibling_or_token(),
            Direction::Prev => it.prev_sibling_or_token(),
        })
    }
    pub fn next_token(&self) -> Option<SyntaxToken<L>> {
        let mut element: SyntaxElement<L> = SyntaxElement::Token(self.clone());
        loop {
            while let Some(next) = element.next_sibling_or_token() {
                if let Some(token) = next.first_token() {
                    return Some(token);
                }
                element = next;
            }
            element = SyntaxElement::Node(element.parent()?);
        }
    }
    pub fn prev_token(&self) -> Option<SyntaxToken<L>> {
        let mut element: SyntaxElement<L> = SyntaxElement::Token(self.clone());
        loop {
            while let Some(prev) = element.prev_sibling_or_token() {
                if let Some(token) = prev.last_token() {
                    return Some(token);
                }
                element = prev;
            }
            element = SyntaxElement::Node(element.parent()?);
        }
    }
    pub fn leading_trivia(&self) -> SyntaxTrivia<L> {
        SyntaxTrivia { token: self.clone(), leading: true }
    }
    pub fn trailing_trivia(&self) -> SyntaxTrivia<L> {
        SyntaxTrivia { token: self.clone(), leading: false }
    }
    pub fn has_trailing_comments(&self) -> bool {
        self.green.trailing.iter().any(|p| p.kind.is_comment())
    }
    pub fn has_leading_comments(&self) -> bool {
        self.green.leading.iter().any(|p| p.kind.is_comment())
    }
    pub fn has_leading_non_whitespace_trivia(&self) -> bool {
        self.green.leading.iter().any(|p| !p.kind.is_whitespace() && !p.kind.is_newline())
    }
    pub fn has_leading_newline(&self) -> bool {
        self.green.leading.iter().any(|p| p.kind.is_newline())
    }
    pub fn is_eof(&self) -> bool {
        self.kind() == L::Kind::EOF
    }
}

impl<L: Language> PartialEq for SyntaxToken<L> {
    fn eq(&self, other: &Self) -> bool {
        self.key() == other.key()
    }
}
impl<L: Language> Eq for SyntaxToken<L> {}
impl<L: Language> Hash for SyntaxToken<L> {
    fn hash<H: Hasher>(&self, state: &mut H) {
        self.key().hash(state)
    }
}
impl<L: Language> fmt::Debug for SyntaxToken<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}@{:?} {:?} ", self.kind(), self.text_range(), self.text_trimmed())?;
        fmt::Debug::fmt(&self.leading_trivia(), f)?;
        f.write_str(" ")?;
        fmt::Debug::fmt(&self.trailing_trivia(), f)
    }
}
impl<L: Language> fmt::Display for SyntaxToken<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.text())
    }
}
#[cfg(feature = "serde")]
impl<L: Language> serde::Serialize for SyntaxToken<L> {
    fn serialize<S: serde::Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
        serializer.serialize_str(self.text_trimmed())
    }
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct SyntaxTrivia<L: Language> {
    token: SyntaxToken<L>,
    leading: bool,
}

impl<L: Language> SyntaxTrivia<L> {
    fn raw(&self) -> &[TriviaPiece] {
        if self.leading { &self.token.green.leading } else { &self.token.green.trailing }
    }
    pub fn text_range(&self) -> TextRange {
        let token = self.token.text_range();
        let trimmed = self.token.text_trimmed_range();
        if self.leading {
            TextRange::new(token.start(), trimmed.start())
        } else {
            TextRange::new(trimmed.end(), token.end())
        }
    }
    pub fn text(&self) -> &str {
        &self.token.green.text[self.text_range() - self.token.offset]
    }
    pub fn len(&self) -> TextSize {
        self.text_range().len()
    }
    pub fn is_empty(&self) -> bool {
        self.raw().is_empty()
    }
    pub fn is_leading(&self) -> bool {
        self.leading
    }
    pub fn has_skipped(&self) -> bool {
        self.raw().iter().any(|p| p.kind.is_skipped())
    }
    pub fn first(&self) -> Option<SyntaxTriviaPiece<L>> {
        self.pieces().next()
    }
    pub fn last(&self) -> Option<SyntaxTriviaPiece<L>> {
        self.pieces().next_back()
    }
    pub fn pieces(&self) -> SyntaxTriviaPiecesIterator<L> {
        let mut offset = self.text_range().start();
        let pieces: Vec<_> = self
            .raw()
            .iter()
            .map(|piece| {
                let at = offset;
                offset += piece.length;
                SyntaxTriviaPiece { token: self.token.clone(), piece: *piece, offset: at }
            })
            .collect();
        pieces.into_iter()
    }
}

pub type SyntaxTriviaPiecesIterator<L> = std::vec::IntoIter<SyntaxTriviaPiece<L>>;

impl<L: Language> fmt::Debug for SyntaxTrivia<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        // One line even in the alternate form.
        f.write_str("[")?;
        for (i, piece) in self.pieces().enumerate() {
            if i > 0 {
                f.write_str(", ")?;
            }
            write!(f, "{piece:?}")?;
        }
        f.write_str("]")
    }
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct SyntaxTriviaPiece<L: Language> {
    token: SyntaxToken<L>,
    piece: TriviaPiece,
    offset: TextSize,
}

impl<L: Language> SyntaxTriviaPiece<L> {
    pub fn kind(&self) -> TriviaPieceKind {
        self.piece.kind
    }
    pub fn text(&self) -> &str {
        &self.token.green.text[self.text_range() - self.token.offset]
    }
    pub fn text_len(&self) -> TextSize {
        self.piece.length
    }
    pub fn text_range(&self) -> TextRange {
        TextRange::at(self.offset, self.piece.length)
    }
    pub fn is_newline(&self) -> bool {
        self.piece.kind.is_newline()
    }
    pub fn is_whitespace(&self) -> bool {
        self.piece.kind.is_whitespace()
    }
    pub fn is_comments(&self) -> bool {
        self.piece.kind.is_comment()
    }
    pub fn is_skipped(&self) -> bool {
        self.piece.kind.is_skipped()
    }
    pub fn as_newline(&self) -> Option<SyntaxTriviaPieceNewline<L>> {
        self.is_newline().then(|| SyntaxTriviaPieceNewline(self.clone()))
    }
    pub fn as_whitespace(&self) -> Option<SyntaxTriviaPieceWhitespace<L>> {
        self.is_whitespace().then(|| SyntaxTriviaPieceWhitespace(self.clone()))
    }
    pub fn as_comments(&self) -> Option<SyntaxTriviaPieceComments<L>> {
        self.is_comments().then(|| SyntaxTriviaPieceComments(self.clone()))
    }
    pub fn as_skipped(&self) -> Option<SyntaxTriviaPieceSkipped<L>> {
        self.is_skipped().then(|| SyntaxTriviaPieceSkipped(self.clone()))
    }
    pub fn token(&self) -> SyntaxToken<L> {
        self.token.clone()
    }
}

impl<L: Language> fmt::Debug for SyntaxTriviaPiece<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let name = match self.piece.kind {
            TriviaPieceKind::Newline => "Newline",
            TriviaPieceKind::Whitespace => "Whitespace",
            TriviaPieceKind::SingleLineComment | TriviaPieceKind::MultiLineComment => "Comments",
            TriviaPieceKind::Skipped => "Skipped",
        };
        write!(f, "{name}(")?;
        let text = self.text();
        if text.len() < 25 {
            write!(f, "{text:?}")?;
        } else if let Some(idx) = (21..25).find(|idx| text.is_char_boundary(*idx)) {
            write!(f, "{:?}", format!("{} ...", &text[..idx]))?;
        }
        f.write_str(")")
    }
}

macro_rules! piece {
    ($($Name:ident)*) => {
        $(
            #[derive(Clone, PartialEq, Eq, Hash, Debug)]
            pub struct $Name<L: Language>(SyntaxTriviaPiece<L>);
            impl<L: Language> $Name<L> {
                pub fn text(&self) -> &str {
                    self.0.text()
                }
                pub fn text_len(&self) -> TextSize {
                    self.0.text_len()
                }
                pub fn text_range(&self) -> TextRange {
                    self.0.text_range()
                }
                pub fn as_piece(&self) -> &SyntaxTriviaPiece<L> {
                    &self.0
                }
                pub fn into_piece(self) -> SyntaxTriviaPiece<L> {
                    self.0
                }
            }
        )*
    };
}
piece!(SyntaxTriviaPieceNewline SyntaxTriviaPieceWhitespace SyntaxTriviaPieceComments SyntaxTriviaPieceSkipped);

impl<L: Language> SyntaxTriviaPieceComments<L> {
    pub fn has_newline(&self) -> bool {
        self.0.piece.kind.is_multiline_comment()
    }
}
