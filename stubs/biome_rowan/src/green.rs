use std::sync::Arc;

use biome_text_size::TextSize;

use crate::{RawSyntaxKind, TriviaPieceKind};

#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
pub struct TriviaPiece {
    pub(crate) kind: TriviaPieceKind,
    pub(crate) length: TextSize,
}

impl TriviaPiece {
    pub fn new<L: Into<TextSize>>(kind: TriviaPieceKind, length: L) -> Self {
        Self { kind, length: length.into() }
    }
    pub fn whitespace<L: Into<TextSize>>(len: L) -> Self {
        Self::new(TriviaPieceKind::Whitespace, len)
    }
    pub fn newline<L: Into<TextSize>>(len: L) -> Self {
        Self::new(TriviaPieceKind::Newline, len)
    }
    pub fn single_line_comment<L: Into<TextSize>>(len: L) -> Self {
        Self::new(TriviaPieceKind::SingleLineComment, len)
    }
    pub fn text_len(&self) -> TextSize {
        self.length
    }
    pub fn kind(&self) -> TriviaPieceKind {
        self.kind
    }
}

#[derive(Debug)]
pub(crate) struct GreenToken {
    pub kind: RawSyntaxKind,
    /// Leading trivia, token, trailing trivia.
    pub text: Box<str>,
    pub leading: Vec<TriviaPiece>,
    pub trailing: Vec<TriviaPiece>,
}

impl GreenToken {
    pub fn len(&self) -> TextSize {
        TextSize::of(&*self.text)
    }
    pub fn leading_len(&self) -> TextSize {
        self.leading.iter().map(|p| p.length).sum()
    }
    pub fn trailing_len(&self) -> TextSize {
        self.trailing.iter().map(|p| p.length).sum()
    }
}

#[derive(Debug, Clone)]
pub(crate) enum GreenElement {
    Node(Arc<GreenNode>),
    Token(Arc<GreenToken>),
}

impl GreenElement {
    pub fn len(&self) -> TextSize {
        match self {
            GreenElement::Node(node) => node.len,
            GreenElement::Token(token) => token.len(),
        }
    }
    pub fn kind(&self) -> RawSyntaxKind {
        match self {
            GreenElement::Node(node) => node.kind,
            GreenElement::Token(token) => token.kind,
        }
    }
}

#[derive(Debug)]
pub(crate) struct GreenNode {
    pub kind: RawSyntaxKind,
    pub len: TextSize,
    /// The offset of each slot relative to the node, and what is in it.
    pub slots: Vec<(TextSize, Option<GreenElement>)>,
}

impl GreenNode {
    pub fn new(kind: RawSyntaxKind, elements: Vec<Option<GreenElement>>) -> Self {
        let mut len = TextSize::from(0);
        let mut slots = Vec::with_capacity(elements.len());
        for element in elements {
            let element_len = element.as_ref().map(GreenElement::len).unwrap_or_default();
            slots.push((len, element));
            len += element_len;
        }
        Self { kind, len, slots }
    }
}

/// Deep trees are dropped iteratively.
impl Drop for GreenNode {
    fn drop(&mut self) {
        let mut stack: Vec<Arc<GreenNode>> = Vec::new();
        let take = |slots: &mut Vec<(TextSize, Option<GreenElement>)>, stack: &mut Vec<_>| {
            for (_, slot) in slots.drain(..) {
                if let Some(GreenElement::Node(node)) = slot {
                    stack.push(node);
                }
            }
        };
        take(&mut self.slots, &mut stack);
        while let Some(node) = stack.pop() {
            if let Ok(mut node) = Arc::try_unwrap(node) {
                take(&mut node.slots, &mut stack);
            }
        }
    }
}

impl GreenNode {
    /// Whether a token lies in it, an empty one included.
    pub fn has_token(&self) -> bool {
        if self.len > TextSize::from(0) {
            return true;
        }
        let mut stack = vec![self];
        while let Some(node) = stack.pop() {
            for (_, slot) in &node.slots {
                match slot {
                    Some(GreenElement::Token(_)) => return true,
                    Some(GreenElement::Node(node)) => stack.push(node),
                    None => {}
                }
            }
        }
        false
    }
}
