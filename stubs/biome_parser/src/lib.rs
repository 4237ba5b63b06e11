//! Stand-in for biome_parser: events to lossless trees.

use biome_rowan::{Language, SendNode, SyntaxNode, TextRange};

pub mod prelude {
    pub use crate::ParseDiagnostic;
    pub use crate::token_source::Trivia;
}

#[derive(Debug, Clone)]
pub struct ParseDiagnostic {
    span: Option<TextRange>,
    pub message: String,
}

impl ParseDiagnostic {
    pub fn new(message: impl std::fmt::Display, span: impl Into<Option<TextRange>>) -> Self {
        Self { span: span.into(), message: message.to_string() }
    }
    pub fn span(&self) -> Option<TextRange> {
        self.span
    }
}

#[derive(Clone, Debug)]
pub struct AnyParse {
    root: SendNode,
    diagnostics: Vec<ParseDiagnostic>,
}

impl AnyParse {
    pub fn new(root: SendNode, diagnostics: Vec<ParseDiagnostic>) -> AnyParse {
        AnyParse { root, diagnostics }
    }
    pub fn syntax<L: Language>(&self) -> SyntaxNode<L> {
        self.root.clone().into_node().unwrap_or_else(|| {
            panic!("could not downcast root node to language {}", std::any::type_name::<L>())
        })
    }
    pub fn tree<N: biome_rowan::AstNode>(&self) -> N {
        N::unwrap_cast(self.syntax::<N::Language>())
    }
    pub fn diagnostics(&self) -> &[ParseDiagnostic] {
        &self.diagnostics
    }
    pub fn into_diagnostics(self) -> Vec<ParseDiagnostic> {
        self.diagnostics
    }
    pub fn has_errors(&self) -> bool {
        !self.diagnostics.is_empty()
    }
}

pub mod token_source {
    use biome_rowan::{TextRange, TextSize, TriviaPieceKind};

    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct Trivia {
        kind: TriviaPieceKind,
        range: TextRange,
        trailing: bool,
    }

    impl Trivia {
        pub fn new(kind: TriviaPieceKind, range: TextRange, trailing: bool) -> Self {
            Self { kind, range, trailing }
        }
        pub fn kind(&self) -> TriviaPieceKind {
            self.kind
        }
        pub fn text_range(&self) -> TextRange {
            self.range
        }
        pub fn trailing(&self) -> bool {
            self.trailing
        }
        pub fn len(&self) -> TextSize {
            self.range.len()
        }
        pub fn is_empty(&self) -> bool {
            self.range.is_empty()
        }
        pub fn offset(&self) -> TextSize {
            self.range.start()
        }
    }
}

pub mod tree_sink {
    use super::ParseDiagnostic;
    use super::token_source::Trivia;
    use biome_rowan::{
        Language, NodeCache, SyntaxFactory, SyntaxKind, SyntaxNode, TextRange, TextSize,
        TreeBuilder, TriviaPiece,
    };

    pub trait TreeSink {
        type Kind;
        fn token(&mut self, kind: Self::Kind, end: TextSize);
        fn start_node(&mut self, kind: Self::Kind);
        fn finish_node(&mut self);
        fn errors(&mut self, errors: Vec<ParseDiagnostic>);
    }

    pub struct LosslessTreeSink<'a, L: Language, Factory: SyntaxFactory<Kind = L::Kind>> {
        text: &'a str,
        trivia_list: &'a [Trivia],
        text_pos: TextSize,
        trivia_pos: usize,
        parents_count: usize,
        errors: Vec<ParseDiagnostic>,
        inner: TreeBuilder<L, Factory>,
        needs_eof: bool,
        trivia_pieces: Vec<TriviaPiece>,
    }

    impl<'a, L: Language, Factory: SyntaxFactory<Kind = L::Kind>> LosslessTreeSink<'a, L, Factory> {
        pub fn new(text: &'a str, trivia: &'a [Trivia]) -> Self {
            Self {
                text,
                trivia_list: trivia,
                text_pos: TextSize::from(0),
                trivia_pos: 0,
                parents_count: 0,
                errors: Vec::new(),
                inner: TreeBuilder::default(),
                needs_eof: true,
                trivia_pieces: Vec::new(),
            }
        }
        pub fn with_cache(text: &'a str, trivia: &'a [Trivia], _cache: &'a mut NodeCache) -> Self {
            Self::new(text, trivia)
        }
        pub fn finish(self) -> (SyntaxNode<L>, Vec<ParseDiagnostic>) {
            (self.inner.finish(), self.errors)
        }

        /// What lies between the last token and this one leads it, what follows
        /// it up to the end of the line trails it.
        fn do_token(&mut self, kind: L::Kind, end: TextSize) {
            if kind == L::Kind::EOF {
                self.needs_eof = false;
            }
            let start = self.text_pos;
            self.trivia_pieces.clear();
            self.eat_trivia(false);
            let trailing = self.trivia_pieces.len();
            self.text_pos = end;
            self.eat_trivia(true);
            let text = &self.text[TextRange::new(start, self.text_pos)];
            self.inner.token_with_trivia(
                kind,
                text,
                &self.trivia_pieces[..trailing],
                &self.trivia_pieces[trailing..],
            );
        }

        fn eat_trivia(&mut self, trailing: bool) {
            while let Some(trivia) = self.trivia_list.get(self.trivia_pos) {
                if trailing != trivia.trailing() || self.text_pos != trivia.offset() {
                    break;
                }
                self.trivia_pieces.push(TriviaPiece::new(trivia.kind(), trivia.len()));
                self.text_pos += trivia.len();
                self.trivia_pos += 1;
            }
        }
    }

    impl<L: Language, Factory: SyntaxFactory<Kind = L::Kind>> TreeSink
        for LosslessTreeSink<'_, L, Factory>
    {
        type Kind = L::Kind;
        fn token(&mut self, kind: L::Kind, end: TextSize) {
            self.do_token(kind, end);
        }
        fn start_node(&mut self, kind: L::Kind) {
            self.inner.start_node(kind);
            self.parents_count += 1;
        }
        fn finish_node(&mut self) {
            self.parents_count -= 1;
            if self.parents_count == 0 && self.needs_eof {
                self.do_token(L::Kind::EOF, TextSize::of(self.text));
            }
            self.inner.finish_node();
        }
        fn errors(&mut self, errors: Vec<ParseDiagnostic>) {
            self.errors = errors;
        }
    }
}

pub mod event {
    use super::ParseDiagnostic;
    use super::tree_sink::TreeSink;
    use biome_rowan::{SyntaxKind, TextSize};
    use std::num::NonZeroU32;

    #[derive(Debug, Clone, Eq, PartialEq)]
    pub enum Event<K: SyntaxKind> {
        Start { kind: K, forward_parent: Option<NonZeroU32> },
        Finish,
        Token { kind: K, end: TextSize },
    }

    impl<K: SyntaxKind> Event<K> {
        pub fn tombstone() -> Self {
            Event::Start { kind: K::TOMBSTONE, forward_parent: None }
        }
    }

    pub fn process<K: SyntaxKind>(
        sink: &mut impl TreeSink<Kind = K>,
        mut events: Vec<Event<K>>,
        errors: Vec<ParseDiagnostic>,
    ) {
        sink.errors(errors);
        let mut kinds = Vec::new();
        for i in 0..events.len() {
            match std::mem::replace(&mut events[i], Event::tombstone()) {
                Event::Start { kind, forward_parent } => {
                    kinds.push(kind);
                    let mut at = i;
                    let mut forward = forward_parent;
                    while let Some(delta) = forward {
                        at += delta.get() as usize;
                        forward = match std::mem::replace(&mut events[at], Event::tombstone()) {
                            Event::Start { kind, forward_parent } => {
                                kinds.push(kind);
                                forward_parent
                            }
                            _ => unreachable!(),
                        };
                    }
                    for kind in kinds.drain(..).rev() {
                        if kind != K::TOMBSTONE {
                            sink.start_node(kind);
                        }
                    }
                }
                Event::Finish => sink.finish_node(),
                Event::Token { kind, end } => sink.token(kind, end),
            }
        }
    }
}
