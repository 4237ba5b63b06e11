//! Comments and the nodes they belong to.

use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::rc::Rc;

use biome_rowan::{
    Direction, Language, SyntaxElement, SyntaxElementKey, SyntaxKind, SyntaxNode, SyntaxToken,
    SyntaxTriviaPieceComments, WalkEvent,
};
use rustc_hash::FxHashSet;

use crate::{TextRange, TextSize, TransformSourceMap};

#[derive(Copy, Clone, Eq, PartialEq, Debug)]
pub enum CommentKind {
    InlineBlock,
    Block,
    Line,
}

impl CommentKind {
    pub const fn is_line(&self) -> bool {
        matches!(self, CommentKind::Line)
    }
    pub const fn is_block(&self) -> bool {
        matches!(self, CommentKind::Block)
    }
    pub const fn is_inline_block(&self) -> bool {
        matches!(self, CommentKind::InlineBlock)
    }
    pub const fn is_inline(&self) -> bool {
        matches!(self, CommentKind::InlineBlock)
    }
}

#[derive(Copy, Clone, Debug, Eq, PartialEq)]
pub enum CommentTextPosition {
    EndOfLine,
    OwnLine,
    SameLine,
}

impl CommentTextPosition {
    pub const fn is_same_line(&self) -> bool {
        matches!(self, CommentTextPosition::SameLine)
    }
    pub const fn is_own_line(&self) -> bool {
        matches!(self, CommentTextPosition::OwnLine)
    }
    pub const fn is_end_of_line(&self) -> bool {
        matches!(self, CommentTextPosition::EndOfLine)
    }
}

#[derive(Debug, Clone)]
pub struct SourceComment<L: Language> {
    pub(crate) lines_before: u32,
    pub(crate) lines_after: u32,
    pub(crate) piece: SyntaxTriviaPieceComments<L>,
    pub(crate) kind: CommentKind,
    pub(crate) formatted: Cell<bool>,
}

impl<L: Language> SourceComment<L> {
    pub fn piece(&self) -> &SyntaxTriviaPieceComments<L> {
        &self.piece
    }
    pub fn lines_before(&self) -> u32 {
        self.lines_before
    }
    pub fn lines_after(&self) -> u32 {
        self.lines_after
    }
    pub fn kind(&self) -> CommentKind {
        self.kind
    }
    pub fn mark_formatted(&self) {
        self.formatted.set(true)
    }
}

#[derive(Debug, Clone)]
pub struct DecoratedComment<L: Language> {
    enclosing: SyntaxNode<L>,
    preceding: Option<SyntaxNode<L>>,
    following: Option<SyntaxNode<L>>,
    following_token: Option<SyntaxToken<L>>,
    text_position: CommentTextPosition,
    lines_before: u32,
    lines_after: u32,
    comment: SyntaxTriviaPieceComments<L>,
    kind: CommentKind,
}

impl<L: Language> DecoratedComment<L> {
    pub fn enclosing_node(&self) -> &SyntaxNode<L> {
        &self.enclosing
    }
    pub fn piece(&self) -> &SyntaxTriviaPieceComments<L> {
        &self.comment
    }
    pub fn preceding_node(&self) -> Option<&SyntaxNode<L>> {
        self.preceding.as_ref()
    }
    pub fn following_node(&self) -> Option<&SyntaxNode<L>> {
        self.following.as_ref()
    }
    pub fn following_token(&self) -> Option<&SyntaxToken<L>> {
        self.following_token.as_ref()
    }
    pub fn take_preceding_node(&mut self) -> Option<SyntaxNode<L>> {
        self.preceding.take()
    }
    pub fn take_following_node(&mut self) -> Option<SyntaxNode<L>> {
        self.following.take()
    }
    pub fn lines_before(&self) -> u32 {
        self.lines_before
    }
    pub fn lines_after(&self) -> u32 {
        self.lines_after
    }
    pub fn kind(&self) -> CommentKind {
        self.kind
    }
    pub fn text_position(&self) -> CommentTextPosition {
        self.text_position
    }
}

impl<L: Language> From<DecoratedComment<L>> for SourceComment<L> {
    fn from(decorated: DecoratedComment<L>) -> Self {
        Self {
            lines_before: decorated.lines_before,
            lines_after: decorated.lines_after,
            piece: decorated.comment,
            kind: decorated.kind,
            formatted: Cell::new(false),
        }
    }
}

#[derive(Debug)]
pub enum CommentPlacement<L: Language> {
    Leading { node: SyntaxNode<L>, comment: SourceComment<L> },
    Trailing { node: SyntaxNode<L>, comment: SourceComment<L> },
    Dangling { node: SyntaxNode<L>, comment: SourceComment<L> },
    Default(DecoratedComment<L>),
}

impl<L: Language> CommentPlacement<L> {
    pub fn leading(node: SyntaxNode<L>, comment: impl Into<SourceComment<L>>) -> Self {
        Self::Leading { node, comment: comment.into() }
    }
    pub fn dangling(node: SyntaxNode<L>, comment: impl Into<SourceComment<L>>) -> Self {
        Self::Dangling { node, comment: comment.into() }
    }
    pub fn trailing(node: SyntaxNode<L>, comment: impl Into<SourceComment<L>>) -> Self {
        Self::Trailing { node, comment: comment.into() }
    }
    pub fn or_else<F>(self, f: F) -> Self
    where
        F: FnOnce(DecoratedComment<L>) -> CommentPlacement<L>,
    {
        match self {
            CommentPlacement::Default(comment) => f(comment),
            placement => placement,
        }
    }
}

pub trait CommentStyle: Default {
    type Language: Language;

    fn is_suppression(_text: &str) -> bool {
        false
    }
    fn get_comment_kind(comment: &SyntaxTriviaPieceComments<Self::Language>) -> CommentKind;
    fn place_comment(&self, comment: DecoratedComment<Self::Language>) -> CommentPlacement<Self::Language> {
        CommentPlacement::Default(comment)
    }
}

#[derive(Debug)]
struct Parts<T> {
    leading: Vec<T>,
    dangling: Vec<T>,
    trailing: Vec<T>,
}

impl<T> Default for Parts<T> {
    fn default() -> Self {
        Self { leading: vec![], dangling: vec![], trailing: vec![] }
    }
}

type Map<L> = HashMap<SyntaxElementKey, Parts<SourceComment<L>>>;

#[derive(Debug)]
struct CommentsData<L: Language> {
    root: Option<SyntaxNode<L>>,
    is_suppression: fn(&str) -> bool,
    comments: Map<L>,
    checked_suppressions: RefCell<FxHashSet<SyntaxNode<L>>>,
}

#[derive(Debug, Clone)]
pub struct Comments<L: Language> {
    data: Rc<CommentsData<L>>,
}

impl<L: Language> Default for Comments<L> {
    fn default() -> Self {
        Self {
            data: Rc::new(CommentsData {
                root: None,
                is_suppression: |_| false,
                comments: HashMap::new(),
                checked_suppressions: RefCell::default(),
            }),
        }
    }
}

impl<L: Language> Comments<L> {
    pub fn from_node<Style>(root: &SyntaxNode<L>, style: &Style, _source_map: Option<&TransformSourceMap>) -> Self
    where
        Style: CommentStyle<Language = L>,
    {
        Self {
            data: Rc::new(CommentsData {
                root: Some(root.clone()),
                is_suppression: Style::is_suppression,
                comments: Visitor::new(style).visit(root),
                checked_suppressions: RefCell::default(),
            }),
        }
    }

    fn parts(&self, node: &SyntaxNode<L>) -> Option<&Parts<SourceComment<L>>> {
        self.data.comments.get(&node.key())
    }

    pub fn has_comments(&self, node: &SyntaxNode<L>) -> bool {
        self.leading_dangling_trailing_comments(node).next().is_some()
    }
    pub fn has_leading_comments(&self, node: &SyntaxNode<L>) -> bool {
        !self.leading_comments(node).is_empty()
    }
    pub fn has_leading_own_line_comment(&self, node: &SyntaxNode<L>) -> bool {
        self.leading_comments(node).iter().any(|comment| comment.lines_after() > 0)
    }
    pub fn has_dangling_comments(&self, node: &SyntaxNode<L>) -> bool {
        !self.dangling_comments(node).is_empty()
    }
    pub fn has_trailing_comments(&self, node: &SyntaxNode<L>) -> bool {
        !self.trailing_comments(node).is_empty()
    }
    pub fn has_trailing_line_comment(&self, node: &SyntaxNode<L>) -> bool {
        self.trailing_comments(node).iter().any(|comment| comment.kind().is_line())
    }
    pub fn leading_comments(&self, node: &SyntaxNode<L>) -> &[SourceComment<L>] {
        self.parts(node).map_or(&[], |parts| &parts.leading)
    }
    pub fn dangling_comments(&self, node: &SyntaxNode<L>) -> &[SourceComment<L>] {
        self.parts(node).map_or(&[], |parts| &parts.dangling)
    }
    pub fn trailing_comments(&self, node: &SyntaxNode<L>) -> &[SourceComment<L>] {
        self.parts(node).map_or(&[], |parts| &parts.trailing)
    }
    pub fn leading_trailing_comments<'a>(
        &'a self,
        node: &SyntaxNode<L>,
    ) -> impl Iterator<Item = &'a SourceComment<L>> + use<'a, L> {
        self.leading_comments(node).iter().chain(self.trailing_comments(node))
    }
    pub fn leading_dangling_trailing_comments<'a>(
        &'a self,
        node: &SyntaxNode<L>,
    ) -> impl Iterator<Item = &'a SourceComment<L>> + use<'a, L> {
        self.leading_comments(node)
            .iter()
            .chain(self.dangling_comments(node))
            .chain(self.trailing_comments(node))
    }

    pub fn is_suppressed(&self, node: &SyntaxNode<L>) -> bool {
        self.mark_suppression_checked(node);
        let is_suppression = self.data.is_suppression;
        self.leading_dangling_trailing_comments(node).any(|comment| is_suppression(comment.piece().text()))
    }

    pub fn mark_suppression_checked(&self, node: &SyntaxNode<L>) {
        if cfg!(debug_assertions) {
            self.data.checked_suppressions.borrow_mut().insert(node.clone());
        }
    }

    pub(crate) fn assert_checked_all_suppressions(&self, root: &SyntaxNode<L>) {
        if cfg!(debug_assertions) {
            let checked = self.data.checked_suppressions.borrow();
            for node in root.descendants() {
                if node.kind().is_list() || node.kind().is_root() {
                    continue;
                }
                if !checked.contains(&node) {
                    panic!(
                        "The following node has been formatted without checking if it has suppression comments.\n\n{node:#?}"
                    );
                }
            }
        }
    }

    pub(crate) fn assert_formatted_all_comments(&self) {
        if cfg!(debug_assertions) {
            let mut missing: Vec<_> = self
                .data
                .comments
                .values()
                .flat_map(|parts| parts.leading.iter().chain(&parts.dangling).chain(&parts.trailing))
                .filter(|comment| !comment.formatted.get())
                .collect();
            missing.sort_by_key(|comment| comment.piece().text_range().start());
            if !missing.is_empty() {
                panic!(
                    "The following comments have not been formatted.\n{missing:#?}\nin\n{:#?}",
                    self.data.root
                );
            }
        }
    }
}

/// Walks the tree and finds out, for every comment, which nodes it's next to.
struct Visitor<'a, Style: CommentStyle> {
    style: &'a Style,
    map: Map<Style::Language>,
    pending: Vec<DecoratedComment<Style::Language>>,
    preceding_node: Option<SyntaxNode<Style::Language>>,
    following_node_index: Option<usize>,
    parents: Vec<SyntaxNode<Style::Language>>,
    last_token: Option<SyntaxToken<Style::Language>>,
}

impl<'a, Style: CommentStyle> Visitor<'a, Style> {
    fn new(style: &'a Style) -> Self {
        Self {
            style,
            map: HashMap::new(),
            pending: vec![],
            preceding_node: None,
            following_node_index: None,
            parents: vec![],
            last_token: None,
        }
    }

    fn visit(mut self, root: &SyntaxNode<Style::Language>) -> Map<Style::Language> {
        for event in root.preorder_with_tokens(Direction::Next) {
            match event {
                WalkEvent::Enter(SyntaxElement::Node(node)) => self.enter(node),
                WalkEvent::Leave(SyntaxElement::Node(node)) => self.leave(node),
                WalkEvent::Enter(SyntaxElement::Token(token)) => self.token(token),
                WalkEvent::Leave(SyntaxElement::Token(_)) => {}
            }
        }
        assert!(self.parents.is_empty());

        // Comments of the last token, if the root isn't a whole file
        if let Some(last_token) = self.last_token.take() {
            self.parents.push(root.clone());
            let first = self.pending.len();
            let (_, _, trailing_end) = self.trailing(&last_token, None);
            let trailing_end = trailing_end.unwrap_or(self.pending.len());
            let mut lines_after = 0;
            for (index, comment) in self.pending.iter_mut().enumerate().skip(first).rev() {
                if index < trailing_end {
                    comment.text_position = CommentTextPosition::EndOfLine;
                }
                comment.lines_after = lines_after;
                lines_after = comment.lines_before;
            }
            self.flush(None);
            self.parents.pop();
        }
        self.map
    }

    fn enter(&mut self, node: SyntaxNode<Style::Language>) {
        // Comments belong to elements of lists, not to lists
        if node.kind().is_list() {
            return;
        }
        let is_root = matches!(self.following_node_index, Some(0));
        // The following node is the outermost one that starts at a token
        if self.following_node_index.is_none() || is_root {
            // In case the node doesn't have any tokens
            self.flush(Some(&node));
            self.following_node_index = Some(self.parents.len());
        }
        self.parents.push(node);
    }

    fn leave(&mut self, node: SyntaxNode<Style::Language>) {
        if node.kind().is_list() {
            return;
        }
        self.parents.pop().unwrap();
        self.following_node_index = None;
        self.flush(None);
        self.preceding_node = Some(node);
    }

    fn following_node(&self) -> Option<&SyntaxNode<Style::Language>> {
        self.following_node_index.map(|index| {
            self.parents.get(index).expect("Expected following node index to point to a valid parent node")
        })
    }

    fn enclosing_node(&self) -> &SyntaxNode<Style::Language> {
        match self.following_node_index {
            None => self.parents.last(),
            Some(0) => self.parents.first(),
            Some(index) => self.parents.get(index - 1),
        }
        .expect("Expected enclosing nodes to at least contain the root node.")
    }

    fn push(
        &mut self,
        comment: SyntaxTriviaPieceComments<Style::Language>,
        following_token: Option<&SyntaxToken<Style::Language>>,
        lines_before: u32,
        text_position: CommentTextPosition,
    ) {
        self.pending.push(DecoratedComment {
            enclosing: self.enclosing_node().clone(),
            preceding: self.preceding_node.clone(),
            following: None,
            following_token: following_token.cloned(),
            text_position,
            lines_before,
            lines_after: 0,
            kind: Style::get_comment_kind(&comment),
            comment,
        });
    }

    fn trailing(
        &mut self,
        last_token: &SyntaxToken<Style::Language>,
        token: Option<&SyntaxToken<Style::Language>>,
    ) -> (u32, CommentTextPosition, Option<usize>) {
        let mut lines_before = 0;
        let mut position = CommentTextPosition::SameLine;
        let mut trailing_end = None;
        for piece in last_token.trailing_trivia().pieces() {
            if piece.is_newline() {
                lines_before += 1;
                position = CommentTextPosition::OwnLine;
                trailing_end = trailing_end.or(Some(self.pending.len()));
            } else if let Some(comment) = piece.as_comments() {
                self.push(comment, token, lines_before, position);
                lines_before = 0;
            }
        }
        (lines_before, position, trailing_end)
    }

    fn token(&mut self, token: SyntaxToken<Style::Language>) {
        let first = self.pending.len();
        let (mut lines_before, mut position, mut trailing_end) = match self.last_token.take() {
            Some(last_token) => self.trailing(&last_token, Some(&token)),
            None => (0, CommentTextPosition::SameLine, None),
        };
        for piece in token.leading_trivia().pieces() {
            if piece.is_newline() {
                lines_before += 1;
                position = CommentTextPosition::OwnLine;
                trailing_end = trailing_end.or(Some(self.pending.len()));
            } else if let Some(comment) = piece.as_comments() {
                self.push(comment, Some(&token), lines_before, position);
                lines_before = 0;
            }
        }

        let mut lines_after = lines_before;
        for (index, comment) in self.pending.iter_mut().enumerate().skip(first).rev() {
            if let Some(end) = trailing_end {
                if index < end {
                    comment.text_position = CommentTextPosition::EndOfLine;
                }
            }
            comment.lines_after = lines_after;
            lines_after = comment.lines_before;
        }

        if let Some(following) = self.following_node().cloned() {
            self.flush(Some(&following));
            // The following node is only set for the first token of a node
            self.following_node_index = None;
            // Comments from here on are inside of that node
            self.preceding_node = None;
        }

        self.last_token = Some(token);
    }

    fn flush(&mut self, following: Option<&SyntaxNode<Style::Language>>) {
        for mut comment in std::mem::take(&mut self.pending) {
            comment.following = following.cloned();
            let placement = self.style.place_comment(comment);
            self.add(placement);
        }
    }

    fn add(&mut self, placement: CommentPlacement<Style::Language>) {
        match placement {
            CommentPlacement::Leading { node, comment } => self.parts(&node).leading.push(comment),
            CommentPlacement::Trailing { node, comment } => self.parts(&node).trailing.push(comment),
            CommentPlacement::Dangling { node, comment } => self.parts(&node).dangling.push(comment),
            CommentPlacement::Default(mut comment) => {
                let preceding = comment.take_preceding_node();
                let following = comment.take_following_node();
                match (comment.text_position, preceding, following) {
                    (CommentTextPosition::OwnLine, _, Some(following)) => {
                        self.parts(&following).leading.push(comment.into())
                    }
                    (CommentTextPosition::SameLine, Some(preceding), Some(following)) => {
                        // Trailing only if no token separates them
                        let attached = comment.piece().text_range().start() >= preceding.text_trimmed_range().end()
                            && preceding
                                .last_token()
                                .is_some_and(|token| &token == &comment.piece().as_piece().token());
                        if attached {
                            self.parts(&preceding).trailing.push(comment.into())
                        } else {
                            self.parts(&following).leading.push(comment.into())
                        }
                    }
                    (_, Some(preceding), _) => self.parts(&preceding).trailing.push(comment.into()),
                    (_, None, Some(following)) => self.parts(&following).leading.push(comment.into()),
                    (_, None, None) => {
                        let enclosing = comment.enclosing_node().clone();
                        self.parts(&enclosing).dangling.push(comment.into())
                    }
                }
            }
        }
    }

    fn parts(&mut self, node: &SyntaxNode<Style::Language>) -> &mut Parts<SourceComment<Style::Language>> {
        self.map.entry(node.key()).or_default()
    }
}

#[allow(unused)]
fn _types(_: TextRange, _: TextSize) {}
