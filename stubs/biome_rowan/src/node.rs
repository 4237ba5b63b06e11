use std::fmt;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;
use std::rc::Rc;
use std::sync::Arc;

use biome_text_size::{TextRange, TextSize};

use crate::green::{GreenElement, GreenNode};
use crate::{
    Direction, Language, NodeOrToken, SyntaxKind, SyntaxToken, SyntaxTrivia, TokenAtOffset,
    TokenText, WalkEvent,
};

/// Identity of a node or token: its storage and its offset.
#[derive(Debug, Copy, Clone, PartialEq, Eq, Hash)]
pub struct SyntaxElementKey {
    ptr: usize,
    offset: TextSize,
}

impl SyntaxElementKey {
    pub(crate) fn new(ptr: usize, offset: TextSize) -> Self {
        Self { ptr, offset }
    }
}

struct NodeData {
    green: Arc<GreenNode>,
    parent: Option<Rc<NodeData>>,
    slot: usize,
    offset: TextSize,
}

/// Chains of parents are dropped iteratively.
impl Drop for NodeData {
    fn drop(&mut self) {
        let mut next = self.parent.take();
        while let Some(rc) = next {
            match Rc::try_unwrap(rc) {
                Ok(mut data) => next = data.parent.take(),
                Err(_) => break,
            }
        }
    }
}

pub struct SyntaxNode<L: Language> {
    data: Rc<NodeData>,
    _p: PhantomData<L>,
}

impl<L: Language> Clone for SyntaxNode<L> {
    fn clone(&self) -> Self {
        Self { data: self.data.clone(), _p: PhantomData }
    }
}

pub type SyntaxElement<L> = NodeOrToken<SyntaxNode<L>, SyntaxToken<L>>;

impl<L: Language> SyntaxNode<L> {
    pub(crate) fn new_root(green: Arc<GreenNode>) -> Self {
        Self {
            data: Rc::new(NodeData { green, parent: None, slot: 0, offset: TextSize::from(0) }),
            _p: PhantomData,
        }
    }

    pub(crate) fn green(&self) -> &Arc<GreenNode> {
        &self.data.green
    }

    pub fn new_detached<I>(kind: L::Kind, slots: I) -> SyntaxNode<L>
    where
        I: IntoIterator<Item = Option<SyntaxElement<L>>>,
        I::IntoIter: ExactSizeIterator,
    {
        let slots = slots
            .into_iter()
            .map(|slot| slot.map(|element| element.green()))
            .collect();
        Self::new_root(Arc::new(GreenNode::new(kind.to_raw(), slots)))
    }

    pub fn kind(&self) -> L::Kind {
        L::Kind::from_raw(self.data.green.kind)
    }
    pub fn key(&self) -> SyntaxElementKey {
        SyntaxElementKey::new(Arc::as_ptr(&self.data.green) as usize, self.data.offset)
    }
    pub fn index(&self) -> usize {
        self.data.slot
    }
    pub fn text_range_with_trivia(&self) -> TextRange {
        TextRange::at(self.data.offset, self.data.green.len)
    }
    pub fn text_range(&self) -> TextRange {
        self.text_range_with_trivia()
    }
    pub fn text_trimmed_range(&self) -> TextRange {
        let range = self.text_range_with_trivia();
        let start = self
            .first_token()
            .map_or(range.start(), |token| token.text_trimmed_range().start());
        let end = self
            .last_token()
            .map_or(range.end(), |token| token.text_trimmed_range().end());
        // Only empty tokens can put the two out of order.
        TextRange::new(start, end.max(start))
    }
    pub fn text_with_trivia(&self) -> SyntaxNodeText {
        SyntaxNodeText { text: self.collect_text(), range: self.text_range_with_trivia() }
    }
    pub fn text(&self) -> SyntaxNodeText {
        self.text_with_trivia()
    }
    pub fn text_trimmed(&self) -> SyntaxNodeText {
        let range = self.text_trimmed_range();
        let text = self.collect_text();
        let text = text[range - self.data.offset].to_string();
        SyntaxNodeText { text, range }
    }
    fn collect_text(&self) -> String {
        let mut out = String::new();
        collect(&self.data.green, &mut out);
        return out;

        fn collect(node: &Arc<GreenNode>, out: &mut String) {
            let mut stack: Vec<(&GreenNode, usize)> = vec![(node, 0)];
            while let Some((node, i)) = stack.pop() {
                let Some((_, slot)) = node.slots.get(i) else { continue };
                stack.push((node, i + 1));
                match slot {
                    Some(GreenElement::Token(token)) => out.push_str(&token.text),
                    Some(GreenElement::Node(child)) => stack.push((child, 0)),
                    None => {}
                }
            }
        }
    }

    pub fn parent(&self) -> Option<SyntaxNode<L>> {
        self.data.parent.clone().map(|data| SyntaxNode { data, _p: PhantomData })
    }
    pub fn grand_parent(&self) -> Option<SyntaxNode<L>> {
        self.parent()?.parent()
    }
    pub fn ancestors(&self) -> impl Iterator<Item = SyntaxNode<L>> + use<L> {
        std::iter::successors(Some(self.clone()), SyntaxNode::parent)
    }

    fn at_slot(&self, slot: usize) -> Option<SyntaxElement<L>> {
        let (rel, element) = self.data.green.slots.get(slot)?;
        let offset = self.data.offset + *rel;
        Some(match element.as_ref()? {
            GreenElement::Node(green) => NodeOrToken::Node(SyntaxNode {
                data: Rc::new(NodeData {
                    green: green.clone(),
                    parent: Some(self.data.clone()),
                    slot,
                    offset,
                }),
                _p: PhantomData,
            }),
            GreenElement::Token(green) => NodeOrToken::Token(SyntaxToken {
                green: green.clone(),
                parent: Some(self.clone()),
                slot,
                offset,
            }),
        })
    }
    pub(crate) fn slot(&self, slot: usize) -> Option<SyntaxElement<L>> {
        self.at_slot(slot)
    }
    pub(crate) fn slot_count(&self) -> usize {
        self.data.green.slots.len()
    }
    pub(crate) fn element_after(&self, slot: usize) -> Option<SyntaxElement<L>> {
        (slot + 1..self.slot_count()).find_map(|i| self.at_slot(i))
    }
    pub(crate) fn element_before(&self, slot: usize) -> Option<SyntaxElement<L>> {
        (0..slot).rev().find_map(|i| self.at_slot(i))
    }

    pub fn slots(&self) -> SyntaxSlots<L> {
        let slots: Vec<_> = (0..self.slot_count())
            .map(|i| match self.at_slot(i) {
                Some(NodeOrToken::Node(node)) => SyntaxSlot::Node(node),
                Some(NodeOrToken::Token(token)) => SyntaxSlot::Token(token),
                None => SyntaxSlot::Empty { index: i as u32 },
            })
            .collect();
        slots.into_iter()
    }
    pub fn children(&self) -> SyntaxNodeChildren<L> {
        SyntaxNodeChildren { inner: self.children_with_tokens() }
    }
    pub fn children_with_tokens(&self) -> SyntaxElementChildren<L> {
        SyntaxElementChildren { parent: self.clone(), next: 0, end: self.slot_count() }
    }
    pub fn tokens(&self) -> impl DoubleEndedIterator<Item = SyntaxToken<L>> + use<L> {
        let tokens: Vec<_> =
            self.children_with_tokens().filter_map(NodeOrToken::into_token).collect();
        tokens.into_iter()
    }
    pub fn first_child(&self) -> Option<SyntaxNode<L>> {
        self.children().next()
    }
    pub fn last_child(&self) -> Option<SyntaxNode<L>> {
        self.children().next_back()
    }
    pub fn first_child_or_token(&self) -> Option<SyntaxElement<L>> {
        self.children_with_tokens().next()
    }
    pub fn last_child_or_token(&self) -> Option<SyntaxElement<L>> {
        self.children_with_tokens().next_back()
    }
    pub fn next_sibling(&self) -> Option<SyntaxNode<L>> {
        let parent = self.parent()?;
        (self.data.slot + 1..parent.slot_count())
            .find_map(|i| parent.at_slot(i).and_then(NodeOrToken::into_node))
    }
    pub fn prev_sibling(&self) -> Option<SyntaxNode<L>> {
        let parent = self.parent()?;
        (0..self.data.slot)
            .rev()
            .find_map(|i| parent.at_slot(i).and_then(NodeOrToken::into_node))
    }
    pub fn next_sibling_or_token(&self) -> Option<SyntaxElement<L>> {
        self.parent()?.element_after(self.data.slot)
    }
    pub fn prev_sibling_or_token(&self) -> Option<SyntaxElement<L>> {
        self.parent()?.element_before(self.data.slot)
    }
    pub fn siblings(&self, direction: Direction) -> impl Iterator<Item = SyntaxNode<L>> + use<L> {
        std::iter::successors(Some(self.clone()), move |node| match direction {
            Direction::Next => node.next_sibling(),
            Direction::Prev => node.prev_sibling(),
        })
    }
    pub fn siblings_with_tokens(
        &self,
        direction: Direction,
    ) -> impl Iterator<Item = SyntaxElement<L>> + use<L> {
        let first: SyntaxElement<L> = NodeOrToken::Node(self.clone());
        std::iter::successors(Some(first), move |it| match direction {
            Direction::Next => it.next_sibling_or_token(),
            Direction::Prev => it.prev_sibling_or_token(),
        })
    }

    fn edge_token(&self, first: bool) -> Option<SyntaxToken<L>> {
        let mut node = self.clone();
        loop {
            let holds_token = |element: &SyntaxElement<L>| match element {
                NodeOrToken::Token(_) => true,
                NodeOrToken::Node(node) => node.data.green.has_token(),
            };
            let mut children = node.children_with_tokens();
            let element =
                if first { children.find(holds_token) } else { children.rfind(holds_token) };
            match element? {
                NodeOrToken::Token(token) => return Some(token),
                NodeOrToken::Node(child) => node = child,
            }
        }
    }
    pub fn first_token(&self) -> Option<SyntaxToken<L>> {
        self.edge_token(true)
    }
    pub fn last_token(&self) -> Option<SyntaxToken<L>> {
        self.edge_token(false)
    }
    pub fn first_leading_trivia(&self) -> Option<SyntaxTrivia<L>> {
        self.first_token().map(|token| token.leading_trivia())
    }
    pub fn last_trailing_trivia(&self) -> Option<SyntaxTrivia<L>> {
        self.last_token().map(|token| token.trailing_trivia())
    }
    pub fn has_comments_descendants(&self) -> bool {
        self.descendants_tokens(Direction::Next)
            .any(|token| token.has_trailing_comments() || token.has_leading_comments())
    }
    pub fn has_comments_direct(&self) -> bool {
        self.has_trailing_comments() || self.has_leading_comments()
    }
    pub fn has_trailing_comments(&self) -> bool {
        self.last_token().is_some_and(|token| token.has_trailing_comments())
    }
    pub fn has_leading_comments(&self) -> bool {
        self.first_token().is_some_and(|token| token.has_leading_comments())
    }
    pub fn has_leading_non_whitespace_trivia(&self) -> bool {
        self.first_token().is_some_and(|token| token.has_leading_non_whitespace_trivia())
    }
    pub fn has_leading_newline(&self) -> bool {
        self.first_token().is_some_and(|token| token.has_leading_newline())
    }
    pub fn is_list(&self) -> bool {
        self.kind().is_list()
    }

    pub fn preorder(&self) -> Preorder<L> {
        Preorder { inner: self.preorder_with_tokens(Direction::Next) }
    }
    pub fn preorder_with_tokens(&self, direction: Direction) -> PreorderWithTokens<L> {
        PreorderWithTokens {
            start: self.clone(),
            next: Some(WalkEvent::Enter(NodeOrToken::Node(self.clone()))),
            skip_subtree: false,
            direction,
        }
    }
    pub fn descendants(&self) -> impl Iterator<Item = SyntaxNode<L>> + use<L> {
        self.preorder().filter_map(|event| match event {
            WalkEvent::Enter(node) => Some(node),
            WalkEvent::Leave(_) => None,
        })
    }
    pub fn descendants_with_tokens(
        &self,
        direction: Direction,
    ) -> impl Iterator<Item = SyntaxElement<L>> + use<L> {
        self.preorder_with_tokens(direction).filter_map(|event| match event {
            WalkEvent::Enter(element) => Some(element),
            WalkEvent::Leave(_) => None,
        })
    }
    pub fn descendants_tokens(
        &self,
        direction: Direction,
    ) -> impl Iterator<Item = SyntaxToken<L>> + use<L> {
        self.descendants_with_tokens(direction).filter_map(NodeOrToken::into_token)
    }

    pub fn token_at_offset(&self, offset: TextSize) -> TokenAtOffset<SyntaxToken<L>> {
        let range = self.text_range_with_trivia();
        assert!(
            range.start() <= offset && offset <= range.end(),
            "Bad offset: range {range:?} offset {offset:?}"
        );
        if range.is_empty() {
            return TokenAtOffset::None;
        }
        let mut found = self.descendants_tokens(Direction::Next).filter(|token| {
            let range = token.text_range();
            !range.is_empty() && range.start() <= offset && offset <= range.end()
        });
        match (found.next(), found.next()) {
            (None, _) => TokenAtOffset::None,
            (Some(one), None) => TokenAtOffset::Single(one),
            (Some(one), Some(two)) => TokenAtOffset::Between(one, two),
        }
    }
    pub fn covering_element(&self, range: TextRange) -> SyntaxElement<L> {
        let mut node = self.clone();
        loop {
            assert!(
                node.text_range_with_trivia().contains_range(range),
                "Bad range: node range {:?}, range {range:?}",
                node.text_range_with_trivia(),
            );
            let child = node
                .children_with_tokens()
                .find(|child| child.text_range_with_trivia().contains_range(range));
            match child {
                None => return NodeOrToken::Node(node),
                Some(NodeOrToken::Token(token)) => return NodeOrToken::Token(token),
                Some(NodeOrToken::Node(child)) => node = child,
            }
        }
    }

    /// A detached copy.
    pub fn detach(self) -> Self {
        Self::new_root(self.data.green.clone())
    }
    pub fn clone_subtree(&self) -> Self {
        Self::new_root(self.data.green.clone())
    }

    /// A new node in which the slots of the range are replaced.
    pub fn splice_slots<R, I>(self, range: R, replace_with: I) -> Self
    where
        R: std::ops::RangeBounds<usize>,
        I: IntoIterator<Item = Option<SyntaxElement<L>>>,
    {
        let mut slots: Vec<_> =
            self.data.green.slots.iter().map(|(_, slot)| slot.clone()).collect();
        slots.splice(
            range,
            replace_with.into_iter().map(|slot| slot.map(|element| element.green())),
        );
        Self::new_root(Arc::new(GreenNode::new(self.data.green.kind, slots)))
    }

    pub fn into_list(self) -> SyntaxList<L> {
        SyntaxList { node: self }
    }

    /// The root, if this is one, in a form that can move to another thread.
    pub fn as_send(&self) -> Option<SendNode> {
        self.data
            .parent
            .is_none()
            .then(|| SendNode { language: std::any::type_name::<L>(), green: self.data.green.clone() })
    }
}

impl<L: Language> PartialEq for SyntaxNode<L> {
    fn eq(&self, other: &Self) -> bool {
        self.key() == other.key()
    }
}
impl<L: Language> Eq for SyntaxNode<L> {}
impl<L: Language> Hash for SyntaxNode<L> {
    fn hash<H: Hasher>(&self, state: &mut H) {
        self.key().hash(state)
    }
}
impl<L: Language> fmt::Display for SyntaxNode<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.collect_text())
    }
}
impl<L: Language> fmt::Debug for SyntaxNode<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fn indent(f: &mut fmt::Formatter<'_>, level: usize) -> fmt::Result {
            (0..level).try_for_each(|_| f.write_str("  "))
        }
        if !f.alternate() {
            return write!(f, "{:?}@{:?}", self.kind(), self.text_range_with_trivia());
        }
        // Node, depth, next slot to print
        writeln!(f, "{}: {:?}@{:?}", 0, self.kind(), self.text_range_with_trivia())?;
        let mut stack: Vec<(SyntaxNode<L>, usize)> = vec![(self.clone(), 0)];
        while let Some((node, i)) = stack.pop() {
            if i >= node.slot_count() {
                continue;
            }
            let element = node.at_slot(i);
            let level = stack.len() + 1;
            stack.push((node, i + 1));
            indent(f, level)?;
            match element {
                None => writeln!(f, "{i}: (empty)")?,
                Some(NodeOrToken::Token(token)) => writeln!(f, "{i}: {token:?}")?,
                Some(NodeOrToken::Node(node)) => {
                    writeln!(f, "{i}: {:?}@{:?}", node.kind(), node.text_range_with_trivia())?;
                    stack.push((node, 0));
                }
            }
        }
        Ok(())
    }
}
#[cfg(feature = "serde")]
impl<L: Language> serde::Serialize for SyntaxNode<L> {
    fn serialize<S: serde::Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
        serializer.collect_str(self)
    }
}

impl<L: Language> From<SyntaxNode<L>> for SyntaxElement<L> {
    fn from(node: SyntaxNode<L>) -> Self {
        NodeOrToken::Node(node)
    }
}
impl<L: Language> From<SyntaxToken<L>> for SyntaxElement<L> {
    fn from(token: SyntaxToken<L>) -> Self {
        NodeOrToken::Token(token)
    }
}

impl<L: Language> SyntaxElement<L> {
    pub(crate) fn green(&self) -> GreenElement {
        match self {
            NodeOrToken::Node(node) => GreenElement::Node(node.green().clone()),
            NodeOrToken::Token(token) => GreenElement::Token(token.green.clone()),
        }
    }
    pub fn kind(&self) -> L::Kind {
        match self {
            NodeOrToken::Node(it) => it.kind(),
            NodeOrToken::Token(it) => it.kind(),
        }
    }
    pub fn key(&self) -> SyntaxElementKey {
        match self {
            NodeOrToken::Node(it) => it.key(),
            NodeOrToken::Token(it) => it.key(),
        }
    }
    pub fn index(&self) -> usize {
        match self {
            NodeOrToken::Node(it) => it.index(),
            NodeOrToken::Token(it) => it.index(),
        }
    }
    pub fn text_range(&self) -> TextRange {
        self.text_range_with_trivia()
    }
    pub fn text_range_with_trivia(&self) -> TextRange {
        match self {
            NodeOrToken::Node(it) => it.text_range_with_trivia(),
            NodeOrToken::Token(it) => it.text_range(),
        }
    }
    pub fn text_trimmed_range(&self) -> TextRange {
        match self {
            NodeOrToken::Node(it) => it.text_trimmed_range(),
            NodeOrToken::Token(it) => it.text_trimmed_range(),
        }
    }
    pub fn leading_trivia(&self) -> Option<SyntaxTrivia<L>> {
        match self {
            NodeOrToken::Node(it) => it.first_leading_trivia(),
            NodeOrToken::Token(it) => Some(it.leading_trivia()),
        }
    }
    pub fn trailing_trivia(&self) -> Option<SyntaxTrivia<L>> {
        match self {
            NodeOrToken::Node(it) => it.last_trailing_trivia(),
            NodeOrToken::Token(it) => Some(it.trailing_trivia()),
        }
    }
    pub fn has_leading_comments(&self) -> bool {
        match self {
            NodeOrToken::Node(it) => it.has_leading_comments(),
            NodeOrToken::Token(it) => it.has_leading_comments(),
        }
    }
    pub fn has_trailing_comments(&self) -> bool {
        match self {
            NodeOrToken::Node(it) => it.has_trailing_comments(),
            NodeOrToken::Token(it) => it.has_trailing_comments(),
        }
    }
    pub fn parent(&self) -> Option<SyntaxNode<L>> {
        match self {
            NodeOrToken::Node(it) => it.parent(),
            NodeOrToken::Token(it) => it.parent(),
        }
    }
    pub fn ancestors(&self) -> impl Iterator<Item = SyntaxNode<L>> + use<L> {
        let first = match self {
            NodeOrToken::Node(it) => Some(it.clone()),
            NodeOrToken::Token(it) => it.parent(),
        };
        std::iter::successors(first, SyntaxNode::parent)
    }
    pub fn first_token(&self) -> Option<SyntaxToken<L>> {
        match self {
            NodeOrToken::Node(it) => it.first_token(),
            NodeOrToken::Token(it) => Some(it.clone()),
        }
    }
    pub fn last_token(&self) -> Option<SyntaxToken<L>> {
        match self {
            NodeOrToken::Node(it) => it.last_token(),
            NodeOrToken::Token(it) => Some(it.clone()),
        }
    }
    pub fn next_sibling_or_token(&self) -> Option<SyntaxElement<L>> {
        match self {
            NodeOrToken::Node(it) => it.next_sibling_or_token(),
            NodeOrToken::Token(it) => it.next_sibling_or_token(),
        }
    }
    pub fn prev_sibling_or_token(&self) -> Option<SyntaxElement<L>> {
        match self {
            NodeOrToken::Node(it) => it.prev_sibling_or_token(),
            NodeOrToken::Token(it) => it.prev_sibling_or_token(),
        }
    }
}

impl<L: Language> fmt::Display for SyntaxElement<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            NodeOrToken::Node(it) => fmt::Display::fmt(it, f),
            NodeOrToken::Token(it) => fmt::Display::fmt(it, f),
        }
    }
}

#[cfg(feature = "serde")]
impl<L: Language> serde::Serialize for SyntaxElement<L> {
    fn serialize<S: serde::Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
        match self {
            NodeOrToken::Node(it) => it.serialize(serializer),
            NodeOrToken::Token(it) => it.serialize(serializer),
        }
    }
}

/// Text of a node.
#[derive(Clone, PartialEq, Eq)]
pub struct SyntaxNodeText {
    text: String,
    range: TextRange,
}

impl SyntaxNodeText {
    pub fn len(&self) -> TextSize {
        TextSize::of(self.text.as_str())
    }
    pub fn is_empty(&self) -> bool {
        self.text.is_empty()
    }
    pub fn range(&self) -> TextRange {
        self.range
    }
    pub fn contains_char(&self, c: char) -> bool {
        self.text.contains(c)
    }
    pub fn chars(&self) -> std::str::Chars<'_> {
        self.text.chars()
    }
    pub fn char_at(&self, offset: TextSize) -> Option<char> {
        self.text.get(usize::from(offset)..)?.chars().next()
    }
    pub fn for_each_chunk<F: FnMut(&str)>(&self, mut f: F) {
        f(&self.text)
    }
    pub fn into_text(self) -> String {
        self.text
    }
}
impl From<SyntaxNodeText> for String {
    fn from(value: SyntaxNodeText) -> Self {
        value.text
    }
}
impl fmt::Display for SyntaxNodeText {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.text)
    }
}
impl fmt::Debug for SyntaxNodeText {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&self.text, f)
    }
}
impl PartialEq<str> for SyntaxNodeText {
    fn eq(&self, other: &str) -> bool {
        self.text == other
    }
}
impl PartialEq<&str> for SyntaxNodeText {
    fn eq(&self, other: &&str) -> bool {
        self.text == *other
    }
}

#[derive(Debug, Clone)]
pub enum SyntaxSlot<L: Language> {
    Node(SyntaxNode<L>),
    Token(SyntaxToken<L>),
    Empty { index: u32 },
}

impl<L: Language> SyntaxSlot<L> {
    pub fn into_node(self) -> Option<SyntaxNode<L>> {
        match self {
            SyntaxSlot::Node(node) => Some(node),
            _ => None,
        }
    }
    pub fn into_token(self) -> Option<SyntaxToken<L>> {
        match self {
            SyntaxSlot::Token(token) => Some(token),
            _ => None,
        }
    }
    pub fn into_syntax_element(self) -> Option<SyntaxElement<L>> {
        match self {
            SyntaxSlot::Node(node) => Some(NodeOrToken::Node(node)),
            SyntaxSlot::Token(token) => Some(NodeOrToken::Token(token)),
            SyntaxSlot::Empty { .. } => None,
        }
    }
    pub fn is_empty(&self) -> bool {
        matches!(self, SyntaxSlot::Empty { .. })
    }
    pub fn kind(&self) -> Option<L::Kind> {
        match self {
            SyntaxSlot::Node(node) => Some(node.kind()),
            SyntaxSlot::Token(token) => Some(token.kind()),
            SyntaxSlot::Empty { .. } => None,
        }
    }
}

pub type SyntaxSlots<L> = std::vec::IntoIter<SyntaxSlot<L>>;

#[derive(Clone)]
pub struct SyntaxElementChildren<L: Language> {
    parent: SyntaxNode<L>,
    next: usize,
    end: usize,
}

impl<L: Language> Default for SyntaxElementChildren<L> {
    fn default() -> Self {
        Self {
            parent: SyntaxNode::new_detached(L::Kind::TOMBSTONE, Vec::new()),
            next: 0,
            end: 0,
        }
    }
}

impl<L: Language> fmt::Debug for SyntaxElementChildren<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_list().entries(self.clone()).finish()
    }
}

impl<L: Language> Iterator for SyntaxElementChildren<L> {
    type Item = SyntaxElement<L>;
    fn next(&mut self) -> Option<SyntaxElement<L>> {
        while self.next < self.end {
            let element = self.parent.at_slot(self.next);
            self.next += 1;
            if element.is_some() {
                return element;
            }
        }
        None
    }
}

impl<L: Language> DoubleEndedIterator for SyntaxElementChildren<L> {
    fn next_back(&mut self) -> Option<SyntaxElement<L>> {
        while self.next < self.end {
            self.end -= 1;
            let element = self.parent.at_slot(self.end);
            if element.is_some() {
                return element;
            }
        }
        None
    }
}

#[derive(Debug, Clone)]
pub struct SyntaxNodeChildren<L: Language> {
    inner: SyntaxElementChildren<L>,
}

impl<L: Language> Iterator for SyntaxNodeChildren<L> {
    type Item = SyntaxNode<L>;
    fn next(&mut self) -> Option<SyntaxNode<L>> {
        self.inner.by_ref().find_map(NodeOrToken::into_node)
    }
}

impl<L: Language> DoubleEndedIterator for SyntaxNodeChildren<L> {
    fn next_back(&mut self) -> Option<SyntaxNode<L>> {
        loop {
            if let NodeOrToken::Node(node) = self.inner.next_back()? {
                return Some(node);
            }
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct SyntaxList<L: Language> {
    node: SyntaxNode<L>,
}

impl<L: Language> SyntaxList<L> {
    pub fn iter(&self) -> SyntaxSlots<L> {
        self.node.slots()
    }
    pub fn len(&self) -> usize {
        self.node.slot_count()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn first(&self) -> Option<SyntaxSlot<L>> {
        self.iter().next()
    }
    pub fn last(&self) -> Option<SyntaxSlot<L>> {
        self.iter().next_back()
    }
    pub fn node(&self) -> &SyntaxNode<L> {
        &self.node
    }
    pub fn into_node(self) -> SyntaxNode<L> {
        self.node
    }
}

impl<L: Language> IntoIterator for SyntaxList<L> {
    type Item = SyntaxSlot<L>;
    type IntoIter = SyntaxSlots<L>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}
impl<L: Language> IntoIterator for &SyntaxList<L> {
    type Item = SyntaxSlot<L>;
    type IntoIter = SyntaxSlots<L>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}

pub struct PreorderWithTokens<L: Language> {
    start: SyntaxNode<L>,
    next: Option<WalkEvent<SyntaxElement<L>>>,
    skip_subtree: bool,
    direction: Direction,
}

impl<L: Language> PreorderWithTokens<L> {
    pub fn skip_subtree(&mut self) {
        self.skip_subtree = true;
    }
    fn do_skip(&mut self) {
        self.next = self.next.take().map(|event| match event {
            WalkEvent::Enter(child) => match child.parent() {
                Some(parent) => WalkEvent::Leave(NodeOrToken::Node(parent)),
                None => WalkEvent::Leave(child),
            },
            WalkEvent::Leave(element) => WalkEvent::Leave(element),
        })
    }
}

impl<L: Language> Iterator for PreorderWithTokens<L> {
    type Item = WalkEvent<SyntaxElement<L>>;
    fn next(&mut self) -> Option<Self::Item> {
        if self.skip_subtree {
            self.do_skip();
            self.skip_subtree = false;
        }
        let next = self.next.take();
        self.next = next.as_ref().and_then(|event| {
            Some(match event {
                WalkEvent::Enter(element) => match element {
                    NodeOrToken::Node(node) => {
                        let child = match self.direction {
                            Direction::Next => node.first_child_or_token(),
                            Direction::Prev => node.last_child_or_token(),
                        };
                        match child {
                            Some(child) => WalkEvent::Enter(child),
                            None => WalkEvent::Leave(element.clone()),
                        }
                    }
                    NodeOrToken::Token(_) => WalkEvent::Leave(element.clone()),
                },
                WalkEvent::Leave(element) => {
                    if let NodeOrToken::Node(node) = element
                        && *node == self.start
                    {
                        return None;
                    }
                    let sibling = match self.direction {
                        Direction::Next => element.next_sibling_or_token(),
                        Direction::Prev => element.prev_sibling_or_token(),
                    };
                    match sibling {
                        Some(sibling) => WalkEvent::Enter(sibling),
                        None => WalkEvent::Leave(NodeOrToken::Node(element.parent()?)),
                    }
                }
            })
        });
        next
    }
}

pub struct Preorder<L: Language> {
    inner: PreorderWithTokens<L>,
}

impl<L: Language> Preorder<L> {
    pub fn skip_subtree(&mut self) {
        // Tokens may be what comes next: going to the parent's end skips them as well.
        self.inner.skip_subtree();
    }
}

impl<L: Language> Iterator for Preorder<L> {
    type Item = WalkEvent<SyntaxNode<L>>;
    fn next(&mut self) -> Option<Self::Item> {
        loop {
            match self.inner.next()? {
                WalkEvent::Enter(NodeOrToken::Node(node)) => return Some(WalkEvent::Enter(node)),
                WalkEvent::Leave(NodeOrToken::Node(node)) => return Some(WalkEvent::Leave(node)),
                _ => {}
            }
        }
    }
}

/// A tree that can move to another thread.
#[derive(Debug, Clone)]
pub struct SendNode {
    language: &'static str,
    green: Arc<GreenNode>,
}

impl SendNode {
    pub fn into_node<L: Language>(self) -> Option<SyntaxNode<L>> {
        (self.language == std::any::type_name::<L>()).then(|| SyntaxNode::new_root(self.green))
    }
    #[doc(hidden)]
    pub fn __from_root<L: Language>(root: SyntaxNode<L>) -> Self {
        root.as_send().expect("a root")
    }
}

/// Text of the token, for those who look for it here.
impl<L: Language> From<&SyntaxToken<L>> for TokenText {
    fn from(token: &SyntaxToken<L>) -> Self {
        token.token_text_trimmed()
    }
}
