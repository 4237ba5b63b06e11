use std::fmt;
use std::sync::Arc;

use crate::green::{GreenElement, GreenNode, GreenToken};
use crate::{SyntaxKind, TriviaPiece};

/// Children of a node as they were parsed.
pub struct ParsedChildren<K> {
    elements: Vec<RawSyntaxElement<K>>,
}

pub struct RawSyntaxElement<K> {
    kind: K,
    green: GreenElement,
}

impl<K: Copy> RawSyntaxElement<K> {
    pub fn kind(&self) -> K {
        self.kind
    }
}

impl<K> fmt::Debug for RawSyntaxElement<K> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self.green.kind())
    }
}

impl<K> ParsedChildren<K> {
    pub fn len(&self) -> usize {
        self.elements.len()
    }
    pub fn is_empty(&self) -> bool {
        self.elements.is_empty()
    }
}

impl<K> IntoIterator for ParsedChildren<K> {
    type Item = RawSyntaxElement<K>;
    type IntoIter = std::vec::IntoIter<RawSyntaxElement<K>>;
    fn into_iter(self) -> Self::IntoIter {
        self.elements.into_iter()
    }
}
impl<'a, K> IntoIterator for &'a ParsedChildren<K> {
    type Item = &'a RawSyntaxElement<K>;
    type IntoIter = std::slice::Iter<'a, RawSyntaxElement<K>>;
    fn into_iter(self) -> Self::IntoIter {
        self.elements.iter()
    }
}

pub struct RawSyntaxNode<K> {
    kind: K,
    slots: Vec<Option<RawSyntaxElement<K>>>,
}

impl<K: SyntaxKind> RawSyntaxNode<K> {
    pub fn new<I>(kind: K, slots: I) -> Self
    where
        I: IntoIterator<Item = Option<RawSyntaxElement<K>>>,
        I::IntoIter: ExactSizeIterator,
    {
        Self { kind, slots: slots.into_iter().collect() }
    }
}

/// Which of the N slots are taken by the children, which come in order.
pub struct RawNodeSlots<const N: usize> {
    present: Vec<bool>,
    current: bool,
}

impl<const N: usize> Default for RawNodeSlots<N> {
    fn default() -> Self {
        Self { present: Vec::with_capacity(N), current: false }
    }
}

impl<const N: usize> RawNodeSlots<N> {
    pub fn mark_present(&mut self) {
        self.current = true;
    }
    pub fn next_slot(&mut self) {
        assert!(self.present.len() < N);
        self.present.push(self.current);
        self.current = false;
    }
    pub fn into_node<K: SyntaxKind>(
        self,
        kind: K,
        children: ParsedChildren<K>,
    ) -> RawSyntaxNode<K> {
        assert_eq!(self.present.len(), N, "missing slots");
        let mut children = children.into_iter();
        let slots = self
            .present
            .into_iter()
            .map(|present| present.then(|| children.next().expect("a child")))
            .collect();
        RawSyntaxNode { kind, slots }
    }
}

pub trait SyntaxFactory: fmt::Debug {
    type Kind: SyntaxKind;

    fn make_syntax(
        kind: Self::Kind,
        children: ParsedChildren<Self::Kind>,
    ) -> RawSyntaxNode<Self::Kind>;

    fn make_node_list_syntax(
        kind: Self::Kind,
        children: ParsedChildren<Self::Kind>,
        can_cast: fn(Self::Kind) -> bool,
    ) -> RawSyntaxNode<Self::Kind> {
        let valid = (&children).into_iter().all(|element| can_cast(element.kind));
        let kind = if valid { kind } else { kind.to_bogus() };
        RawSyntaxNode::new(kind, children.into_iter().map(Some))
    }

    fn make_separated_list_syntax(
        kind: Self::Kind,
        children: ParsedChildren<Self::Kind>,
        can_cast: fn(Self::Kind) -> bool,
        separator: Self::Kind,
        allow_trailing: bool,
    ) -> RawSyntaxNode<Self::Kind> {
        let any = !children.is_empty();
        let mut slots = Vec::with_capacity(children.len());
        let mut next_node = true;
        let mut valid = true;
        for child in &children {
            if next_node {
                if child.kind == separator {
                    slots.push(false);
                } else {
                    valid &= can_cast(child.kind);
                    next_node = false;
                }
            } else if child.kind == separator {
                next_node = true;
            } else {
                slots.push(false);
                valid &= can_cast(child.kind);
            }
            slots.push(true);
        }
        if next_node && !allow_trailing && any {
            slots.push(false);
        }
        if !valid {
            return RawSyntaxNode::new(kind.to_bogus(), children.into_iter().map(Some));
        }
        let mut children = children.into_iter();
        RawSyntaxNode {
            kind,
            slots: slots
                .into_iter()
                .map(|present| present.then(|| children.next().expect("a child")))
                .collect(),
        }
    }
}

/// Would share equal subtrees between parses, which is not observable.
#[derive(Debug, Default)]
pub struct NodeCache {
    _private: (),
}

/// Builds a tree from events in order.
pub struct TreeBuilder<L: crate::Language, F: SyntaxFactory<Kind = L::Kind>> {
    stack: Vec<(L::Kind, Vec<RawSyntaxElement<L::Kind>>)>,
    root: Option<RawSyntaxElement<L::Kind>>,
    _p: std::marker::PhantomData<F>,
}

impl<L: crate::Language, F: SyntaxFactory<Kind = L::Kind>> Default for TreeBuilder<L, F> {
    fn default() -> Self {
        Self { stack: Vec::new(), root: None, _p: std::marker::PhantomData }
    }
}

impl<L: crate::Language, F: SyntaxFactory<Kind = L::Kind>> TreeBuilder<L, F> {
    pub fn start_node(&mut self, kind: L::Kind) {
        self.stack.push((kind, Vec::new()));
    }
    pub fn token_with_trivia(
        &mut self,
        kind: L::Kind,
        text: &str,
        leading: &[TriviaPiece],
        trailing: &[TriviaPiece],
    ) {
        let green = GreenElement::Token(Arc::new(GreenToken {
            kind: kind.to_raw(),
            text: text.into(),
            leading: leading.to_vec(),
            trailing: trailing.to_vec(),
        }));
        let element = RawSyntaxElement { kind, green };
        self.stack.last_mut().expect("a token outside of any node").1.push(element);
    }
    pub fn finish_node(&mut self) {
        let (kind, elements) = self.stack.pop().expect("unbalanced finish");
        let raw = F::make_syntax(kind, ParsedChildren { elements });
        let slots = raw.slots.into_iter().map(|slot| slot.map(|it| it.green)).collect();
        let green = Arc::new(GreenNode::new(raw.kind.to_raw(), slots));
        let element = RawSyntaxElement { kind: raw.kind, green: GreenElement::Node(green) };
        match self.stack.last_mut() {
            Some((_, elements)) => elements.push(element),
            None => {
                assert!(self.root.is_none(), "two roots");
                self.root = Some(element);
            }
        }
    }
    pub fn finish(self) -> crate::SyntaxNode<L> {
        assert!(self.stack.is_empty(), "unbalanced events");
        match self.root.expect("a root").green {
            GreenElement::Node(green) => crate::SyntaxNode::new_root(green),
            GreenElement::Token(_) => unreachable!(),
        }
    }
}
