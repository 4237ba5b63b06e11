use std::fmt;
use std::marker::PhantomData;

use biome_text_size::TextRange;

use crate::{
    Language, NodeOrToken, RawSyntaxKind, SyntaxElement, SyntaxElementChildren, SyntaxError,
    SyntaxKind, SyntaxList, SyntaxNode, SyntaxNodeText, SyntaxResult, SyntaxSlot, SyntaxSlots,
    SyntaxToken,
};

/// Set of up to 512 kinds.
pub struct SyntaxKindSet<L: Language>([u128; 4], PhantomData<L>);

impl<L: Language> Clone for SyntaxKindSet<L> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<L: Language> Copy for SyntaxKindSet<L> {}

impl<L: Language> SyntaxKindSet<L> {
    pub const fn empty() -> Self {
        Self([0; 4], PhantomData)
    }
    pub fn of(kind: L::Kind) -> Self {
        Self::from_raw(kind.to_raw())
    }
    pub const fn from_raw(kind: RawSyntaxKind) -> Self {
        let mut bits = [0; 4];
        bits[kind.0 as usize / 128] |= 1 << (kind.0 as usize % 128);
        Self(bits, PhantomData)
    }
    pub const fn union(self, other: Self) -> Self {
        let mut bits = [0; 4];
        let mut i = 0;
        while i < 4 {
            bits[i] = self.0[i] | other.0[i];
            i += 1;
        }
        Self(bits, PhantomData)
    }
    pub fn matches(&self, kind: L::Kind) -> bool {
        let raw = kind.to_raw().0 as usize;
        self.0[raw / 128] >> (raw % 128) & 1 == 1
    }
    pub fn iter(self) -> impl Iterator<Item = L::Kind> {
        (0..512u16)
            .filter(move |i| self.0[*i as usize / 128] >> (*i % 128) & 1 == 1)
            .map(|i| L::Kind::from_raw(RawSyntaxKind(i)))
    }
}

pub trait AstNode: Clone {
    type Language: Language;

    const KIND_SET: SyntaxKindSet<Self::Language>;

    fn can_cast(kind: <Self::Language as Language>::Kind) -> bool;

    fn cast(syntax: SyntaxNode<Self::Language>) -> Option<Self>
    where
        Self: Sized;

    fn cast_ref(syntax: &SyntaxNode<Self::Language>) -> Option<Self>
    where
        Self: Sized,
    {
        Self::can_cast(syntax.kind()).then(|| Self::unwrap_cast(syntax.clone()))
    }

    fn try_cast(
        syntax: SyntaxNode<Self::Language>,
    ) -> Result<Self, SyntaxNode<Self::Language>> {
        if Self::can_cast(syntax.kind()) {
            Ok(Self::unwrap_cast(syntax))
        } else {
            Err(syntax)
        }
    }

    fn try_cast_node<T: AstNode<Language = Self::Language>>(node: T) -> Result<Self, T> {
        if Self::can_cast(node.syntax().kind()) {
            Ok(Self::unwrap_cast(node.into_syntax()))
        } else {
            Err(node)
        }
    }

    fn syntax(&self) -> &SyntaxNode<Self::Language>;

    fn into_syntax(self) -> SyntaxNode<Self::Language>;

    fn unwrap_cast(syntax: SyntaxNode<Self::Language>) -> Self
    where
        Self: Sized,
    {
        let kind = syntax.kind();
        Self::cast(syntax).unwrap_or_else(|| {
            panic!(
                "Tried to cast node with kind {:?} as `{:?}` but was unable to cast",
                kind,
                std::any::type_name::<Self>()
            )
        })
    }

    fn to_trimmed_text(&self) -> SyntaxNodeText {
        self.syntax().text_trimmed()
    }
    fn to_trimmed_string(&self) -> String {
        self.syntax().text_trimmed().to_string()
    }
    fn text(&self) -> String {
        self.to_trimmed_string()
    }
    fn range(&self) -> TextRange {
        self.syntax().text_trimmed_range()
    }
    fn parent<T: AstNode<Language = Self::Language>>(&self) -> Option<T> {
        self.syntax().parent().and_then(T::cast)
    }
}

impl<L: Language> AstNode for SyntaxNode<L> {
    type Language = L;
    const KIND_SET: SyntaxKindSet<L> = SyntaxKindSet([u128::MAX; 4], PhantomData);
    fn can_cast(_: L::Kind) -> bool {
        true
    }
    fn cast(syntax: SyntaxNode<L>) -> Option<Self> {
        Some(syntax)
    }
    fn syntax(&self) -> &SyntaxNode<L> {
        self
    }
    fn into_syntax(self) -> SyntaxNode<L> {
        self
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct AstNodeSlotMap<const N: usize>(pub [u8; N]);

pub trait AstNodeList {
    type Language: Language;
    type Node: AstNode<Language = Self::Language>;

    fn syntax_list(&self) -> &SyntaxList<Self::Language>;
    fn into_syntax_list(self) -> SyntaxList<Self::Language>;

    fn iter(&self) -> AstNodeListIterator<Self::Language, Self::Node> {
        AstNodeListIterator { inner: self.syntax_list().iter(), ph: PhantomData }
    }
    fn len(&self) -> usize {
        self.syntax_list().len()
    }
    fn first(&self) -> Option<Self::Node> {
        self.iter().next()
    }
    fn last(&self) -> Option<Self::Node> {
        self.iter().next_back()
    }
    fn is_empty(&self) -> bool {
        self.len() == 0
    }
}

#[derive(Debug, Clone)]
pub struct AstNodeListIterator<L: Language, N> {
    inner: SyntaxSlots<L>,
    ph: PhantomData<N>,
}

fn slot_to_node<L: Language, N: AstNode<Language = L>>(slot: SyntaxSlot<L>) -> N {
    match slot {
        SyntaxSlot::Empty { .. } => {
            panic!("Node isn't permitted to contain empty slots")
        }
        SyntaxSlot::Node(node) => N::unwrap_cast(node),
        SyntaxSlot::Token(token) => panic!("expected node, found token: {token:?}"),
    }
}

impl<L: Language, N: AstNode<Language = L>> Iterator for AstNodeListIterator<L, N> {
    type Item = N;
    fn next(&mut self) -> Option<N> {
        self.inner.next().map(slot_to_node)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.inner.size_hint()
    }
}
impl<L: Language, N: AstNode<Language = L>> DoubleEndedIterator for AstNodeListIterator<L, N> {
    fn next_back(&mut self) -> Option<N> {
        self.inner.next_back().map(slot_to_node)
    }
}
impl<L: Language, N: AstNode<Language = L>> ExactSizeIterator for AstNodeListIterator<L, N> {}
impl<L: Language, N: AstNode<Language = L>> std::iter::FusedIterator for AstNodeListIterator<L, N> {}

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct AstSeparatedElement<L: Language, N> {
    pub node: SyntaxResult<N>,
    pub trailing_separator: SyntaxResult<Option<SyntaxToken<L>>>,
}

impl<L: Language, N: AstNode<Language = L> + Clone> AstSeparatedElement<L, N> {
    pub fn node(&self) -> SyntaxResult<&N> {
        match &self.node {
            Ok(node) => Ok(node),
            Err(err) => Err(*err),
        }
    }
    pub fn trailing_separator(&self) -> SyntaxResult<Option<&SyntaxToken<L>>> {
        match &self.trailing_separator {
            Ok(Some(sep)) => Ok(Some(sep)),
            Ok(None) => Ok(None),
            Err(err) => Err(*err),
        }
    }
    pub fn into_node(self) -> SyntaxResult<N> {
        self.node
    }
    pub fn into_trailing_separator(self) -> SyntaxResult<Option<SyntaxToken<L>>> {
        self.trailing_separator
    }
}

impl<L: Language, N: fmt::Debug> fmt::Debug for AstSeparatedElement<L, N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match &self.node {
            Ok(node) => fmt::Debug::fmt(node, f)?,
            Err(_) => f.write_str("missing element")?,
        };
        match &self.trailing_separator {
            Ok(Some(separator)) => {
                f.write_str(",\n")?;
                fmt::Debug::fmt(separator, f)
            }
            Err(_) => f.write_str(",\nmissing separator"),
            Ok(None) => Ok(()),
        }
    }
}

pub trait AstSeparatedList {
    type Language: Language;
    type Node: AstNode<Language = Self::Language>;

    fn syntax_list(&self) -> &SyntaxList<Self::Language>;
    fn into_syntax_list(self) -> SyntaxList<Self::Language>;

    fn elements(&self) -> AstSeparatedListElementsIterator<Self::Language, Self::Node> {
        AstSeparatedListElementsIterator {
            slots: self.syntax_list().iter(),
            ph: PhantomData,
        }
    }
    fn iter(&self) -> AstSeparatedListNodesIterator<Self::Language, Self::Node> {
        AstSeparatedListNodesIterator { inner: self.elements() }
    }
    fn separators(
        &self,
    ) -> std::vec::IntoIter<SyntaxResult<SyntaxToken<Self::Language>>> {
        let mut separators = Vec::new();
        for element in self.elements() {
            match element.trailing_separator {
                Ok(Some(token)) => separators.push(Ok(token)),
                Ok(None) => {}
                Err(error) => separators.push(Err(error)),
            }
        }
        separators.into_iter()
    }
    fn trailing_separator(&self) -> Option<SyntaxToken<Self::Language>> {
        self.elements().last()?.trailing_separator.ok()?
    }
    fn first(&self) -> Option<SyntaxResult<Self::Node>> {
        self.iter().next()
    }
    fn last(&self) -> Option<SyntaxResult<Self::Node>> {
        self.iter().next_back()
    }
    fn is_empty(&self) -> bool {
        self.len() == 0
    }
    fn len(&self) -> usize {
        self.syntax_list().len().div_ceil(2)
    }
}

pub struct AstSeparatedListElementsIterator<L: Language, N> {
    slots: SyntaxSlots<L>,
    ph: PhantomData<N>,
}

impl<L: Language, N> Clone for AstSeparatedListElementsIterator<L, N> {
    fn clone(&self) -> Self {
        Self { slots: self.slots.clone(), ph: PhantomData }
    }
}

fn slot_node<L: Language, N: AstNode<Language = L>>(slot: SyntaxSlot<L>) -> SyntaxResult<N> {
    match slot {
        SyntaxSlot::Node(node) => Ok(N::unwrap_cast(node)),
        SyntaxSlot::Token(token) => panic!("Malformed list, node expected but found token {token:?} instead."),
        SyntaxSlot::Empty { .. } => Err(SyntaxError::MissingRequiredChild),
    }
}

fn slot_separator<L: Language>(
    slot: Option<SyntaxSlot<L>>,
) -> SyntaxResult<Option<SyntaxToken<L>>> {
    match slot {
        Some(SyntaxSlot::Token(token)) => Ok(Some(token)),
        Some(SyntaxSlot::Node(node)) => panic!("Malformed separated list, separator expected but found node {node:?} instead."),
        Some(SyntaxSlot::Empty { .. }) => Err(SyntaxError::MissingRequiredChild),
        None => Ok(None),
    }
}

impl<L: Language, N: AstNode<Language = L>> Iterator for AstSeparatedListElementsIterator<L, N> {
    type Item = AstSeparatedElement<L, N>;
    fn next(&mut self) -> Option<Self::Item> {
        let node = slot_node(self.slots.next()?);
        let trailing_separator = slot_separator(self.slots.next());
        Some(AstSeparatedElement { node, trailing_separator })
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let len = self.slots.len().div_ceil(2);
        (len, Some(len))
    }
}
impl<L: Language, N: AstNode<Language = L>> ExactSizeIterator for AstSeparatedListElementsIterator<L, N> {}
impl<L: Language, N: AstNode<Language = L>> std::iter::FusedIterator for AstSeparatedListElementsIterator<L, N> {}
impl<L: Language, N: AstNode<Language = L>> DoubleEndedIterator
    for AstSeparatedListElementsIterator<L, N>
{
    fn next_back(&mut self) -> Option<Self::Item> {
        let separator =
            if self.slots.len() % 2 == 0 { Some(self.slots.next_back()?) } else { None };
        let node = slot_node(self.slots.next_back()?);
        Some(AstSeparatedElement { node, trailing_separator: slot_separator(separator) })
    }
}

pub struct AstSeparatedListNodesIterator<L: Language, N> {
    inner: AstSeparatedListElementsIterator<L, N>,
}

impl<L: Language, N> Clone for AstSeparatedListNodesIterator<L, N> {
    fn clone(&self) -> Self {
        Self { inner: self.inner.clone() }
    }
}

impl<L: Language, N: AstNode<Language = L>> Iterator for AstSeparatedListNodesIterator<L, N> {
    type Item = SyntaxResult<N>;
    fn next(&mut self) -> Option<Self::Item> {
        self.inner.next().map(|element| element.node)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.inner.size_hint()
    }
}
impl<L: Language, N: AstNode<Language = L>> DoubleEndedIterator for AstSeparatedListNodesIterator<L, N> {
    fn next_back(&mut self) -> Option<Self::Item> {
        self.inner.next_back().map(|element| element.node)
    }
}
impl<L: Language, N: AstNode<Language = L>> ExactSizeIterator for AstSeparatedListNodesIterator<L, N> {}
impl<L: Language, N: AstNode<Language = L>> std::iter::FusedIterator for AstSeparatedListNodesIterator<L, N> {}

pub mod support {
    use super::*;

    pub fn node<L: Language, N: AstNode<Language = L>>(
        parent: &SyntaxNode<L>,
        slot_index: usize,
    ) -> Option<N> {
        match slot(parent, slot_index)? {
            NodeOrToken::Node(node) => Some(N::unwrap_cast(node)),
            NodeOrToken::Token(token) => panic!("expected a node in the slot {slot_index} but found token {token:?}"),
        }
    }
    pub fn required_node<L: Language, N: AstNode<Language = L>>(
        parent: &SyntaxNode<L>,
        slot_index: usize,
    ) -> SyntaxResult<N> {
        node(parent, slot_index).ok_or(SyntaxError::MissingRequiredChild)
    }
    pub fn list<L: Language, N: AstNode<Language = L>>(
        parent: &SyntaxNode<L>,
        slot_index: usize,
    ) -> N {
        required_node(parent, slot_index)
            .unwrap_or_else(|_| panic!("expected a list in slot {slot_index} but found none"))
    }
    pub fn token<L: Language>(
        parent: &SyntaxNode<L>,
        slot_index: usize,
    ) -> Option<SyntaxToken<L>> {
        match slot(parent, slot_index)? {
            NodeOrToken::Token(token) => Some(token),
            NodeOrToken::Node(node) => panic!("expected a token in the slot {slot_index} but found node {node:?}"),
        }
    }
    pub fn required_token<L: Language>(
        parent: &SyntaxNode<L>,
        slot_index: usize,
    ) -> SyntaxResult<SyntaxToken<L>> {
        token(parent, slot_index).ok_or(SyntaxError::MissingRequiredChild)
    }
    pub fn elements<L: Language>(parent: &SyntaxNode<L>) -> SyntaxElementChildren<L> {
        parent.children_with_tokens()
    }
    fn slot<L: Language>(parent: &SyntaxNode<L>, index: usize) -> Option<SyntaxElement<L>> {
        assert!(index < parent.slot_count(), "slot {index} out of bounds of {parent:?}");
        parent.slot(index)
    }

    pub struct DebugSyntaxResult<N>(pub SyntaxResult<N>);
    impl<N: fmt::Debug> fmt::Debug for DebugSyntaxResult<N> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            match &self.0 {
                Ok(node) => fmt::Debug::fmt(node, f),
                Err(SyntaxError::MissingRequiredChild) => f.write_str("missing (required)"),
                Err(err) => fmt::Debug::fmt(err, f),
            }
        }
    }
    pub struct DebugOptionalElement<N>(pub Option<N>);
    impl<N: fmt::Debug> fmt::Debug for DebugOptionalElement<N> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            match &self.0 {
                Some(node) => fmt::Debug::fmt(node, f),
                None => f.write_str("missing (optional)"),
            }
        }
    }
}
