use std::iter::FusedIterator;

use biome_rowan::{AstNode, AstSeparatedElement, Language, SyntaxResult, SyntaxToken};

use crate::prelude::*;
use crate::{CstFormatContext, GroupId};

pub trait FormatSeparatedElementRule<N>
where
    N: AstNode,
{
    type Context;
    type FormatNode<'a>: Format<Self::Context>
    where
        N: 'a;
    type FormatSeparator<'a>: Format<Self::Context>
    where
        N: 'a;

    fn format_node<'a>(&self, node: &'a N) -> Self::FormatNode<'a>;
    fn format_separator<'a>(&self, separator: &'a SyntaxToken<N::Language>) -> Self::FormatSeparator<'a>;
}

#[derive(Debug, Default, Eq, PartialEq, Clone, Copy)]
pub enum TrailingSeparator {
    #[default]
    Allowed,
    Disallowed,
    Mandatory,
    Omit,
}

impl TrailingSeparator {
    pub const fn is_allowed(&self) -> bool {
        matches!(self, TrailingSeparator::Allowed)
    }
    pub const fn is_mandatory(&self) -> bool {
        matches!(self, TrailingSeparator::Mandatory)
    }
}

#[derive(Debug, Default, Copy, Clone)]
pub struct FormatSeparatedOptions {
    trailing_separator: TrailingSeparator,
    group_id: Option<GroupId>,
    nodes_grouped: bool,
}

pub struct FormatSeparatedElement<N, R>
where
    N: AstNode,
    R: FormatSeparatedElementRule<N>,
{
    element: AstSeparatedElement<N::Language, N>,
    rule: R,
    is_last: bool,
    separator: &'static str,
    options: FormatSeparatedOptions,
}

impl<N, R> FormatSeparatedElement<N, R>
where
    N: AstNode + Clone,
    R: FormatSeparatedElementRule<N>,
{
    pub fn node(&self) -> SyntaxResult<&N> {
        self.element.node()
    }
}

impl<N, R, C> Format<C> for FormatSeparatedElement<N, R>
where
    N: AstNode + Clone,
    N::Language: 'static,
    R: FormatSeparatedElementRule<N, Context = C>,
    C: CstFormatContext<Language = N::Language>,
{
    fn fmt(&self, f: &mut Formatter<C>) -> FormatResult<()> {
        let node = self.element.node()?;
        let separator = self.element.trailing_separator()?;

        let format_node = self.rule.format_node(node);
        if self.options.nodes_grouped {
            group(&format_node).fmt(f)?;
        } else {
            format_node.fmt(f)?;
        }

        if let Some(separator) = separator {
            let format_separator = self.rule.format_separator(separator);
            if !self.is_last {
                return format_separator.fmt(f);
            }
            match self.options.trailing_separator {
                TrailingSeparator::Allowed => {
                    f.state_mut().track_token(separator);
                    if_group_breaks(&crate::trivia::format_trimmed_token(separator))
                        .with_group_id(self.options.group_id)
                        .fmt(f)
                }
                TrailingSeparator::Mandatory => format_separator.fmt(f),
                // Present where it's not allowed: not formatted
                TrailingSeparator::Disallowed => Err(FormatError::SyntaxError),
                TrailingSeparator::Omit => format_removed(separator).fmt(f),
            }
        } else if self.is_last {
            match self.options.trailing_separator {
                TrailingSeparator::Allowed => {
                    if_group_breaks(&text(self.separator)).with_group_id(self.options.group_id).fmt(f)
                }
                TrailingSeparator::Mandatory => text(self.separator).fmt(f),
                TrailingSeparator::Omit | TrailingSeparator::Disallowed => Ok(()),
            }
        } else {
            unreachable!("This is a syntax error, separator must be present between every two elements");
        }
    }
}

pub struct FormatSeparatedIter<I, Node, Rule>
where
    Node: AstNode,
{
    next: Option<AstSeparatedElement<Node::Language, Node>>,
    rule: Rule,
    inner: I,
    separator: &'static str,
    options: FormatSeparatedOptions,
}

impl<I, L, Node, Rule> FormatSeparatedIter<I, Node, Rule>
where
    I: Iterator<Item = AstSeparatedElement<L, Node>>,
    L: Language,
    Node: AstNode<Language = L>,
{
    pub fn new(inner: I, separator: &'static str, rule: Rule) -> Self {
        Self { inner, rule, separator, next: None, options: FormatSeparatedOptions::default() }
    }
    pub fn nodes_grouped(mut self) -> Self {
        self.options.nodes_grouped = true;
        self
    }
    pub fn with_trailing_separator(mut self, separator: TrailingSeparator) -> Self {
        self.options.trailing_separator = separator;
        self
    }
    pub fn with_group_id(mut self, group_id: Option<GroupId>) -> Self {
        self.options.group_id = group_id;
        self
    }
}

impl<I, Node, Rule> Iterator for FormatSeparatedIter<I, Node, Rule>
where
    I: Iterator<Item = AstSeparatedElement<Node::Language, Node>>,
    Node: AstNode,
    Rule: FormatSeparatedElementRule<Node> + Clone,
{
    type Item = FormatSeparatedElement<Node, Rule>;

    fn next(&mut self) -> Option<Self::Item> {
        let element = self.next.take().or_else(|| self.inner.next())?;
        self.next = self.inner.next();
        Some(FormatSeparatedElement {
            element,
            rule: self.rule.clone(),
            is_last: self.next.is_none(),
            separator: self.separator,
            options: self.options,
        })
    }
}

impl<I, Node, Rule> FusedIterator for FormatSeparatedIter<I, Node, Rule>
where
    I: Iterator<Item = AstSeparatedElement<Node::Language, Node>> + FusedIterator,
    Node: AstNode,
    Rule: FormatSeparatedElementRule<Node> + Clone,
{
}

impl<I, Node, Rule> ExactSizeIterator for FormatSeparatedIter<I, Node, Rule>
where
    I: Iterator<Item = AstSeparatedElement<Node::Language, Node>> + ExactSizeIterator,
    Node: AstNode,
    Rule: FormatSeparatedElementRule<Node> + Clone,
{
}
