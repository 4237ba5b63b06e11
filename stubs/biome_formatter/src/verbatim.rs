//! Nodes that are printed as they are in the source.

use biome_rowan::{AstNode, Direction, Language, SyntaxElement, SyntaxNode};

use crate::element::{FormatElement, Tag, VerbatimKind};
use crate::prelude::*;
use crate::trivia::{FormatLeadingComments, FormatTrailingComments, LINE_TERMINATORS};
use crate::{CstFormatContext, FormatWithRule, normalize_newlines};

pub fn format_verbatim_node<L: Language>(node: &SyntaxNode<L>) -> FormatVerbatimNode<'_, L> {
    FormatVerbatimNode {
        node,
        kind: VerbatimKind::Verbatim { length: node.text_range_with_trivia().len() },
        format_comments: true,
    }
}

pub fn format_bogus_node<L: Language>(node: &SyntaxNode<L>) -> FormatVerbatimNode<'_, L> {
    FormatVerbatimNode { node, kind: VerbatimKind::Bogus, format_comments: true }
}

pub fn format_suppressed_node<L: Language>(node: &SyntaxNode<L>) -> FormatVerbatimNode<'_, L> {
    FormatVerbatimNode { node, kind: VerbatimKind::Suppressed, format_comments: true }
}

#[allow(dead_code)]
pub fn format_verbatim_skipped<L: Language>(node: &SyntaxNode<L>) -> FormatVerbatimNode<'_, L> {
    FormatVerbatimNode { node, kind: VerbatimKind::Suppressed, format_comments: false }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct FormatVerbatimNode<'node, L: Language> {
    node: &'node SyntaxNode<L>,
    kind: VerbatimKind,
    format_comments: bool,
}

impl<Context> Format<Context> for FormatVerbatimNode<'_, Context::Language>
where
    Context: CstFormatContext,
{
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        for element in self.node.descendants_with_tokens(Direction::Next) {
            match element {
                SyntaxElement::Token(token) => f.state_mut().track_token(&token),
                SyntaxElement::Node(node) => {
                    let comments = f.context().comments();
                    comments.mark_suppression_checked(&node);
                    for comment in comments.leading_dangling_trailing_comments(&node) {
                        comment.mark_formatted();
                    }
                }
            }
        }

        let trimmed = self.node.text_trimmed_range();
        f.write_element(FormatElement::Tag(Tag::StartVerbatim(self.kind)))?;
        let comments = f.context().comments().clone();

        if self.format_comments {
            let leading = comments.leading_comments(self.node);
            let split =
                leading.partition_point(|comment| comment.piece().text_range().end() <= trimmed.start());
            let (outside, inside) = leading.split_at(split);
            FormatLeadingComments::Comments(outside).fmt(f)?;
            for comment in inside {
                comment.mark_formatted();
            }
        }

        let source = self.node.text_trimmed().to_string();
        dynamic_text(&normalize_newlines(&source, LINE_TERMINATORS), trimmed.start()).fmt(f)?;

        for comment in comments.dangling_comments(self.node) {
            comment.mark_formatted();
        }

        if self.format_comments {
            let trailing = comments.trailing_comments(self.node);
            let split =
                trailing.partition_point(|comment| comment.piece().text_range().end() <= trimmed.end());
            let (inside, outside) = trailing.split_at(split);
            for comment in inside {
                comment.mark_formatted();
            }
            FormatTrailingComments::Comments(outside).fmt(f)?;
        }

        f.write_element(FormatElement::Tag(Tag::EndVerbatim))
    }
}

/// Formats a node, or prints it as it is if it has a syntax error.
pub fn format_or_verbatim<F>(inner: F) -> FormatNodeOrVerbatim<F> {
    FormatNodeOrVerbatim { inner }
}

pub struct FormatNodeOrVerbatim<F> {
    inner: F,
}

impl<F, Context, Item> Format<Context> for FormatNodeOrVerbatim<F>
where
    F: FormatWithRule<Context, Item = Item>,
    Item: AstNode<Language = Context::Language>,
    Context: CstFormatContext,
{
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        let snapshot = Formatter::snapshot(f);
        match self.inner.fmt(f) {
            Err(FormatError::SyntaxError) => {
                f.restore_snapshot(snapshot);
                format_suppressed_node(self.inner.item().syntax()).fmt(f)
            }
            result => result,
        }
    }
}
