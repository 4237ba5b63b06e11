//! Comments around nodes, and tokens.

use std::borrow::Cow;

use biome_rowan::{Language, SyntaxNode, SyntaxToken, SyntaxTriviaPiece, TextLen};

use crate::comments::{CommentKind, SourceComment};
use crate::prelude::*;
use crate::{Argument, Arguments, CstFormatContext, FormatRefWithRule, normalize_newlines, write};

pub(crate) const LINE_TERMINATORS: [char; 3] = ['\r', '\u{2028}', '\u{2029}'];

impl<L: Language, Context> Format<Context> for SyntaxTriviaPiece<L> {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        let text = self.text();
        let trimmed = text.trim_start();
        let start = self.text_range().start() + (text.text_len() - trimmed.text_len());
        let trimmed = trimmed.trim_end();
        let token = self.token();
        match normalize_newlines(trimmed, LINE_TERMINATORS) {
            Cow::Borrowed(text) => {
                syntax_token_text_slice(&token, biome_rowan::TextRange::at(start, text.text_len())).fmt(f)
            }
            Cow::Owned(text) => dynamic_text(&text, start).fmt(f),
        }
    }
}

pub const fn format_leading_comments<L: Language>(node: &SyntaxNode<L>) -> FormatLeadingComments<'_, L> {
    FormatLeadingComments::Node(node)
}

#[derive(Debug, Copy, Clone)]
pub enum FormatLeadingComments<'a, L: Language> {
    Node(&'a SyntaxNode<L>),
    Comments(&'a [SourceComment<L>]),
}

impl<Context> Format<Context> for FormatLeadingComments<'_, Context::Language>
where
    Context: CstFormatContext,
{
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        let comments = f.context().comments().clone();
        let leading = match self {
            FormatLeadingComments::Node(node) => comments.leading_comments(node),
            FormatLeadingComments::Comments(comments) => comments,
        };
        for comment in leading {
            let format_comment = FormatRefWithRule::new(comment, Context::CommentRule::default());
            write!(f, [format_comment])?;
            match comment.kind() {
                CommentKind::Block | CommentKind::InlineBlock => match comment.lines_after() {
                    0 => write!(f, [space()])?,
                    1 => {
                        if comment.lines_before() == 0 {
                            write!(f, [soft_line_break_or_space()])?;
                        } else {
                            write!(f, [hard_line_break()])?;
                        }
                    }
                    _ => write!(f, [empty_line()])?,
                },
                CommentKind::Line => match comment.lines_after() {
                    0 | 1 => write!(f, [hard_line_break()])?,
                    _ => write!(f, [empty_line()])?,
                },
            }
            comment.mark_formatted()
        }
        Ok(())
    }
}

pub const fn format_trailing_comments<L: Language>(node: &SyntaxNode<L>) -> FormatTrailingComments<'_, L> {
    FormatTrailingComments::Node(node)
}

#[derive(Debug, Clone, Copy)]
pub enum FormatTrailingComments<'a, L: Language> {
    Node(&'a SyntaxNode<L>),
    Comments(&'a [SourceComment<L>]),
}

impl<Context> Format<Context> for FormatTrailingComments<'_, Context::Language>
where
    Context: CstFormatContext,
{
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        let comments = f.context().comments().clone();
        let trailing = match self {
            FormatTrailingComments::Node(node) => comments.trailing_comments(node),
            FormatTrailingComments::Comments(comments) => comments,
        };
        let mut total_lines_before = 0;
        let mut previous: Option<&SourceComment<Context::Language>> = None;
        for comment in trailing {
            total_lines_before += comment.lines_before();
            let format_comment = FormatRefWithRule::new(comment, Context::CommentRule::default());
            if total_lines_before > 0 {
                write!(
                    f,
                    [
                        line_suffix(&format_with(|f| {
                            match comment.lines_before() {
                                0 => match previous {
                                    Some(previous) if previous.kind().is_block() => write!(f, [space()])?,
                                    _ => write!(f, [hard_line_break()])?,
                                },
                                1 => write!(f, [hard_line_break()])?,
                                _ => write!(f, [empty_line()])?,
                            };
                            write!(f, [format_comment])
                        })),
                        expand_parent()
                    ]
                )?;
            } else {
                let content = format_with(|f| write!(f, [space(), format_comment]));
                if comment.kind().is_line() {
                    write!(f, [line_suffix(&content), expand_parent()])?;
                } else {
                    write!(f, [content])?;
                }
            }
            previous = Some(comment);
            comment.mark_formatted();
        }
        Ok(())
    }
}

pub const fn format_dangling_comments<L: Language>(node: &SyntaxNode<L>) -> FormatDanglingComments<'_, L> {
    FormatDanglingComments::Node { node, indent: DanglingIndentMode::None }
}

#[derive(Clone, Debug)]
pub enum FormatDanglingComments<'a, L: Language> {
    Node { node: &'a SyntaxNode<L>, indent: DanglingIndentMode },
    Comments { comments: &'a [SourceComment<L>], indent: DanglingIndentMode },
}

#[derive(Copy, Clone, Debug)]
pub enum DanglingIndentMode {
    Block,
    SoftBlock,
    SoftSpace,
    None,
}

impl<L: Language> FormatDanglingComments<'_, L> {
    pub fn with_block_indent(self) -> Self {
        self.with_indent_mode(DanglingIndentMode::Block)
    }
    pub fn with_soft_block_indent(self) -> Self {
        self.with_indent_mode(DanglingIndentMode::SoftBlock)
    }
    pub fn with_soft_space_indent(self) -> Self {
        self.with_indent_mode(DanglingIndentMode::SoftSpace)
    }
    fn with_indent_mode(mut self, mode: DanglingIndentMode) -> Self {
        match &mut self {
            FormatDanglingComments::Node { indent, .. } => *indent = mode,
            FormatDanglingComments::Comments { indent, .. } => *indent = mode,
        }
        self
    }
    const fn indent(&self) -> DanglingIndentMode {
        match self {
            FormatDanglingComments::Node { indent, .. } => *indent,
            FormatDanglingComments::Comments { indent, .. } => *indent,
        }
    }
}

impl<Context> Format<Context> for FormatDanglingComments<'_, Context::Language>
where
    Context: CstFormatContext,
{
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        let comments = f.context().comments().clone();
        let dangling = match self {
            FormatDanglingComments::Node { node, .. } => comments.dangling_comments(node),
            FormatDanglingComments::Comments { comments, .. } => comments,
        };
        if dangling.is_empty() {
            return Ok(());
        }
        let content = format_with(|f: &mut Formatter<Context>| {
            let mut previous: Option<&SourceComment<Context::Language>> = None;
            for comment in dangling {
                if let Some(previous) = previous {
                    match previous.lines_after() {
                        0 if !previous.kind().is_line() => write!(f, [space()])?,
                        0 | 1 => write!(f, [hard_line_break()])?,
                        _ => write!(f, [empty_line()])?,
                    }
                }
                let format_comment = FormatRefWithRule::new(comment, Context::CommentRule::default());
                write!(f, [format_comment])?;
                comment.mark_formatted();
                previous = Some(comment);
            }
            if dangling.last().is_some_and(|comment| comment.kind().is_line()) {
                write!(f, [expand_parent()])?;
            }
            Ok(())
        });
        match self.indent() {
            DanglingIndentMode::Block => write!(f, [block_indent(&content)]),
            DanglingIndentMode::SoftBlock => write!(f, [group(&soft_block_indent(&content))]),
            DanglingIndentMode::SoftSpace => write!(f, [group(&soft_space_or_block_indent(&content))]),
            DanglingIndentMode::None => write!(f, [content]),
        }
    }
}

/// Formats a token as something else.
pub fn format_replaced<'a, L, Context>(
    token: &'a SyntaxToken<L>,
    content: &'a impl Format<Context>,
) -> FormatReplaced<'a, Context>
where
    L: Language + 'static,
    Context: CstFormatContext<Language = L>,
{
    FormatReplaced { token, content: Argument::new(content) }
}

pub struct FormatReplaced<'a, C: CstFormatContext> {
    token: &'a SyntaxToken<C::Language>,
    content: Argument<'a, C>,
}

impl<C: CstFormatContext> Format<C> for FormatReplaced<'_, C> {
    fn fmt(&self, f: &mut Formatter<C>) -> FormatResult<()> {
        f.state_mut().track_token(self.token);
        f.write_fmt(Arguments::from(&self.content))
    }
}

/// Formats a token as nothing.
pub const fn format_removed<L: Language>(token: &SyntaxToken<L>) -> FormatRemoved<'_, L> {
    FormatRemoved { token }
}

pub struct FormatRemoved<'a, L: Language> {
    token: &'a SyntaxToken<L>,
}

impl<C, L> Format<C> for FormatRemoved<'_, L>
where
    L: Language + 'static,
    C: CstFormatContext<Language = L>,
{
    fn fmt(&self, f: &mut Formatter<C>) -> FormatResult<()> {
        f.state_mut().track_token(self.token);
        Ok(())
    }
}

pub const fn format_trimmed_token<L: Language>(token: &SyntaxToken<L>) -> FormatTrimmedToken<'_, L> {
    FormatTrimmedToken { token }
}

pub struct FormatTrimmedToken<'a, L: Language> {
    token: &'a SyntaxToken<L>,
}

impl<L: Language + 'static, C> Format<C> for FormatTrimmedToken<'_, L>
where
    C: CstFormatContext<Language = L>,
{
    fn fmt(&self, f: &mut Formatter<C>) -> FormatResult<()> {
        syntax_token_text_slice(self.token, self.token.text_trimmed_range()).fmt(f)
    }
}

/// Content that replaces a token in a broken group only.
pub fn format_only_if_breaks<'a, 'content, L, Content, Context>(
    token: &'a SyntaxToken<L>,
    content: &'content Content,
) -> FormatOnlyIfBreaks<'a, 'content, L, Context>
where
    L: Language,
    Content: Format<Context>,
{
    FormatOnlyIfBreaks { token, content: Argument::new(content), group_id: None }
}

pub struct FormatOnlyIfBreaks<'a, 'content, L: Language, C> {
    token: &'a SyntaxToken<L>,
    content: Argument<'content, C>,
    group_id: Option<crate::GroupId>,
}

impl<L: Language, C> FormatOnlyIfBreaks<'_, '_, L, C> {
    pub fn with_group_id(mut self, group_id: Option<crate::GroupId>) -> Self {
        self.group_id = group_id;
        self
    }
}

impl<L: Language + 'static, C> Format<C> for FormatOnlyIfBreaks<'_, '_, L, C>
where
    C: CstFormatContext<Language = L>,
{
    fn fmt(&self, f: &mut Formatter<C>) -> FormatResult<()> {
        let _ = self.token;
        let content = &self.content;
        if_group_breaks(&format_with(|f: &mut Formatter<C>| f.write_fmt(Arguments::from(content))))
            .with_group_id(self.group_id)
            .fmt(f)
    }
}
