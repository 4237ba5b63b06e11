//! Building blocks of the intermediate representation.

use std::borrow::Cow;
use std::cell::Cell;
use std::marker::PhantomData;
use std::num::NonZeroU8;

use biome_rowan::{Language, SyntaxNode, SyntaxToken, TextLen, TextRange, TextSize, TokenText};

use crate::element::*;
use crate::prelude::*;
use crate::{Argument, Arguments, GroupId};

macro_rules! tags {
    ($f:expr, $start:expr, $content:expr, $end:expr) => {{
        $f.write_element(FormatElement::Tag($start))?;
        Arguments::from(&$content).fmt($f)?;
        $f.write_element(FormatElement::Tag($end))
    }};
}

#[derive(Copy, Clone, Debug, Eq, PartialEq)]
pub struct Line {
    mode: LineMode,
}

impl Line {
    const fn new(mode: LineMode) -> Self {
        Self { mode }
    }
}

impl<Context> Format<Context> for Line {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        f.write_element(FormatElement::Line(self.mode))
    }
}

pub const fn soft_line_break() -> Line {
    Line::new(LineMode::Soft)
}
pub const fn hard_line_break() -> Line {
    Line::new(LineMode::Hard)
}
pub const fn empty_line() -> Line {
    Line::new(LineMode::Empty)
}
pub const fn soft_line_break_or_space() -> Line {
    Line::new(LineMode::SoftOrSpace)
}

#[derive(Copy, Clone, Debug, Eq, PartialEq)]
pub struct StaticText {
    text: &'static str,
}

pub fn text(text: &'static str) -> StaticText {
    debug_assert_no_newlines(text);
    StaticText { text }
}

impl<Context> Format<Context> for StaticText {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        f.write_element(FormatElement::StaticText { text: self.text })
    }
}

pub struct DynamicText<'a> {
    text: &'a str,
    position: TextSize,
}

pub fn dynamic_text(text: &str, position: TextSize) -> DynamicText<'_> {
    debug_assert_no_newlines(text);
    DynamicText { text, position }
}

impl<Context> Format<Context> for DynamicText<'_> {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        f.write_element(FormatElement::DynamicText { text: self.text.into(), source_position: self.position })
    }
}

pub struct SyntaxTokenCowSlice<'a, L: Language> {
    text: Cow<'a, str>,
    token: &'a SyntaxToken<L>,
    start: TextSize,
}

/// Text that is a slice of a token, or a changed copy of it.
pub fn syntax_token_cow_slice<'a, L: Language>(
    text: Cow<'a, str>,
    token: &'a SyntaxToken<L>,
    start: TextSize,
) -> SyntaxTokenCowSlice<'a, L> {
    debug_assert_no_newlines(&text);
    SyntaxTokenCowSlice { text, token, start }
}

impl<L: Language, Context> Format<Context> for SyntaxTokenCowSlice<'_, L> {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        match &self.text {
            Cow::Borrowed(text) => {
                let range = TextRange::at(self.start, text.text_len());
                debug_assert_eq!(
                    *text,
                    &self.token.text_with_trivia()[range - self.token.text_range_with_trivia().start()],
                    "The borrowed string doesn't match the specified token substring. Does the borrowed string belong to this token and range?"
                );
                syntax_token_text_slice(self.token, range).fmt(f)
            }
            Cow::Owned(text) => f.write_element(FormatElement::DynamicText {
                text: text.to_string().into_boxed_str(),
                source_position: self.start,
            }),
        }
    }
}

pub struct SyntaxTokenTextSlice {
    text: TokenText,
    source_position: TextSize,
}

pub fn syntax_token_text_slice<L: Language>(token: &SyntaxToken<L>, range: TextRange) -> SyntaxTokenTextSlice {
    let relative = range - token.text_range_with_trivia().start();
    let text = token.token_text();
    let slice = text.slice(relative);
    debug_assert_no_newlines(&slice);
    SyntaxTokenTextSlice { text: slice, source_position: range.start() }
}

impl<Context> Format<Context> for SyntaxTokenTextSlice {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        f.write_element(FormatElement::LocatedTokenText {
            slice: self.text.clone(),
            source_position: self.source_position,
        })
    }
}

pub struct LocatedTokenText {
    text: TokenText,
    source_position: TextSize,
}

pub fn located_token_text<L: Language>(token: &SyntaxToken<L>, range: TextRange) -> LocatedTokenText {
    let relative = range - token.text_range_with_trivia().start();
    let slice = token.token_text().slice(relative);
    debug_assert_no_newlines(&slice);
    LocatedTokenText { text: slice, source_position: range.start() }
}

impl<Context> Format<Context> for LocatedTokenText {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        f.write_element(FormatElement::LocatedTokenText {
            slice: self.text.clone(),
            source_position: self.source_position,
        })
    }
}

fn debug_assert_no_newlines(text: &str) {
    debug_assert!(
        !text.contains('\r'),
        "The content '{text}' contains an unsupported '\\r' line terminator character but text must only use line feeds '\\n' as line separator. Use '\\n' instead of '\\r' and '\\r\\n' to insert a line break in strings."
    );
}

pub fn line_suffix<Content, Context>(inner: &Content) -> LineSuffix<'_, Context>
where
    Content: Format<Context>,
{
    LineSuffix { content: Argument::new(inner) }
}

#[derive(Copy, Clone)]
pub struct LineSuffix<'a, Context> {
    content: Argument<'a, Context>,
}

impl<Context> Format<Context> for LineSuffix<'_, Context> {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        tags!(f, Tag::StartLineSuffix, self.content, Tag::EndLineSuffix)
    }
}

pub const fn line_suffix_boundary() -> LineSuffixBoundary {
    LineSuffixBoundary
}

#[derive(Copy, Clone, Debug, Eq, PartialEq)]
pub struct LineSuffixBoundary;

impl<Context> Format<Context> for LineSuffixBoundary {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        f.write_element(FormatElement::LineSuffixBoundary)
    }
}

pub fn labelled<Content, Context>(label_id: LabelId, content: &Content) -> FormatLabelled<'_, Context>
where
    Content: Format<Context>,
{
    FormatLabelled { label_id, content: Argument::new(content) }
}

#[derive(Copy, Clone)]
pub struct FormatLabelled<'a, Context> {
    label_id: LabelId,
    content: Argument<'a, Context>,
}

impl<Context> Format<Context> for FormatLabelled<'_, Context> {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        tags!(f, Tag::StartLabelled(self.label_id), self.content, Tag::EndLabelled)
    }
}

#[derive(Copy, Clone, Debug, Eq, PartialEq)]
pub struct Space;

pub const fn space() -> Space {
    Space
}

pub fn maybe_space(should_insert: bool) -> Option<Space> {
    should_insert.then_some(Space)
}

impl<Context> Format<Context> for Space {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        f.write_element(FormatElement::Space)
    }
}

#[derive(Copy, Clone, Debug, Eq, PartialEq)]
pub struct HardSpace;

pub const fn hard_space() -> HardSpace {
    HardSpace
}

impl<Context> Format<Context> for HardSpace {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        f.write_element(FormatElement::HardSpace)
    }
}

pub fn indent<Content, Context>(content: &Content) -> Indent<'_, Context>
where
    Content: Format<Context>,
{
    Indent { content: Argument::new(content) }
}

#[derive(Copy, Clone)]
pub struct Indent<'a, Context> {
    content: Argument<'a, Context>,
}

impl<Context> Format<Context> for Indent<'_, Context> {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        tags!(f, Tag::StartIndent, self.content, Tag::EndIndent)
    }
}

pub fn dedent<Content, Context>(content: &Content) -> Dedent<'_, Context>
where
    Content: Format<Context>,
{
    Dedent { content: Argument::new(content), mode: DedentMode::Level }
}

pub fn dedent_to_root<Content, Context>(content: &Content) -> Dedent<'_, Context>
where
    Content: Format<Context>,
{
    Dedent { content: Argument::new(content), mode: DedentMode::Root }
}

#[derive(Copy, Clone)]
pub struct Dedent<'a, Context> {
    content: Argument<'a, Context>,
    mode: DedentMode,
}

impl<Context> Format<Context> for Dedent<'_, Context> {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        tags!(f, Tag::StartDedent(self.mode), self.content, Tag::EndDedent(self.mode))
    }
}

pub fn align<Content, Context>(count: u8, content: &Content) -> FormatAlign<'_, Context>
where
    Content: Format<Context>,
{
    FormatAlign {
        count: NonZeroU8::new(count).expect("Alignment count must be a non-zero number."),
        content: Argument::new(content),
    }
}

#[derive(Copy, Clone)]
pub struct FormatAlign<'a, Context> {
    count: NonZeroU8,
    content: Argument<'a, Context>,
}

impl<Context> Format<Context> for FormatAlign<'_, Context> {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        tags!(f, Tag::StartAlign(Align(self.count)), self.content, Tag::EndAlign)
    }
}

#[derive(Copy, Clone)]
enum IndentMode {
    Soft,
    Block,
    SoftSpace,
    SoftLineOrSpace,
    SoftBlockSpace { should_add_space: bool },
}

#[derive(Copy, Clone)]
pub struct BlockIndent<'a, Context> {
    content: Argument<'a, Context>,
    mode: IndentMode,
}

pub fn block_indent<Context>(content: &impl Format<Context>) -> BlockIndent<'_, Context> {
    BlockIndent { content: Argument::new(content), mode: IndentMode::Block }
}
pub fn soft_block_indent<Context>(content: &impl Format<Context>) -> BlockIndent<'_, Context> {
    BlockIndent { content: Argument::new(content), mode: IndentMode::Soft }
}
pub fn soft_line_indent_or_space<Context>(content: &impl Format<Context>) -> BlockIndent<'_, Context> {
    BlockIndent { content: Argument::new(content), mode: IndentMode::SoftLineOrSpace }
}
pub fn soft_space_or_block_indent<Context>(content: &impl Format<Context>) -> BlockIndent<'_, Context> {
    BlockIndent { content: Argument::new(content), mode: IndentMode::SoftSpace }
}
pub fn soft_block_indent_with_maybe_space<Context>(
    content: &impl Format<Context>,
    should_add_space: bool,
) -> BlockIndent<'_, Context> {
    BlockIndent { content: Argument::new(content), mode: IndentMode::SoftBlockSpace { should_add_space } }
}

impl<Context> Format<Context> for BlockIndent<'_, Context> {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        let snapshot = f.snapshot();
        f.write_element(FormatElement::Tag(Tag::StartIndent))?;
        match self.mode {
            IndentMode::Soft => soft_line_break().fmt(f)?,
            IndentMode::Block => hard_line_break().fmt(f)?,
            IndentMode::SoftLineOrSpace | IndentMode::SoftSpace => soft_line_break_or_space().fmt(f)?,
            IndentMode::SoftBlockSpace { should_add_space: true } => soft_line_break_or_space().fmt(f)?,
            IndentMode::SoftBlockSpace { should_add_space: false } => soft_line_break().fmt(f)?,
        }

        let is_empty = {
            let mut recording = f.start_recording();
            recording.write_fmt(Arguments::from(&self.content))?;
            recording.stop().is_empty()
        };
        if is_empty {
            f.restore_snapshot(snapshot);
            return Ok(());
        }

        f.write_element(FormatElement::Tag(Tag::EndIndent))?;
        match self.mode {
            IndentMode::Soft => soft_line_break().fmt(f),
            IndentMode::Block => hard_line_break().fmt(f),
            IndentMode::SoftSpace => soft_line_break_or_space().fmt(f),
            IndentMode::SoftBlockSpace { should_add_space: true } => soft_line_break_or_space().fmt(f),
            IndentMode::SoftBlockSpace { should_add_space: false } => soft_line_break().fmt(f),
            IndentMode::SoftLineOrSpace => Ok(()),
        }
    }
}

pub fn group<Context>(content: &impl Format<Context>) -> FormatGroup<'_, Context> {
    FormatGroup { content: Argument::new(content), group_id: None, should_expand: false }
}

#[derive(Copy, Clone)]
pub struct FormatGroup<'a, Context> {
    content: Argument<'a, Context>,
    group_id: Option<GroupId>,
    should_expand: bool,
}

impl<Context> FormatGroup<'_, Context> {
    pub fn with_group_id(mut self, group_id: Option<GroupId>) -> Self {
        self.group_id = group_id;
        self
    }
    pub fn should_expand(mut self, should_expand: bool) -> Self {
        self.should_expand = should_expand;
        self
    }
}

impl<Context> Format<Context> for FormatGroup<'_, Context> {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        let mode = if self.should_expand { GroupMode::Expand } else { GroupMode::Flat };
        tags!(f, Tag::StartGroup(Group::new().with_id(self.group_id).with_mode(mode)), self.content, Tag::EndGroup)
    }
}

pub const fn expand_parent() -> ExpandParent {
    ExpandParent
}

#[derive(Copy, Clone, Debug, Eq, PartialEq)]
pub struct ExpandParent;

impl<Context> Format<Context> for ExpandParent {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        f.write_element(FormatElement::ExpandParent)
    }
}

pub fn if_group_breaks<Content, Context>(content: &Content) -> IfGroupBreaks<'_, Context>
where
    Content: Format<Context>,
{
    IfGroupBreaks { content: Argument::new(content), group_id: None, mode: PrintMode::Expanded }
}

pub fn if_group_fits_on_line<Content, Context>(content: &Content) -> IfGroupBreaks<'_, Context>
where
    Content: Format<Context>,
{
    IfGroupBreaks { content: Argument::new(content), group_id: None, mode: PrintMode::Flat }
}

#[derive(Copy, Clone)]
pub struct IfGroupBreaks<'a, Context> {
    content: Argument<'a, Context>,
    group_id: Option<GroupId>,
    mode: PrintMode,
}

impl<Context> IfGroupBreaks<'_, Context> {
    pub fn with_group_id(mut self, group_id: Option<GroupId>) -> Self {
        self.group_id = group_id;
        self
    }
}

impl<Context> Format<Context> for IfGroupBreaks<'_, Context> {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        tags!(
            f,
            Tag::StartConditionalContent(Condition::new(self.mode).with_group_id(self.group_id)),
            self.content,
            Tag::EndConditionalContent
        )
    }
}

pub fn indent_if_group_breaks<Content, Context>(
    content: &Content,
    group_id: GroupId,
) -> IndentIfGroupBreaks<'_, Context>
where
    Content: Format<Context>,
{
    IndentIfGroupBreaks { group_id, content: Argument::new(content) }
}

#[derive(Copy, Clone)]
pub struct IndentIfGroupBreaks<'a, Context> {
    content: Argument<'a, Context>,
    group_id: GroupId,
}

impl<Context> Format<Context> for IndentIfGroupBreaks<'_, Context> {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        tags!(
            f,
            Tag::StartIndentIfGroupBreaks(self.group_id),
            self.content,
            Tag::EndIndentIfGroupBreaks(self.group_id)
        )
    }
}

#[derive(Copy, Clone)]
pub struct FormatWith<Context, T> {
    formatter: T,
    context: PhantomData<Context>,
}

impl<Context, T> Format<Context> for FormatWith<Context, T>
where
    T: Fn(&mut Formatter<Context>) -> FormatResult<()>,
{
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        (self.formatter)(f)
    }
}

pub const fn format_with<Context, T>(formatter: T) -> FormatWith<Context, T>
where
    T: Fn(&mut Formatter<Context>) -> FormatResult<()>,
{
    FormatWith { formatter, context: PhantomData }
}

pub fn format_once<T, Context>(formatter: T) -> FormatOnce<T, Context>
where
    T: FnOnce(&mut Formatter<Context>) -> FormatResult<()>,
{
    FormatOnce { formatter: Cell::new(Some(formatter)), context: PhantomData }
}

pub struct FormatOnce<T, Context> {
    formatter: Cell<Option<T>>,
    context: PhantomData<Context>,
}

impl<T, Context> Format<Context> for FormatOnce<T, Context>
where
    T: FnOnce(&mut Formatter<Context>) -> FormatResult<()>,
{
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        let formatter = self
            .formatter
            .take()
            .expect("Tried to format a `format_once` at least twice. This is not allowed. You may want to use `format_with` or `format.memoized` instead.");
        (formatter)(f)
    }
}

#[must_use = "must eventually call `finish()` on Format builders"]
pub struct JoinBuilder<'fmt, 'buf, Separator, Context> {
    result: FormatResult<()>,
    fmt: &'fmt mut Formatter<'buf, Context>,
    with: Option<Separator>,
    has_elements: bool,
}

impl<'fmt, 'buf, Separator, Context> JoinBuilder<'fmt, 'buf, Separator, Context>
where
    Separator: Format<Context>,
{
    pub(crate) fn new(fmt: &'fmt mut Formatter<'buf, Context>) -> Self {
        Self { result: Ok(()), fmt, has_elements: false, with: None }
    }
    pub(crate) fn with_separator(fmt: &'fmt mut Formatter<'buf, Context>, with: Separator) -> Self {
        Self { result: Ok(()), fmt, has_elements: false, with: Some(with) }
    }
    pub fn entry(&mut self, entry: &dyn Format<Context>) -> &mut Self {
        self.result = self.result.and_then(|_| {
            if let Some(with) = &self.with {
                if self.has_elements {
                    with.fmt(self.fmt)?;
                }
            }
            self.has_elements = true;
            entry.fmt(self.fmt)
        });
        self
    }
    pub fn entries<F, I>(&mut self, entries: I) -> &mut Self
    where
        F: Format<Context>,
        I: IntoIterator<Item = F>,
    {
        for content in entries {
            self.entry(&content);
        }
        self
    }
    pub fn finish(&mut self) -> FormatResult<()> {
        self.result
    }
}

#[must_use = "must eventually call `finish()` on Format builders"]
pub struct JoinNodesBuilder<'fmt, 'buf, Separator, Context> {
    result: FormatResult<()>,
    separator: Separator,
    fmt: &'fmt mut Formatter<'buf, Context>,
    has_elements: bool,
}

impl<'fmt, 'buf, Separator, Context> JoinNodesBuilder<'fmt, 'buf, Separator, Context>
where
    Separator: Format<Context>,
{
    pub(crate) fn new(separator: Separator, fmt: &'fmt mut Formatter<'buf, Context>) -> Self {
        Self { result: Ok(()), separator, fmt, has_elements: false }
    }
    /// Adds an entry, keeping an empty line in front of it if there's one in the source.
    pub fn entry<L: Language>(&mut self, node: &SyntaxNode<L>, content: &dyn Format<Context>) {
        self.result = self.result.and_then(|_| {
            if self.has_elements {
                if get_lines_before(node) > 1 {
                    empty_line().fmt(self.fmt)?;
                } else {
                    self.separator.fmt(self.fmt)?;
                }
            }
            self.has_elements = true;
            content.fmt(self.fmt)
        });
    }
    pub fn entry_no_separator(&mut self, content: &dyn Format<Context>) {
        self.result = self.result.and_then(|_| {
            self.has_elements = true;
            content.fmt(self.fmt)
        })
    }
    pub fn entries<L, F, I>(&mut self, entries: I) -> &mut Self
    where
        L: Language,
        F: Format<Context>,
        I: IntoIterator<Item = (SyntaxNode<L>, F)>,
    {
        for (node, content) in entries {
            self.entry(&node, &content)
        }
        self
    }
    pub fn finish(&mut self) -> FormatResult<()> {
        self.result
    }
}

/// The number of new lines before the node, up to its first leading comment.
pub fn get_lines_before<L: Language>(next_node: &SyntaxNode<L>) -> usize {
    next_node.first_token().map_or(0, |token| get_lines_before_token(&token))
}

pub fn get_lines_before_token<L: Language>(token: &SyntaxToken<L>) -> usize {
    token
        .leading_trivia()
        .pieces()
        .take_while(|piece| !(piece.is_comments() || piece.is_skipped()))
        .filter(|piece| piece.is_newline())
        .count()
}

/// Tries every variant in turn, from the flattest to the most expanded one.
#[derive(Copy, Clone)]
pub struct BestFitting<'a, Context> {
    variants: Arguments<'a, Context>,
}

impl<'a, Context> BestFitting<'a, Context> {
    /// # Safety
    /// `variants` must have at least two elements.
    pub unsafe fn from_arguments_unchecked(variants: Arguments<'a, Context>) -> Self {
        debug_assert!(variants.items().len() >= 2, "Requires at least the least expanded and most expanded variants");
        Self { variants }
    }
}

impl<Context> Format<Context> for BestFitting<'_, Context> {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        let mut formatted = Vec::with_capacity(self.variants.items().len());
        for item in self.variants.items() {
            let mut buffer = crate::VecBuffer::new(f.state_mut());
            buffer.write_element(FormatElement::Tag(Tag::StartEntry))?;
            buffer.write_fmt(Arguments::from(item))?;
            buffer.write_element(FormatElement::Tag(Tag::EndEntry))?;
            formatted.push(buffer.into_vec().into_boxed_slice());
        }
        // SAFETY: the constructor guarantees that there are always at least two variants.
        let element = unsafe { FormatElement::BestFitting(BestFittingElement::from_vec_unchecked(formatted)) };
        f.write_element(element)
    }
}
