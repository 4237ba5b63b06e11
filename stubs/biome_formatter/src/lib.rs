//! Stand-in for biome_formatter: from syntax trees to documents to text.
//!
//! Same observable behaviour as the original for what air uses of it, including the checks
//! that debug builds make: every token is printed once, every comment is printed, every node
//! is asked whether it's suppressed.

mod buffer;
mod builders;
pub mod comments;
mod element;
mod formatter;
mod memoized;
pub mod prelude;
pub mod printer;
pub mod separated;
pub mod trivia;
mod verbatim;

/// What elements are made of, under the name the original has for it.
pub mod format_element {
    pub use crate::element::*;
    pub mod document {
        pub use crate::element::Document;
    }
    pub mod tag {
        pub use crate::element::*;
    }
}

use std::borrow::Cow;
use std::cell::Cell;
use std::fmt;
use std::marker::PhantomData;
use std::num::ParseIntError;
use std::str::FromStr;

pub use biome_rowan::{TextRange, TextSize};
use biome_rowan::{
    Direction, Language, NodeOrToken, SyntaxElement, SyntaxError, SyntaxNode, SyntaxResult, SyntaxToken,
    SyntaxTriviaPiece, TokenAtOffset,
};
use rustc_hash::FxHashSet;

pub use buffer::{
    Buffer, BufferExtensions, BufferSnapshot, Inspect, NullBuffer, Recorded, Recording, RemoveSoftLinesBuffer,
    VecBuffer,
};
pub use builders::BestFitting;
pub use comments::Comments;
pub use element::{Document, FormatElement, LineMode, PrintMode};
pub use formatter::Formatter;
pub use verbatim::FormatVerbatimNode;

use printer::{Printer, PrinterOptions};

#[macro_export]
macro_rules! format_args {
    ($($value:expr),+ $(,)?) => {
        $crate::Arguments::new(&[
            $(
                $crate::Argument::new(&$value)
            ),+
        ])
    }
}

#[macro_export]
macro_rules! write {
    ($dst:expr, [$($arg:expr),+ $(,)?]) => {{
        $dst.write_fmt($crate::format_args!($($arg),+))
    }}
}

#[macro_export]
macro_rules! dbg_write {
    ($dst:expr, [$($arg:expr),+ $(,)?]) => {{
        use $crate::BufferExtensions;
        $dst.write_fmt($crate::format_args!($($arg),+))
    }}
}

#[macro_export]
macro_rules! format {
    ($context:expr, [$($arg:expr),+ $(,)?]) => {{
        ($crate::format($context, $crate::format_args!($($arg),+)))
    }}
}

#[macro_export]
macro_rules! best_fitting {
    ($least_expanded:expr, $($tail:expr),+ $(,)?) => {{
        // SAFETY: at least two variants, see the pattern
        unsafe {
            $crate::BestFitting::from_arguments_unchecked($crate::format_args!($least_expanded, $($tail),+))
        }
    }}
}

#[derive(Debug, Eq, PartialEq, Clone, Copy, Hash, Default)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize), serde(rename_all = "camelCase"))]
pub enum IndentStyle {
    #[default]
    Tab,
    Space,
}

impl IndentStyle {
    pub const DEFAULT_SPACES: u8 = 2;
    pub const fn is_tab(&self) -> bool {
        matches!(self, IndentStyle::Tab)
    }
    pub const fn is_space(&self) -> bool {
        matches!(self, IndentStyle::Space)
    }
}

impl FromStr for IndentStyle {
    type Err = &'static str;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        match s {
            "tab" => Ok(Self::Tab),
            "space" => Ok(Self::Space),
            _ => Err("Unsupported value for this option"),
        }
    }
}

impl fmt::Display for IndentStyle {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(match self {
            IndentStyle::Tab => "Tab",
            IndentStyle::Space => "Space",
        })
    }
}

#[derive(Clone, Copy, Debug, Eq, Hash, PartialEq, Default)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize), serde(rename_all = "camelCase"))]
pub enum LineEnding {
    #[default]
    Lf,
    Crlf,
    Cr,
}

impl LineEnding {
    pub const fn as_str(&self) -> &'static str {
        match self {
            LineEnding::Lf => "\n",
            LineEnding::Crlf => "\r\n",
            LineEnding::Cr => "\r",
        }
    }
    pub const fn is_line_feed(&self) -> bool {
        matches!(self, LineEnding::Lf)
    }
    pub const fn is_carriage_return_line_feed(&self) -> bool {
        matches!(self, LineEnding::Crlf)
    }
    pub const fn is_carriage_return(&self) -> bool {
        matches!(self, LineEnding::Cr)
    }
}

impl fmt::Display for LineEnding {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(match self {
            LineEnding::Lf => "LF",
            LineEnding::Crlf => "CRLF",
            LineEnding::Cr => "CR",
        })
    }
}

macro_rules! bounded {
    ($Name:ident, $Error:ident, $ParseError:ident, $int:ty, $min:literal, $max:literal, $default:literal) => {
        #[derive(Clone, Copy, Eq, Hash, PartialEq)]
        #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
        pub struct $Name($int);

        impl $Name {
            pub const MIN: $int = $min;
            pub const MAX: $int = $max;
            pub const fn value(&self) -> $int {
                self.0
            }
            pub const fn get(&self) -> $int {
                self.0
            }
        }

        impl Default for $Name {
            fn default() -> Self {
                Self($default)
            }
        }

        impl TryFrom<$int> for $Name {
            type Error = $Error;
            fn try_from(value: $int) -> Result<Self, Self::Error> {
                if (Self::MIN..=Self::MAX).contains(&value) { Ok(Self(value)) } else { Err($Error(value)) }
            }
        }

        impl FromStr for $Name {
            type Err = $ParseError;
            fn from_str(s: &str) -> Result<Self, Self::Err> {
                let value = <$int>::from_str(s).map_err($ParseError::Parse)?;
                Self::try_from(value).map_err($ParseError::Range)
            }
        }

        impl From<$Name> for $int {
            fn from(value: $Name) -> Self {
                value.0
            }
        }

        impl fmt::Display for $Name {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                self.0.fmt(f)
            }
        }

        impl fmt::Debug for $Name {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                self.0.fmt(f)
            }
        }

        #[derive(Clone, Copy, Debug)]
        pub struct $Error(pub $int);

        impl fmt::Display for $Error {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                std::write!(f, "{} should be between {} and {}, got {}", stringify!($Name), $Name::MIN, $Name::MAX, self.0)
            }
        }

        impl std::error::Error for $Error {}

        #[derive(Debug)]
        pub enum $ParseError {
            Parse(ParseIntError),
            Range($Error),
        }

        impl fmt::Display for $ParseError {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                match self {
                    $ParseError::Parse(error) => error.fmt(f),
                    $ParseError::Range(error) => error.fmt(f),
                }
            }
        }

        impl std::error::Error for $ParseError {}
    };
}

bounded!(IndentWidth, IndentWidthFromIntError, ParseFormatNumberErrorIndent, u8, 0, 24, 2);
bounded!(LineWidth, LineWidthFromIntError, ParseFormatNumberErrorLine, u16, 1, 320, 80);

#[derive(Debug, Copy, Clone, PartialEq, Eq)]
pub enum FormatError {
    SyntaxError,
    RangeError { input: TextRange, tree: TextRange },
    InvalidDocument,
    PoorLayout,
}

impl fmt::Display for FormatError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            FormatError::SyntaxError => f.write_str(
                "Code formatting aborted due to parsing errors. To format code with errors, enable the 'formatter.formatWithErrors' option.",
            ),
            FormatError::RangeError { input, tree } => {
                std::write!(f, "formatting range {input:?} is larger than syntax tree {tree:?}")
            }
            FormatError::InvalidDocument => f.write_str("Invalid document"),
            FormatError::PoorLayout => f.write_str("Poor layout: The formatter wasn't able to pick a good layout for your document."),
        }
    }
}

impl std::error::Error for FormatError {}

impl From<SyntaxError> for FormatError {
    fn from(error: SyntaxError) -> Self {
        FormatError::from(&error)
    }
}
impl From<&SyntaxError> for FormatError {
    fn from(error: &SyntaxError) -> Self {
        match error {
            SyntaxError::MissingRequiredChild => FormatError::SyntaxError,
            SyntaxError::UnexpectedBogusNode => FormatError::SyntaxError,
        }
    }
}
impl From<PrintError> for FormatError {
    fn from(_: PrintError) -> Self {
        FormatError::InvalidDocument
    }
}

pub type FormatResult<F> = Result<F, FormatError>;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum PrintError {
    InvalidDocument,
}

impl fmt::Display for PrintError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Invalid document")
    }
}

impl std::error::Error for PrintError {}

pub type PrintResult<T> = Result<T, PrintError>;

#[derive(Clone, Copy, Eq, PartialEq, Hash)]
pub struct GroupId {
    value: u32,
    name: &'static str,
}

impl fmt::Debug for GroupId {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        std::write!(f, "#{}-{}", self.name, self.value)
    }
}

/// Positions in text that was changed before it was formatted. Nothing of air does that.
#[derive(Debug, Clone, Default)]
pub struct TransformSourceMap(());

pub trait FormatContext {
    type Options: FormatOptions;
    fn options(&self) -> &Self::Options;
    fn source_map(&self) -> Option<&TransformSourceMap>;
}

pub trait CstFormatContext: FormatContext {
    type Language: Language + 'static;
    type Style: comments::CommentStyle<Language = Self::Language>;
    type CommentRule: FormatRule<comments::SourceComment<Self::Language>, Context = Self> + Default;
    fn comments(&self) -> &Comments<Self::Language>;
}

pub trait FormatOptions {
    fn indent_style(&self) -> IndentStyle;
    fn indent_width(&self) -> IndentWidth;
    fn line_width(&self) -> LineWidth;
    fn line_ending(&self) -> LineEnding;
    fn as_print_options(&self) -> PrinterOptions;
}

pub trait FormatLanguage {
    type SyntaxLanguage: Language;
    type Context: CstFormatContext<Language = Self::SyntaxLanguage>;
    type FormatRule: FormatRule<SyntaxNode<Self::SyntaxLanguage>, Context = Self::Context> + Default;

    fn transform(
        &self,
        _root: &SyntaxNode<Self::SyntaxLanguage>,
    ) -> Option<(SyntaxNode<Self::SyntaxLanguage>, TransformSourceMap)> {
        None
    }
    fn is_range_formatting_node(&self, _node: &SyntaxNode<Self::SyntaxLanguage>) -> bool {
        true
    }
    fn options(&self) -> &<Self::Context as FormatContext>::Options;
    fn create_context(
        self,
        root: &SyntaxNode<Self::SyntaxLanguage>,
        source_map: Option<TransformSourceMap>,
    ) -> Self::Context;
}

pub trait Format<Context> {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()>;
}

impl<T: ?Sized + Format<Context>, Context> Format<Context> for &T {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        Format::fmt(&**self, f)
    }
}
impl<T: ?Sized + Format<Context>, Context> Format<Context> for &mut T {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        Format::fmt(&**self, f)
    }
}
impl<T: Format<Context>, Context> Format<Context> for Option<T> {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        match self {
            Some(value) => value.fmt(f),
            None => Ok(()),
        }
    }
}
impl<T: Format<Context>, Context> Format<Context> for SyntaxResult<T> {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        match self {
            Ok(value) => value.fmt(f),
            Err(error) => Err(error.into()),
        }
    }
}
impl<Context> Format<Context> for () {
    fn fmt(&self, _: &mut Formatter<Context>) -> FormatResult<()> {
        Ok(())
    }
}

pub trait FormatRule<T> {
    type Context;
    fn fmt(&self, item: &T, f: &mut Formatter<Self::Context>) -> FormatResult<()>;
}

pub trait FormatRuleWithOptions<T>: FormatRule<T> {
    type Options;
    #[must_use]
    fn with_options(self, options: Self::Options) -> Self;
}

pub trait FormatWithRule<Context>: Format<Context> {
    type Item;
    fn item(&self) -> &Self::Item;
}

#[derive(Copy, Clone, Debug)]
pub struct FormatRefWithRule<'a, T, R>
where
    R: FormatRule<T>,
{
    item: &'a T,
    rule: R,
}

impl<'a, T, R> FormatRefWithRule<'a, T, R>
where
    R: FormatRule<T>,
{
    pub fn new(item: &'a T, rule: R) -> Self {
        Self { item, rule }
    }
}

impl<T, R, O> FormatRefWithRule<'_, T, R>
where
    R: FormatRuleWithOptions<T, Options = O>,
{
    #[must_use]
    pub fn with_options(mut self, options: O) -> Self {
        self.rule = self.rule.with_options(options);
        self
    }
}

impl<T, R> FormatWithRule<R::Context> for FormatRefWithRule<'_, T, R>
where
    R: FormatRule<T>,
{
    type Item = T;
    fn item(&self) -> &Self::Item {
        self.item
    }
}

impl<T, R> Format<R::Context> for FormatRefWithRule<'_, T, R>
where
    R: FormatRule<T>,
{
    #[inline(always)]
    fn fmt(&self, f: &mut Formatter<R::Context>) -> FormatResult<()> {
        self.rule.fmt(self.item, f)
    }
}

#[derive(Clone, Debug)]
pub struct FormatOwnedWithRule<T, R>
where
    R: FormatRule<T>,
{
    item: T,
    rule: R,
}

impl<T, R> FormatOwnedWithRule<T, R>
where
    R: FormatRule<T>,
{
    pub fn new(item: T, rule: R) -> Self {
        Self { item, rule }
    }
    #[must_use]
    pub fn with_item(mut self, item: T) -> Self {
        self.item = item;
        self
    }
    pub fn into_item(self) -> T {
        self.item
    }
}

impl<T, R> Format<R::Context> for FormatOwnedWithRule<T, R>
where
    R: FormatRule<T>,
{
    #[inline(always)]
    fn fmt(&self, f: &mut Formatter<R::Context>) -> FormatResult<()> {
        self.rule.fmt(&self.item, f)
    }
}

impl<T, R, O> FormatOwnedWithRule<T, R>
where
    R: FormatRuleWithOptions<T, Options = O>,
{
    #[must_use]
    pub fn with_options(mut self, options: O) -> Self {
        self.rule = self.rule.with_options(options);
        self
    }
}

impl<T, R> FormatWithRule<R::Context> for FormatOwnedWithRule<T, R>
where
    R: FormatRule<T>,
{
    type Item = T;
    fn item(&self) -> &Self::Item {
        &self.item
    }
}

/// Formats a token: its text, without the trivia around it.
pub struct FormatToken<C> {
    context: PhantomData<C>,
}

impl<C> fmt::Debug for FormatToken<C> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("FormatToken")
    }
}
impl<C> Clone for FormatToken<C> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<C> Copy for FormatToken<C> {}
impl<C> Default for FormatToken<C> {
    fn default() -> Self {
        Self { context: PhantomData }
    }
}

impl<C> FormatRule<SyntaxToken<C::Language>> for FormatToken<C>
where
    C: CstFormatContext,
{
    type Context = C;
    fn fmt(&self, token: &SyntaxToken<C::Language>, f: &mut Formatter<C>) -> FormatResult<()> {
        f.state_mut().track_token(token);
        trivia::format_trimmed_token(token).fmt(f)
    }
}

/// A reference to a value that can be formatted.
pub struct Argument<'fmt, Context> {
    value: &'fmt dyn Format<Context>,
}

impl<Context> Clone for Argument<'_, Context> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<Context> Copy for Argument<'_, Context> {}

impl<'fmt, Context> Argument<'fmt, Context> {
    #[inline]
    pub fn new<F: Format<Context>>(value: &'fmt F) -> Self {
        Self { value }
    }
    #[inline(always)]
    pub(crate) fn format(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        self.value.fmt(f)
    }
}

pub struct Arguments<'fmt, Context>(&'fmt [Argument<'fmt, Context>]);

impl<'fmt, Context> Arguments<'fmt, Context> {
    #[inline(always)]
    pub fn new(arguments: &'fmt [Argument<'fmt, Context>]) -> Self {
        Self(arguments)
    }
    pub(crate) fn items(&self) -> &'fmt [Argument<'fmt, Context>] {
        self.0
    }
}

impl<Context> Copy for Arguments<'_, Context> {}
impl<Context> Clone for Arguments<'_, Context> {
    fn clone(&self) -> Self {
        *self
    }
}

impl<Context> Format<Context> for Arguments<'_, Context> {
    #[inline(always)]
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        f.write_fmt(*self)
    }
}

impl<'fmt, Context> From<&'fmt Argument<'fmt, Context>> for Arguments<'fmt, Context> {
    fn from(argument: &'fmt Argument<'fmt, Context>) -> Self {
        Arguments::new(std::slice::from_ref(argument))
    }
}

/// Which tokens have been printed.
#[derive(Debug, Clone, Default)]
pub struct PrintedTokens {
    offsets: FxHashSet<TextSize>,
    disabled: bool,
}

impl PrintedTokens {
    pub fn track_token<L: Language>(&mut self, token: &SyntaxToken<L>) {
        if self.disabled {
            return;
        }
        if !self.offsets.insert(token.text_trimmed_range().start()) {
            panic!("You tried to print the token '{token:?}' twice, and this is not valid.");
        }
    }
    pub(crate) fn set_disabled(&mut self, disabled: bool) {
        self.disabled = disabled;
    }
    pub(crate) fn is_disabled(&self) -> bool {
        self.disabled
    }
    pub fn assert_all_tracked<L: Language>(&self, root: &SyntaxNode<L>) {
        let mut offsets = self.offsets.clone();
        for token in root.descendants_tokens(Direction::Next) {
            if !offsets.remove(&token.text_trimmed_range().start()) {
                panic!("token has not been seen by the formatter: {token:#?}.\n\nUse `format_replaced` if you want to replace a token from the formatted output.\nUse `format_removed` if you want to remove a token from the formatted output.\nparent: {:#?}", token.parent())
            }
        }
        for offset in offsets {
            panic!("tracked offset {offset:?} doesn't match any token of {root:#?}. Have you passed a token from another tree?");
        }
    }
}

#[derive(Debug)]
pub struct FormatState<Context> {
    context: Context,
    next_group_id: Cell<u32>,
    printed_tokens: PrintedTokens,
}

impl<Context> FormatState<Context> {
    pub fn new(context: Context) -> Self {
        Self { context, next_group_id: Cell::new(1), printed_tokens: PrintedTokens::default() }
    }
    pub fn into_context(self) -> Context {
        self.context
    }
    pub fn context(&self) -> &Context {
        &self.context
    }
    pub fn context_mut(&mut self) -> &mut Context {
        &mut self.context
    }
    pub fn group_id(&self, debug_name: &'static str) -> GroupId {
        let value = self.next_group_id.get();
        self.next_group_id.set(value + 1);
        GroupId { value, name: debug_name }
    }
    #[inline]
    pub fn track_token<L: Language>(&mut self, token: &SyntaxToken<L>) {
        if cfg!(debug_assertions) {
            self.printed_tokens.track_token(token);
        }
    }
    pub fn set_token_tracking_disabled(&mut self, disabled: bool) {
        self.printed_tokens.set_disabled(disabled)
    }
    pub fn is_token_tracking_disabled(&self) -> bool {
        self.printed_tokens.is_disabled()
    }
    pub fn assert_formatted_all_tokens<L: Language>(&self, root: &SyntaxNode<L>) {
        if cfg!(debug_assertions) {
            self.printed_tokens.assert_all_tracked(root);
        }
    }
    pub fn snapshot(&self) -> FormatStateSnapshot {
        FormatStateSnapshot { printed_tokens: self.printed_tokens.clone() }
    }
    pub fn restore_snapshot(&mut self, snapshot: FormatStateSnapshot) {
        self.printed_tokens = snapshot.printed_tokens;
    }
}

pub struct FormatStateSnapshot {
    printed_tokens: PrintedTokens,
}

#[derive(Debug, Clone)]
pub struct Formatted<Context> {
    document: Document,
    context: Context,
}

impl<Context> Formatted<Context> {
    pub fn new(document: Document, context: Context) -> Self {
        Self { document, context }
    }
    pub fn context(&self) -> &Context {
        &self.context
    }
    pub fn document(&self) -> &Document {
        &self.document
    }
    pub fn into_document(self) -> Document {
        self.document
    }
}

impl<Context> Formatted<Context>
where
    Context: FormatContext,
{
    pub fn print(&self) -> PrintResult<Printed> {
        Printer::new(self.context.options().as_print_options()).print(&self.document)
    }
    pub fn print_with_indent(&self, indent: u16) -> PrintResult<Printed> {
        Printer::new(self.context.options().as_print_options()).print_with_indent(&self.document, indent)
    }
}

#[derive(Debug, Clone, Eq, PartialEq)]
pub struct Printed {
    code: String,
    range: Option<TextRange>,
    verbatim_ranges: Vec<TextRange>,
}

impl Printed {
    pub fn new(code: String, range: Option<TextRange>, verbatim_ranges: Vec<TextRange>) -> Self {
        Self { code, range, verbatim_ranges }
    }
    pub fn new_empty() -> Self {
        Self { code: String::new(), range: None, verbatim_ranges: Vec::new() }
    }
    pub fn range(&self) -> Option<TextRange> {
        self.range
    }
    pub fn as_code(&self) -> &str {
        &self.code
    }
    pub fn into_code(self) -> String {
        self.code
    }
    pub fn verbatim_ranges(&self) -> &[TextRange] {
        &self.verbatim_ranges
    }
    pub fn verbatim(&self) -> impl Iterator<Item = (TextRange, &str)> {
        self.verbatim_ranges.iter().map(|range| (*range, &self.code[*range]))
    }
}

#[inline(always)]
pub fn write<Context>(output: &mut dyn Buffer<Context = Context>, args: Arguments<Context>) -> FormatResult<()> {
    let mut f = Formatter::new(output);
    f.write_fmt(args)
}

pub fn format<Context>(context: Context, arguments: Arguments<Context>) -> FormatResult<Formatted<Context>>
where
    Context: FormatContext,
{
    let mut state = FormatState::new(context);
    let mut buffer = VecBuffer::with_capacity(arguments.items().len(), &mut state);
    buffer.write_fmt(arguments)?;
    let mut document = Document::from(buffer.into_vec());
    document.propagate_expand();
    Ok(Formatted::new(document, state.into_context()))
}

pub fn format_node<L: FormatLanguage>(
    root: &SyntaxNode<L::SyntaxLanguage>,
    language: L,
) -> FormatResult<Formatted<L::Context>> {
    let context = language.create_context(root, None);
    let format_node = FormatRefWithRule::new(root, L::FormatRule::default());

    let mut state = FormatState::new(context);
    let mut buffer = VecBuffer::new(&mut state);
    crate::write!(buffer, [format_node])?;
    let mut document = Document::from(buffer.into_vec());
    document.propagate_expand();

    state.assert_formatted_all_tokens(root);
    let context = state.into_context();
    context.comments().assert_checked_all_suppressions(root);
    context.comments().assert_formatted_all_comments();
    Ok(Formatted::new(document, context))
}

/// Formats a node of a tree. The result starts at the indentation the node has in the source.
pub fn format_sub_tree<L: FormatLanguage>(root: &SyntaxNode<L::SyntaxLanguage>, language: L) -> FormatResult<Printed> {
    // The indentation of the line the first token is on
    let mut token = root.first_token();
    let initial_indent = loop {
        match token {
            Some(current) => {
                // From the last trivia piece of the token to the first one: the last new line
                let mut next_whitespace = None;
                let mut has_newline = false;
                for piece in current.leading_trivia().pieces().collect::<Vec<_>>().into_iter().rev() {
                    if piece.is_newline() {
                        has_newline = true;
                        break;
                    }
                    next_whitespace = if piece.is_whitespace() { Some(piece) } else { None };
                }
                if has_newline {
                    break next_whitespace.map_or(0, |piece: SyntaxTriviaPiece<L::SyntaxLanguage>| {
                        // Tabs count for one level, spaces for a part of one
                        let mut level = 0u16;
                        let mut spaces = 0u16;
                        for char in piece.text().chars() {
                            match char {
                                '\t' => level += 1,
                                ' ' => spaces += 1,
                                _ => {}
                            }
                        }
                        let width = language.options().indent_width().value().max(1) as u16;
                        level + spaces / width
                    });
                }
                match current.prev_token() {
                    Some(previous) => token = Some(previous),
                    None => {
                        break current
                            .leading_trivia()
                            .pieces()
                            .next()
                            .filter(|piece| piece.is_whitespace())
                            .map_or(0, |piece| {
                                let width = language.options().indent_width().value().max(1) as usize;
                                let text = piece.text();
                                (text.matches('\t').count() + text.matches(' ').count() / width) as u16
                            });
                    }
                }
            }
            None => break 0,
        }
    };

    let formatted = format_node(root, language)?;
    let printed = formatted.print_with_indent(initial_indent)?;
    let verbatim_ranges = printed.verbatim_ranges().to_vec();
    Ok(Printed::new(printed.into_code(), Some(root.text_trimmed_range()), verbatim_ranges))
}

/// Replaces every line terminator, and `\r\n`, with a line feed.
pub fn normalize_newlines<const N: usize>(text: &str, terminators: [char; N]) -> Cow<'_, str> {
    let mut result = String::new();
    let mut last_end = 0;
    for (start, part) in text.match_indices(terminators) {
        if start < last_end {
            continue;
        }
        result.push_str(&text[last_end..start]);
        result.push('\n');
        last_end = start + part.len();
        if part == "\r" && text[last_end..].starts_with('\n') {
            last_end += 1;
        }
    }
    if result.is_empty() && last_end == 0 {
        Cow::Borrowed(text)
    } else {
        result.push_str(&text[last_end..]);
        Cow::Owned(result)
    }
}

#[allow(unused)]
type _Unused<L> = (SyntaxElement<L>, NodeOrToken<(), ()>, TokenAtOffset<()>);
