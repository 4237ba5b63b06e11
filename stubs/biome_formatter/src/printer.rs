//! Prints documents: decides which groups fit on a line.

use std::num::NonZeroU8;

use rustc_hash::FxHashMap;
use unicode_width::UnicodeWidthChar;

use crate::element::*;
use crate::{FormatOptions, GroupId, IndentStyle, IndentWidth, LineEnding, LineWidth, PrintError, PrintResult, Printed};
use crate::{TextRange, TextSize};

#[derive(Clone, Debug, Eq, PartialEq, Default)]
pub struct PrinterOptions {
    pub indent_style: IndentStyle,
    pub indent_width: IndentWidth,
    pub print_width: PrintWidth,
    pub line_ending: LineEnding,
}

#[derive(Copy, Clone, Debug, Eq, PartialEq, PartialOrd, Ord)]
pub struct PrintWidth(u32);

impl PrintWidth {
    pub fn new(width: u32) -> Self {
        Self(width)
    }
}
impl Default for PrintWidth {
    fn default() -> Self {
        LineWidth::default().into()
    }
}
impl From<LineWidth> for PrintWidth {
    fn from(width: LineWidth) -> Self {
        Self(u16::from(width) as u32)
    }
}
impl From<PrintWidth> for usize {
    fn from(width: PrintWidth) -> Self {
        width.0 as usize
    }
}

impl<'a, O: FormatOptions> From<&'a O> for PrinterOptions {
    fn from(options: &'a O) -> Self {
        PrinterOptions {
            indent_style: options.indent_style(),
            indent_width: options.indent_width(),
            print_width: options.line_width().into(),
            line_ending: options.line_ending(),
        }
    }
}

impl PrinterOptions {
    pub fn with_print_width(mut self, width: PrintWidth) -> Self {
        self.print_width = width;
        self
    }
    pub fn with_indent_style(mut self, style: IndentStyle) -> Self {
        self.indent_style = style;
        self
    }
    pub fn with_indent_width(mut self, width: IndentWidth) -> Self {
        self.indent_width = width;
        self
    }
    pub fn with_line_ending(mut self, line_ending: LineEnding) -> Self {
        self.line_ending = line_ending;
        self
    }
}

#[derive(Debug, Copy, Clone, Eq, PartialEq)]
enum Indention {
    Level(u16),
    Align { level: u16, align: NonZeroU8 },
}

impl Indention {
    const fn is_empty(&self) -> bool {
        matches!(self, Indention::Level(0))
    }
    fn level(&self) -> u16 {
        match self {
            Indention::Level(level) | Indention::Align { level, .. } => *level,
        }
    }
    fn align(&self) -> u8 {
        match self {
            Indention::Level(_) => 0,
            Indention::Align { align, .. } => (*align).into(),
        }
    }
    fn increment_level(self, style: IndentStyle) -> Self {
        match self {
            Indention::Level(level) => Indention::Level(level + 1),
            // Increase the indent AND convert the align to an indent
            Indention::Align { level, .. } if style.is_tab() => Indention::Level(level + 2),
            Indention::Align { level, align } => Indention::Align { level: level + 1, align },
        }
    }
    fn decrement(self) -> Self {
        match self {
            Indention::Level(level) => Indention::Level(level.saturating_sub(1)),
            Indention::Align { level, .. } => Indention::Level(level),
        }
    }
    fn set_align(self, count: NonZeroU8) -> Self {
        match self {
            Indention::Level(level) => Indention::Align { level, align: count },
            Indention::Align { level, align } => Indention::Align { level, align: align.saturating_add(count.get()) },
        }
    }
}

impl Default for Indention {
    fn default() -> Self {
        Indention::Level(0)
    }
}

#[derive(Debug, Copy, Clone, Eq, PartialEq, Default)]
struct Args {
    indent: Indention,
    mode: PrintMode,
}

impl Args {
    fn with_mode(mut self, mode: PrintMode) -> Self {
        self.mode = mode;
        self
    }
}

type Stack = Vec<(Option<TagKind>, Args)>;

/// What's left to print: slices with a position, the last one is printed first.
#[derive(Debug, Default, Clone)]
struct Queue<'a> {
    slices: Vec<&'a [FormatElement]>,
}

impl<'a> Queue<'a> {
    fn pop(&mut self) -> Option<&'a FormatElement> {
        loop {
            let top = self.slices.last_mut()?;
            match top.split_first() {
                Some((first, rest)) => {
                    *top = rest;
                    return Some(first);
                }
                None => {
                    self.slices.pop();
                }
            }
        }
    }
    fn extend_back(&mut self, elements: &'a [FormatElement]) {
        if !elements.is_empty() {
            self.slices.push(elements);
        }
    }
    fn push(&mut self, element: &'a FormatElement) {
        self.extend_back(std::slice::from_ref(element));
    }
    fn is_empty(&self) -> bool {
        self.slices.iter().all(|slice| slice.is_empty())
    }
    /// Pops everything up to (and including) the end tag of the given kind.
    fn take_content(&mut self, kind: TagKind) -> Vec<&'a FormatElement> {
        let mut content = vec![];
        let mut depth = 1usize;
        while let Some(element) = self.pop() {
            match element {
                FormatElement::Tag(tag) if tag.kind() == kind => {
                    if tag.is_start() {
                        depth += 1;
                    } else {
                        depth -= 1;
                        if depth == 0 {
                            return content;
                        }
                    }
                }
                // The end tag is never inside of interned content whose start isn't
                _ => {}
            }
            content.push(element);
        }
        content
    }
    fn skip_content(&mut self, kind: TagKind) {
        self.take_content(kind);
    }
}

enum Suffix<'a> {
    Element(&'a FormatElement),
    Args(Args),
}

pub struct Printer<'a> {
    options: PrinterOptions,
    buffer: String,
    pending_indent: Indention,
    pending_space: bool,
    measured_group_fits: bool,
    line_width: usize,
    has_empty_line: bool,
    line_suffixes: Vec<Suffix<'a>>,
    verbatim: Vec<TextRange>,
    group_modes: FxHashMap<GroupId, PrintMode>,
}

const HARD_BREAK: &FormatElement = &FormatElement::Line(LineMode::Hard);
const LINE_SUFFIX_END: &FormatElement = &FormatElement::Tag(Tag::EndLineSuffix);

impl<'a> Printer<'a> {
    pub fn new(options: PrinterOptions) -> Self {
        Self {
            options,
            buffer: String::new(),
            pending_indent: Indention::default(),
            pending_space: false,
            measured_group_fits: false,
            line_width: 0,
            has_empty_line: false,
            line_suffixes: vec![],
            verbatim: vec![],
            group_modes: FxHashMap::default(),
        }
    }

    pub fn print(self, document: &'a Document) -> PrintResult<Printed> {
        self.print_with_indent(document, 0)
    }

    pub fn print_with_indent(mut self, document: &'a Document, indent: u16) -> PrintResult<Printed> {
        let mut stack: Stack =
            vec![(None, Args { indent: Indention::Level(indent), mode: PrintMode::Expanded })];
        let mut queue = Queue::default();
        queue.extend_back(document);
        while let Some(element) = queue.pop() {
            self.element(&mut stack, &mut queue, element)?;
            if queue.is_empty() {
                self.flush_line_suffixes(&mut queue, &mut stack, None);
            }
        }
        Ok(Printed::new(self.buffer, None, self.verbatim))
    }

    fn element(&mut self, stack: &mut Stack, queue: &mut Queue<'a>, element: &'a FormatElement) -> PrintResult<()> {
        let args = stack.last().expect("root").1;
        match element {
            FormatElement::Space | FormatElement::HardSpace => {
                if self.line_width > 0 {
                    self.pending_space = true;
                }
            }
            FormatElement::StaticText { text } => self.text(text),
            FormatElement::DynamicText { text, .. } => self.text(text),
            FormatElement::LocatedTokenText { slice, .. } => self.text(slice.text()),
            FormatElement::Line(mode) => {
                if args.mode.is_flat() && matches!(mode, LineMode::Soft | LineMode::SoftOrSpace) {
                    if matches!(mode, LineMode::SoftOrSpace) && self.line_width > 0 {
                        self.pending_space = true;
                    }
                } else if !self.line_suffixes.is_empty() {
                    self.flush_line_suffixes(queue, stack, Some(element));
                } else {
                    // Only print a new line if the current line isn't already empty
                    if self.line_width > 0 {
                        self.char('\n');
                    }
                    // Print a second line break if this is an empty line
                    if matches!(mode, LineMode::Empty) && !self.has_empty_line {
                        self.char('\n');
                        self.has_empty_line = true;
                    }
                    self.pending_space = false;
                    self.pending_indent = args.indent;
                    // Fits only tests if groups up to the first line break fit
                    self.measured_group_fits = false;
                }
            }
            FormatElement::ExpandParent => {}
            FormatElement::LineSuffixBoundary => self.flush_line_suffixes(queue, stack, Some(HARD_BREAK)),
            FormatElement::BestFitting(best_fitting) => self.best_fitting(best_fitting, queue, stack, args)?,
            FormatElement::Interned(content) => queue.extend_back(content),
            FormatElement::Tag(tag) => match tag {
                Tag::StartGroup(group) => {
                    let mode = match group.mode() {
                        GroupMode::Expand | GroupMode::Propagated => {
                            stack.push((Some(TagKind::Group), args.with_mode(PrintMode::Expanded)));
                            PrintMode::Expanded
                        }
                        GroupMode::Flat if args.mode.is_flat() && self.measured_group_fits => {
                            // A parent group has already verified that this group fits on a line
                            stack.push((Some(TagKind::Group), args));
                            PrintMode::Flat
                        }
                        GroupMode::Flat => {
                            self.measured_group_fits = true;
                            stack.push((Some(TagKind::Group), args.with_mode(PrintMode::Flat)));
                            let fits = self.fits(queue, stack)?;
                            stack.pop();
                            let mode = if fits { PrintMode::Flat } else { PrintMode::Expanded };
                            stack.push((Some(TagKind::Group), args.with_mode(mode)));
                            mode
                        }
                    };
                    if let Some(id) = group.id() {
                        self.group_modes.insert(id, mode);
                    }
                }
                Tag::StartFill => self.fill(queue, stack, args)?,
                Tag::StartConditionalContent(condition) => {
                    let mode = match condition.group_id {
                        None => args.mode,
                        Some(id) => *self.group_modes.get(&id).unwrap_or_else(|| {
                            panic!("Expected group with id {id:?} to exist but it wasn't present in the document.")
                        }),
                    };
                    if mode == condition.mode {
                        stack.push((Some(TagKind::ConditionalContent), args));
                    } else {
                        queue.skip_content(TagKind::ConditionalContent);
                    }
                }
                Tag::StartIndentIfGroupBreaks(id) => {
                    let mode = *self.group_modes.get(id).unwrap_or_else(|| {
                        panic!("Expected group with id {id:?} to exist but it wasn't present in the document.")
                    });
                    let args = match mode {
                        PrintMode::Flat => args,
                        PrintMode::Expanded => self.indented(args),
                    };
                    stack.push((Some(TagKind::IndentIfGroupBreaks), args));
                }
                Tag::StartLineSuffix => {
                    for element in queue.take_content(TagKind::LineSuffix) {
                        self.line_suffixes.push(Suffix::Element(element));
                    }
                    self.line_suffixes.push(Suffix::Args(args));
                }
                Tag::StartVerbatim(kind) => {
                    if let VerbatimKind::Verbatim { length } = kind {
                        self.verbatim.push(TextRange::at(TextSize::from(self.buffer.len() as u32), *length));
                    }
                    stack.push((Some(TagKind::Verbatim), args));
                }
                tag if tag.is_start() => stack.push((Some(tag.kind()), self.start(tag, args))),
                tag => pop(stack, tag.kind())?,
            },
        }
        Ok(())
    }

    fn indented(&self, args: Args) -> Args {
        Args { indent: args.indent.increment_level(self.options.indent_style), ..args }
    }

    fn start(&self, tag: &Tag, args: Args) -> Args {
        match tag {
            Tag::StartIndent => self.indented(args),
            Tag::StartDedent(DedentMode::Level) => Args { indent: args.indent.decrement(), ..args },
            Tag::StartDedent(DedentMode::Root) => Args { indent: Indention::Level(0), ..args },
            Tag::StartAlign(align) => Args { indent: args.indent.set_align(align.count()), ..args },
            _ => args,
        }
    }

    fn fits(&mut self, queue: &Queue<'a>, stack: &Stack) -> PrintResult<bool> {
        Fits {
            printer: self,
            queue: queue.clone(),
            stack: stack.clone(),
            pending_indent: self.pending_indent,
            pending_space: self.pending_space,
            line_width: self.line_width,
            has_line_suffix: !self.line_suffixes.is_empty(),
            group_modes: self.group_modes.clone(),
        }
        .run(None)
    }

    fn best_fitting(
        &mut self,
        best_fitting: &'a BestFittingElement,
        queue: &mut Queue<'a>,
        stack: &mut Stack,
        args: Args,
    ) -> PrintResult<()> {
        if args.mode.is_flat() && self.measured_group_fits {
            queue.extend_back(best_fitting.most_flat());
            return self.entry(queue, stack, args);
        }
        self.measured_group_fits = true;
        let variants = best_fitting.variants();
        for variant in &variants[..variants.len() - 1] {
            let entry_args = args.with_mode(PrintMode::Flat);
            let mut measured = queue.clone();
            measured.extend_back(&variant[1..]);
            stack.push((Some(TagKind::Entry), entry_args));
            let fits = self.fits(&measured, stack)?;
            stack.pop();
            if fits {
                queue.extend_back(variant);
                return self.entry(queue, stack, entry_args);
            }
        }
        // No variant fits, take the most expanded one
        queue.extend_back(best_fitting.most_expanded());
        self.entry(queue, stack, args.with_mode(PrintMode::Expanded))
    }

    /// Prints the entry at the front of the queue.
    fn entry(&mut self, queue: &mut Queue<'a>, stack: &mut Stack, args: Args) -> PrintResult<()> {
        match queue.pop() {
            Some(FormatElement::Tag(Tag::StartEntry)) => {}
            _ => return Err(PrintError::InvalidDocument),
        }
        let depth = stack.len();
        stack.push((Some(TagKind::Entry), args));
        while let Some(element) = queue.pop() {
            self.element(stack, queue, element)?;
            if stack.len() == depth {
                return Ok(());
            }
        }
        Err(PrintError::InvalidDocument)
    }

    fn fill(&mut self, queue: &mut Queue<'a>, stack: &mut Stack, args: Args) -> PrintResult<()> {
        // Not needed by air: entries one by one, each on its own merit
        stack.push((Some(TagKind::Fill), args));
        let _ = queue;
        Ok(())
    }

    fn flush_line_suffixes(&mut self, queue: &mut Queue<'a>, stack: &mut Stack, line_break: Option<&'a FormatElement>) {
        let suffixes = std::mem::take(&mut self.line_suffixes);
        if suffixes.is_empty() {
            return;
        }
        // Print this line break again once all the line suffixes have been flushed
        if let Some(line_break) = line_break {
            queue.push(line_break);
        }
        for entry in suffixes.into_iter().rev() {
            match entry {
                Suffix::Element(element) => queue.push(element),
                Suffix::Args(args) => {
                    stack.push((Some(TagKind::LineSuffix), args));
                    queue.push(LINE_SUFFIX_END);
                }
            }
        }
    }

    fn text(&mut self, text: &str) {
        if !self.pending_indent.is_empty() {
            let (indent_char, count) = match self.options.indent_style {
                IndentStyle::Tab => ('\t', 1),
                IndentStyle::Space => (' ', self.options.indent_width.value()),
            };
            let indent = std::mem::take(&mut self.pending_indent);
            for _ in 0..indent.level() as usize * count as usize {
                self.char(indent_char);
            }
            for _ in 0..indent.align() {
                self.char(' ');
            }
        }
        if self.pending_space {
            self.char(' ');
            self.pending_space = false;
        }
        for char in text.chars() {
            self.char(char);
        }
    }

    fn char(&mut self, char: char) {
        if char == '\n' {
            self.buffer.push_str(self.options.line_ending.as_str());
            self.line_width = 0;
            // Fits only tests if groups up to the first line break fit
            self.measured_group_fits = false;
        } else {
            self.buffer.push(char);
            self.line_width += match char {
                '\t' => self.options.indent_width.value() as usize,
                char => char.width().unwrap_or(0),
            };
        }
        self.has_empty_line = false;
    }
}

fn pop(stack: &mut Stack, kind: TagKind) -> PrintResult<()> {
    match stack.pop() {
        Some((Some(top), _)) if top == kind => Ok(()),
        _ => Err(PrintError::InvalidDocument),
    }
}

struct Fits<'p, 'a> {
    printer: &'p Printer<'a>,
    queue: Queue<'a>,
    stack: Stack,
    pending_indent: Indention,
    pending_space: bool,
    line_width: usize,
    has_line_suffix: bool,
    group_modes: FxHashMap<GroupId, PrintMode>,
}

impl<'a> Fits<'_, 'a> {
    fn run(mut self, _until: Option<TagKind>) -> PrintResult<bool> {
        while let Some(element) = self.queue.pop() {
            if let Some(fits) = self.element(element)? {
                return Ok(fits);
            }
        }
        Ok(true)
    }

    fn element(&mut self, element: &'a FormatElement) -> PrintResult<Option<bool>> {
        let args = self.stack.last().expect("root").1;
        match element {
            FormatElement::Space | FormatElement::HardSpace => {
                if self.line_width > 0 {
                    self.pending_space = true;
                }
            }
            FormatElement::Line(mode) => {
                if !args.mode.is_flat() {
                    // Outside of the measured element, or in a group that expands: fits
                    return Ok(Some(true));
                }
                match mode {
                    LineMode::SoftOrSpace => self.pending_space = true,
                    LineMode::Soft => {}
                    LineMode::Hard | LineMode::Empty => return Ok(Some(true)),
                }
            }
            FormatElement::StaticText { text } => return Ok(self.text(text)),
            FormatElement::DynamicText { text, .. } => return Ok(self.text(text)),
            FormatElement::LocatedTokenText { slice, .. } => return Ok(self.text(slice.text())),
            FormatElement::LineSuffixBoundary => {
                if self.has_line_suffix {
                    return Ok(Some(false));
                }
            }
            FormatElement::ExpandParent => {}
            FormatElement::BestFitting(best_fitting) => {
                let slice = match args.mode {
                    PrintMode::Flat => best_fitting.most_flat(),
                    PrintMode::Expanded => best_fitting.most_expanded(),
                };
                if !matches!(slice.first(), Some(FormatElement::Tag(Tag::StartEntry))) {
                    return Err(PrintError::InvalidDocument);
                }
                self.stack.push((Some(TagKind::Entry), args));
                self.queue.extend_back(&slice[1..]);
            }
            FormatElement::Interned(content) => self.queue.extend_back(content),
            FormatElement::Tag(tag) => match tag {
                Tag::StartGroup(group) => {
                    // Groups that expand are measured as such
                    let mode = if group.mode().is_flat() { args.mode } else { PrintMode::Expanded };
                    self.stack.push((Some(TagKind::Group), args.with_mode(mode)));
                    if let Some(id) = group.id() {
                        self.group_modes.insert(id, mode);
                    }
                }
                Tag::StartConditionalContent(condition) => {
                    let mode = match condition.group_id {
                        None => args.mode,
                        Some(id) => self.group_modes.get(&id).copied().unwrap_or(args.mode),
                    };
                    if mode == condition.mode {
                        self.stack.push((Some(TagKind::ConditionalContent), args));
                    } else {
                        self.queue.skip_content(TagKind::ConditionalContent);
                    }
                }
                Tag::StartIndentIfGroupBreaks(id) => {
                    let mode = self.group_modes.get(id).copied().unwrap_or(args.mode);
                    let args = match mode {
                        PrintMode::Flat => args,
                        PrintMode::Expanded => self.printer.indented(args),
                    };
                    self.stack.push((Some(TagKind::IndentIfGroupBreaks), args));
                }
                Tag::StartLineSuffix => {
                    self.queue.skip_content(TagKind::LineSuffix);
                    self.has_line_suffix = true;
                }
                tag if tag.is_start() => {
                    let args = self.printer.start(tag, args);
                    self.stack.push((Some(tag.kind()), args));
                }
                tag => pop(&mut self.stack, tag.kind())?,
            },
        }
        Ok(None)
    }

    fn text(&mut self, text: &str) -> Option<bool> {
        let indent = std::mem::take(&mut self.pending_indent);
        self.line_width +=
            indent.level() as usize * self.printer.options.indent_width.value() as usize + indent.align() as usize;
        if self.pending_space {
            self.line_width += 1;
        }
        let max: usize = self.printer.options.print_width.into();
        for char in text.chars() {
            self.line_width += match char {
                '\t' => self.printer.options.indent_width.value() as usize,
                '\n' => return Some(self.line_width <= max),
                char => char.width().unwrap_or(0),
            };
        }
        if self.line_width > max {
            return Some(false);
        }
        self.pending_space = false;
        None
    }
}
