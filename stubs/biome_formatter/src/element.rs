//! The intermediate representation: elements, tags, documents.

use std::cell::Cell;
use std::hash::{Hash, Hasher};
use std::num::NonZeroU8;
use std::ops::Deref;
use std::rc::Rc;

use biome_rowan::TokenText;
use biome_text_size::TextSize;
use rustc_hash::FxHashMap;

use crate::GroupId;

#[derive(Clone, Eq, PartialEq, Debug)]
pub enum FormatElement {
    Space,
    HardSpace,
    Line(LineMode),
    ExpandParent,
    StaticText { text: &'static str },
    DynamicText { text: Box<str>, source_position: TextSize },
    LocatedTokenText { source_position: TextSize, slice: TokenText },
    LineSuffixBoundary,
    Interned(Interned),
    BestFitting(BestFittingElement),
    Tag(Tag),
}

#[derive(Copy, Clone, Debug, Eq, PartialEq)]
pub enum LineMode {
    SoftOrSpace,
    Soft,
    Hard,
    Empty,
}

impl LineMode {
    pub const fn is_hard(&self) -> bool {
        matches!(self, LineMode::Hard)
    }
}

#[derive(Copy, Clone, Debug, Eq, PartialEq, Default)]
pub enum PrintMode {
    #[default]
    Flat,
    Expanded,
}

impl PrintMode {
    pub const fn is_flat(&self) -> bool {
        matches!(self, PrintMode::Flat)
    }
    pub const fn is_expanded(&self) -> bool {
        matches!(self, PrintMode::Expanded)
    }
}

/// Shared content that may be printed more than once.
#[derive(Clone)]
pub struct Interned(Rc<[FormatElement]>);

impl Interned {
    pub(crate) fn new(content: Vec<FormatElement>) -> Self {
        Self(content.into())
    }
    pub(crate) fn address(&self) -> usize {
        Rc::as_ptr(&self.0) as *const u8 as usize
    }
}

impl PartialEq for Interned {
    fn eq(&self, other: &Interned) -> bool {
        Rc::ptr_eq(&self.0, &other.0)
    }
}
impl Eq for Interned {}
impl Hash for Interned {
    fn hash<H: Hasher>(&self, hasher: &mut H) {
        self.address().hash(hasher);
    }
}
impl std::fmt::Debug for Interned {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
impl Deref for Interned {
    type Target = [FormatElement];
    fn deref(&self) -> &Self::Target {
        &self.0
    }
}

#[derive(Clone, Eq, PartialEq, Debug)]
pub struct BestFittingElement {
    variants: Box<[Box<[FormatElement]>]>,
}

impl BestFittingElement {
    /// # Safety
    /// `variants` must have at least two elements.
    pub unsafe fn from_vec_unchecked(variants: Vec<Box<[FormatElement]>>) -> Self {
        debug_assert!(variants.len() >= 2, "Requires at least the least expanded and most expanded variants");
        Self { variants: variants.into_boxed_slice() }
    }
    pub fn most_expanded(&self) -> &[FormatElement] {
        self.variants.last().expect("at least two variants")
    }
    pub fn variants(&self) -> &[Box<[FormatElement]>] {
        &self.variants
    }
    pub fn most_flat(&self) -> &[FormatElement] {
        self.variants.first().expect("at least two variants")
    }
}

impl FormatElement {
    pub const fn is_tag(&self) -> bool {
        matches!(self, FormatElement::Tag(_))
    }
    pub const fn is_text(&self) -> bool {
        matches!(
            self,
            FormatElement::StaticText { .. }
                | FormatElement::DynamicText { .. }
                | FormatElement::LocatedTokenText { .. }
        )
    }
    pub const fn is_space(&self) -> bool {
        matches!(self, FormatElement::Space)
    }
    pub const fn is_line(&self) -> bool {
        matches!(self, FormatElement::Line(_))
    }
    pub const fn is_start_tag(&self) -> bool {
        match self {
            FormatElement::Tag(tag) => tag.is_start(),
            _ => false,
        }
    }
    pub const fn is_end_tag(&self) -> bool {
        match self {
            FormatElement::Tag(tag) => !tag.is_start(),
            _ => false,
        }
    }
    pub const fn tag_kind(&self) -> Option<TagKind> {
        match self {
            FormatElement::Tag(tag) => Some(tag.kind()),
            _ => None,
        }
    }
    pub(crate) fn text(&self) -> Option<&str> {
        match self {
            FormatElement::StaticText { text } => Some(text),
            FormatElement::DynamicText { text, .. } => Some(text),
            FormatElement::LocatedTokenText { slice, .. } => Some(slice.text()),
            _ => None,
        }
    }
}

pub trait FormatElements {
    /// Whether the content must break the enclosing group.
    fn will_break(&self) -> bool;
    /// The content has the given label.
    fn has_label(&self, label: LabelId) -> bool;
    fn may_directly_break(&self) -> bool;
}

impl FormatElements for FormatElement {
    fn will_break(&self) -> bool {
        match self {
            FormatElement::ExpandParent => true,
            FormatElement::Tag(Tag::StartGroup(group)) => !group.mode().is_flat(),
            FormatElement::Line(mode) => matches!(mode, LineMode::Hard | LineMode::Empty),
            FormatElement::Interned(interned) => interned.will_break(),
            // The most flat version: when even that breaks, everything does
            FormatElement::BestFitting(best_fitting) => best_fitting.most_flat().will_break(),
            element => element.text().is_some_and(|text| text.contains('\n')),
        }
    }
    fn has_label(&self, label: LabelId) -> bool {
        match self {
            FormatElement::Tag(Tag::StartLabelled(actual)) => *actual == label,
            FormatElement::Interned(interned) => interned.has_label(label),
            _ => false,
        }
    }
    fn may_directly_break(&self) -> bool {
        matches!(self, FormatElement::Line(_))
    }
}

impl FormatElements for [FormatElement] {
    fn will_break(&self) -> bool {
        let mut ignore_depth = 0usize;
        for element in self {
            match element {
                // Line suffixes are printed at the end of the line, whether they break or not
                FormatElement::Tag(Tag::StartLineSuffix) => ignore_depth += 1,
                FormatElement::Tag(Tag::EndLineSuffix) => ignore_depth -= 1,
                element if ignore_depth == 0 && element.will_break() => return true,
                _ => {}
            }
        }
        debug_assert_eq!(ignore_depth, 0, "Unclosed start container");
        false
    }
    fn has_label(&self, label: LabelId) -> bool {
        self.first().is_some_and(|element| element.has_label(label))
    }
    fn may_directly_break(&self) -> bool {
        let mut depth = 0usize;
        for element in self {
            match element {
                FormatElement::Tag(Tag::StartGroup(_)) => depth += 1,
                FormatElement::Tag(Tag::EndGroup) => depth = depth.saturating_sub(1),
                FormatElement::Interned(interned) if depth == 0 => {
                    if interned.may_directly_break() {
                        return true;
                    }
                }
                element if depth == 0 && element.may_directly_break() => return true,
                _ => {}
            }
        }
        false
    }
}

impl FormatElements for Vec<FormatElement> {
    fn will_break(&self) -> bool {
        self.as_slice().will_break()
    }
    fn has_label(&self, label: LabelId) -> bool {
        self.as_slice().has_label(label)
    }
    fn may_directly_break(&self) -> bool {
        self.as_slice().may_directly_break()
    }
}

#[derive(Clone, Copy, Eq, PartialEq, Debug)]
pub struct LabelId {
    pub(crate) id: std::any::TypeId,
}

impl LabelId {
    pub fn of<T: std::any::Any>() -> Self {
        Self { id: std::any::TypeId::of::<T>() }
    }
}

#[derive(Clone, Debug, Eq, PartialEq)]
pub enum Tag {
    StartIndent,
    EndIndent,
    StartAlign(Align),
    EndAlign,
    StartDedent(DedentMode),
    EndDedent(DedentMode),
    StartGroup(Group),
    EndGroup,
    StartConditionalContent(Condition),
    EndConditionalContent,
    StartIndentIfGroupBreaks(GroupId),
    EndIndentIfGroupBreaks(GroupId),
    StartFill,
    EndFill,
    StartEntry,
    EndEntry,
    StartLineSuffix,
    EndLineSuffix,
    StartVerbatim(VerbatimKind),
    EndVerbatim,
    StartLabelled(LabelId),
    EndLabelled,
}

impl Tag {
    pub const fn is_start(&self) -> bool {
        matches!(
            self,
            Tag::StartIndent
                | Tag::StartAlign(_)
                | Tag::StartDedent(_)
                | Tag::StartGroup(_)
                | Tag::StartConditionalContent(_)
                | Tag::StartIndentIfGroupBreaks(_)
                | Tag::StartFill
                | Tag::StartEntry
                | Tag::StartLineSuffix
                | Tag::StartVerbatim(_)
                | Tag::StartLabelled(_)
        )
    }
    pub const fn is_end(&self) -> bool {
        !self.is_start()
    }
    pub const fn kind(&self) -> TagKind {
        match self {
            Tag::StartIndent | Tag::EndIndent => TagKind::Indent,
            Tag::StartAlign(_) | Tag::EndAlign => TagKind::Align,
            Tag::StartDedent(_) | Tag::EndDedent(_) => TagKind::Dedent,
            Tag::StartGroup(_) | Tag::EndGroup => TagKind::Group,
            Tag::StartConditionalContent(_) | Tag::EndConditionalContent => TagKind::ConditionalContent,
            Tag::StartIndentIfGroupBreaks(_) | Tag::EndIndentIfGroupBreaks(_) => TagKind::IndentIfGroupBreaks,
            Tag::StartFill | Tag::EndFill => TagKind::Fill,
            Tag::StartEntry | Tag::EndEntry => TagKind::Entry,
            Tag::StartLineSuffix | Tag::EndLineSuffix => TagKind::LineSuffix,
            Tag::StartVerbatim(_) | Tag::EndVerbatim => TagKind::Verbatim,
            Tag::StartLabelled(_) | Tag::EndLabelled => TagKind::Labelled,
        }
    }
}

#[derive(Copy, Clone, Debug, Eq, PartialEq)]
pub enum TagKind {
    Indent,
    Align,
    Dedent,
    Group,
    ConditionalContent,
    IndentIfGroupBreaks,
    Fill,
    Entry,
    LineSuffix,
    Verbatim,
    Labelled,
}

#[derive(Debug, Copy, Default, Clone, Eq, PartialEq)]
pub enum GroupMode {
    #[default]
    Flat,
    Expand,
    Propagated,
}

impl GroupMode {
    pub const fn is_flat(&self) -> bool {
        matches!(self, GroupMode::Flat)
    }
}

#[derive(Debug, Clone, Default, Eq, PartialEq)]
pub struct Group {
    id: Option<GroupId>,
    mode: Cell<GroupMode>,
}

impl Group {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn with_id(mut self, id: Option<GroupId>) -> Self {
        self.id = id;
        self
    }
    pub fn with_mode(mut self, mode: GroupMode) -> Self {
        self.mode = Cell::new(mode);
        self
    }
    pub fn mode(&self) -> GroupMode {
        self.mode.get()
    }
    pub fn propagate_expand(&self) {
        if self.mode.get() == GroupMode::Flat {
            self.mode.set(GroupMode::Propagated)
        }
    }
    pub fn id(&self) -> Option<GroupId> {
        self.id
    }
}

#[derive(Debug, Copy, Clone, Eq, PartialEq)]
pub enum DedentMode {
    Level,
    Root,
}

#[derive(Debug, Clone, Eq, PartialEq)]
pub struct Condition {
    pub(crate) mode: PrintMode,
    pub(crate) group_id: Option<GroupId>,
}

impl Condition {
    pub fn new(mode: PrintMode) -> Self {
        Self { mode, group_id: None }
    }
    pub fn with_group_id(mut self, id: Option<GroupId>) -> Self {
        self.group_id = id;
        self
    }
    pub fn mode(&self) -> PrintMode {
        self.mode
    }
}

#[derive(Debug, Copy, Clone, Eq, PartialEq)]
pub struct Align(pub(crate) NonZeroU8);

impl Align {
    pub fn count(&self) -> NonZeroU8 {
        self.0
    }
}

#[derive(Debug, Copy, Clone, Eq, PartialEq)]
pub enum VerbatimKind {
    Bogus,
    Suppressed,
    Verbatim { length: TextSize },
}

impl VerbatimKind {
    pub const fn is_bogus(&self) -> bool {
        matches!(self, VerbatimKind::Bogus)
    }
}

#[derive(Debug, Clone, Eq, PartialEq, Default)]
pub struct Document {
    elements: Vec<FormatElement>,
}

/// The real one writes its own notation for the elements, which nothing here reads.
impl std::fmt::Display for Document {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(&self.elements, f)
    }
}

impl Document {
    /// Sets the mode of every group that contains a forced line break.
    pub(crate) fn propagate_expand(&mut self) {
        enum Enclosing<'a> {
            Group(&'a Group),
            BestFitting,
        }

        fn expand_parent(enclosing: &[Enclosing]) {
            if let Some(Enclosing::Group(group)) = enclosing.last() {
                group.propagate_expand();
            }
        }

        fn propagate<'a>(
            elements: &'a [FormatElement],
            enclosing: &mut Vec<Enclosing<'a>>,
            checked: &mut FxHashMap<usize, bool>,
        ) -> bool {
            let mut expands = false;
            for element in elements {
                let element_expands = match element {
                    FormatElement::Tag(Tag::StartGroup(group)) => {
                        enclosing.push(Enclosing::Group(group));
                        false
                    }
                    FormatElement::Tag(Tag::EndGroup) => match enclosing.pop() {
                        Some(Enclosing::Group(group)) => !group.mode().is_flat(),
                        _ => false,
                    },
                    FormatElement::Interned(interned) => match checked.get(&interned.address()) {
                        Some(expands) => *expands,
                        None => {
                            let expands = propagate(interned, enclosing, checked);
                            checked.insert(interned.address(), expands);
                            expands
                        }
                    },
                    FormatElement::BestFitting(best_fitting) => {
                        enclosing.push(Enclosing::BestFitting);
                        for variant in best_fitting.variants() {
                            propagate(variant, enclosing, checked);
                        }
                        // A boundary: what breaks inside doesn't break what's outside
                        expands = false;
                        enclosing.pop();
                        continue;
                    }
                    FormatElement::ExpandParent => true,
                    FormatElement::Line(mode) => matches!(mode, LineMode::Hard | LineMode::Empty),
                    element => element.text().is_some_and(|text| text.contains('\n')),
                };
                if element_expands {
                    expands = true;
                    expand_parent(enclosing);
                }
            }
            expands
        }

        let mut enclosing = Vec::new();
        let mut checked = FxHashMap::default();
        propagate(&self.elements, &mut enclosing, &mut checked);
    }
}

impl From<Vec<FormatElement>> for Document {
    fn from(elements: Vec<FormatElement>) -> Self {
        Self { elements }
    }
}

impl Deref for Document {
    type Target = [FormatElement];
    fn deref(&self) -> &Self::Target {
        &self.elements
    }
}
