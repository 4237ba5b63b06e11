//! Where elements are written to.

use std::any::{Any, TypeId};
use std::ops::{Deref, DerefMut};

use rustc_hash::FxHashMap;

use crate::element::{Condition, FormatElement, Interned, LineMode, PrintMode, Tag};
use crate::{Arguments, Format, FormatResult, FormatState};

pub trait Buffer {
    type Context;

    fn write_element(&mut self, element: FormatElement) -> FormatResult<()>;
    fn elements(&self) -> &[FormatElement];
    fn write_fmt(mut self: &mut Self, arguments: Arguments<Self::Context>) -> FormatResult<()> {
        crate::write(&mut self, arguments)
    }
    fn state(&self) -> &FormatState<Self::Context>;
    fn state_mut(&mut self) -> &mut FormatState<Self::Context>;
    fn snapshot(&self) -> BufferSnapshot;
    fn restore_snapshot(&mut self, snapshot: BufferSnapshot);
}

#[derive(Debug)]
pub enum BufferSnapshot {
    Position(usize),
    Any(Box<dyn Any>),
}

impl BufferSnapshot {
    pub const fn position(position: usize) -> Self {
        Self::Position(position)
    }
    pub fn unwrap_position(&self) -> usize {
        match self {
            BufferSnapshot::Position(index) => *index,
            BufferSnapshot::Any(_) => panic!("Tried to unwrap Any snapshot as a position."),
        }
    }
    pub fn unwrap_any<T: 'static>(self) -> T {
        match self {
            BufferSnapshot::Position(_) => panic!("Tried to unwrap position snapshot as {:?}", TypeId::of::<T>()),
            BufferSnapshot::Any(value) => match value.downcast::<T>() {
                Ok(snapshot) => *snapshot,
                Err(_) => panic!("Tried to unwrap snapshot as {:?}", TypeId::of::<T>()),
            },
        }
    }
}

impl<W: Buffer<Context = Context> + ?Sized, Context> Buffer for &mut W {
    type Context = Context;

    fn write_element(&mut self, element: FormatElement) -> FormatResult<()> {
        (**self).write_element(element)
    }
    fn elements(&self) -> &[FormatElement] {
        (**self).elements()
    }
    fn write_fmt(&mut self, args: Arguments<Context>) -> FormatResult<()> {
        (**self).write_fmt(args)
    }
    fn state(&self) -> &FormatState<Self::Context> {
        (**self).state()
    }
    fn state_mut(&mut self) -> &mut FormatState<Self::Context> {
        (**self).state_mut()
    }
    fn snapshot(&self) -> BufferSnapshot {
        (**self).snapshot()
    }
    fn restore_snapshot(&mut self, snapshot: BufferSnapshot) {
        (**self).restore_snapshot(snapshot)
    }
}

#[derive(Debug)]
pub struct VecBuffer<'a, Context> {
    state: &'a mut FormatState<Context>,
    elements: Vec<FormatElement>,
}

impl<'a, Context> VecBuffer<'a, Context> {
    pub fn new(state: &'a mut FormatState<Context>) -> Self {
        Self { state, elements: Vec::new() }
    }
    pub fn new_with_vec(state: &'a mut FormatState<Context>, elements: Vec<FormatElement>) -> Self {
        Self { state, elements }
    }
    pub fn with_capacity(capacity: usize, state: &'a mut FormatState<Context>) -> Self {
        Self { state, elements: Vec::with_capacity(capacity) }
    }
    pub fn into_vec(self) -> Vec<FormatElement> {
        self.elements
    }
    pub fn take_vec(&mut self) -> Vec<FormatElement> {
        std::mem::take(&mut self.elements)
    }
}

impl<Context> Deref for VecBuffer<'_, Context> {
    type Target = [FormatElement];
    fn deref(&self) -> &Self::Target {
        &self.elements
    }
}
impl<Context> DerefMut for VecBuffer<'_, Context> {
    fn deref_mut(&mut self) -> &mut Self::Target {
        &mut self.elements
    }
}

impl<Context> Buffer for VecBuffer<'_, Context> {
    type Context = Context;

    fn write_element(&mut self, element: FormatElement) -> FormatResult<()> {
        self.elements.push(element);
        Ok(())
    }
    fn elements(&self) -> &[FormatElement] {
        &self.elements
    }
    fn state(&self) -> &FormatState<Self::Context> {
        self.state
    }
    fn state_mut(&mut self) -> &mut FormatState<Self::Context> {
        self.state
    }
    fn snapshot(&self) -> BufferSnapshot {
        BufferSnapshot::position(self.elements.len())
    }
    fn restore_snapshot(&mut self, snapshot: BufferSnapshot) {
        let position = snapshot.unwrap_position();
        assert!(self.elements.len() >= position, "Outdated snapshot. This buffer contains fewer elements than at the time the snapshot was taken.");
        self.elements.truncate(position);
    }
}

/// Removes soft line breaks and everything that's only printed in a broken group.
pub struct RemoveSoftLinesBuffer<'a, Context> {
    inner: &'a mut dyn Buffer<Context = Context>,
    interned_cache: FxHashMap<Interned, Interned>,
    conditional_content_stack: Vec<Condition>,
}

impl<'a, Context> RemoveSoftLinesBuffer<'a, Context> {
    pub fn new(inner: &'a mut dyn Buffer<Context = Context>) -> Self {
        Self { inner, interned_cache: FxHashMap::default(), conditional_content_stack: Vec::new() }
    }

    fn clean_interned(&mut self, interned: &Interned) -> Interned {
        if let Some(cleaned) = self.interned_cache.get(interned) {
            return cleaned.clone();
        }
        let mut content = Vec::with_capacity(interned.len());
        for element in interned.iter() {
            if let Some(element) = self.clean(element.clone()) {
                content.push(element);
            }
        }
        let cleaned = if content[..] == interned[..] { interned.clone() } else { Interned::new(content) };
        self.interned_cache.insert(interned.clone(), cleaned.clone());
        cleaned
    }

    fn is_in_expanded_conditional_content(&self) -> bool {
        self.conditional_content_stack.last().is_some_and(|condition| condition.mode == PrintMode::Expanded)
    }

    fn clean(&mut self, element: FormatElement) -> Option<FormatElement> {
        match element {
            FormatElement::Tag(Tag::StartConditionalContent(condition)) => {
                self.conditional_content_stack.push(condition.clone());
                None
            }
            FormatElement::Tag(Tag::EndConditionalContent) => {
                self.conditional_content_stack.pop();
                None
            }
            _ if self.is_in_expanded_conditional_content() => None,
            FormatElement::Line(LineMode::Soft) => None,
            FormatElement::Line(LineMode::SoftOrSpace) => Some(FormatElement::Space),
            FormatElement::Interned(interned) => Some(FormatElement::Interned(self.clean_interned(&interned))),
            element => Some(element),
        }
    }
}

impl<Context> Buffer for RemoveSoftLinesBuffer<'_, Context> {
    type Context = Context;

    fn write_element(&mut self, element: FormatElement) -> FormatResult<()> {
        match self.clean(element) {
            Some(element) => self.inner.write_element(element),
            None => Ok(()),
        }
    }
    fn elements(&self) -> &[FormatElement] {
        self.inner.elements()
    }
    fn state(&self) -> &FormatState<Self::Context> {
        self.inner.state()
    }
    fn state_mut(&mut self) -> &mut FormatState<Self::Context> {
        self.inner.state_mut()
    }
    fn snapshot(&self) -> BufferSnapshot {
        self.inner.snapshot()
    }
    fn restore_snapshot(&mut self, snapshot: BufferSnapshot) {
        self.inner.restore_snapshot(snapshot)
    }
}

/// Drops everything that's written.
#[derive(Debug)]
pub struct NullBuffer<'a, Context> {
    state: &'a mut FormatState<Context>,
}

impl<'a, Context> NullBuffer<'a, Context> {
    pub fn new(state: &'a mut FormatState<Context>) -> Self {
        Self { state }
    }
}

impl<Context> Buffer for NullBuffer<'_, Context> {
    type Context = Context;
    fn write_element(&mut self, _: FormatElement) -> FormatResult<()> {
        Ok(())
    }
    fn elements(&self) -> &[FormatElement] {
        &[]
    }
    fn state(&self) -> &FormatState<Self::Context> {
        self.state
    }
    fn state_mut(&mut self) -> &mut FormatState<Self::Context> {
        self.state
    }
    fn snapshot(&self) -> BufferSnapshot {
        BufferSnapshot::position(0)
    }
    fn restore_snapshot(&mut self, _: BufferSnapshot) {}
}

pub struct Inspect<'inner, Context, Inspector> {
    inner: &'inner mut dyn Buffer<Context = Context>,
    inspector: Inspector,
}

impl<'inner, Context, Inspector> Inspect<'inner, Context, Inspector> {
    fn new(inner: &'inner mut dyn Buffer<Context = Context>, inspector: Inspector) -> Self {
        Self { inner, inspector }
    }
}

impl<Context, Inspector: FnMut(&FormatElement)> Buffer for Inspect<'_, Context, Inspector> {
    type Context = Context;
    fn write_element(&mut self, element: FormatElement) -> FormatResult<()> {
        (self.inspector)(&element);
        self.inner.write_element(element)
    }
    fn elements(&self) -> &[FormatElement] {
        self.inner.elements()
    }
    fn state(&self) -> &FormatState<Self::Context> {
        self.inner.state()
    }
    fn state_mut(&mut self) -> &mut FormatState<Self::Context> {
        self.inner.state_mut()
    }
    fn snapshot(&self) -> BufferSnapshot {
        self.inner.snapshot()
    }
    fn restore_snapshot(&mut self, snapshot: BufferSnapshot) {
        self.inner.restore_snapshot(snapshot)
    }
}

pub trait BufferExtensions: Buffer + Sized {
    #[must_use]
    fn inspect<F: FnMut(&FormatElement)>(&mut self, inspector: F) -> Inspect<'_, Self::Context, F> {
        Inspect::new(self, inspector)
    }

    #[must_use]
    fn start_recording(&mut self) -> Recording<'_, Self> {
        Recording::new(self)
    }

    fn write_elements<I: IntoIterator<Item = FormatElement>>(&mut self, elements: I) -> FormatResult<()> {
        for element in elements {
            self.write_element(element)?;
        }
        Ok(())
    }
}

impl<T: Buffer> BufferExtensions for T {}

#[derive(Debug)]
pub struct Recording<'buf, Buffer> {
    start: usize,
    buffer: &'buf mut Buffer,
}

impl<'buf, B: Buffer> Recording<'buf, B> {
    fn new(buffer: &'buf mut B) -> Self {
        Self { start: buffer.elements().len(), buffer }
    }
    #[inline(always)]
    pub fn write_fmt(&mut self, arguments: Arguments<B::Context>) -> FormatResult<()> {
        self.buffer.write_fmt(arguments)
    }
    #[inline(always)]
    pub fn write_element(&mut self, element: FormatElement) -> FormatResult<()> {
        self.buffer.write_element(element)
    }
    pub fn write(&mut self, content: &dyn Format<B::Context>) -> FormatResult<()> {
        self.buffer.write_fmt(Arguments::new(&[crate::Argument::new(&content)]))
    }
    pub fn stop(self) -> Recorded<'buf> {
        let buffer: &'buf B = self.buffer;
        let elements = buffer.elements();
        let recorded = if self.start > elements.len() {
            // May happen if the underlying buffer was rewound.
            &[]
        } else {
            &elements[self.start..]
        };
        Recorded(recorded)
    }
}

#[derive(Debug, Copy, Clone)]
pub struct Recorded<'a>(&'a [FormatElement]);

impl Deref for Recorded<'_> {
    type Target = [FormatElement];
    fn deref(&self) -> &Self::Target {
        self.0
    }
}
