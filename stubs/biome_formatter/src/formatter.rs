use crate::buffer::{Buffer, BufferSnapshot};
use crate::builders::*;
use crate::comments::Comments;
use crate::element::{FormatElement, Interned};
use crate::{
    Arguments, CstFormatContext, Format, FormatContext, FormatResult, FormatState, FormatStateSnapshot, GroupId,
    VecBuffer,
};

pub struct Formatter<'buf, Context> {
    buffer: &'buf mut dyn Buffer<Context = Context>,
}

impl<'buf, Context> Formatter<'buf, Context> {
    pub fn new(buffer: &'buf mut (dyn Buffer<Context = Context> + 'buf)) -> Self {
        Self { buffer }
    }
    pub fn options(&self) -> &Context::Options
    where
        Context: FormatContext,
    {
        self.state().context().options()
    }
    pub fn context(&self) -> &Context {
        self.state().context()
    }
    pub fn context_mut(&mut self) -> &mut Context {
        self.state_mut().context_mut()
    }
    pub fn group_id(&self, debug_name: &'static str) -> GroupId {
        self.state().group_id(debug_name)
    }
    pub fn join<'a>(&'a mut self) -> JoinBuilder<'a, 'buf, (), Context> {
        JoinBuilder::new(self)
    }
    pub fn join_with<'a, Joiner>(&'a mut self, joiner: Joiner) -> JoinBuilder<'a, 'buf, Joiner, Context>
    where
        Joiner: Format<Context>,
    {
        JoinBuilder::with_separator(self, joiner)
    }
    pub fn join_nodes_with_space<'a>(&'a mut self) -> JoinNodesBuilder<'a, 'buf, Space, Context> {
        JoinNodesBuilder::new(space(), self)
    }
    pub fn join_nodes_with_soft_line<'a>(&'a mut self) -> JoinNodesBuilder<'a, 'buf, Line, Context> {
        JoinNodesBuilder::new(soft_line_break_or_space(), self)
    }
    pub fn join_nodes_with_hardline<'a>(&'a mut self) -> JoinNodesBuilder<'a, 'buf, Line, Context> {
        JoinNodesBuilder::new(hard_line_break(), self)
    }
    /// Formats `content` into an element that can be written more than once.
    pub fn intern(&mut self, content: &dyn Format<Context>) -> FormatResult<Option<FormatElement>> {
        let mut buffer = VecBuffer::new(self.state_mut());
        crate::write!(&mut buffer, [content])?;
        let elements = buffer.into_vec();
        Ok(self.intern_vec(elements))
    }
    pub fn intern_vec(&mut self, mut elements: Vec<FormatElement>) -> Option<FormatElement> {
        match elements.len() {
            0 => None,
            1 => elements.pop(),
            _ => Some(FormatElement::Interned(Interned::new(elements))),
        }
    }
}

impl<Context> Formatter<'_, Context>
where
    Context: FormatContext,
{
    pub fn state_snapshot(&self) -> FormatStateSnapshot {
        self.state().snapshot()
    }
    pub fn restore_state_snapshot(&mut self, snapshot: FormatStateSnapshot) {
        self.state_mut().restore_snapshot(snapshot);
    }
}

impl<Context> Formatter<'_, Context>
where
    Context: CstFormatContext,
{
    pub fn comments(&self) -> &Comments<Context::Language> {
        self.context().comments()
    }
}

impl<Context> Buffer for Formatter<'_, Context> {
    type Context = Context;

    fn write_element(&mut self, element: FormatElement) -> FormatResult<()> {
        self.buffer.write_element(element)
    }
    fn elements(&self) -> &[FormatElement] {
        self.buffer.elements()
    }
    fn write_fmt(&mut self, arguments: Arguments<Context>) -> FormatResult<()> {
        for argument in arguments.items() {
            argument.format(self)?;
        }
        Ok(())
    }
    fn state(&self) -> &FormatState<Context> {
        self.buffer.state()
    }
    fn state_mut(&mut self) -> &mut FormatState<Context> {
        self.buffer.state_mut()
    }
    fn snapshot(&self) -> BufferSnapshot {
        self.buffer.snapshot()
    }
    fn restore_snapshot(&mut self, snapshot: BufferSnapshot) {
        self.buffer.restore_snapshot(snapshot)
    }
}
