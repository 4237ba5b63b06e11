use std::cell::RefCell;

use crate::element::FormatElement;
use crate::prelude::*;

pub trait MemoizeFormat<Context> {
    fn memoized(self) -> Memoized<Self, Context>
    where
        Self: Sized + Format<Context>,
    {
        Memoized { inner: self, memory: RefCell::new(None), context: std::marker::PhantomData }
    }
}

impl<T, Context> MemoizeFormat<Context> for T where T: Format<Context> {}

/// Formats the inner value once and reuses the result.
#[derive(Debug)]
pub struct Memoized<F, Context> {
    inner: F,
    memory: RefCell<Option<FormatResult<Option<FormatElement>>>>,
    context: std::marker::PhantomData<Context>,
}

impl<F, Context> Memoized<F, Context>
where
    F: Format<Context>,
{
    pub fn inspect(&mut self, f: &mut Formatter<Context>) -> FormatResult<&[FormatElement]> {
        let result = self.memory.get_mut().get_or_insert_with(|| f.intern(&self.inner));
        match result.as_ref() {
            Ok(Some(FormatElement::Interned(interned))) => Ok(interned),
            Ok(Some(other)) => Ok(std::slice::from_ref(other)),
            Ok(None) => Ok(&[]),
            Err(error) => Err(*error),
        }
    }
}

impl<F, Context> Format<Context> for Memoized<F, Context>
where
    F: Format<Context>,
{
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        let mut memory = self.memory.borrow_mut();
        let result = memory.get_or_insert_with(|| f.intern(&self.inner));
        match result {
            Ok(Some(element)) => f.write_element(element.clone()),
            Ok(None) => Ok(()),
            Err(error) => Err(*error),
        }
    }
}
