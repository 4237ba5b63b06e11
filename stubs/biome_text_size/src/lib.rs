//! Stand-in for biome_text_size: `u32` offsets and ranges.

use std::cmp::{max, min, Ordering};
use std::fmt;
use std::iter;
use std::ops::{
    Add, AddAssign, Bound, Index, IndexMut, Range, RangeBounds, Sub, SubAssign,
};

#[derive(Copy, Clone, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub struct TextSize {
    raw: u32,
}

impl fmt::Debug for TextSize {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.raw)
    }
}

impl TextSize {
    #[inline]
    pub fn of<T: TextLen>(text: T) -> TextSize {
        text.text_len()
    }
    pub const fn new(raw: u32) -> TextSize {
        TextSize { raw }
    }
    pub const fn checked_add(self, rhs: TextSize) -> Option<TextSize> {
        match self.raw.checked_add(rhs.raw) {
            Some(raw) => Some(TextSize { raw }),
            None => None,
        }
    }
    pub const fn checked_sub(self, rhs: TextSize) -> Option<TextSize> {
        match self.raw.checked_sub(rhs.raw) {
            Some(raw) => Some(TextSize { raw }),
            None => None,
        }
    }
}

impl From<u32> for TextSize {
    fn from(raw: u32) -> Self {
        TextSize { raw }
    }
}
impl From<TextSize> for u32 {
    fn from(value: TextSize) -> Self {
        value.raw
    }
}
impl TryFrom<usize> for TextSize {
    type Error = std::num::TryFromIntError;
    fn try_from(value: usize) -> Result<Self, Self::Error> {
        Ok(u32::try_from(value)?.into())
    }
}
impl From<TextSize> for usize {
    fn from(value: TextSize) -> Self {
        value.raw as usize
    }
}

macro_rules! ops {
    (impl $Op:ident for TextSize by fn $f:ident = $op:tt) => {
        impl $Op<TextSize> for TextSize {
            type Output = TextSize;
            fn $f(self, other: TextSize) -> TextSize {
                TextSize { raw: self.raw $op other.raw }
            }
        }
        impl $Op<&TextSize> for TextSize {
            type Output = TextSize;
            fn $f(self, other: &TextSize) -> TextSize {
                self $op *other
            }
        }
        impl<T> $Op<T> for &TextSize
        where
            TextSize: $Op<T, Output = TextSize>,
        {
            type Output = TextSize;
            fn $f(self, other: T) -> TextSize {
                *self $op other
            }
        }
    };
}
ops!(impl Add for TextSize by fn add = +);
ops!(impl Sub for TextSize by fn sub = -);

impl<A> AddAssign<A> for TextSize
where
    TextSize: Add<A, Output = TextSize>,
{
    fn add_assign(&mut self, rhs: A) {
        *self = *self + rhs;
    }
}
impl<S> SubAssign<S> for TextSize
where
    TextSize: Sub<S, Output = TextSize>,
{
    fn sub_assign(&mut self, rhs: S) {
        *self = *self - rhs;
    }
}
impl<A> iter::Sum<A> for TextSize
where
    TextSize: Add<A, Output = TextSize>,
{
    fn sum<I: Iterator<Item = A>>(iter: I) -> TextSize {
        iter.fold(0.into(), Add::add)
    }
}

pub trait TextLen: Copy {
    fn text_len(self) -> TextSize;
}
impl TextLen for &'_ str {
    fn text_len(self) -> TextSize {
        self.len().try_into().unwrap()
    }
}
impl TextLen for &'_ String {
    fn text_len(self) -> TextSize {
        self.as_str().text_len()
    }
}
impl TextLen for char {
    fn text_len(self) -> TextSize {
        (self.len_utf8() as u32).into()
    }
}

#[derive(Default, Copy, Clone, PartialEq, Eq, Hash)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub struct TextRange {
    start: TextSize,
    end: TextSize,
}

impl fmt::Debug for TextRange {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}..{}", self.start().raw, self.end().raw)
    }
}

impl TextRange {
    #[track_caller]
    pub const fn new(start: TextSize, end: TextSize) -> TextRange {
        assert!(start.raw <= end.raw);
        TextRange { start, end }
    }
    #[track_caller]
    pub fn at(offset: TextSize, len: TextSize) -> TextRange {
        TextRange::new(offset, offset + len)
    }
    pub fn empty(offset: TextSize) -> TextRange {
        TextRange { start: offset, end: offset }
    }
    pub fn up_to(end: TextSize) -> TextRange {
        TextRange { start: 0.into(), end }
    }
    pub const fn start(self) -> TextSize {
        self.start
    }
    pub const fn end(self) -> TextSize {
        self.end
    }
    pub const fn len(self) -> TextSize {
        TextSize { raw: self.end.raw - self.start.raw }
    }
    pub const fn is_empty(self) -> bool {
        self.start.raw == self.end.raw
    }
    pub fn contains(self, offset: TextSize) -> bool {
        self.start() <= offset && offset < self.end()
    }
    pub fn contains_inclusive(self, offset: TextSize) -> bool {
        self.start() <= offset && offset <= self.end()
    }
    pub fn contains_range(self, other: TextRange) -> bool {
        self.start() <= other.start() && other.end() <= self.end()
    }
    pub fn intersect(self, other: TextRange) -> Option<TextRange> {
        let start = max(self.start(), other.start());
        let end = min(self.end(), other.end());
        if end < start {
            return None;
        }
        Some(TextRange::new(start, end))
    }
    pub fn cover(self, other: TextRange) -> TextRange {
        TextRange::new(min(self.start(), other.start()), max(self.end(), other.end()))
    }
    pub fn cover_offset(self, offset: TextSize) -> TextRange {
        self.cover(TextRange::empty(offset))
    }
    pub fn checked_add(self, offset: TextSize) -> Option<TextRange> {
        Some(TextRange {
            start: self.start.checked_add(offset)?,
            end: self.end.checked_add(offset)?,
        })
    }
    pub fn checked_sub(self, offset: TextSize) -> Option<TextRange> {
        Some(TextRange {
            start: self.start.checked_sub(offset)?,
            end: self.end.checked_sub(offset)?,
        })
    }
    pub fn ordering(self, r2: TextRange) -> Ordering {
        if self.end() <= r2.start() {
            Ordering::Less
        } else if r2.end() <= self.start() {
            Ordering::Greater
        } else {
            Ordering::Equal
        }
    }
    pub fn sub_start(&self, amount: TextSize) -> TextRange {
        TextRange::new(self.start - amount, self.end)
    }
    pub fn add_start(&self, amount: TextSize) -> TextRange {
        TextRange::new(self.start + amount, self.end)
    }
    pub fn sub_end(&self, amount: TextSize) -> TextRange {
        TextRange::new(self.start, self.end - amount)
    }
    pub fn add_end(&self, amount: TextSize) -> TextRange {
        TextRange::new(self.start, self.end + amount)
    }
}

impl Add<TextSize> for TextRange {
    type Output = TextRange;
    fn add(self, offset: TextSize) -> TextRange {
        self.checked_add(offset).expect("TextRange +offset overflowed")
    }
}
impl Sub<TextSize> for TextRange {
    type Output = TextRange;
    fn sub(self, offset: TextSize) -> TextRange {
        self.checked_sub(offset).expect("TextRange -offset overflowed")
    }
}
impl AddAssign<TextSize> for TextRange {
    fn add_assign(&mut self, rhs: TextSize) {
        *self = *self + rhs;
    }
}
impl SubAssign<TextSize> for TextRange {
    fn sub_assign(&mut self, rhs: TextSize) {
        *self = *self - rhs;
    }
}

impl Index<TextRange> for str {
    type Output = str;
    fn index(&self, index: TextRange) -> &str {
        &self[Range::<usize>::from(index)]
    }
}
impl Index<TextRange> for String {
    type Output = str;
    fn index(&self, index: TextRange) -> &str {
        &self[Range::<usize>::from(index)]
    }
}
impl IndexMut<TextRange> for str {
    fn index_mut(&mut self, index: TextRange) -> &mut str {
        &mut self[Range::<usize>::from(index)]
    }
}
impl IndexMut<TextRange> for String {
    fn index_mut(&mut self, index: TextRange) -> &mut str {
        &mut self[Range::<usize>::from(index)]
    }
}
impl RangeBounds<TextSize> for TextRange {
    fn start_bound(&self) -> Bound<&TextSize> {
        Bound::Included(&self.start)
    }
    fn end_bound(&self) -> Bound<&TextSize> {
        Bound::Excluded(&self.end)
    }
}
impl From<Range<TextSize>> for TextRange {
    fn from(r: Range<TextSize>) -> Self {
        TextRange::new(r.start, r.end)
    }
}
impl<T> From<TextRange> for Range<T>
where
    T: From<TextSize>,
{
    fn from(r: TextRange) -> Self {
        r.start().into()..r.end().into()
    }
}
