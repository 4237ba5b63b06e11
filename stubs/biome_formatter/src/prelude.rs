pub use crate::buffer::{Buffer as _, BufferExtensions as _};
pub use crate::builders::*;
pub use crate::element::{
    Align, Condition, DedentMode, Document, FormatElement, FormatElements, Group, GroupMode, LabelId, LineMode,
    PrintMode, Tag, TagKind, VerbatimKind,
};
pub use crate::formatter::Formatter;
pub use crate::memoized::{Memoized, MemoizeFormat as _};
pub use crate::trivia::{
    format_dangling_comments, format_leading_comments, format_only_if_breaks, format_removed, format_replaced,
    format_trailing_comments, format_trimmed_token,
};
pub use crate::verbatim::{format_bogus_node, format_or_verbatim, format_suppressed_node, format_verbatim_node};
pub use crate::{
    CstFormatContext as _, Format, FormatContext as _, FormatError, FormatOptions as _, FormatResult, FormatRule,
    FormatRuleWithOptions as _, FormatWithRule as _, best_fitting, dbg_write,
};
