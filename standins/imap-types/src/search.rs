use bounded_static::ToStatic;

use crate::core::AString;

/// SEARCH keys (subset).
#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
#[non_exhaustive]
pub enum SearchKey<'a> {
    All,
    Answered,
    Deleted,
    Seen,
    Unseen,
    From(AString<'a>),
    Subject(AString<'a>),
    Text(AString<'a>),
    Body(AString<'a>),
    Larger(u32),
}
