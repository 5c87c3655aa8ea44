use bounded_static::ToStatic;

use crate::{core::NString, flag::FlagFetch};

/// Names of data items requested by FETCH (subset).
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, ToStatic)]
#[non_exhaustive]
pub enum MessageDataItemName {
    Flags,
    Uid,
    Rfc822Size,
    Rfc822,
    Envelope,
    InternalDate,
    BodyPeek,
}
impl MessageDataItemName {
    pub const ALL: [Self; 7] = [
        Self::Flags,
        Self::Uid,
        Self::Rfc822Size,
        Self::Rfc822,
        Self::Envelope,
        Self::InternalDate,
        Self::BodyPeek,
    ];
    pub fn wire(&self) -> &'static str {
        match self {
            Self::Flags => "FLAGS",
            Self::Uid => "UID",
            Self::Rfc822Size => "RFC822.SIZE",
            Self::Rfc822 => "RFC822",
            Self::Envelope => "ENVELOPE",
            Self::InternalDate => "INTERNALDATE",
            Self::BodyPeek => "BODY.PEEK[]",
        }
    }
}

/// Data items in a FETCH response (subset).
#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
#[non_exhaustive]
pub enum MessageDataItem<'a> {
    Flags(Vec<FlagFetch<'a>>),
    Uid(std::num::NonZeroU32),
    Rfc822Size(u32),
    Rfc822(NString<'a>),
    Rfc822Header(NString<'a>),
    BodyExt { data: NString<'a> },
}
