use bounded_static::ToStatic;

use crate::{
    core::{AString, IString, Literal},
    error::ValidationError,
};

#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub enum Mailbox<'a> {
    Inbox,
    Other(MailboxOther<'a>),
}
#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub struct MailboxOther<'a>(pub(crate) AString<'a>);
impl<'a> MailboxOther<'a> {
    pub fn inner(&self) -> &AString<'a> {
        &self.0
    }
}
impl AsRef<[u8]> for MailboxOther<'_> {
    fn as_ref(&self) -> &[u8] {
        self.0.as_ref()
    }
}
impl<'a> From<AString<'a>> for Mailbox<'a> {
    fn from(value: AString<'a>) -> Self {
        if value.as_ref().eq_ignore_ascii_case(b"INBOX") {
            Self::Inbox
        } else {
            Self::Other(MailboxOther(value))
        }
    }
}
impl<'a> From<Literal<'a>> for Mailbox<'a> {
    fn from(value: Literal<'a>) -> Self {
        AString::from(value).into()
    }
}
impl<'a> TryFrom<&'a str> for Mailbox<'a> {
    type Error = ValidationError;
    fn try_from(value: &'a str) -> Result<Self, Self::Error> {
        Ok(AString::try_from(value)?.into())
    }
}
impl TryFrom<String> for Mailbox<'_> {
    type Error = ValidationError;
    fn try_from(value: String) -> Result<Self, Self::Error> {
        Ok(AString::try_from(value)?.into())
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub enum ListMailbox<'a> {
    Token(ListCharString<'a>),
    String(IString<'a>),
}
#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub struct ListCharString<'a>(pub(crate) std::borrow::Cow<'a, str>);
impl<'a> TryFrom<&'a str> for ListMailbox<'a> {
    type Error = ValidationError;
    fn try_from(s: &'a str) -> Result<Self, Self::Error> {
        if !s.is_empty() && s.bytes().all(crate::utils::indicators::is_list_char) {
            Ok(Self::Token(ListCharString(s.into())))
        } else {
            Ok(Self::String(IString::try_from(s)?))
        }
    }
}
impl<'a> TryFrom<String> for ListMailbox<'a> {
    type Error = ValidationError;
    fn try_from(s: String) -> Result<Self, Self::Error> {
        if !s.is_empty() && s.bytes().all(crate::utils::indicators::is_list_char) {
            Ok(Self::Token(ListCharString(s.into())))
        } else {
            Ok(Self::String(IString::try_from(s)?))
        }
    }
}
impl AsRef<str> for ListCharString<'_> {
    fn as_ref(&self) -> &str {
        &self.0
    }
}
