use std::{
    borrow::Cow,
    fmt::{Debug, Display, Formatter},
    vec::IntoIter,
};

use bounded_static::{IntoBoundedStatic, ToBoundedStatic, ToStatic};

use crate::{
    error::{ValidationError, ValidationErrorKind},
    utils::indicators::{is_astring_char, is_atom_char, is_char8, is_text_char},
};

macro_rules! impl_str_type {
    ($t:ident) => {
        impl<'a> $t<'a> {
            pub fn inner(&self) -> &str {
                self.0.as_ref()
            }
            pub fn into_inner(self) -> Cow<'a, str> {
                self.0
            }
            pub fn unvalidated<C>(inner: C) -> Self
            where
                C: Into<Cow<'a, str>>,
            {
                let inner = inner.into();
                #[cfg(debug_assertions)]
                Self::validate(inner.as_bytes()).unwrap();
                Self(inner)
            }
        }
        impl<'a> TryFrom<&'a [u8]> for $t<'a> {
            type Error = ValidationError;
            fn try_from(value: &'a [u8]) -> Result<Self, Self::Error> {
                Self::validate(value)?;
                Ok(Self(Cow::Borrowed(std::str::from_utf8(value).map_err(
                    |_| ValidationError::new(ValidationErrorKind::NotUtf8),
                )?)))
            }
        }
        impl TryFrom<Vec<u8>> for $t<'_> {
            type Error = ValidationError;
            fn try_from(value: Vec<u8>) -> Result<Self, Self::Error> {
                Self::validate(&value)?;
                Ok(Self(Cow::Owned(String::from_utf8(value).map_err(
                    |_| ValidationError::new(ValidationErrorKind::NotUtf8),
                )?)))
            }
        }
        impl<'a> TryFrom<&'a str> for $t<'a> {
            type Error = ValidationError;
            fn try_from(value: &'a str) -> Result<Self, Self::Error> {
                Self::validate(value)?;
                Ok(Self(Cow::Borrowed(value)))
            }
        }
        impl TryFrom<String> for $t<'_> {
            type Error = ValidationError;
            fn try_from(value: String) -> Result<Self, Self::Error> {
                Self::validate(&value)?;
                Ok(Self(Cow::Owned(value)))
            }
        }
        impl<'a> TryFrom<Cow<'a, str>> for $t<'a> {
            type Error = ValidationError;
            fn try_from(value: Cow<'a, str>) -> Result<Self, Self::Error> {
                Self::validate(value.as_bytes())?;
                Ok(Self(value))
            }
        }
        impl AsRef<str> for $t<'_> {
            fn as_ref(&self) -> &str {
                self.0.as_ref()
            }
        }
        impl Display for $t<'_> {
            fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
                f.write_str(&self.0)
            }
        }
    };
}

fn check(value: &[u8], allow_empty: bool, f: impl Fn(u8) -> bool) -> Result<(), ValidationError> {
    if value.is_empty() && !allow_empty {
        return Err(ValidationError::new(ValidationErrorKind::Empty));
    }
    if let Some(position) = value.iter().position(|b| !f(*b)) {
        return Err(ValidationError::new(ValidationErrorKind::InvalidByteAt {
            byte: value[position],
            position,
        }));
    }
    Ok(())
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub struct Atom<'a>(pub(crate) Cow<'a, str>);
impl Atom<'_> {
    pub fn validate(value: impl AsRef<[u8]>) -> Result<(), ValidationError> {
        check(value.as_ref(), false, is_atom_char)
    }
}
impl_str_type!(Atom);

#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub struct AtomExt<'a>(pub(crate) Cow<'a, str>);
impl AtomExt<'_> {
    pub fn validate(value: impl AsRef<[u8]>) -> Result<(), ValidationError> {
        check(value.as_ref(), false, is_astring_char)
    }
}
impl_str_type!(AtomExt);
impl<'a> From<Atom<'a>> for AtomExt<'a> {
    fn from(value: Atom<'a>) -> Self {
        Self(value.0)
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub struct Quoted<'a>(pub(crate) Cow<'a, str>);
impl Quoted<'_> {
    pub fn validate(value: impl AsRef<[u8]>) -> Result<(), ValidationError> {
        check(value.as_ref(), true, is_text_char)
    }
}
impl_str_type!(Quoted);

#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub struct Tag<'a>(pub(crate) Cow<'a, str>);
impl Tag<'_> {
    pub fn validate(value: impl AsRef<[u8]>) -> Result<(), ValidationError> {
        check(value.as_ref(), false, |b| is_astring_char(b) && b != b'+')
    }
}
impl_str_type!(Tag);

/// Human-readable text (at least one character, no CR, LF or NUL).
#[derive(Clone, PartialEq, Eq, Hash, ToStatic)]
pub struct Text<'a>(pub(crate) Cow<'a, str>);
impl Text<'_> {
    pub fn validate(value: impl AsRef<[u8]>) -> Result<(), ValidationError> {
        check(value.as_ref(), false, is_text_char)
    }
}
impl_str_type!(Text);
impl Debug for Text<'_> {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        write!(f, "Text({:?})", self.0)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, ToStatic)]
pub enum LiteralMode {
    /// A synchronizing literal, i.e., `{<n>}\r\n<data>`.
    Sync,
    /// A non-synchronizing literal according to RFC 7888, i.e., `{<n>+}\r\n<data>`.
    NonSync,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub struct Literal<'a> {
    pub(crate) data: Cow<'a, [u8]>,
    pub(crate) mode: LiteralMode,
}
impl<'a> Literal<'a> {
    pub fn validate(value: impl AsRef<[u8]>) -> Result<(), ValidationError> {
        check(value.as_ref(), true, is_char8)
    }
    pub fn data(&self) -> &[u8] {
        &self.data
    }
    pub fn mode(&self) -> LiteralMode {
        self.mode
    }
    pub fn set_mode(&mut self, mode: LiteralMode) {
        self.mode = mode;
    }
    pub fn into_non_sync(mut self) -> Self {
        self.mode = LiteralMode::NonSync;
        self
    }
    pub fn into_inner(self) -> (Cow<'a, [u8]>, LiteralMode) {
        (self.data, self.mode)
    }
    pub fn unvalidated<D: Into<Cow<'a, [u8]>>>(data: D) -> Self {
        Self {
            data: data.into(),
            mode: LiteralMode::Sync,
        }
    }
    pub fn unvalidated_non_sync<D: Into<Cow<'a, [u8]>>>(data: D) -> Self {
        Self {
            data: data.into(),
            mode: LiteralMode::NonSync,
        }
    }
}
impl AsRef<[u8]> for Literal<'_> {
    fn as_ref(&self) -> &[u8] {
        &self.data
    }
}
impl<'a> TryFrom<&'a [u8]> for Literal<'a> {
    type Error = ValidationError;
    fn try_from(data: &'a [u8]) -> Result<Self, Self::Error> {
        Self::validate(data)?;
        Ok(Self::unvalidated(data))
    }
}
impl TryFrom<Vec<u8>> for Literal<'_> {
    type Error = ValidationError;
    fn try_from(data: Vec<u8>) -> Result<Self, Self::Error> {
        Self::validate(&data)?;
        Ok(Self::unvalidated(data))
    }
}
impl<'a> TryFrom<&'a str> for Literal<'a> {
    type Error = ValidationError;
    fn try_from(data: &'a str) -> Result<Self, Self::Error> {
        Self::try_from(data.as_bytes())
    }
}
impl TryFrom<String> for Literal<'_> {
    type Error = ValidationError;
    fn try_from(data: String) -> Result<Self, Self::Error> {
        Self::try_from(data.into_bytes())
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub enum IString<'a> {
    Literal(Literal<'a>),
    Quoted(Quoted<'a>),
}
impl<'a> IString<'a> {
    pub fn into_inner(self) -> Cow<'a, [u8]> {
        match self {
            Self::Literal(l) => l.into_inner().0,
            Self::Quoted(q) => match q.into_inner() {
                Cow::Borrowed(s) => Cow::Borrowed(s.as_bytes()),
                Cow::Owned(s) => Cow::Owned(s.into_bytes()),
            },
        }
    }
}
impl AsRef<[u8]> for IString<'_> {
    fn as_ref(&self) -> &[u8] {
        match self {
            Self::Literal(l) => l.as_ref(),
            Self::Quoted(q) => q.inner().as_bytes(),
        }
    }
}
impl<'a> From<Literal<'a>> for IString<'a> {
    fn from(v: Literal<'a>) -> Self {
        Self::Literal(v)
    }
}
impl<'a> From<Quoted<'a>> for IString<'a> {
    fn from(v: Quoted<'a>) -> Self {
        Self::Quoted(v)
    }
}
impl<'a> TryFrom<&'a [u8]> for IString<'a> {
    type Error = ValidationError;
    fn try_from(value: &'a [u8]) -> Result<Self, Self::Error> {
        if let Ok(q) = Quoted::try_from(value) {
            return Ok(Self::Quoted(q));
        }
        Ok(Self::Literal(Literal::try_from(value)?))
    }
}
impl TryFrom<Vec<u8>> for IString<'_> {
    type Error = ValidationError;
    fn try_from(value: Vec<u8>) -> Result<Self, Self::Error> {
        if Quoted::validate(&value).is_ok() {
            return Ok(Self::Quoted(Quoted::try_from(value)?));
        }
        Ok(Self::Literal(Literal::try_from(value)?))
    }
}
impl<'a> TryFrom<&'a str> for IString<'a> {
    type Error = ValidationError;
    fn try_from(value: &'a str) -> Result<Self, Self::Error> {
        Self::try_from(value.as_bytes())
    }
}
impl TryFrom<String> for IString<'_> {
    type Error = ValidationError;
    fn try_from(value: String) -> Result<Self, Self::Error> {
        Self::try_from(value.into_bytes())
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub struct NString<'a>(pub Option<IString<'a>>);
impl<'a> NString<'a> {
    pub const NIL: NString<'static> = NString(None);
    pub fn into_option(self) -> Option<Cow<'a, [u8]>> {
        self.0.map(|s| s.into_inner())
    }
}
impl<'a> TryFrom<&'a str> for NString<'a> {
    type Error = ValidationError;
    fn try_from(value: &'a str) -> Result<Self, Self::Error> {
        Ok(Self(Some(IString::try_from(value)?)))
    }
}
impl<'a> From<Literal<'a>> for NString<'a> {
    fn from(v: Literal<'a>) -> Self {
        Self(Some(v.into()))
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub enum AString<'a> {
    Atom(AtomExt<'a>),
    String(IString<'a>),
}
impl AsRef<[u8]> for AString<'_> {
    fn as_ref(&self) -> &[u8] {
        match self {
            Self::Atom(a) => a.inner().as_bytes(),
            Self::String(s) => s.as_ref(),
        }
    }
}
impl<'a> From<Literal<'a>> for AString<'a> {
    fn from(v: Literal<'a>) -> Self {
        Self::String(v.into())
    }
}
impl<'a> From<Quoted<'a>> for AString<'a> {
    fn from(v: Quoted<'a>) -> Self {
        Self::String(v.into())
    }
}
impl<'a> From<Atom<'a>> for AString<'a> {
    fn from(v: Atom<'a>) -> Self {
        Self::Atom(v.into())
    }
}
impl<'a> From<AtomExt<'a>> for AString<'a> {
    fn from(v: AtomExt<'a>) -> Self {
        Self::Atom(v)
    }
}
impl<'a> TryFrom<&'a [u8]> for AString<'a> {
    type Error = ValidationError;
    fn try_from(value: &'a [u8]) -> Result<Self, Self::Error> {
        if let Ok(a) = AtomExt::try_from(value) {
            return Ok(Self::Atom(a));
        }
        Ok(Self::String(IString::try_from(value)?))
    }
}
impl TryFrom<Vec<u8>> for AString<'_> {
    type Error = ValidationError;
    fn try_from(value: Vec<u8>) -> Result<Self, Self::Error> {
        if AtomExt::validate(&value).is_ok() {
            return Ok(Self::Atom(AtomExt::try_from(value)?));
        }
        Ok(Self::String(IString::try_from(value)?))
    }
}
impl<'a> TryFrom<&'a str> for AString<'a> {
    type Error = ValidationError;
    fn try_from(value: &'a str) -> Result<Self, Self::Error> {
        Self::try_from(value.as_bytes())
    }
}
impl TryFrom<String> for AString<'_> {
    type Error = ValidationError;
    fn try_from(value: String) -> Result<Self, Self::Error> {
        Self::try_from(value.into_bytes())
    }
}

/// A vector with at least one element.
#[derive(Clone, Eq, Hash, PartialEq)]
pub struct Vec1<T>(pub(crate) Vec<T>);
pub type NonEmptyVec<T> = Vec1<T>;
impl<T> Vec1<T> {
    pub fn validate(value: &[T]) -> Result<(), ValidationError> {
        if value.is_empty() {
            return Err(ValidationError::new(ValidationErrorKind::Empty));
        }
        Ok(())
    }
    pub fn unvalidated(inner: Vec<T>) -> Self {
        Self(inner)
    }
    pub fn into_inner(self) -> Vec<T> {
        self.0
    }
}
impl<T: Debug> Debug for Vec1<T> {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)?;
        f.write_str("+")
    }
}
impl<T> From<T> for Vec1<T> {
    fn from(value: T) -> Self {
        Vec1(vec![value])
    }
}
impl<T> TryFrom<Vec<T>> for Vec1<T> {
    type Error = ValidationError;
    fn try_from(inner: Vec<T>) -> Result<Self, Self::Error> {
        Self::validate(&inner)?;
        Ok(Self(inner))
    }
}
impl<T> IntoIterator for Vec1<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}
impl<T> AsRef<[T]> for Vec1<T> {
    fn as_ref(&self) -> &[T] {
        &self.0
    }
}
impl<T: ToBoundedStatic> ToBoundedStatic for Vec1<T> {
    type Static = Vec1<T::Static>;
    fn to_static(&self) -> Self::Static {
        Vec1(self.0.to_static())
    }
}
impl<T: IntoBoundedStatic> IntoBoundedStatic for Vec1<T> {
    type Static = Vec1<T::Static>;
    fn into_static(self) -> Self::Static {
        Vec1(self.0.into_static())
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub enum Charset<'a> {
    Atom(Atom<'a>),
    Quoted(Quoted<'a>),
}
impl<'a> TryFrom<&'a str> for Charset<'a> {
    type Error = ValidationError;
    fn try_from(value: &'a str) -> Result<Self, Self::Error> {
        if let Ok(a) = Atom::try_from(value) {
            return Ok(Self::Atom(a));
        }
        Ok(Self::Quoted(Quoted::try_from(value)?))
    }
}
impl AsRef<str> for Charset<'_> {
    fn as_ref(&self) -> &str {
        match self {
            Self::Atom(a) => a.as_ref(),
            Self::Quoted(q) => q.as_ref(),
        }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, ToStatic)]
pub struct QuotedChar(char);
impl QuotedChar {
    pub fn inner(&self) -> char {
        self.0
    }
}
impl TryFrom<char> for QuotedChar {
    type Error = ValidationError;
    fn try_from(value: char) -> Result<Self, Self::Error> {
        if value.is_ascii() && is_text_char(value as u8) {
            Ok(Self(value))
        } else {
            Err(ValidationError::new(ValidationErrorKind::Invalid))
        }
    }
}
