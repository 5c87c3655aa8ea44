use bounded_static::ToStatic;

use crate::core::Atom;

#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub enum Flag<'a> {
    Answered,
    Deleted,
    Draft,
    Flagged,
    Seen,
    Extension(FlagExtension<'a>),
    Keyword(Atom<'a>),
}
#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub struct FlagExtension<'a>(pub(crate) Atom<'a>);

impl<'a> Flag<'a> {
    pub fn keyword(atom: Atom<'a>) -> Self {
        Self::Keyword(atom)
    }
    pub fn system(atom: Atom<'a>) -> Self {
        match atom.inner().to_ascii_lowercase().as_str() {
            "answered" => Self::Answered,
            "deleted" => Self::Deleted,
            "draft" => Self::Draft,
            "flagged" => Self::Flagged,
            "seen" => Self::Seen,
            _ => Self::Extension(FlagExtension(atom)),
        }
    }
    pub fn wire(&self) -> String {
        match self {
            Self::Answered => "\\Answered".into(),
            Self::Deleted => "\\Deleted".into(),
            Self::Draft => "\\Draft".into(),
            Self::Flagged => "\\Flagged".into(),
            Self::Seen => "\\Seen".into(),
            Self::Extension(e) => format!("\\{}", e.0.inner()),
            Self::Keyword(k) => k.inner().to_owned(),
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub enum FlagFetch<'a> {
    Flag(Flag<'a>),
    Recent,
}
#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub enum FlagPerm<'a> {
    Flag(Flag<'a>),
    Asterisk,
}
#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub enum FlagNameAttribute<'a> {
    Noinferiors,
    Noselect,
    Marked,
    Unmarked,
    Extension(FlagNameAttributeExtension<'a>),
}
#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub struct FlagNameAttributeExtension<'a>(pub(crate) Atom<'a>);
impl<'a> From<Atom<'a>> for FlagNameAttribute<'a> {
    fn from(atom: Atom<'a>) -> Self {
        match atom.inner().to_ascii_lowercase().as_str() {
            "noinferiors" => Self::Noinferiors,
            "noselect" => Self::Noselect,
            "marked" => Self::Marked,
            "unmarked" => Self::Unmarked,
            _ => Self::Extension(FlagNameAttributeExtension(atom)),
        }
    }
}
impl FlagNameAttribute<'_> {
    pub fn wire(&self) -> String {
        match self {
            Self::Noinferiors => "\\Noinferiors".into(),
            Self::Noselect => "\\Noselect".into(),
            Self::Marked => "\\Marked".into(),
            Self::Unmarked => "\\Unmarked".into(),
            Self::Extension(e) => format!("\\{}", e.0.inner()),
        }
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, ToStatic)]
pub enum StoreType {
    Replace,
    Add,
    Remove,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, ToStatic)]
pub enum StoreResponse {
    Answer,
    Silent,
}
