use std::num::NonZeroU32;

use bounded_static::ToStatic;

use crate::core::Vec1;

#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub struct SequenceSet(pub Vec1<Sequence>);
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, ToStatic)]
pub enum Sequence {
    Single(SeqOrUid),
    Range(SeqOrUid, SeqOrUid),
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, ToStatic)]
pub enum SeqOrUid {
    Value(NonZeroU32),
    Asterisk,
}
impl SeqOrUid {
    fn wire(&self) -> String {
        match self {
            Self::Value(v) => v.to_string(),
            Self::Asterisk => "*".into(),
        }
    }
    fn parse(s: &str) -> Option<Self> {
        if s == "*" {
            return Some(Self::Asterisk);
        }
        if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit()) || s.starts_with('0') {
            return None;
        }
        Some(Self::Value(s.parse().ok()?))
    }
}
impl SequenceSet {
    pub fn wire(&self) -> String {
        self.0
            .as_ref()
            .iter()
            .map(|s| match s {
                Sequence::Single(a) => a.wire(),
                Sequence::Range(a, b) => format!("{}:{}", a.wire(), b.wire()),
            })
            .collect::<Vec<_>>()
            .join(",")
    }
    pub fn parse(s: &str) -> Option<Self> {
        let mut v = vec![];
        for p in s.split(',') {
            v.push(match p.split_once(':') {
                Some((a, b)) => Sequence::Range(SeqOrUid::parse(a)?, SeqOrUid::parse(b)?),
                None => Sequence::Single(SeqOrUid::parse(p)?),
            });
        }
        Some(Self(Vec1::try_from(v).ok()?))
    }
}
impl TryFrom<&str> for SequenceSet {
    type Error = ();
    fn try_from(s: &str) -> Result<Self, ()> {
        Self::parse(s).ok_or(())
    }
}
