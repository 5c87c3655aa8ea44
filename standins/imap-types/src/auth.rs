use std::{
    borrow::Cow,
    fmt::{Display, Formatter},
};

use bounded_static::ToStatic;

use crate::{core::Atom, error::ValidationError, secret::Secret};

#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
#[non_exhaustive]
pub enum AuthMechanism<'a> {
    Plain,
    Login,
    OAuthBearer,
    XOAuth2,
    ScramSha1,
    ScramSha1Plus,
    ScramSha256,
    ScramSha256Plus,
    ScramSha3_512,
    ScramSha3_512Plus,
    Other(AuthMechanismOther<'a>),
}

/// An (unknown) authentication mechanism; guaranteed not to be one of the known ones.
#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub struct AuthMechanismOther<'a>(pub(crate) Atom<'a>);

impl<'a> From<Atom<'a>> for AuthMechanism<'a> {
    fn from(atom: Atom<'a>) -> Self {
        match atom.as_ref() as &str {
            s if s.eq_ignore_ascii_case("PLAIN") => Self::Plain,
            s if s.eq_ignore_ascii_case("LOGIN") => Self::Login,
            s if s.eq_ignore_ascii_case("OAUTHBEARER") => Self::OAuthBearer,
            s if s.eq_ignore_ascii_case("XOAUTH2") => Self::XOAuth2,
            s if s.eq_ignore_ascii_case("SCRAM-SHA-1") => Self::ScramSha1,
            s if s.eq_ignore_ascii_case("SCRAM-SHA-1-PLUS") => Self::ScramSha1Plus,
            s if s.eq_ignore_ascii_case("SCRAM-SHA-256") => Self::ScramSha256,
            s if s.eq_ignore_ascii_case("SCRAM-SHA-256-PLUS") => Self::ScramSha256Plus,
            s if s.eq_ignore_ascii_case("SCRAM-SHA3-512") => Self::ScramSha3_512,
            s if s.eq_ignore_ascii_case("SCRAM-SHA3-512-PLUS") => Self::ScramSha3_512Plus,
            _ => Self::Other(AuthMechanismOther(atom)),
        }
    }
}
impl<'a> TryFrom<&'a str> for AuthMechanism<'a> {
    type Error = ValidationError;
    fn try_from(value: &'a str) -> Result<Self, Self::Error> {
        Ok(Self::from(Atom::try_from(value)?))
    }
}
impl TryFrom<String> for AuthMechanism<'_> {
    type Error = ValidationError;
    fn try_from(value: String) -> Result<Self, Self::Error> {
        Ok(Self::from(Atom::try_from(value)?))
    }
}
impl AsRef<str> for AuthMechanism<'_> {
    fn as_ref(&self) -> &str {
        match self {
            Self::Plain => "PLAIN",
            Self::Login => "LOGIN",
            Self::OAuthBearer => "OAUTHBEARER",
            Self::XOAuth2 => "XOAUTH2",
            Self::ScramSha1 => "SCRAM-SHA-1",
            Self::ScramSha1Plus => "SCRAM-SHA-1-PLUS",
            Self::ScramSha256 => "SCRAM-SHA-256",
            Self::ScramSha256Plus => "SCRAM-SHA-256-PLUS",
            Self::ScramSha3_512 => "SCRAM-SHA3-512",
            Self::ScramSha3_512Plus => "SCRAM-SHA3-512-PLUS",
            Self::Other(other) => other.0.as_ref(),
        }
    }
}
impl Display for AuthMechanism<'_> {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        f.write_str(self.as_ref())
    }
}

/// Data line used, e.g., during AUTHENTICATE.
#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub enum AuthenticateData<'a> {
    /// Continue SASL authentication.
    Continue(Secret<Cow<'a, [u8]>>),
    /// Cancel SASL authentication.
    Cancel,
}
impl<'a> AuthenticateData<'a> {
    pub fn r#continue<D: Into<Cow<'a, [u8]>>>(data: D) -> Self {
        Self::Continue(Secret::new(data.into()))
    }
}
