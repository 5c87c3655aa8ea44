use thiserror::Error;

#[derive(Clone, Debug, Eq, Error, PartialEq)]
#[error("validation failed: {kind:?}")]
pub struct ValidationError {
    kind: ValidationErrorKind,
}

#[derive(Clone, Debug, Eq, PartialEq)]
pub(crate) enum ValidationErrorKind {
    Empty,
    Invalid,
    InvalidByteAt { byte: u8, position: usize },
    NotUtf8,
}

impl ValidationError {
    pub(crate) fn new(kind: ValidationErrorKind) -> Self {
        Self { kind }
    }
}
impl From<std::convert::Infallible> for ValidationError {
    fn from(v: std::convert::Infallible) -> Self {
        match v {}
    }
}
