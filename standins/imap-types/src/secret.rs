use std::fmt::{Debug, Formatter};

use bounded_static::ToStatic;

/// Wrapper whose `Debug` output never shows the value.
#[derive(Clone, Eq, PartialEq, Hash, ToStatic)]
pub struct Secret<T>(T);

impl<T> Secret<T> {
    pub fn new(inner: T) -> Self {
        Self(inner)
    }
    pub fn declassify(&self) -> &T {
        &self.0
    }
    pub fn expose_secret(&self) -> &T {
        &self.0
    }
    pub fn into_inner(self) -> T {
        self.0
    }
}
impl<T> From<T> for Secret<T> {
    fn from(value: T) -> Self {
        Self::new(value)
    }
}
impl<T> Debug for Secret<T> {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        write!(f, "/* REDACTED */")
    }
}
