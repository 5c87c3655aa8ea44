//! Stand-in for `colored` 2; as with the real crate under NO_COLOR, no escape codes are written.
#![forbid(unsafe_code)]
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct ColoredString(String);
impl std::fmt::Display for ColoredString {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.pad(&self.0)
    }
}
impl std::ops::Deref for ColoredString {
    type Target = str;
    fn deref(&self) -> &str {
        &self.0
    }
}
macro_rules! colours { ($($c:ident)*) => {
    pub trait Colorize { $(fn $c(self) -> ColoredString where Self: Sized;)* }
    impl Colorize for &str { $(fn $c(self) -> ColoredString { ColoredString(self.to_owned()) })* }
    impl Colorize for ColoredString { $(fn $c(self) -> ColoredString { self })* }
    impl Colorize for String { $(fn $c(self) -> ColoredString { ColoredString(self) })* }
} }
colours!(black red green yellow blue magenta cyan white bright_red bright_green bright_yellow bright_blue bold dimmed underline);
