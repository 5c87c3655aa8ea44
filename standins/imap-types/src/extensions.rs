pub mod idle {
    use bounded_static::ToStatic;
    /// Denotes the continuation data message "DONE\r\n" to end the IDLE command.
    #[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
    pub struct IdleDone;
}
pub mod enable {
    use bounded_static::ToStatic;

    use crate::core::Atom;
    #[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
    pub enum CapabilityEnable<'a> {
        Utf8Accept,
        CondStore,
        QResync,
        Other(CapabilityEnableOther<'a>),
    }
    #[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
    pub struct CapabilityEnableOther<'a>(pub(crate) Atom<'a>);
    impl<'a> From<Atom<'a>> for CapabilityEnable<'a> {
        fn from(a: Atom<'a>) -> Self {
            match a.inner().to_ascii_uppercase().as_str() {
                "UTF8=ACCEPT" => Self::Utf8Accept,
                "CONDSTORE" => Self::CondStore,
                "QRESYNC" => Self::QResync,
                _ => Self::Other(CapabilityEnableOther(a)),
            }
        }
    }
    impl AsRef<str> for CapabilityEnable<'_> {
        fn as_ref(&self) -> &str {
            match self {
                Self::Utf8Accept => "UTF8=ACCEPT",
                Self::CondStore => "CONDSTORE",
                Self::QResync => "QRESYNC",
                Self::Other(o) => o.0.as_ref(),
            }
        }
    }
}
pub mod compress {
    use bounded_static::ToStatic;
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, ToStatic)]
    #[non_exhaustive]
    pub enum CompressionAlgorithm {
        Deflate,
    }
    impl AsRef<str> for CompressionAlgorithm {
        fn as_ref(&self) -> &str {
            "DEFLATE"
        }
    }
}
pub mod quota {
    use bounded_static::ToStatic;

    use crate::core::Atom;
    #[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
    #[non_exhaustive]
    pub enum Resource<'a> {
        Storage,
        Message,
        Mailbox,
        AnnotationStorage,
        Other(ResourceOther<'a>),
    }
    #[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
    pub struct ResourceOther<'a>(pub(crate) Atom<'a>);
    impl<'a> From<Atom<'a>> for Resource<'a> {
        fn from(a: Atom<'a>) -> Self {
            match a.inner().to_ascii_uppercase().as_str() {
                "STORAGE" => Self::Storage,
                "MESSAGE" => Self::Message,
                "MAILBOX" => Self::Mailbox,
                "ANNOTATION-STORAGE" => Self::AnnotationStorage,
                _ => Self::Other(ResourceOther(a)),
            }
        }
    }
    impl AsRef<str> for Resource<'_> {
        fn as_ref(&self) -> &str {
            match self {
                Self::Storage => "STORAGE",
                Self::Message => "MESSAGE",
                Self::Mailbox => "MAILBOX",
                Self::AnnotationStorage => "ANNOTATION-STORAGE",
                Self::Other(o) => o.0.as_ref(),
            }
        }
    }
}
pub mod sort {
    use bounded_static::ToStatic;

    use crate::core::Atom;
    #[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
    pub enum SortAlgorithm<'a> {
        Display,
        Other(SortAlgorithmOther<'a>),
    }
    #[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
    pub struct SortAlgorithmOther<'a>(pub(crate) Atom<'a>);
    impl<'a> From<Atom<'a>> for SortAlgorithm<'a> {
        fn from(a: Atom<'a>) -> Self {
            if a.inner().eq_ignore_ascii_case("DISPLAY") {
                Self::Display
            } else {
                Self::Other(SortAlgorithmOther(a))
            }
        }
    }
    impl AsRef<str> for SortAlgorithm<'_> {
        fn as_ref(&self) -> &str {
            match self {
                Self::Display => "DISPLAY",
                Self::Other(o) => o.0.as_ref(),
            }
        }
    }
}
pub mod thread {
    use bounded_static::ToStatic;

    use crate::core::Atom;
    #[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
    #[non_exhaustive]
    pub enum ThreadingAlgorithm<'a> {
        OrderedSubject,
        References,
        Other(ThreadingAlgorithmOther<'a>),
    }
    #[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
    pub struct ThreadingAlgorithmOther<'a>(pub(crate) Atom<'a>);
    impl<'a> From<Atom<'a>> for ThreadingAlgorithm<'a> {
        fn from(a: Atom<'a>) -> Self {
            match a.inner().to_ascii_uppercase().as_str() {
                "ORDEREDSUBJECT" => Self::OrderedSubject,
                "REFERENCES" => Self::References,
                _ => Self::Other(ThreadingAlgorithmOther(a)),
            }
        }
    }
    impl AsRef<str> for ThreadingAlgorithm<'_> {
        fn as_ref(&self) -> &str {
            match self {
                Self::OrderedSubject => "ORDEREDSUBJECT",
                Self::References => "REFERENCES",
                Self::Other(o) => o.0.as_ref(),
            }
        }
    }
}
