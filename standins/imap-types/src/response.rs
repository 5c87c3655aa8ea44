use std::{
    borrow::Cow,
    fmt::Debug,
    num::{NonZeroU32, NonZeroU64},
};

use base64::{engine::general_purpose::STANDARD, Engine};
use bounded_static::ToStatic;
use thiserror::Error;

use crate::{
    auth::AuthMechanism,
    core::{AString, Atom, Charset, IString, NString, QuotedChar, Tag, Text, Vec1},
    error::ValidationError,
    extensions::{
        compress::CompressionAlgorithm, enable::CapabilityEnable, quota::Resource,
        sort::SortAlgorithm, thread::ThreadingAlgorithm,
    },
    fetch::MessageDataItem,
    flag::{Flag, FlagNameAttribute, FlagPerm},
    mailbox::Mailbox,
    status::StatusDataItem,
};

#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub struct Greeting<'a> {
    pub kind: GreetingKind,
    pub code: Option<Code<'a>>,
    pub text: Text<'a>,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, ToStatic)]
pub enum GreetingKind {
    Ok,
    PreAuth,
    Bye,
}
impl<'a> Greeting<'a> {
    pub fn new(
        kind: GreetingKind,
        code: Option<Code<'a>>,
        text: &'a str,
    ) -> Result<Self, ValidationError> {
        Ok(Greeting {
            kind,
            code,
            text: text.try_into()?,
        })
    }
    pub fn ok(code: Option<Code<'a>>, text: &'a str) -> Result<Self, ValidationError> {
        Self::new(GreetingKind::Ok, code, text)
    }
    pub fn preauth(code: Option<Code<'a>>, text: &'a str) -> Result<Self, ValidationError> {
        Self::new(GreetingKind::PreAuth, code, text)
    }
    pub fn bye(code: Option<Code<'a>>, text: &'a str) -> Result<Self, ValidationError> {
        Self::new(GreetingKind::Bye, code, text)
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub enum Response<'a> {
    CommandContinuationRequest(CommandContinuationRequest<'a>),
    Data(Data<'a>),
    Status(Status<'a>),
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub enum Status<'a> {
    Untagged(StatusBody<'a>),
    Tagged(Tagged<'a>),
    Bye(Bye<'a>),
}
#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub struct StatusBody<'a> {
    pub kind: StatusKind,
    pub code: Option<Code<'a>>,
    pub text: Text<'a>,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, ToStatic)]
pub enum StatusKind {
    Ok,
    No,
    Bad,
}
#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub struct Tagged<'a> {
    pub tag: Tag<'a>,
    pub body: StatusBody<'a>,
}
#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub struct Bye<'a> {
    pub code: Option<Code<'a>>,
    pub text: Text<'a>,
}

impl<'a> Status<'a> {
    pub fn new<T>(
        tag: Option<Tag<'a>>,
        kind: StatusKind,
        code: Option<Code<'a>>,
        text: T,
    ) -> Result<Self, T::Error>
    where
        T: TryInto<Text<'a>>,
    {
        let body = StatusBody {
            kind,
            code,
            text: text.try_into()?,
        };
        Ok(match tag {
            Some(tag) => Self::Tagged(Tagged { tag, body }),
            None => Self::Untagged(body),
        })
    }
    pub fn ok<T>(tag: Option<Tag<'a>>, code: Option<Code<'a>>, text: T) -> Result<Self, T::Error>
    where
        T: TryInto<Text<'a>>,
    {
        Self::new(tag, StatusKind::Ok, code, text)
    }
    pub fn no<T>(tag: Option<Tag<'a>>, code: Option<Code<'a>>, text: T) -> Result<Self, T::Error>
    where
        T: TryInto<Text<'a>>,
    {
        Self::new(tag, StatusKind::No, code, text)
    }
    pub fn bad<T>(tag: Option<Tag<'a>>, code: Option<Code<'a>>, text: T) -> Result<Self, T::Error>
    where
        T: TryInto<Text<'a>>,
    {
        Self::new(tag, StatusKind::Bad, code, text)
    }
    pub fn bye<T>(code: Option<Code<'a>>, text: T) -> Result<Self, T::Error>
    where
        T: TryInto<Text<'a>>,
    {
        Ok(Self::Bye(Bye {
            code,
            text: text.try_into()?,
        }))
    }
    pub fn tag(&self) -> Option<&Tag> {
        match self {
            Self::Tagged(Tagged { tag, .. }) => Some(tag),
            _ => None,
        }
    }
    pub fn kind(&self) -> Option<StatusKind> {
        match self {
            Self::Untagged(b) | Self::Tagged(Tagged { body: b, .. }) => Some(b.kind),
            Self::Bye(_) => None,
        }
    }
    pub fn code(&self) -> Option<&Code> {
        match self {
            Self::Untagged(b) | Self::Tagged(Tagged { body: b, .. }) => b.code.as_ref(),
            Self::Bye(b) => b.code.as_ref(),
        }
    }
    pub fn text(&self) -> &Text {
        match self {
            Self::Untagged(b) | Self::Tagged(Tagged { body: b, .. }) => &b.text,
            Self::Bye(b) => &b.text,
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
#[non_exhaustive]
pub enum Data<'a> {
    Capability(Vec1<Capability<'a>>),
    List {
        items: Vec<FlagNameAttribute<'a>>,
        delimiter: Option<QuotedChar>,
        mailbox: Mailbox<'a>,
    },
    Lsub {
        items: Vec<FlagNameAttribute<'a>>,
        delimiter: Option<QuotedChar>,
        mailbox: Mailbox<'a>,
    },
    Status {
        mailbox: Mailbox<'a>,
        items: Cow<'a, [StatusDataItem]>,
    },
    Search(Vec<NonZeroU32>),
    Flags(Vec<Flag<'a>>),
    Exists(u32),
    Recent(u32),
    Expunge(NonZeroU32),
    Fetch {
        seq: NonZeroU32,
        items: Vec1<MessageDataItem<'a>>,
    },
    Enabled {
        capabilities: Vec<CapabilityEnable<'a>>,
    },
    Id {
        parameters: Option<Vec<(IString<'a>, NString<'a>)>>,
    },
    QuotaRoot {
        mailbox: Mailbox<'a>,
        roots: Vec<AString<'a>>,
    },
}
impl<'a> Data<'a> {
    pub fn capability<C>(caps: C) -> Result<Self, C::Error>
    where
        C: TryInto<Vec1<Capability<'a>>>,
    {
        Ok(Self::Capability(caps.try_into()?))
    }
    pub fn expunge(seq: u32) -> Result<Self, std::num::TryFromIntError> {
        Ok(Self::Expunge(NonZeroU32::try_from(seq)?))
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub enum CommandContinuationRequest<'a> {
    Basic(CommandContinuationRequestBasic<'a>),
    Base64(Cow<'a, [u8]>),
}
#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub struct CommandContinuationRequestBasic<'a> {
    code: Option<Code<'a>>,
    text: Text<'a>,
}
#[derive(Debug, Clone, PartialEq, Eq, Error)]
pub enum ContinueError<T> {
    #[error("invalid text")]
    Text(T),
    #[error("ambiguous: text is valid base64")]
    Ambiguity,
}
impl<'a> CommandContinuationRequestBasic<'a> {
    pub fn new<T>(code: Option<Code<'a>>, text: T) -> Result<Self, ContinueError<T::Error>>
    where
        T: TryInto<Text<'a>>,
    {
        let text = text.try_into().map_err(ContinueError::Text)?;
        // Ambiguity: `+ <base64>` could be interpreted as text or as data.
        if code.is_none() && STANDARD.decode(text.inner()).is_ok() {
            return Err(ContinueError::Ambiguity);
        }
        Ok(Self { code, text })
    }
    pub fn code(&self) -> Option<&Code<'a>> {
        self.code.as_ref()
    }
    pub fn text(&self) -> &Text<'a> {
        &self.text
    }
}
impl<'a> CommandContinuationRequest<'a> {
    pub fn basic<T>(code: Option<Code<'a>>, text: T) -> Result<Self, ContinueError<T::Error>>
    where
        T: TryInto<Text<'a>>,
    {
        Ok(Self::Basic(CommandContinuationRequestBasic::new(
            code, text,
        )?))
    }
    pub fn base64<D: Into<Cow<'a, [u8]>>>(data: D) -> Self {
        Self::Base64(data.into())
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
#[non_exhaustive]
pub enum Code<'a> {
    Alert,
    BadCharset { allowed: Vec<Charset<'a>> },
    Capability(Vec1<Capability<'a>>),
    Parse,
    PermanentFlags(Vec<FlagPerm<'a>>),
    ReadOnly,
    ReadWrite,
    TryCreate,
    UidNext(NonZeroU32),
    UidValidity(NonZeroU32),
    Unseen(NonZeroU32),
    CompressionActive,
    OverQuota,
    TooBig,
    UnknownCte,
    HighestModSeq(NonZeroU64),
    NoModSeq,
    Closed,
    AppendUid { uid_validity: NonZeroU32, uid: NonZeroU32 },
    UidNotSticky,
    Other(CodeOther<'a>),
}
impl Code<'_> {
    pub fn unseen(n: u32) -> Result<Self, std::num::TryFromIntError> {
        Ok(Self::Unseen(NonZeroU32::try_from(n)?))
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub struct CodeOther<'a>(pub(crate) Cow<'a, [u8]>);
impl<'a> CodeOther<'a> {
    pub fn unvalidated<D: Into<Cow<'a, [u8]>>>(d: D) -> Self {
        Self(d.into())
    }
    pub fn inner(&self) -> &[u8] {
        &self.0
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
#[non_exhaustive]
pub enum Capability<'a> {
    Imap4Rev1,
    Auth(AuthMechanism<'a>),
    LoginDisabled,
    StartTls,
    Idle,
    MailboxReferrals,
    LoginReferrals,
    SaslIr,
    Enable,
    Compress { algorithm: CompressionAlgorithm },
    Quota,
    QuotaRes(Resource<'a>),
    QuotaSet,
    LiteralPlus,
    LiteralMinus,
    Move,
    Id,
    Unselect,
    Sort(Option<SortAlgorithm<'a>>),
    Thread(ThreadingAlgorithm<'a>),
    Metadata,
    MetadataServer,
    Binary,
    UidPlus,
    CondStore,
    QResync,
    Other(CapabilityOther<'a>),
}
#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub struct CapabilityOther<'a>(pub(crate) Atom<'a>);

impl<'a> From<Atom<'a>> for Capability<'a> {
    fn from(atom: Atom<'a>) -> Self {
        fn split_once_cow<'b>(a: &str, at: usize) -> Atom<'b> {
            Atom(Cow::Owned(a[at..].to_owned()))
        }
        let s = atom.inner().to_ascii_lowercase();
        match s.as_str() {
            "imap4rev1" => return Self::Imap4Rev1,
            "logindisabled" => return Self::LoginDisabled,
            "starttls" => return Self::StartTls,
            "idle" => return Self::Idle,
            "mailbox-referrals" => return Self::MailboxReferrals,
            "login-referrals" => return Self::LoginReferrals,
            "sasl-ir" => return Self::SaslIr,
            "enable" => return Self::Enable,
            "quota" => return Self::Quota,
            "quotaset" => return Self::QuotaSet,
            "literal+" => return Self::LiteralPlus,
            "literal-" => return Self::LiteralMinus,
            "move" => return Self::Move,
            "id" => return Self::Id,
            "unselect" => return Self::Unselect,
            "sort" => return Self::Sort(None),
            "metadata" => return Self::Metadata,
            "metadata-server" => return Self::MetadataServer,
            "binary" => return Self::Binary,
            "uidplus" => return Self::UidPlus,
            "condstore" => return Self::CondStore,
            "qresync" => return Self::QResync,
            "compress=deflate" => {
                return Self::Compress {
                    algorithm: CompressionAlgorithm::Deflate,
                }
            }
            _ => {}
        }
        for p in ["auth=", "quota=res-", "sort=", "thread="] {
            if s.starts_with(p) && s.len() > p.len() {
                let rest = split_once_cow(atom.inner(), p.len());
                return match p {
                    "auth=" => Self::Auth(AuthMechanism::from(rest)),
                    "quota=res-" => Self::QuotaRes(Resource::from(rest)),
                    "sort=" => Self::Sort(Some(SortAlgorithm::from(rest))),
                    _ => Self::Thread(ThreadingAlgorithm::from(rest)),
                };
            }
        }
        Self::Other(CapabilityOther(atom))
    }
}
impl<'a> TryFrom<&'a str> for Capability<'a> {
    type Error = ValidationError;
    fn try_from(s: &'a str) -> Result<Self, Self::Error> {
        Ok(Self::from(Atom::try_from(s)?))
    }
}
impl TryFrom<String> for Capability<'_> {
    type Error = ValidationError;
    fn try_from(s: String) -> Result<Self, Self::Error> {
        Ok(Self::from(Atom::try_from(s)?))
    }
}
impl std::fmt::Display for Capability<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Self::Imap4Rev1 => write!(f, "IMAP4REV1"),
            Self::Auth(m) => write!(f, "AUTH={m}"),
            Self::LoginDisabled => write!(f, "LOGINDISABLED"),
            Self::StartTls => write!(f, "STARTTLS"),
            Self::Idle => write!(f, "IDLE"),
            Self::MailboxReferrals => write!(f, "MAILBOX-REFERRALS"),
            Self::LoginReferrals => write!(f, "LOGIN-REFERRALS"),
            Self::SaslIr => write!(f, "SASL-IR"),
            Self::Enable => write!(f, "ENABLE"),
            Self::Compress { algorithm } => write!(f, "COMPRESS={}", algorithm.as_ref()),
            Self::Quota => write!(f, "QUOTA"),
            Self::QuotaRes(r) => write!(f, "QUOTA=RES-{}", r.as_ref()),
            Self::QuotaSet => write!(f, "QUOTASET"),
            Self::LiteralPlus => write!(f, "LITERAL+"),
            Self::LiteralMinus => write!(f, "LITERAL-"),
            Self::Move => write!(f, "MOVE"),
            Self::Id => write!(f, "ID"),
            Self::Unselect => write!(f, "UNSELECT"),
            Self::Sort(None) => write!(f, "SORT"),
            Self::Sort(Some(a)) => write!(f, "SORT={}", a.as_ref()),
            Self::Thread(a) => write!(f, "THREAD={}", a.as_ref()),
            Self::Metadata => write!(f, "METADATA"),
            Self::MetadataServer => write!(f, "METADATA-SERVER"),
            Self::Binary => write!(f, "BINARY"),
            Self::UidPlus => write!(f, "UIDPLUS"),
            Self::CondStore => write!(f, "CONDSTORE"),
            Self::QResync => write!(f, "QRESYNC"),
            Self::Other(o) => write!(f, "{}", o.0.inner()),
        }
    }
}
