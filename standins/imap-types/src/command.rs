use std::borrow::Cow;

use bounded_static::ToStatic;

use crate::{
    auth::AuthMechanism,
    core::{AString, Charset, IString, Literal, NString, Tag, Vec1},
    extensions::{compress::CompressionAlgorithm, enable::CapabilityEnable},
    fetch::MessageDataItemName,
    flag::{Flag, StoreResponse, StoreType},
    mailbox::{ListMailbox, Mailbox},
    search::SearchKey,
    secret::Secret,
    sequence::SequenceSet,
    status::StatusDataItemName,
};

#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub struct Command<'a> {
    pub tag: Tag<'a>,
    pub body: CommandBody<'a>,
}

impl<'a> Command<'a> {
    pub fn new<T>(tag: T, body: CommandBody<'a>) -> Result<Self, T::Error>
    where
        T: TryInto<Tag<'a>>,
    {
        Ok(Self {
            tag: tag.try_into()?,
            body,
        })
    }
    pub fn name(&self) -> &'static str {
        self.body.name()
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
#[non_exhaustive]
pub enum CommandBody<'a> {
    Capability,
    Noop,
    Logout,
    StartTLS,
    Authenticate {
        mechanism: AuthMechanism<'a>,
        initial_response: Option<Secret<Cow<'a, [u8]>>>,
    },
    Login {
        username: AString<'a>,
        password: Secret<AString<'a>>,
    },
    Select {
        mailbox: Mailbox<'a>,
    },
    Unselect,
    Examine {
        mailbox: Mailbox<'a>,
    },
    Create {
        mailbox: Mailbox<'a>,
    },
    Delete {
        mailbox: Mailbox<'a>,
    },
    Rename {
        from: Mailbox<'a>,
        to: Mailbox<'a>,
    },
    Subscribe {
        mailbox: Mailbox<'a>,
    },
    Unsubscribe {
        mailbox: Mailbox<'a>,
    },
    List {
        reference: Mailbox<'a>,
        mailbox_wildcard: ListMailbox<'a>,
    },
    Lsub {
        reference: Mailbox<'a>,
        mailbox_wildcard: ListMailbox<'a>,
    },
    Status {
        mailbox: Mailbox<'a>,
        item_names: Cow<'a, [StatusDataItemName]>,
    },
    Append {
        mailbox: Mailbox<'a>,
        flags: Vec<Flag<'a>>,
        message: Literal<'a>,
    },
    Check,
    Close,
    Expunge,
    Search {
        charset: Option<Charset<'a>>,
        criteria: Vec1<SearchKey<'a>>,
        uid: bool,
    },
    Fetch {
        sequence_set: SequenceSet,
        item_names: Vec<MessageDataItemName>,
        uid: bool,
    },
    Store {
        sequence_set: SequenceSet,
        kind: StoreType,
        response: StoreResponse,
        flags: Vec<Flag<'a>>,
        uid: bool,
    },
    Copy {
        sequence_set: SequenceSet,
        mailbox: Mailbox<'a>,
        uid: bool,
    },
    Idle,
    Enable {
        capabilities: Vec1<CapabilityEnable<'a>>,
    },
    Compress {
        algorithm: CompressionAlgorithm,
    },
    GetQuota {
        root: AString<'a>,
    },
    GetQuotaRoot {
        mailbox: Mailbox<'a>,
    },
    Move {
        sequence_set: SequenceSet,
        mailbox: Mailbox<'a>,
        uid: bool,
    },
    Id {
        parameters: Option<Vec<(IString<'a>, NString<'a>)>>,
    },
}

#[derive(Clone, Debug, Eq, PartialEq, Hash, thiserror::Error)]
pub enum LoginError<U, P> {
    #[error("Invalid username: {0}")]
    Username(U),
    #[error("Invalid password: {0}")]
    Password(P),
}
#[derive(Clone, Debug, Eq, PartialEq, Hash, thiserror::Error)]
pub enum AppendError<M, D> {
    #[error("Invalid mailbox: {0}")]
    Mailbox(M),
    #[error("Invalid data: {0}")]
    Data(D),
}
#[derive(Clone, Debug, Eq, PartialEq, Hash, thiserror::Error)]
pub enum RenameError<F, T> {
    #[error("Invalid (from) mailbox: {0}")]
    From(F),
    #[error("Invalid (to) mailbox: {0}")]
    To(T),
}

impl<'a> CommandBody<'a> {
    pub fn tag<T>(self, tag: T) -> Result<Command<'a>, T::Error>
    where
        T: TryInto<Tag<'a>>,
    {
        Command::new(tag, self)
    }
    pub fn authenticate(mechanism: AuthMechanism<'a>) -> Self {
        Self::Authenticate {
            mechanism,
            initial_response: None,
        }
    }
    pub fn authenticate_with_ir<I>(mechanism: AuthMechanism<'a>, initial_response: I) -> Self
    where
        I: Into<Cow<'a, [u8]>>,
    {
        Self::Authenticate {
            mechanism,
            initial_response: Some(Secret::new(initial_response.into())),
        }
    }
    pub fn login<U, P>(username: U, password: P) -> Result<Self, LoginError<U::Error, P::Error>>
    where
        U: TryInto<AString<'a>>,
        P: TryInto<AString<'a>>,
    {
        Ok(Self::Login {
            username: username.try_into().map_err(LoginError::Username)?,
            password: Secret::new(password.try_into().map_err(LoginError::Password)?),
        })
    }
    pub fn select<M: TryInto<Mailbox<'a>>>(mailbox: M) -> Result<Self, M::Error> {
        Ok(Self::Select {
            mailbox: mailbox.try_into()?,
        })
    }
    pub fn create<M: TryInto<Mailbox<'a>>>(mailbox: M) -> Result<Self, M::Error> {
        Ok(Self::Create {
            mailbox: mailbox.try_into()?,
        })
    }
    pub fn rename<F, T>(from: F, to: T) -> Result<Self, RenameError<F::Error, T::Error>>
    where
        F: TryInto<Mailbox<'a>>,
        T: TryInto<Mailbox<'a>>,
    {
        Ok(Self::Rename {
            from: from.try_into().map_err(RenameError::From)?,
            to: to.try_into().map_err(RenameError::To)?,
        })
    }
    pub fn append<M, D>(
        mailbox: M,
        flags: Vec<Flag<'a>>,
        message: D,
    ) -> Result<Self, AppendError<M::Error, D::Error>>
    where
        M: TryInto<Mailbox<'a>>,
        D: TryInto<Literal<'a>>,
    {
        Ok(Self::Append {
            mailbox: mailbox.try_into().map_err(AppendError::Mailbox)?,
            flags,
            message: message.try_into().map_err(AppendError::Data)?,
        })
    }
    pub fn name(&self) -> &'static str {
        match self {
            Self::Capability => "CAPABILITY",
            Self::Noop => "NOOP",
            Self::Logout => "LOGOUT",
            Self::StartTLS => "STARTTLS",
            Self::Authenticate { .. } => "AUTHENTICATE",
            Self::Login { .. } => "LOGIN",
            Self::Select { .. } => "SELECT",
            Self::Unselect => "UNSELECT",
            Self::Examine { .. } => "EXAMINE",
            Self::Create { .. } => "CREATE",
            Self::Delete { .. } => "DELETE",
            Self::Rename { .. } => "RENAME",
            Self::Subscribe { .. } => "SUBSCRIBE",
            Self::Unsubscribe { .. } => "UNSUBSCRIBE",
            Self::List { .. } => "LIST",
            Self::Lsub { .. } => "LSUB",
            Self::Status { .. } => "STATUS",
            Self::Append { .. } => "APPEND",
            Self::Check => "CHECK",
            Self::Close => "CLOSE",
            Self::Expunge => "EXPUNGE",
            Self::Search { .. } => "SEARCH",
            Self::Fetch { .. } => "FETCH",
            Self::Store { .. } => "STORE",
            Self::Copy { .. } => "COPY",
            Self::Idle => "IDLE",
            Self::Enable { .. } => "ENABLE",
            Self::Compress { .. } => "COMPRESS",
            Self::GetQuota { .. } => "GETQUOTA",
            Self::GetQuotaRoot { .. } => "GETQUOTAROOT",
            Self::Move { .. } => "MOVE",
            Self::Id { .. } => "ID",
        }
    }
}
