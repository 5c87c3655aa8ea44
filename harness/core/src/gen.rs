//! Generators: commands, responses, byte streams. Everything carries a unique id so that
//! observed histories are unambiguous.
use std::num::{NonZeroU32, NonZeroU64};

use imap_codec::{
    decode::Decoder,
    encode::{Encoder, Fragment},
    AuthenticateDataCodec, CommandCodec, GreetingCodec, IdleDoneCodec, ResponseCodec,
};
use imap_types::{
    auth::{AuthMechanism, AuthenticateData},
    command::{Command, CommandBody},
    core::{AString, Atom, Charset, IString, Literal, NString, Quoted, QuotedChar, Tag, Text, Vec1},
    extensions::{compress::CompressionAlgorithm, enable::CapabilityEnable, idle::IdleDone},
    fetch::{MessageDataItem, MessageDataItemName},
    flag::{Flag, FlagFetch, FlagNameAttribute, FlagPerm, StoreResponse, StoreType},
    mailbox::{ListMailbox, Mailbox},
    response::{
        Bye, Capability, Code, CodeOther, CommandContinuationRequest, Data, Greeting, GreetingKind, Response,
        Status, StatusKind,
    },
    search::SearchKey,
    secret::Secret,
    sequence::SequenceSet,
    status::{StatusDataItem, StatusDataItemName},
};
use mon_common::Rng;

pub struct Gen {
    pub rng: Rng,
    next_id: u64,
    /// Upper bound for generated literal sizes.
    pub max_literal: usize,
    /// Percentage of literals that are non-synchronizing.
    pub nonsync: u32,
    /// Percentage of strings that become literals.
    pub literals: u32,
    /// The next response with room for it carries a literal that big.
    pub huge: Option<usize>,
    /// The next APPEND carries a literal that big.
    pub huge_append: Option<usize>,
    /// Put this into everything that must stay secret.
    pub marker: Option<String>,
    /// Put this into tags, words and texts.
    pub prefix: String,
}

impl Gen {
    pub fn new(rng: Rng) -> Self {
        Self {
            rng,
            next_id: 0,
            max_literal: 40,
            nonsync: 30,
            literals: 40,
            huge: None,
            huge_append: None,
            marker: None,
            prefix: String::new(),
        }
    }
    pub fn id(&mut self) -> u64 {
        self.next_id += 1;
        self.next_id
    }
    pub fn tag(&mut self) -> Tag<'static> {
        let n = self.id();
        let id = format!("{}{n}", self.prefix);
        let s = match self.rng.below(6) {
            0 => format!("{id}"),
            1 => format!("a{id}"),
            2 => format!("{id}.x-_!#"),
            3 => format!("OK{id}"),
            4 => format!("aB{id}"),
            _ => format!("T{id}]"),
        };
        let s = self.stretch(s, 1, 300);
        Tag::try_from(s).unwrap()
    }
    /// Literal content: any byte but NUL, with patterns that look like protocol.
    pub fn literal_bytes(&mut self) -> Vec<u8> {
        let n = match self.rng.below(8) {
            0 => 0,
            1 => 1,
            2 => self.max_literal,
            3 => self.max_literal.saturating_sub(1),
            _ => self.rng.range(0, self.max_literal),
        };
        let mut v = Vec::new();
        while v.len() < n {
            match self.rng.below(9) {
                0 => v.extend(b"\r\n"),
                1 => v.extend(b"\n"),
                2 => v.extend(b"\r"),
                3 => v.extend(b"{3}\r\nabc"),
                4 => v.extend(b"+ go\r\n"),
                5 => v.extend(b"a OK done\r\n"),
                6 => v.extend(b"x NOOP\r\n"),
                _ => v.push(self.rng.range(1, 255) as u8),
            }
        }
        v.truncate(n);
        v
    }
    /// In one of `n` sessions something is really big.
    pub fn huge_in_one_of(&mut self, n: usize) -> Option<usize> {
        let sizes = [66_000, 270_000, 600_000, 1_100_000, 2_200_000];
        (self.rng.below(n) == 0).then(|| *self.rng.pick(&sizes) + self.rng.below(20))
    }
    fn huge_literal(n: usize) -> Literal<'static> {
        let b = (0..n).map(|i| (1 + (i * 7 + i / 251) % 255) as u8).collect::<Vec<_>>();
        Literal::try_from(b).unwrap()
    }
    pub fn literal(&mut self) -> Literal<'static> {
        let b = self.literal_bytes();
        let l = Literal::try_from(b).unwrap();
        if self.rng.chance(self.nonsync) {
            l.into_non_sync()
        } else {
            l
        }
    }
    pub fn word(&mut self) -> String {
        let id = self.id();
        let s = format!("w{}{id}", self.prefix);
        self.stretch(s, 2, 3000)
    }
    /// Rarely, something much longer
    fn stretch(&mut self, mut s: String, percent: u32, max: usize) -> String {
        if self.rng.chance(percent) {
            let most = *self.rng.pick(&[10, 100, max]);
            let n = self.rng.range(1, most);
            s.extend((0..n).map(|i| (b'a' + (i % 26) as u8) as char));
        }
        s
    }
    pub fn quoted(&mut self) -> Quoted<'static> {
        let w = self.word();
        let s = match self.rng.below(5) {
            0 => format!("{w} with space"),
            1 => format!("{w}\"\\q"),
            2 => format!("{{{w}}}"),
            3 => format!("{w}{{5}}"),
            _ => w,
        };
        Quoted::try_from(s).unwrap()
    }
    pub fn istring(&mut self) -> IString<'static> {
        if self.rng.chance(self.literals) {
            IString::Literal(self.literal())
        } else {
            IString::Quoted(self.quoted())
        }
    }
    pub fn nstring(&mut self) -> NString<'static> {
        if self.rng.chance(10) {
            NString(None)
        } else {
            NString(Some(self.istring()))
        }
    }
    pub fn astring(&mut self) -> AString<'static> {
        if self.rng.chance(30) {
            AString::try_from(self.word()).unwrap()
        } else {
            AString::String(self.istring())
        }
    }
    /// A secret of any length that has the marker in it, if there is one.
    fn secret(&mut self) -> Option<String> {
        let m = self.marker.clone()?;
        let times = match self.rng.below(20) {
            0..=13 => 1,
            14..=16 => self.rng.range(2, 5),
            17..=18 => self.rng.range(5, 20),
            _ => self.rng.range(20, 300),
        };
        Some(m.repeat(times))
    }
    fn password(&mut self) -> AString<'static> {
        let Some(m) = self.secret() else { return self.astring() };
        match self.rng.below(4) {
            0 => AString::try_from(m).unwrap(),
            1 => AString::from(Quoted::try_from(m).unwrap()),
            _ => {
                let l = Literal::try_from(m.into_bytes()).unwrap();
                let l = if self.rng.chance(self.nonsync) { l.into_non_sync() } else { l };
                AString::String(IString::Literal(l))
            }
        }
    }
    pub fn mailbox(&mut self) -> Mailbox<'static> {
        match self.rng.below(4) {
            0 => Mailbox::Inbox,
            _ => Mailbox::from(self.astring()),
        }
    }
    pub fn seq(&mut self) -> SequenceSet {
        let a = self.rng.range(1, 99);
        if self.rng.chance(1) {
            let n = self.rng.range(2, 800);
            let all: Vec<String> = (0..n).map(|i| format!("{}", a + 2 * i)).collect();
            return SequenceSet::parse(&all.join(",")).unwrap();
        }
        SequenceSet::parse(&match self.rng.below(3) {
            0 => format!("{a}"),
            1 => format!("{a}:*"),
            _ => format!("{a},{}:{}", a + 1, a + 9),
        })
        .unwrap()
    }
    pub fn flags(&mut self) -> Vec<Flag<'static>> {
        let all = [Flag::Seen, Flag::Deleted, Flag::Draft, Flag::Flagged, Flag::Answered];
        let n = self.rng.below(4);
        (0..n).map(|_| self.rng.pick(&all).clone()).collect()
    }
    pub fn keywords(&mut self) -> Vec<Flag<'static>> {
        let mut v = self.flags();
        if self.rng.chance(20) {
            v.push(Flag::keyword(Atom::try_from("$Forwarded").unwrap()));
        }
        if self.rng.chance(10) {
            let w = self.word();
            v.push(Flag::system(Atom::try_from(w).unwrap()));
        }
        v
    }
    fn number(&mut self) -> u32 {
        *self.rng.pick(&[0, 1, 2, 7, 4711, i32::MAX as u32, u32::MAX])
    }
    fn nonzero(&mut self) -> NonZeroU32 {
        let n = self.number();
        NonZeroU32::new(n.max(1)).unwrap()
    }
    fn parameters(&mut self) -> Option<Vec<(IString<'static>, NString<'static>)>> {
        match self.rng.below(4) {
            0 => None,
            n => Some((1..n + 1).map(|_| (self.istring(), self.nstring())).collect()),
        }
    }
    fn wildcard(&mut self) -> ListMailbox<'static> {
        match self.rng.below(6) {
            0 => ListMailbox::String(self.istring()),
            1 => ListMailbox::try_from("").unwrap(),
            2 => ListMailbox::try_from(format!("{}/%", self.word())).unwrap(),
            3 => ListMailbox::try_from("%").unwrap(),
            _ => ListMailbox::try_from("*").unwrap(),
        }
    }
    fn search_key(&mut self) -> SearchKey<'static> {
        match self.rng.below(10) {
            0 => SearchKey::All,
            1 => SearchKey::Answered,
            2 => SearchKey::Deleted,
            3 => SearchKey::Seen,
            4 => SearchKey::Unseen,
            5 => SearchKey::Larger(self.number()),
            6 => SearchKey::Text(self.astring()),
            7 => SearchKey::Body(self.astring()),
            8 => SearchKey::From(self.astring()),
            _ => SearchKey::Subject(self.astring()),
        }
    }
    fn enable(&mut self) -> CapabilityEnable<'static> {
        let a = *self.rng.pick(&["UTF8=ACCEPT", "CONDSTORE", "QRESYNC", "X-THING"]);
        CapabilityEnable::from(Atom::try_from(a).unwrap())
    }
    fn some<T>(&mut self, min: usize, max: usize, mut f: impl FnMut(&mut Self) -> T) -> Vec<T> {
        let mut n = self.rng.range(min, max);
        if self.rng.chance(1) {
            n *= self.rng.range(1, 60);
        }
        (0..n).map(|_| f(self)).collect()
    }
    /// Any command except AUTHENTICATE and IDLE.
    pub fn plain_command(&mut self) -> Command<'static> {
        let tag = self.tag();
        let w = [6, 2, 6, 4, 3, 3, 3, 2, 8, 3, 2, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1];
        let body = match self.rng.weighted(&w) {
            0 => CommandBody::Noop,
            1 => CommandBody::Capability,
            2 => CommandBody::Login {
                username: self.astring(),
                password: Secret::new(self.password()),
            },
            3 => CommandBody::Select { mailbox: self.mailbox() },
            4 => CommandBody::Create { mailbox: self.mailbox() },
            5 => CommandBody::Rename { from: self.mailbox(), to: self.mailbox() },
            6 => CommandBody::List { reference: self.mailbox(), mailbox_wildcard: self.wildcard() },
            7 => {
                let names = self.some(1, 5, |g| *g.rng.pick(&StatusDataItemName::ALL));
                CommandBody::Status { mailbox: self.mailbox(), item_names: names.into() }
            }
            8 => {
                let message = match self.huge_append.take().map(Self::huge_literal) {
                    Some(l) if self.rng.chance(self.nonsync) => l.into_non_sync(),
                    Some(l) => l,
                    None => self.literal(),
                };
                CommandBody::Append { mailbox: self.mailbox(), flags: self.keywords(), message }
            }
            9 => {
                let keys = self.some(1, 4, |g| g.search_key());
                CommandBody::Search {
                    charset: if self.rng.chance(20) { Some(Charset::try_from("UTF-8").unwrap()) } else { None },
                    criteria: Vec1::try_from(keys).unwrap(),
                    uid: self.rng.chance(50),
                }
            }
            10 => {
                let names = self.some(1, 4, |g| *g.rng.pick(&MessageDataItemName::ALL));
                CommandBody::Fetch { sequence_set: self.seq(), item_names: names, uid: self.rng.chance(50) }
            }
            11 => CommandBody::Store {
                sequence_set: self.seq(),
                kind: *self.rng.pick(&[StoreType::Add, StoreType::Remove, StoreType::Replace]),
                response: *self.rng.pick(&[StoreResponse::Silent, StoreResponse::Answer]),
                flags: {
                    let mut f = self.keywords();
                    if f.is_empty() {
                        f.push(Flag::Seen);
                    }
                    f
                },
                uid: self.rng.chance(50),
            },
            12 => CommandBody::Copy { sequence_set: self.seq(), mailbox: self.mailbox(), uid: self.rng.chance(50) },
            13 => CommandBody::Id { parameters: self.parameters() },
            14 => CommandBody::Logout,
            15 => CommandBody::Check,
            16 => CommandBody::Close,
            17 => CommandBody::Delete { mailbox: self.mailbox() },
            18 => CommandBody::Unselect,
            19 => CommandBody::Examine { mailbox: self.mailbox() },
            20 => CommandBody::Subscribe { mailbox: self.mailbox() },
            21 => CommandBody::Unsubscribe { mailbox: self.mailbox() },
            22 => CommandBody::Lsub { reference: self.mailbox(), mailbox_wildcard: self.wildcard() },
            23 => CommandBody::Expunge,
            24 => {
                let caps = self.some(1, 3, |g| g.enable());
                CommandBody::Enable { capabilities: Vec1::try_from(caps).unwrap() }
            }
            25 => CommandBody::Compress { algorithm: CompressionAlgorithm::Deflate },
            26 => CommandBody::GetQuota { root: self.astring() },
            27 => CommandBody::GetQuotaRoot { mailbox: self.mailbox() },
            28 => CommandBody::Move { sequence_set: self.seq(), mailbox: self.mailbox(), uid: self.rng.chance(50) },
            _ => CommandBody::StartTLS,
        };
        Command { tag, body }
    }
    pub fn mechanism(&mut self) -> AuthMechanism<'static> {
        let all = [
            "PLAIN", "PLAIN", "LOGIN", "LOGIN", "SCRAM-SHA-1", "XOAUTH2", "OAUTHBEARER", "SCRAM-SHA-1-PLUS",
            "SCRAM-SHA-256", "SCRAM-SHA-256-PLUS", "SCRAM-SHA3-512", "SCRAM-SHA3-512-PLUS", "GSSAPI", "X-MINE",
        ];
        AuthMechanism::try_from(*self.rng.pick(&all)).unwrap()
    }
    pub fn bytes(&mut self, max: usize) -> Vec<u8> {
        let mut n = self.rng.range(0, max);
        if self.rng.chance(2) {
            n *= self.rng.range(1, 200);
        }
        (0..n).map(|_| self.rng.u64() as u8).collect()
    }
    pub fn auth_command(&mut self) -> Command<'static> {
        let ir = if self.rng.chance(40) {
            let b = match self.secret() {
                Some(m) => m.into_bytes(),
                None => self.bytes(20),
            };
            Some(Secret::new(b.into()))
        } else {
            None
        };
        Command {
            tag: self.tag(),
            body: CommandBody::Authenticate { mechanism: self.mechanism(), initial_response: ir },
        }
    }
    pub fn idle_command(&mut self) -> Command<'static> {
        Command { tag: self.tag(), body: CommandBody::Idle }
    }
    pub fn auth_data(&mut self) -> AuthenticateData<'static> {
        if self.rng.chance(12) {
            AuthenticateData::Cancel
        } else {
            let id = self.id();
            let mut b = format!("auth{id}").into_bytes();
            match self.secret() {
                Some(m) => b.extend(m.bytes()),
                None if self.rng.chance(12) => b = self.bytes(3),
                None => b.extend(self.bytes(20)),
            }
            AuthenticateData::r#continue(b)
        }
    }

    // ------------------------------------------------------------------------------- responses

    pub fn text(&mut self) -> Text<'static> {
        let n = self.id();
        let id = format!("{}{n}", self.prefix);
        let s = match self.rng.below(6) {
            0 => format!("t{id} {{5}}"),
            1 => format!("t{id} + OK BAD"),
            2 => format!("t{id} \"q\\"),
            3 if self.rng.chance(20) => format!("t{id} "),
            3 if self.rng.chance(20) => format!("t{id}  \t x"),
            _ => format!("t{id} text."),
        };
        let s = self.stretch(s, 3, 4000);
        Text::try_from(s).unwrap()
    }
    pub fn capabilities(&mut self) -> Vec1<Capability<'static>> {
        let all = [
            "IMAP4REV1", "AUTH=PLAIN", "AUTH=LOGIN", "AUTH=SCRAM-SHA-256-PLUS", "STARTTLS", "IDLE",
            "SASL-IR", "LITERAL+", "MOVE", "X-FOO", "COMPRESS=DEFLATE", "ENABLE", "ID", "UNSELECT",
            "LITERAL-", "LOGINDISABLED", "AUTH=GSSAPI", "AUTH=XOAUTH2", "AUTH=SCRAM-SHA-1", "MAILBOX-REFERRALS",
            "LOGIN-REFERRALS", "QUOTA", "QUOTASET", "QUOTA=RES-STORAGE", "QUOTA=RES-X", "SORT", "SORT=DISPLAY",
            "THREAD=REFERENCES", "METADATA", "METADATA-SERVER", "BINARY", "UIDPLUS", "CONDSTORE", "QRESYNC",
            "AUTH=OAUTHBEARER", "IMAP4REV2",
        ];
        let n = self.rng.range(1, 6);
        Vec1::try_from(
            (0..n)
                .map(|_| Capability::try_from(*self.rng.pick(&all)).unwrap())
                .collect::<Vec<_>>(),
        )
        .unwrap()
    }
    pub fn code(&mut self) -> Option<Code<'static>> {
        Some(match self.rng.below(50) {
            0 | 1 | 2 => Code::Alert,
            3 | 4 | 5 => Code::Capability(self.capabilities()),
            6 => Code::ReadWrite,
            7 => Code::UidNext(self.nonzero()),
            8 => {
                let mut v: Vec<_> = self.keywords().into_iter().map(FlagPerm::Flag).collect();
                if self.rng.chance(50) {
                    v.push(FlagPerm::Asterisk);
                }
                Code::PermanentFlags(v)
            }
            9 => Code::TryCreate,
            10 => Code::TooBig,
            11 => Code::BadCharset {
                allowed: self.some(0, 2, |g| Charset::try_from(*g.rng.pick(&["UTF-8", "US-ASCII"])).unwrap()),
            },
            12 => Code::Parse,
            13 => Code::ReadOnly,
            14 => Code::UidValidity(self.nonzero()),
            15 => Code::Unseen(self.nonzero()),
            16 => Code::CompressionActive,
            17 => Code::OverQuota,
            18 => Code::UnknownCte,
            19 => Code::HighestModSeq(NonZeroU64::new(self.rng.u64() >> 1 | 1).unwrap()),
            20 => Code::NoModSeq,
            21 => Code::Closed,
            22 => Code::AppendUid { uid_validity: self.nonzero(), uid: self.nonzero() },
            23 => Code::UidNotSticky,
            24 => Code::Other(CodeOther::unvalidated(
                self.rng.pick(&["X-FOO", "X-FOO bar {3}", "REFERRAL imap://h/", "[X"]).as_bytes(),
            )),
            _ => return None,
        })
    }
    pub fn kind(&mut self) -> StatusKind {
        *self.rng.pick(&[StatusKind::Ok, StatusKind::No, StatusKind::Bad])
    }
    pub fn status(&mut self, tag: Option<Tag<'static>>) -> Status<'static> {
        let kind = self.kind();
        self.status_of(tag, kind)
    }
    pub fn status_of(&mut self, tag: Option<Tag<'static>>, kind: StatusKind) -> Status<'static> {
        let code = self.code();
        Status::new(tag, kind, code, self.text()).unwrap()
    }
    /// A status that ends an exchange: usually with a tag.
    pub fn closing_status(&mut self) -> Status<'static> {
        if self.rng.chance(50) {
            let tag = self.tag();
            self.status(Some(tag))
        } else {
            self.untagged_status()
        }
    }
    pub fn untagged_status(&mut self) -> Status<'static> {
        if self.rng.chance(10) {
            Status::Bye(Bye { code: self.code(), text: self.text() })
        } else {
            self.status(None)
        }
    }
    pub fn continuation(&mut self) -> CommandContinuationRequest<'static> {
        if self.rng.chance(30) {
            let id = self.id();
            let mut b = format!("{id}").into_bytes();
            b.extend(self.bytes(10));
            if self.rng.chance(10) {
                b.clear();
            }
            CommandContinuationRequest::base64(b)
        } else {
            CommandContinuationRequest::basic(self.code(), self.text()).unwrap()
        }
    }
    pub fn data(&mut self) -> Data<'static> {
        match self.rng.weighted(&[2, 4, 4, 4, 2, 2, 2, 2, 12, 2, 2, 1, 1]) {
            0 => Data::Capability(self.capabilities()),
            1 => {
                let (items, delimiter) = self.list();
                Data::List { items, delimiter, mailbox: self.mailbox() }
            }
            2 => {
                let items = self.some(1, 4, |g| StatusDataItem {
                    name: *g.rng.pick(&StatusDataItemName::ALL),
                    value: if g.rng.chance(30) { g.number() } else { g.id() as u32 },
                });
                Data::Status { mailbox: self.mailbox(), items: items.into() }
            }
            3 => Data::Search(self.some(0, 3, |g| match g.rng.chance(30) {
                true => g.nonzero(),
                false => NonZeroU32::new(g.id() as u32).unwrap(),
            })),
            4 => Data::Flags(self.keywords()),
            5 => Data::Exists(if self.rng.chance(30) { self.number() } else { self.id() as u32 }),
            6 => Data::Recent(if self.rng.chance(30) { self.number() } else { self.id() as u32 }),
            7 => Data::Expunge(NonZeroU32::new(self.id() as u32).unwrap()),
            8 => {
                let mut items = vec![MessageDataItem::Uid(NonZeroU32::new(self.id() as u32).unwrap())];
                if let Some(l) = self.huge.take().map(Self::huge_literal) {
                    items.push(MessageDataItem::Rfc822(NString(Some(IString::Literal(l)))));
                }
                for _ in 0..self.rng.below(3) {
                    items.push(match self.rng.below(6) {
                        0 | 1 => MessageDataItem::Rfc822(self.nstring()),
                        2 => MessageDataItem::BodyExt { data: self.nstring() },
                        3 => MessageDataItem::Rfc822Size(self.number()),
                        4 => MessageDataItem::Rfc822Header(self.nstring()),
                        _ => {
                            let mut f: Vec<_> = self.keywords().into_iter().map(FlagFetch::Flag).collect();
                            if self.rng.chance(50) {
                                f.push(FlagFetch::Recent);
                            }
                            MessageDataItem::Flags(f)
                        }
                    });
                }
                Data::Fetch { seq: self.nonzero(), items: Vec1::try_from(items).unwrap() }
            }
            9 => Data::Id { parameters: self.parameters() },
            10 => Data::QuotaRoot { mailbox: self.mailbox(), roots: self.some(0, 2, |g| g.astring()) },
            11 => {
                let (items, delimiter) = self.list();
                Data::Lsub { items, delimiter, mailbox: self.mailbox() }
            }
            _ => Data::Enabled { capabilities: self.some(0, 2, |g| g.enable()) },
        }
    }
    fn list(&mut self) -> (Vec<FlagNameAttribute<'static>>, Option<QuotedChar>) {
        let items = self.some(0, 2, |g| {
            let a = *g.rng.pick(&["Noselect", "Noinferiors", "Marked", "Unmarked", "HasChildren"]);
            FlagNameAttribute::from(Atom::try_from(a).unwrap())
        });
        let d = *self.rng.pick(&[None, Some('/'), Some('.'), Some('\\'), Some('"')]);
        (items, d.map(|c| QuotedChar::try_from(c).unwrap()))
    }
    pub fn greeting(&mut self) -> Greeting<'static> {
        Greeting {
            kind: *self.rng.pick(&[GreetingKind::Ok, GreetingKind::PreAuth, GreetingKind::Bye]),
            code: self.code(),
            text: self.text(),
        }
    }
    /// Bytes that are no message at all, usually with line ends.
    pub fn garbage(&mut self) -> Vec<u8> {
        if let Some(m) = self.secret() {
            let eol = if self.rng.chance(80) { "\r\n" } else { "\n" };
            let line = match self.rng.below(10) {
                0 => format!("A{} {m}", self.rng.below(9)),
                1 => format!("* {m} %"),
                2 => format!("A1 LOGIN {m} "),
                3 => format!("A1 LOGIN user \"{m}"),
                4 => format!("A1 AUTHENTICATE PLAIN {m}%"),
                5 => format!("+{m}"),
                6 => format!("{m}\0{m}"),
                7 => format!("* OK [{m} "),
                _ => format!("{m}%{m} "),
            };
            return format!("{line}{eol}").into_bytes();
        }
        let mut v = Vec::new();
        for _ in 0..self.rng.range(1, 6) {
            match self.rng.below(14) {
                0 => v.extend(b"\r\n"),
                1 => v.extend(b"\n"),
                2 => v.extend(b"\r"),
                3 => v.extend(b"{4294967296}\r\n"),
                4 => v.extend(b"{-1}\r\n"),
                5 => v.extend(b" {0+}\r\n"),
                6 => v.extend(b"\0\0"),
                7 => v.extend(b"a NOOP\0\r\n"),
                8 => v.extend(b"a LOGIN x {\r\n"),
                9 => v.extend(b"+ \r\n"),
                10 => v.extend(b"* OK [\r\n"),
                11 => v.extend(b"a APPEND b {3+}}\r\n"),
                12 => v.extend(b"\r\r\n"),
                _ => v.extend(self.bytes(12)),
            }
        }
        if self.rng.chance(70) {
            v.extend(b"\r\n");
        }
        v
    }
    /// Flip, drop, duplicate or insert a few bytes.
    pub fn mutate(&mut self, v: &mut Vec<u8>) {
        for _ in 0..self.rng.range(1, 3) {
            if v.is_empty() {
                return;
            }
            let i = self.rng.below(v.len());
            match self.rng.below(5) {
                0 => {
                    v.remove(i);
                }
                1 => v[i] = self.rng.u64() as u8,
                2 => v.insert(i, *self.rng.pick(b"\r\n {}+\0\"\\(a0")),
                3 => {
                    let b = v[i];
                    v.insert(i, b);
                }
                _ => v[i] ^= 1 << self.rng.below(8),
            }
        }
    }
    /// Cut `stream` into chunks.
    pub fn cuts(&mut self, len: usize) -> Vec<usize> {
        let style = self.rng.below(5);
        let mut out = vec![];
        let mut left = len;
        while left > 0 {
            let n = match style {
                _ if left > 30_000 => self.rng.range(1, left),
                0 => 1,
                1 => left,
                2 => self.rng.range(1, 3),
                3 => self.rng.range(1, 40),
                _ => self.rng.range(1, left),
            }
            .min(left);
            out.push(n);
            left -= n;
        }
        out
    }
}

// -------------------------------------------------------------------------------------- encoding

pub fn enc_command(c: &Command) -> Vec<u8> {
    CommandCodec::default().encode(c).dump()
}
pub fn enc_auth_data(d: &AuthenticateData) -> Vec<u8> {
    AuthenticateDataCodec::default().encode(d).dump()
}
pub fn enc_idle_done() -> Vec<u8> {
    IdleDoneCodec::default().encode(&IdleDone).dump()
}
pub fn enc_response(r: &Response) -> Vec<u8> {
    ResponseCodec::default().encode(r).dump()
}
pub fn enc_greeting(g: &Greeting) -> Vec<u8> {
    GreetingCodec::default().encode(g).dump()
}
/// Encoding with a choice of line ending per line (literals untouched).
pub fn with_line_ends(
    fragments: impl Iterator<Item = Fragment>,
    mut lf: impl FnMut() -> bool,
) -> Vec<u8> {
    let mut out = vec![];
    for f in fragments {
        match f {
            Fragment::Line { mut data } => {
                if data.ends_with(b"\r\n") && lf() {
                    data.truncate(data.len() - 2);
                    data.push(b'\n');
                }
                out.extend(data);
            }
            Fragment::Literal { data, .. } => out.extend(data),
        }
    }
    out
}
/// True if the codec decodes the encoding of `c` back to `c`.
pub fn command_round_trips(c: &Command<'static>) -> bool {
    let bytes = enc_command(c);
    matches!(CommandCodec::default().decode(&bytes), Ok((rest, ref d)) if rest.is_empty() && d == c)
}
pub fn response_round_trips(r: &Response<'static>) -> bool {
    let bytes = enc_response(r);
    matches!(ResponseCodec::default().decode(&bytes), Ok((rest, ref d)) if rest.is_empty() && d == r)
}

/// Bytes carried by an error, whatever wraps them.
pub trait Raw {
    fn raw(&self) -> &[u8];
}
impl Raw for Box<[u8]> {
    fn raw(&self) -> &[u8] {
        self
    }
}
impl Raw for Vec<u8> {
    fn raw(&self) -> &[u8] {
        self
    }
}
impl<T: Raw> Raw for Secret<T> {
    fn raw(&self) -> &[u8] {
        self.declassify().raw()
    }
}
