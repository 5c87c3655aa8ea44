use std::{borrow::Cow, num::NonZeroU32};

use base64::{engine::general_purpose::STANDARD, Engine};
use imap_types::{
    auth::{AuthMechanism, AuthenticateData},
    command::{Command, CommandBody},
    core::{
        AString, Atom, AtomExt, Charset, IString, Literal, LiteralMode, NString, Quoted,
        QuotedChar, Tag, Text, Vec1,
    },
    extensions::{compress::CompressionAlgorithm, enable::CapabilityEnable, idle::IdleDone},
    fetch::{MessageDataItem, MessageDataItemName},
    flag::{Flag, FlagFetch, FlagNameAttribute, FlagPerm, StoreResponse, StoreType},
    mailbox::{ListMailbox, Mailbox},
    response::{
        Bye, Capability, Code, CodeOther, CommandContinuationRequest, Data, Greeting, GreetingKind,
        Response, Status, StatusBody, StatusKind, Tagged,
    },
    search::SearchKey,
    secret::Secret,
    sequence::SequenceSet,
    status::{StatusDataItem, StatusDataItemName},
    utils::{
        indicators::{is_astring_char, is_atom_char, is_base64_char, is_list_char, is_text_char},
        unescape_quoted,
    },
};

#[derive(Debug)]
pub(crate) enum Fail {
    Incomplete,
    Failed,
    Literal { length: u32, mode: LiteralMode },
}
type Res<T> = Result<T, Fail>;

pub(crate) struct P<'a> {
    s: &'a [u8],
    i: usize,
}

pub(crate) fn run<'a, T>(
    input: &'a [u8],
    f: impl FnOnce(&mut P<'a>) -> Res<T>,
) -> Result<(&'a [u8], T), Fail> {
    let mut p = P { s: input, i: 0 };
    let v = f(&mut p)?;
    Ok((&input[p.i..], v))
}

fn utf8(b: &[u8]) -> Res<&str> {
    std::str::from_utf8(b).map_err(|_| Fail::Failed)
}

impl<'a> P<'a> {
    fn peek(&self) -> Option<u8> {
        self.s.get(self.i).copied()
    }
    fn fail<T>(&self) -> Res<T> {
        if self.i >= self.s.len() {
            Err(Fail::Incomplete)
        } else {
            Err(Fail::Failed)
        }
    }
    fn byte(&mut self, b: u8) -> Res<()> {
        if self.peek() == Some(b) {
            self.i += 1;
            Ok(())
        } else {
            self.fail()
        }
    }
    fn opt_byte(&mut self, b: u8) -> bool {
        self.byte(b).is_ok()
    }
    fn sp(&mut self) -> Res<()> {
        self.byte(b' ')
    }
    /// `\r\n`, or `\n` (quirk_crlf_relaxed).
    fn crlf(&mut self) -> Res<()> {
        if self.peek() == Some(b'\r') {
            self.i += 1;
            if self.peek() == Some(b'\n') {
                self.i += 1;
                return Ok(());
            }
            return self.fail();
        }
        self.byte(b'\n')
    }
    fn at_eol(&self) -> bool {
        matches!(self.s[self.i..], [b'\n', ..] | [b'\r', b'\n', ..])
    }
    fn take_while(&mut self, f: impl Fn(u8) -> bool) -> &'a [u8] {
        let start = self.i;
        while self.i < self.s.len() && f(self.s[self.i]) {
            self.i += 1;
        }
        &self.s[start..self.i]
    }
    fn take_while1(&mut self, f: impl Fn(u8) -> bool) -> Res<&'a [u8]> {
        let r = self.take_while(f);
        if r.is_empty() {
            self.fail()
        } else {
            Ok(r)
        }
    }
    fn keyword(&mut self, kw: &str) -> bool {
        let rest = &self.s[self.i..];
        if rest.len() >= kw.len() && rest[..kw.len()].eq_ignore_ascii_case(kw.as_bytes()) {
            self.i += kw.len();
            true
        } else {
            false
        }
    }
    fn number(&mut self) -> Res<u32> {
        let d = self.take_while1(|b| b.is_ascii_digit())?;
        utf8(d)?.parse().map_err(|_| Fail::Failed)
    }
    fn nz_number(&mut self) -> Res<NonZeroU32> {
        NonZeroU32::new(self.number()?).ok_or(Fail::Failed)
    }
    pub(crate) fn tag(&mut self) -> Res<Tag<'a>> {
        let t = self.take_while1(|b| is_astring_char(b) && b != b'+')?;
        Ok(Tag::unvalidated(utf8(t)?))
    }
    fn atom(&mut self) -> Res<Atom<'a>> {
        let t = self.take_while1(is_atom_char)?;
        Ok(Atom::unvalidated(utf8(t)?))
    }
    fn text(&mut self) -> Res<Text<'a>> {
        let t = self.take_while1(is_text_char)?;
        Ok(Text::unvalidated(utf8(t)?))
    }
    fn quoted(&mut self) -> Res<Quoted<'a>> {
        self.byte(b'"')?;
        let start = self.i;
        loop {
            match self.peek() {
                None => return Err(Fail::Incomplete),
                Some(b'"') => break,
                Some(b'\\') => {
                    self.i += 1;
                    match self.peek() {
                        Some(b'"' | b'\\') => self.i += 1,
                        _ => return self.fail(),
                    }
                }
                Some(b) if is_text_char(b) => self.i += 1,
                Some(_) => return Err(Fail::Failed),
            }
        }
        let raw = utf8(&self.s[start..self.i])?;
        self.i += 1;
        Ok(Quoted::unvalidated(unescape_quoted(raw)))
    }
    fn literal(&mut self) -> Res<Literal<'a>> {
        self.byte(b'{')?;
        let length = self.number()?;
        let mode = if self.opt_byte(b'+') {
            LiteralMode::NonSync
        } else {
            LiteralMode::Sync
        };
        self.byte(b'}')?;
        self.crlf()?;
        let rest = &self.s[self.i..];
        if rest.is_empty() {
            return Err(Fail::Literal { length, mode });
        }
        let Some(data) = rest.get(..length as usize) else {
            return Err(Fail::Incomplete);
        };
        self.i += data.len();
        let mut literal = Literal::try_from(data).map_err(|_| Fail::Failed)?;
        literal.set_mode(mode);
        Ok(literal)
    }
    fn string(&mut self) -> Res<IString<'a>> {
        match self.peek() {
            Some(b'"') => Ok(self.quoted()?.into()),
            _ => Ok(self.literal()?.into()),
        }
    }
    fn nstring(&mut self) -> Res<NString<'a>> {
        if self.keyword("NIL") {
            return Ok(NString::NIL);
        }
        Ok(NString(Some(self.string()?)))
    }
    fn astring(&mut self) -> Res<AString<'a>> {
        match self.peek() {
            Some(b'"' | b'{') => Ok(AString::String(self.string()?)),
            _ => {
                let a = self.take_while1(is_astring_char)?;
                Ok(AString::Atom(AtomExt::unvalidated(utf8(a)?)))
            }
        }
    }
    fn mailbox(&mut self) -> Res<Mailbox<'a>> {
        Ok(self.astring()?.into())
    }
    fn list_mailbox(&mut self) -> Res<ListMailbox<'a>> {
        match self.peek() {
            Some(b'"' | b'{') => Ok(ListMailbox::String(self.string()?)),
            _ => {
                let a = utf8(self.take_while1(is_list_char)?)?;
                ListMailbox::try_from(a).map_err(|_| Fail::Failed)
            }
        }
    }
    fn base64(&mut self) -> Res<Vec<u8>> {
        let start = self.i;
        self.take_while(is_base64_char);
        while self.i - start < usize::MAX && self.peek() == Some(b'=') {
            self.i += 1;
        }
        STANDARD
            .decode(&self.s[start..self.i])
            .map_err(|_| Fail::Failed)
    }
    /// `( item SP item ... )`, possibly empty.
    fn list<T>(&mut self, mut f: impl FnMut(&mut Self) -> Res<T>) -> Res<Vec<T>> {
        self.byte(b'(')?;
        let mut v = vec![];
        if !self.opt_byte(b')') {
            v.push(f(self)?);
            while !self.opt_byte(b')') {
                self.sp()?;
                v.push(f(self)?);
            }
        }
        Ok(v)
    }
    fn flag(&mut self) -> Res<Flag<'a>> {
        if self.opt_byte(b'\\') {
            Ok(Flag::system(self.atom()?))
        } else {
            Ok(Flag::keyword(self.atom()?))
        }
    }
    fn flag_fetch(&mut self) -> Res<FlagFetch<'a>> {
        Ok(match self.flag()? {
            Flag::Extension(e) if Flag::Extension(e.clone()).wire().eq_ignore_ascii_case("\\recent") => {
                FlagFetch::Recent
            }
            f => FlagFetch::Flag(f),
        })
    }
    fn sequence_set(&mut self) -> Res<SequenceSet> {
        let s = self.take_while1(|b| b.is_ascii_digit() || matches!(b, b'*' | b':' | b','))?;
        SequenceSet::parse(utf8(s)?).ok_or(Fail::Failed)
    }
    fn charset(&mut self) -> Res<Charset<'a>> {
        match self.peek() {
            Some(b'"') => Ok(Charset::Quoted(self.quoted()?)),
            _ => Ok(Charset::Atom(self.atom()?)),
        }
    }

    // ---- Commands ----
    pub(crate) fn command(&mut self) -> Res<Command<'a>> {
        let tag = self.tag()?;
        self.sp()?;
        let body = self.command_body()?;
        self.crlf()?;
        Ok(Command { tag, body })
    }
    fn command_body(&mut self) -> Res<CommandBody<'a>> {
        let start = self.i;
        let name = utf8(self.take_while1(|b| b.is_ascii_alphanumeric())?)?.to_ascii_uppercase();
        let uid = name == "UID";
        let name = if uid {
            self.sp()?;
            let n = utf8(self.take_while1(|b| b.is_ascii_alphanumeric())?)?.to_ascii_uppercase();
            if !["SEARCH", "FETCH", "STORE", "COPY", "MOVE"].contains(&n.as_str()) {
                self.i = start;
                return Err(Fail::Failed);
            }
            n
        } else {
            name
        };
        Ok(match name.as_str() {
            "CAPABILITY" => CommandBody::Capability,
            "NOOP" => CommandBody::Noop,
            "LOGOUT" => CommandBody::Logout,
            "STARTTLS" => CommandBody::StartTLS,
            "CHECK" => CommandBody::Check,
            "CLOSE" => CommandBody::Close,
            "EXPUNGE" => CommandBody::Expunge,
            "UNSELECT" => CommandBody::Unselect,
            "IDLE" => CommandBody::Idle,
            "AUTHENTICATE" => {
                self.sp()?;
                let mechanism = AuthMechanism::from(self.atom()?);
                let initial_response = if self.opt_byte(b' ') {
                    Some(Secret::new(Cow::Owned(if self.opt_byte(b'=') {
                        vec![]
                    } else {
                        let b = self.base64()?;
                        if b.is_empty() {
                            return self.fail();
                        }
                        b
                    })))
                } else {
                    None
                };
                CommandBody::Authenticate {
                    mechanism,
                    initial_response,
                }
            }
            "LOGIN" => {
                self.sp()?;
                let username = self.astring()?;
                self.sp()?;
                let password = Secret::new(self.astring()?);
                CommandBody::Login { username, password }
            }
            "SELECT" => {
                self.sp()?;
                CommandBody::Select {
                    mailbox: self.mailbox()?,
                }
            }
            "EXAMINE" => {
                self.sp()?;
                CommandBody::Examine {
                    mailbox: self.mailbox()?,
                }
            }
            "CREATE" => {
                self.sp()?;
                CommandBody::Create {
                    mailbox: self.mailbox()?,
                }
            }
            "DELETE" => {
                self.sp()?;
                CommandBody::Delete {
                    mailbox: self.mailbox()?,
                }
            }
            "RENAME" => {
                self.sp()?;
                let from = self.mailbox()?;
                self.sp()?;
                CommandBody::Rename {
                    from,
                    to: self.mailbox()?,
                }
            }
            "SUBSCRIBE" => {
                self.sp()?;
                CommandBody::Subscribe {
                    mailbox: self.mailbox()?,
                }
            }
            "UNSUBSCRIBE" => {
                self.sp()?;
                CommandBody::Unsubscribe {
                    mailbox: self.mailbox()?,
                }
            }
            "LIST" | "LSUB" => {
                self.sp()?;
                let reference = self.mailbox()?;
                self.sp()?;
                let mailbox_wildcard = self.list_mailbox()?;
                if name == "LIST" {
                    CommandBody::List {
                        reference,
                        mailbox_wildcard,
                    }
                } else {
                    CommandBody::Lsub {
                        reference,
                        mailbox_wildcard,
                    }
                }
            }
            "STATUS" => {
                self.sp()?;
                let mailbox = self.mailbox()?;
                self.sp()?;
                let names = self.list(|p| p.status_name())?;
                if names.is_empty() {
                    return Err(Fail::Failed);
                }
                CommandBody::Status {
                    mailbox,
                    item_names: Cow::Owned(names),
                }
            }
            "APPEND" => {
                self.sp()?;
                let mailbox = self.mailbox()?;
                self.sp()?;
                let flags = if self.peek() == Some(b'(') {
                    let f = self.list(|p| p.flag())?;
                    self.sp()?;
                    f
                } else {
                    vec![]
                };
                CommandBody::Append {
                    mailbox,
                    flags,
                    message: self.literal()?,
                }
            }
            "SEARCH" => {
                self.sp()?;
                let charset = if self.keyword("CHARSET ") {
                    let c = self.charset()?;
                    self.sp()?;
                    Some(c)
                } else {
                    None
                };
                let mut criteria = vec![self.search_key()?];
                while self.opt_byte(b' ') {
                    criteria.push(self.search_key()?);
                }
                CommandBody::Search {
                    charset,
                    criteria: Vec1::unvalidated(criteria),
                    uid,
                }
            }
            "FETCH" => {
                self.sp()?;
                let sequence_set = self.sequence_set()?;
                self.sp()?;
                let item_names = if self.peek() == Some(b'(') {
                    self.list(|p| p.fetch_name())?
                } else {
                    vec![self.fetch_name()?]
                };
                if item_names.is_empty() {
                    return Err(Fail::Failed);
                }
                CommandBody::Fetch {
                    sequence_set,
                    item_names,
                    uid,
                }
            }
            "STORE" => {
                self.sp()?;
                let sequence_set = self.sequence_set()?;
                self.sp()?;
                let kind = match self.peek() {
                    Some(b'+') => {
                        self.i += 1;
                        StoreType::Add
                    }
                    Some(b'-') => {
                        self.i += 1;
                        StoreType::Remove
                    }
                    _ => StoreType::Replace,
                };
                let response = if self.keyword("FLAGS.SILENT") {
                    StoreResponse::Silent
                } else if self.keyword("FLAGS") {
                    StoreResponse::Answer
                } else {
                    return self.fail();
                };
                self.sp()?;
                CommandBody::Store {
                    sequence_set,
                    kind,
                    response,
                    flags: self.list(|p| p.flag())?,
                    uid,
                }
            }
            "COPY" | "MOVE" => {
                self.sp()?;
                let sequence_set = self.sequence_set()?;
                self.sp()?;
                let mailbox = self.mailbox()?;
                if name == "COPY" {
                    CommandBody::Copy {
                        sequence_set,
                        mailbox,
                        uid,
                    }
                } else {
                    CommandBody::Move {
                        sequence_set,
                        mailbox,
                        uid,
                    }
                }
            }
            "ENABLE" => {
                self.sp()?;
                let mut v = vec![CapabilityEnable::from(self.atom()?)];
                while self.opt_byte(b' ') {
                    v.push(CapabilityEnable::from(self.atom()?));
                }
                CommandBody::Enable {
                    capabilities: Vec1::unvalidated(v),
                }
            }
            "COMPRESS" => {
                self.sp()?;
                if !self.keyword("DEFLATE") {
                    return self.fail();
                }
                CommandBody::Compress {
                    algorithm: CompressionAlgorithm::Deflate,
                }
            }
            "GETQUOTA" => {
                self.sp()?;
                CommandBody::GetQuota {
                    root: self.astring()?,
                }
            }
            "GETQUOTAROOT" => {
                self.sp()?;
                CommandBody::GetQuotaRoot {
                    mailbox: self.mailbox()?,
                }
            }
            "ID" => {
                self.sp()?;
                CommandBody::Id {
                    parameters: self.id_parameters()?,
                }
            }
            _ => {
                self.i = start;
                return Err(Fail::Failed);
            }
        })
    }
    #[allow(clippy::type_complexity)]
    fn id_parameters(&mut self) -> Res<Option<Vec<(IString<'a>, NString<'a>)>>> {
        if self.keyword("NIL") {
            return Ok(None);
        }
        Ok(Some(self.list(|p| {
            let k = p.string()?;
            p.sp()?;
            Ok((k, p.nstring()?))
        })?))
    }
    fn status_name(&mut self) -> Res<StatusDataItemName> {
        let a = self.atom()?;
        StatusDataItemName::ALL
            .into_iter()
            .find(|n| n.wire().eq_ignore_ascii_case(a.inner()))
            .ok_or(Fail::Failed)
    }
    fn fetch_name(&mut self) -> Res<MessageDataItemName> {
        let a = self.take_while1(|b| is_astring_char(b) || b == b'[')?;
        MessageDataItemName::ALL
            .into_iter()
            .find(|n| n.wire().as_bytes().eq_ignore_ascii_case(a))
            .ok_or(Fail::Failed)
    }
    fn search_key(&mut self) -> Res<SearchKey<'a>> {
        let a = utf8(self.take_while1(|b| b.is_ascii_alphanumeric())?)?.to_ascii_uppercase();
        Ok(match a.as_str() {
            "ALL" => SearchKey::All,
            "ANSWERED" => SearchKey::Answered,
            "DELETED" => SearchKey::Deleted,
            "SEEN" => SearchKey::Seen,
            "UNSEEN" => SearchKey::Unseen,
            "LARGER" => {
                self.sp()?;
                SearchKey::Larger(self.number()?)
            }
            "FROM" | "SUBJECT" | "TEXT" | "BODY" => {
                self.sp()?;
                let s = self.astring()?;
                match a.as_str() {
                    "FROM" => SearchKey::From(s),
                    "SUBJECT" => SearchKey::Subject(s),
                    "TEXT" => SearchKey::Text(s),
                    _ => SearchKey::Body(s),
                }
            }
            _ => return Err(Fail::Failed),
        })
    }
    pub(crate) fn authenticate_data(&mut self) -> Res<AuthenticateData<'a>> {
        if self.opt_byte(b'*') {
            self.crlf()?;
            return Ok(AuthenticateData::Cancel);
        }
        let data = self.base64()?;
        self.crlf()?;
        Ok(AuthenticateData::Continue(Secret::new(Cow::Owned(data))))
    }
    pub(crate) fn idle_done(&mut self) -> Res<IdleDone> {
        if !self.keyword("DONE") {
            return Err(Fail::Failed);
        }
        self.crlf()?;
        Ok(IdleDone)
    }

    // ---- Responses ----
    fn capability(&mut self) -> Res<Capability<'a>> {
        Ok(Capability::from(self.atom()?))
    }
    fn capabilities(&mut self) -> Res<Vec1<Capability<'a>>> {
        let mut v = vec![self.capability()?];
        while self.opt_byte(b' ') {
            v.push(self.capability()?);
        }
        Ok(Vec1::unvalidated(v))
    }
    fn code(&mut self) -> Res<Code<'a>> {
        let name = utf8(self.take_while1(is_atom_char)?)?.to_ascii_uppercase();
        Ok(match name.as_str() {
            "ALERT" => Code::Alert,
            "PARSE" => Code::Parse,
            "READ-ONLY" => Code::ReadOnly,
            "READ-WRITE" => Code::ReadWrite,
            "TRYCREATE" => Code::TryCreate,
            "COMPRESSIONACTIVE" => Code::CompressionActive,
            "OVERQUOTA" => Code::OverQuota,
            "TOOBIG" => Code::TooBig,
            "UNKNOWN-CTE" => Code::UnknownCte,
            "NOMODSEQ" => Code::NoModSeq,
            "CLOSED" => Code::Closed,
            "UIDNOTSTICKY" => Code::UidNotSticky,
            "BADCHARSET" => {
                let allowed = if self.opt_byte(b' ') {
                    self.list(|p| p.charset())?
                } else {
                    vec![]
                };
                Code::BadCharset { allowed }
            }
            "CAPABILITY" => {
                self.sp()?;
                Code::Capability(self.capabilities()?)
            }
            "PERMANENTFLAGS" => {
                self.sp()?;
                Code::PermanentFlags(self.list(|p| {
                    if p.s[p.i..].starts_with(b"\\*") {
                        p.i += 2;
                        Ok(FlagPerm::Asterisk)
                    } else {
                        Ok(FlagPerm::Flag(p.flag()?))
                    }
                })?)
            }
            "UIDNEXT" => {
                self.sp()?;
                Code::UidNext(self.nz_number()?)
            }
            "UIDVALIDITY" => {
                self.sp()?;
                Code::UidValidity(self.nz_number()?)
            }
            "UNSEEN" => {
                self.sp()?;
                Code::Unseen(self.nz_number()?)
            }
            "HIGHESTMODSEQ" => {
                self.sp()?;
                let d = self.take_while1(|b| b.is_ascii_digit())?;
                Code::HighestModSeq(utf8(d)?.parse().map_err(|_| Fail::Failed)?)
            }
            "APPENDUID" => {
                self.sp()?;
                let uid_validity = self.nz_number()?;
                self.sp()?;
                Code::AppendUid {
                    uid_validity,
                    uid: self.nz_number()?,
                }
            }
            _ => return Err(Fail::Failed),
        })
    }
    fn resp_text(&mut self) -> Res<(Option<Code<'a>>, Text<'a>)> {
        if self.opt_byte(b'[') {
            let start = self.i;
            let code = match self.code() {
                Ok(c) if self.opt_byte(b']') => c,
                _ => {
                    self.i = start;
                    let raw = self.take_while(|b| !matches!(b, b']' | b'\r' | b'\n'));
                    self.byte(b']')?;
                    Code::Other(CodeOther::unvalidated(raw))
                }
            };
            self.sp()?;
            Ok((Some(code), self.text()?))
        } else {
            Ok((None, self.text()?))
        }
    }
    pub(crate) fn greeting(&mut self) -> Res<Greeting<'a>> {
        self.byte(b'*')?;
        self.sp()?;
        let kind = if self.keyword("OK ") {
            GreetingKind::Ok
        } else if self.keyword("PREAUTH ") {
            GreetingKind::PreAuth
        } else if self.keyword("BYE ") {
            GreetingKind::Bye
        } else {
            return self.fail();
        };
        let (code, text) = self.resp_text()?;
        self.crlf()?;
        Ok(Greeting { kind, code, text })
    }
    fn status_kind(&mut self) -> Option<StatusKind> {
        if self.keyword("OK ") {
            Some(StatusKind::Ok)
        } else if self.keyword("NO ") {
            Some(StatusKind::No)
        } else if self.keyword("BAD ") {
            Some(StatusKind::Bad)
        } else {
            None
        }
    }
    pub(crate) fn response(&mut self) -> Res<Response<'a>> {
        match self.peek() {
            Some(b'+') => {
                self.i += 1;
                self.sp()?;
                let start = self.i;
                if let Ok(data) = self.base64() {
                    if self.at_eol() {
                        self.crlf()?;
                        return Ok(Response::CommandContinuationRequest(
                            CommandContinuationRequest::Base64(Cow::Owned(data)),
                        ));
                    }
                }
                self.i = start;
                let (code, text) = self.resp_text()?;
                self.crlf()?;
                CommandContinuationRequest::basic(code, text)
                    .map(Response::CommandContinuationRequest)
                    .map_err(|_| Fail::Failed)
            }
            Some(b'*') => {
                self.i += 1;
                self.sp()?;
                if let Some(kind) = self.status_kind() {
                    let (code, text) = self.resp_text()?;
                    self.crlf()?;
                    return Ok(Response::Status(Status::Untagged(StatusBody {
                        kind,
                        code,
                        text,
                    })));
                }
                if self.keyword("BYE ") {
                    let (code, text) = self.resp_text()?;
                    self.crlf()?;
                    return Ok(Response::Status(Status::Bye(Bye { code, text })));
                }
                let data = self.data()?;
                self.crlf()?;
                Ok(Response::Data(data))
            }
            _ => {
                let tag = self.tag()?;
                self.sp()?;
                let Some(kind) = self.status_kind() else {
                    return self.fail();
                };
                let (code, text) = self.resp_text()?;
                self.crlf()?;
                Ok(Response::Status(Status::Tagged(Tagged {
                    tag,
                    body: StatusBody { kind, code, text },
                })))
            }
        }
    }
    fn data(&mut self) -> Res<Data<'a>> {
        if self.peek().is_some_and(|b| b.is_ascii_digit()) {
            let n = self.number()?;
            self.sp()?;
            if self.keyword("EXISTS") {
                return Ok(Data::Exists(n));
            }
            if self.keyword("RECENT") {
                return Ok(Data::Recent(n));
            }
            let seq = NonZeroU32::new(n).ok_or(Fail::Failed)?;
            if self.keyword("EXPUNGE") {
                return Ok(Data::Expunge(seq));
            }
            if self.keyword("FETCH ") {
                let items = self.list(|p| p.fetch_item())?;
                return Ok(Data::Fetch {
                    seq,
                    items: Vec1::try_from(items).map_err(|_| Fail::Failed)?,
                });
            }
            return self.fail();
        }
        let name = utf8(self.take_while1(|b| b.is_ascii_alphanumeric())?)?.to_ascii_uppercase();
        Ok(match name.as_str() {
            "CAPABILITY" => {
                self.sp()?;
                Data::Capability(self.capabilities()?)
            }
            "LIST" | "LSUB" => {
                self.sp()?;
                let items = self.list(|p| {
                    p.byte(b'\\')?;
                    Ok(FlagNameAttribute::from(p.atom()?))
                })?;
                self.sp()?;
                let delimiter = if self.keyword("NIL") {
                    None
                } else {
                    let q = self.quoted()?;
                    let mut it = q.inner().chars();
                    match (it.next(), it.next()) {
                        (Some(c), None) => Some(QuotedChar::try_from(c).map_err(|_| Fail::Failed)?),
                        _ => return Err(Fail::Failed),
                    }
                };
                self.sp()?;
                let mailbox = self.mailbox()?;
                if name == "LIST" {
                    Data::List {
                        items,
                        delimiter,
                        mailbox,
                    }
                } else {
                    Data::Lsub {
                        items,
                        delimiter,
                        mailbox,
                    }
                }
            }
            "STATUS" => {
                self.sp()?;
                let mailbox = self.mailbox()?;
                self.sp()?;
                let items = self.list(|p| {
                    let name = p.status_name()?;
                    p.sp()?;
                    Ok(StatusDataItem {
                        name,
                        value: p.number()?,
                    })
                })?;
                Data::Status {
                    mailbox,
                    items: Cow::Owned(items),
                }
            }
            "SEARCH" => {
                let mut v = vec![];
                while self.opt_byte(b' ') {
                    v.push(self.nz_number()?);
                }
                Data::Search(v)
            }
            "FLAGS" => {
                self.sp()?;
                Data::Flags(self.list(|p| p.flag())?)
            }
            "ENABLED" => {
                let mut capabilities = vec![];
                while self.opt_byte(b' ') {
                    capabilities.push(CapabilityEnable::from(self.atom()?));
                }
                Data::Enabled { capabilities }
            }
            "ID" => {
                self.sp()?;
                Data::Id {
                    parameters: self.id_parameters()?,
                }
            }
            "QUOTAROOT" => {
                self.sp()?;
                let mailbox = self.mailbox()?;
                let mut roots = vec![];
                while self.opt_byte(b' ') {
                    roots.push(self.astring()?);
                }
                Data::QuotaRoot { mailbox, roots }
            }
            _ => return Err(Fail::Failed),
        })
    }
    fn fetch_item(&mut self) -> Res<MessageDataItem<'a>> {
        if self.keyword("FLAGS ") {
            Ok(MessageDataItem::Flags(self.list(|p| p.flag_fetch())?))
        } else if self.keyword("UID ") {
            Ok(MessageDataItem::Uid(self.nz_number()?))
        } else if self.keyword("RFC822.SIZE ") {
            Ok(MessageDataItem::Rfc822Size(self.number()?))
        } else if self.keyword("RFC822.HEADER ") {
            Ok(MessageDataItem::Rfc822Header(self.nstring()?))
        } else if self.keyword("RFC822 ") {
            Ok(MessageDataItem::Rfc822(self.nstring()?))
        } else if self.keyword("BODY[] ") {
            Ok(MessageDataItem::BodyExt {
                data: self.nstring()?,
            })
        } else {
            self.fail()
        }
    }
}
