//! Encoding of messages.
use std::collections::VecDeque;

use base64::{engine::general_purpose::STANDARD, Engine};
use imap_types::{
    auth::AuthenticateData,
    command::{Command, CommandBody},
    core::{AString, Charset, IString, Literal, LiteralMode, NString},
    extensions::idle::IdleDone,
    fetch::MessageDataItem,
    flag::{Flag, FlagFetch, FlagPerm, StoreResponse, StoreType},
    mailbox::{ListMailbox, Mailbox},
    response::{
        Bye, Code, CommandContinuationRequest, Data, Greeting, GreetingKind, Response, Status,
        StatusBody, StatusKind, Tagged,
    },
    search::SearchKey,
    utils::escape_quoted,
};

use crate::{AuthenticateDataCodec, CommandCodec, GreetingCodec, IdleDoneCodec, ResponseCodec};

pub trait Encoder {
    type Message<'a>;
    fn encode(&self, message: &Self::Message<'_>) -> Encoded;
}

/// An encoded message: an iterator over its fragments.
#[derive(Clone, Debug)]
pub struct Encoded {
    items: VecDeque<Fragment>,
}
impl Encoded {
    /// Dump the (remaining) encoded data without being guided by fragments.
    pub fn dump(self) -> Vec<u8> {
        let mut out = Vec::new();
        for fragment in self.items {
            match fragment {
                Fragment::Line { mut data } => out.append(&mut data),
                Fragment::Literal { mut data, .. } => out.append(&mut data),
            }
        }
        out
    }
}
impl Iterator for Encoded {
    type Item = Fragment;
    fn next(&mut self) -> Option<Self::Item> {
        self.items.pop_front()
    }
}

/// The intended action of a client or server.
#[derive(Clone, Debug, Eq, Hash, PartialEq)]
pub enum Fragment {
    /// A line that is ready to be send.
    Line { data: Vec<u8> },
    /// A literal that may require an action before it should be send.
    Literal { data: Vec<u8>, mode: LiteralMode },
}

#[derive(Default)]
struct Ctx {
    line: Vec<u8>,
    items: VecDeque<Fragment>,
}
impl Ctx {
    fn done(mut self) -> Encoded {
        if !self.line.is_empty() {
            self.items.push_back(Fragment::Line { data: self.line });
        }
        Encoded { items: self.items }
    }
    fn s(&mut self, s: impl AsRef<[u8]>) -> &mut Self {
        self.line.extend_from_slice(s.as_ref());
        self
    }
    fn literal(&mut self, l: &Literal) -> &mut Self {
        match l.mode() {
            LiteralMode::Sync => self.s(format!("{{{}}}\r\n", l.data().len())),
            LiteralMode::NonSync => self.s(format!("{{{}+}}\r\n", l.data().len())),
        };
        let line = std::mem::take(&mut self.line);
        self.items.push_back(Fragment::Line { data: line });
        self.items.push_back(Fragment::Literal {
            data: l.data().to_vec(),
            mode: l.mode(),
        });
        self
    }
    fn quoted(&mut self, q: &str) -> &mut Self {
        self.s("\"").s(escape_quoted(q).as_ref()).s("\"")
    }
    fn istring(&mut self, i: &IString) -> &mut Self {
        match i {
            IString::Literal(l) => self.literal(l),
            IString::Quoted(q) => self.quoted(q.inner()),
        }
    }
    fn nstring(&mut self, n: &NString) -> &mut Self {
        match &n.0 {
            Some(i) => self.istring(i),
            None => self.s("NIL"),
        }
    }
    fn astring(&mut self, a: &AString) -> &mut Self {
        match a {
            AString::Atom(a) => self.s(a.inner()),
            AString::String(i) => self.istring(i),
        }
    }
    fn mailbox(&mut self, m: &Mailbox) -> &mut Self {
        match m {
            Mailbox::Inbox => self.s("INBOX"),
            Mailbox::Other(o) => self.astring(o.inner()),
        }
    }
    fn list_mailbox(&mut self, m: &ListMailbox) -> &mut Self {
        match m {
            ListMailbox::Token(t) => self.s(t.as_ref()),
            ListMailbox::String(i) => self.istring(i),
        }
    }
    fn charset(&mut self, c: &Charset) -> &mut Self {
        match c {
            Charset::Atom(a) => self.s(a.inner()),
            Charset::Quoted(q) => self.quoted(q.inner()),
        }
    }
    fn sep<T>(&mut self, items: &[T], mut f: impl FnMut(&mut Self, &T)) -> &mut Self {
        for (i, item) in items.iter().enumerate() {
            if i > 0 {
                self.s(" ");
            }
            f(self, item);
        }
        self
    }
    fn flags(&mut self, flags: &[Flag]) -> &mut Self {
        self.s("(");
        self.sep(flags, |c, f| {
            c.s(f.wire());
        });
        self.s(")")
    }
    fn id(&mut self, p: &Option<Vec<(IString, NString)>>) -> &mut Self {
        match p {
            None => self.s("NIL"),
            Some(p) => {
                self.s("(");
                self.sep(p, |c, (k, v)| {
                    c.istring(k).s(" ").nstring(v);
                });
                self.s(")")
            }
        }
    }

    fn command(&mut self, c: &Command) {
        self.s(c.tag.inner()).s(" ");
        match &c.body {
            CommandBody::Capability => self.s("CAPABILITY"),
            CommandBody::Noop => self.s("NOOP"),
            CommandBody::Logout => self.s("LOGOUT"),
            CommandBody::StartTLS => self.s("STARTTLS"),
            CommandBody::Check => self.s("CHECK"),
            CommandBody::Close => self.s("CLOSE"),
            CommandBody::Expunge => self.s("EXPUNGE"),
            CommandBody::Unselect => self.s("UNSELECT"),
            CommandBody::Idle => self.s("IDLE"),
            CommandBody::Authenticate {
                mechanism,
                initial_response,
            } => {
                self.s("AUTHENTICATE ").s(mechanism.as_ref());
                if let Some(ir) = initial_response {
                    self.s(" ");
                    if ir.declassify().is_empty() {
                        self.s("=");
                    } else {
                        self.s(STANDARD.encode(ir.declassify()));
                    }
                }
                &mut *self
            }
            CommandBody::Login { username, password } => self
                .s("LOGIN ")
                .astring(username)
                .s(" ")
                .astring(password.declassify()),
            CommandBody::Select { mailbox } => self.s("SELECT ").mailbox(mailbox),
            CommandBody::Examine { mailbox } => self.s("EXAMINE ").mailbox(mailbox),
            CommandBody::Create { mailbox } => self.s("CREATE ").mailbox(mailbox),
            CommandBody::Delete { mailbox } => self.s("DELETE ").mailbox(mailbox),
            CommandBody::Rename { from, to } => self.s("RENAME ").mailbox(from).s(" ").mailbox(to),
            CommandBody::Subscribe { mailbox } => self.s("SUBSCRIBE ").mailbox(mailbox),
            CommandBody::Unsubscribe { mailbox } => self.s("UNSUBSCRIBE ").mailbox(mailbox),
            CommandBody::List {
                reference,
                mailbox_wildcard,
            } => self
                .s("LIST ")
                .mailbox(reference)
                .s(" ")
                .list_mailbox(mailbox_wildcard),
            CommandBody::Lsub {
                reference,
                mailbox_wildcard,
            } => self
                .s("LSUB ")
                .mailbox(reference)
                .s(" ")
                .list_mailbox(mailbox_wildcard),
            CommandBody::Status {
                mailbox,
                item_names,
            } => {
                self.s("STATUS ").mailbox(mailbox).s(" (");
                self.sep(item_names, |c, n| {
                    c.s(n.wire());
                });
                self.s(")")
            }
            CommandBody::Append {
                mailbox,
                flags,
                message,
            } => {
                self.s("APPEND ").mailbox(mailbox).s(" ");
                if !flags.is_empty() {
                    self.flags(flags).s(" ");
                }
                self.literal(message)
            }
            CommandBody::Search {
                charset,
                criteria,
                uid,
            } => {
                self.s(if *uid { "UID SEARCH " } else { "SEARCH " });
                if let Some(c) = charset {
                    self.s("CHARSET ").charset(c).s(" ");
                }
                self.sep(criteria.as_ref(), |c, k| {
                    match k {
                        SearchKey::All => c.s("ALL"),
                        SearchKey::Answered => c.s("ANSWERED"),
                        SearchKey::Deleted => c.s("DELETED"),
                        SearchKey::Seen => c.s("SEEN"),
                        SearchKey::Unseen => c.s("UNSEEN"),
                        SearchKey::From(a) => c.s("FROM ").astring(a),
                        SearchKey::Subject(a) => c.s("SUBJECT ").astring(a),
                        SearchKey::Text(a) => c.s("TEXT ").astring(a),
                        SearchKey::Body(a) => c.s("BODY ").astring(a),
                        SearchKey::Larger(n) => c.s(format!("LARGER {n}")),
                        _ => unreachable!(),
                    };
                })
            }
            CommandBody::Fetch {
                sequence_set,
                item_names,
                uid,
            } => {
                self.s(if *uid { "UID FETCH " } else { "FETCH " })
                    .s(sequence_set.wire())
                    .s(" ");
                if item_names.len() == 1 {
                    self.s(item_names[0].wire())
                } else {
                    self.s("(");
                    self.sep(item_names, |c, n| {
                        c.s(n.wire());
                    });
                    self.s(")")
                }
            }
            CommandBody::Store {
                sequence_set,
                kind,
                response,
                flags,
                uid,
            } => self
                .s(if *uid { "UID STORE " } else { "STORE " })
                .s(sequence_set.wire())
                .s(" ")
                .s(match kind {
                    StoreType::Add => "+",
                    StoreType::Remove => "-",
                    StoreType::Replace => "",
                })
                .s(match response {
                    StoreResponse::Answer => "FLAGS ",
                    StoreResponse::Silent => "FLAGS.SILENT ",
                })
                .flags(flags),
            CommandBody::Copy {
                sequence_set,
                mailbox,
                uid,
            } => self
                .s(if *uid { "UID COPY " } else { "COPY " })
                .s(sequence_set.wire())
                .s(" ")
                .mailbox(mailbox),
            CommandBody::Move {
                sequence_set,
                mailbox,
                uid,
            } => self
                .s(if *uid { "UID MOVE " } else { "MOVE " })
                .s(sequence_set.wire())
                .s(" ")
                .mailbox(mailbox),
            CommandBody::Enable { capabilities } => {
                self.s("ENABLE ");
                self.sep(capabilities.as_ref(), |c, x| {
                    c.s(x.as_ref());
                })
            }
            CommandBody::Compress { algorithm } => self.s("COMPRESS ").s(algorithm.as_ref()),
            CommandBody::GetQuota { root } => self.s("GETQUOTA ").astring(root),
            CommandBody::GetQuotaRoot { mailbox } => self.s("GETQUOTAROOT ").mailbox(mailbox),
            CommandBody::Id { parameters } => self.s("ID ").id(parameters),
            _ => unreachable!(),
        };
        self.s("\r\n");
    }

    fn code(&mut self, code: &Option<Code>) {
        let Some(code) = code else { return };
        self.s("[");
        match code {
            Code::Alert => self.s("ALERT"),
            Code::BadCharset { allowed } => {
                self.s("BADCHARSET");
                if !allowed.is_empty() {
                    self.s(" (");
                    self.sep(allowed, |c, x| {
                        c.charset(x);
                    });
                    self.s(")");
                }
                &mut *self
            }
            Code::Capability(caps) => {
                self.s("CAPABILITY ");
                self.sep(caps.as_ref(), |c, x| {
                    c.s(x.to_string());
                })
            }
            Code::Parse => self.s("PARSE"),
            Code::PermanentFlags(flags) => {
                self.s("PERMANENTFLAGS (");
                self.sep(flags, |c, f| {
                    match f {
                        FlagPerm::Flag(f) => c.s(f.wire()),
                        FlagPerm::Asterisk => c.s("\\*"),
                    };
                });
                self.s(")")
            }
            Code::ReadOnly => self.s("READ-ONLY"),
            Code::ReadWrite => self.s("READ-WRITE"),
            Code::TryCreate => self.s("TRYCREATE"),
            Code::UidNext(n) => self.s(format!("UIDNEXT {n}")),
            Code::UidValidity(n) => self.s(format!("UIDVALIDITY {n}")),
            Code::Unseen(n) => self.s(format!("UNSEEN {n}")),
            Code::CompressionActive => self.s("COMPRESSIONACTIVE"),
            Code::OverQuota => self.s("OVERQUOTA"),
            Code::TooBig => self.s("TOOBIG"),
            Code::UnknownCte => self.s("UNKNOWN-CTE"),
            Code::HighestModSeq(n) => self.s(format!("HIGHESTMODSEQ {n}")),
            Code::NoModSeq => self.s("NOMODSEQ"),
            Code::Closed => self.s("CLOSED"),
            Code::AppendUid { uid_validity, uid } => self.s(format!("APPENDUID {uid_validity} {uid}")),
            Code::UidNotSticky => self.s("UIDNOTSTICKY"),
            Code::Other(o) => self.s(o.inner()),
            _ => unreachable!(),
        };
        self.s("] ");
    }
    fn status_body(&mut self, b: &StatusBody) {
        self.s(match b.kind {
            StatusKind::Ok => "OK ",
            StatusKind::No => "NO ",
            StatusKind::Bad => "BAD ",
        });
        self.code(&b.code);
        self.s(b.text.inner());
    }
    fn response(&mut self, r: &Response) {
        match r {
            Response::CommandContinuationRequest(ccr) => {
                self.s("+ ");
                match ccr {
                    CommandContinuationRequest::Basic(b) => {
                        self.code(&b.code().cloned());
                        self.s(b.text().inner());
                    }
                    CommandContinuationRequest::Base64(data) => {
                        self.s(STANDARD.encode(data));
                    }
                }
            }
            Response::Status(Status::Untagged(b)) => {
                self.s("* ");
                self.status_body(b);
            }
            Response::Status(Status::Tagged(Tagged { tag, body })) => {
                self.s(tag.inner()).s(" ");
                self.status_body(body);
            }
            Response::Status(Status::Bye(Bye { code, text })) => {
                self.s("* BYE ");
                self.code(code);
                self.s(text.inner());
            }
            Response::Data(d) => {
                self.s("* ");
                self.data(d);
            }
        }
        self.s("\r\n");
    }
    fn data(&mut self, d: &Data) {
        match d {
            Data::Capability(caps) => {
                self.s("CAPABILITY ");
                self.sep(caps.as_ref(), |c, x| {
                    c.s(x.to_string());
                });
            }
            Data::List {
                items,
                delimiter,
                mailbox,
            }
            | Data::Lsub {
                items,
                delimiter,
                mailbox,
            } => {
                self.s(match d {
                    Data::List { .. } => "LIST (",
                    _ => "LSUB (",
                });
                self.sep(items, |c, x| {
                    c.s(x.wire());
                });
                self.s(") ");
                match delimiter {
                    Some(q) => self.quoted(&q.inner().to_string()),
                    None => self.s("NIL"),
                };
                self.s(" ").mailbox(mailbox);
            }
            Data::Status { mailbox, items } => {
                self.s("STATUS ").mailbox(mailbox).s(" (");
                self.sep(items, |c, x| {
                    c.s(format!("{} {}", x.name.wire(), x.value));
                });
                self.s(")");
            }
            Data::Search(v) => {
                self.s("SEARCH");
                for n in v {
                    self.s(format!(" {n}"));
                }
            }
            Data::Flags(f) => {
                self.s("FLAGS ").flags(f);
            }
            Data::Exists(n) => {
                self.s(format!("{n} EXISTS"));
            }
            Data::Recent(n) => {
                self.s(format!("{n} RECENT"));
            }
            Data::Expunge(n) => {
                self.s(format!("{n} EXPUNGE"));
            }
            Data::Fetch { seq, items } => {
                self.s(format!("{seq} FETCH ("));
                self.sep(items.as_ref(), |c, x| {
                    match x {
                        MessageDataItem::Flags(f) => {
                            c.s("FLAGS (");
                            c.sep(f, |c, f| {
                                match f {
                                    FlagFetch::Flag(f) => c.s(f.wire()),
                                    FlagFetch::Recent => c.s("\\Recent"),
                                };
                            });
                            c.s(")")
                        }
                        MessageDataItem::Uid(n) => c.s(format!("UID {n}")),
                        MessageDataItem::Rfc822Size(n) => c.s(format!("RFC822.SIZE {n}")),
                        MessageDataItem::Rfc822(n) => c.s("RFC822 ").nstring(n),
                        MessageDataItem::Rfc822Header(n) => c.s("RFC822.HEADER ").nstring(n),
                        MessageDataItem::BodyExt { data } => c.s("BODY[] ").nstring(data),
                        _ => unreachable!(),
                    };
                });
                self.s(")");
            }
            Data::Enabled { capabilities } => {
                self.s("ENABLED");
                for c in capabilities {
                    self.s(" ").s(c.as_ref());
                }
            }
            Data::Id { parameters } => {
                self.s("ID ").id(parameters);
            }
            Data::QuotaRoot { mailbox, roots } => {
                self.s("QUOTAROOT ").mailbox(mailbox);
                for r in roots {
                    self.s(" ").astring(r);
                }
            }
            _ => unreachable!(),
        }
    }
}

impl Encoder for GreetingCodec {
    type Message<'a> = Greeting<'a>;
    fn encode(&self, g: &Self::Message<'_>) -> Encoded {
        let mut c = Ctx::default();
        c.s("* ").s(match g.kind {
            GreetingKind::Ok => "OK ",
            GreetingKind::PreAuth => "PREAUTH ",
            GreetingKind::Bye => "BYE ",
        });
        c.code(&g.code);
        c.s(g.text.inner()).s("\r\n");
        c.done()
    }
}
impl Encoder for CommandCodec {
    type Message<'a> = Command<'a>;
    fn encode(&self, m: &Self::Message<'_>) -> Encoded {
        let mut c = Ctx::default();
        c.command(m);
        c.done()
    }
}
impl Encoder for AuthenticateDataCodec {
    type Message<'a> = AuthenticateData<'a>;
    fn encode(&self, m: &Self::Message<'_>) -> Encoded {
        let mut c = Ctx::default();
        match m {
            AuthenticateData::Continue(data) => c.s(STANDARD.encode(data.declassify())),
            AuthenticateData::Cancel => c.s("*"),
        };
        c.s("\r\n");
        c.done()
    }
}
impl Encoder for ResponseCodec {
    type Message<'a> = Response<'a>;
    fn encode(&self, m: &Self::Message<'_>) -> Encoded {
        let mut c = Ctx::default();
        c.response(m);
        c.done()
    }
}
impl Encoder for IdleDoneCodec {
    type Message<'a> = IdleDone;
    fn encode(&self, _: &Self::Message<'_>) -> Encoded {
        let mut c = Ctx::default();
        c.s("DONE\r\n");
        c.done()
    }
}
