//! A session between a well-behaved client and a well-behaved server through the proxy, with the
//! ledger of everything that must arrive.
use std::{
    collections::VecDeque,
    time::{Duration, Instant},
};

use imap_codec::{
    decode::{
        AuthenticateDataDecodeError, CommandDecodeError, Decoder, GreetingDecodeError, IdleDoneDecodeError,
        ResponseDecodeError,
    },
    encode::{Encoder, Fragment},
    AuthenticateDataCodec, CommandCodec, GreetingCodec, IdleDoneCodec, ResponseCodec,
};
use imap_types::{
    auth::AuthenticateData,
    command::{Command, CommandBody},
    core::{LiteralMode, Tag, Text, Vec1},
    response::{
        Bye, Capability, Code, CommandContinuationRequest, Data, Greeting, GreetingKind, Response, Status,
        StatusBody, StatusKind, Tagged,
    },
    bounded_static::IntoBoundedStatic,
};
use mon_common::{mismatch, Mismatch, Rng};

use crate::{
    ep::{self, Close, Ended, Ep},
    gen::{self, Gen},
    scan::{Decoded, Found, Scan},
    world::{World, WAIT},
};

pub const ACCEPT: &str = "proxy: Literal accepted by proxy";
pub const REJECT: &str = "proxy: Literal rejected by proxy";
pub const COMMAND_REJECTED: &str = "proxy: Command rejected by server";
/// The proxy's limits (the defaults of the library).
pub const MAX_LITERAL: u32 = 25 * 1024 * 1024;

#[derive(Clone, Debug)]
pub struct Profile {
    /// plain, AUTHENTICATE, IDLE, too large literal
    pub items: [u32; 4],
    pub count: (usize, usize),
    /// Percentage of strings that are literals; of literals that are not synchronizing
    pub literals: u32,
    pub nonsync: u32,
    pub max_literal: usize,
    /// Percentage of literals that the server rejects
    pub reject: u32,
    /// Percentage of codes that are capability lists
    pub caps: u32,
    /// Unsolicited responses of the server: percentage per step
    pub chatter: u32,
    /// Unsolicited continuation requests
    pub continuations: bool,
    /// Percentage of data with a big literal
    pub big: u32,
    pub chop: u32,
    /// Tags, words and texts carry the session's name.
    pub marked: bool,
    /// Percentage of answers to announced literals before which the server says something that makes
    /// no sense
    pub nonsense: u32,
}

impl Default for Profile {
    fn default() -> Self {
        Self {
            items: [70, 14, 14, 2],
            count: (1, 14),
            literals: 35,
            nonsync: 30,
            max_literal: 60,
            reject: 4,
            caps: 10,
            chatter: 15,
            continuations: false,
            big: 3,
            chop: 35,
            marked: false,
            nonsense: 0,
        }
    }
}

#[derive(Debug)]
enum Item {
    Plain(Command<'static>),
    Auth(Command<'static>),
    Idle(Command<'static>),
    TooBig(Tag<'static>, Vec<u8>),
}

#[derive(Debug)]
enum CState {
    Free,
    /// Rest of the command after the announcement
    WaitLiteral { rest: VecDeque<Fragment>, item: Item, answered: bool },
    WaitTooBig(Tag<'static>),
    Auth { tag: Tag<'static>, reply: Option<u32> },
    /// `early`: DONE was sent along with it.
    IdleSent { tag: Tag<'static>, early: bool },
    Idling { left: u32 },
}

#[derive(Debug, Clone, PartialEq)]
pub enum Msg {
    Command(Command<'static>),
    Data(AuthenticateData<'static>),
    Done,
}

#[derive(Debug)]
enum SMode {
    Command,
    /// rounds that may still follow; a line of data is awaited
    Auth { tag: Tag<'static>, rounds: u32, awaiting: bool },
    IdleAsked { tag: Tag<'static> },
    Idle { tag: Tag<'static> },
}

/// An announced literal on the server side.
#[derive(Debug)]
struct Announced {
    end: usize,
    tag: Tag<'static>,
    length: u32,
    delay: u32,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub commands: u64,
    pub responses: u64,
    pub auths: u64,
    pub auth_data: u64,
    pub idles: u64,
    pub idle_rejected: u64,
    pub early: u64,
    pub accepted_by_proxy: u64,
    pub literals_at_server: u64,
    pub rejected_by_server: u64,
    pub alerts: u64,
    pub too_big: u64,
    pub cap_lists: u64,
    pub caps_removed: u64,
    pub caps_emptied: u64,
    pub interleaved: u64,
    pub bytes: u64,
    pub tls: u64,
}

impl Stats {
    pub fn fields(&self) -> Vec<(&'static str, u64)> {
        vec![
            ("commands and lines forwarded to servers", self.commands),
            ("responses forwarded to clients", self.responses),
            ("AUTHENTICATE exchanges", self.auths),
            ("authenticate data lines", self.auth_data),
            ("IDLE exchanges", self.idles),
            ("IDLE rejections", self.idle_rejected),
            ("DONE sent without waiting", self.early),
            ("literals accepted by the proxy", self.accepted_by_proxy),
            ("synchronizing literals answered by servers", self.literals_at_server),
            ("commands rejected by servers", self.rejected_by_server),
            ("rejections with alert", self.alerts),
            ("literals over the proxy's limit", self.too_big),
            ("capability lists received by clients", self.cap_lists),
            ("capability lists with removed entries", self.caps_removed),
            ("capability lists emptied by the filter", self.caps_emptied),
            ("responses sent between a literal's announcement and its answer", self.interleaved),
            ("bytes exchanged with the proxy", self.bytes),
            ("TLS endpoints", self.tls),
        ]
    }
}

pub struct Session {
    pub service: usize,
    pub cli: Ep,
    pub srv: Option<Ep>,
    pub g: Gen,
    pub p: Profile,
    rng: Rng,
    pub log: Vec<String>,
    pub stats: Stats,
    // client side
    script: VecDeque<Item>,
    cstate: CState,
    greeted: bool,
    cscan: Scan,
    to_client: VecDeque<(Response<'static>, &'static str)>,
    greeting: Option<Greeting<'static>>,
    pub srv_v12: bool,
    // server side
    smode: SMode,
    sscan: Scan,
    pub to_server: VecDeque<Msg>,
    announced: Option<Announced>,
    owed: Vec<Tag<'static>>,
    pub chatter_left: u32,
    /// The server says only what the client waits for.
    pub mute: bool,
    last: Instant,
    pub client_closed: bool,
    pub server_closed: bool,
    early_done: bool,
    pub skip_server: bool,
    pub greet: bool,
    /// What the client of another session may never see
    pub ident: String,
}

fn allowed(c: &str) -> bool {
    let c = c.to_ascii_uppercase();
    const LIST: [&str; 15] = [
        "IMAP4REV1", "SASL-IR", "QUOTA", "QUOTASET", "MOVE", "LITERAL+", "LITERAL-", "UNSELECT", "ID", "IDLE",
        "AUTH=PLAIN", "AUTH=LOGIN", "AUTH=XOAUTH2", "AUTH=SCRAM-SHA-1", "AUTH=SCRAM-SHA-256",
    ];
    LIST.contains(&c.as_str()) || c.starts_with("QUOTA=RES-")
}

pub fn filtered(caps: &Vec1<Capability<'static>>) -> Vec1<Capability<'static>> {
    let v: Vec<_> = caps.as_ref().iter().filter(|c| allowed(&c.to_string())).cloned().collect();
    Vec1::try_from(v).unwrap_or_else(|_| Vec1::from(Capability::try_from("IMAP4REV1").unwrap()))
}

fn filtered_code(code: Option<Code<'static>>) -> Option<Code<'static>> {
    match code {
        Some(Code::Capability(c)) => Some(Code::Capability(filtered(&c))),
        c => c,
    }
}

/// The capability list of a response, if it has one.
pub fn caps_of(r: &Response<'static>) -> Option<Vec1<Capability<'static>>> {
    let code = match r {
        Response::Data(Data::Capability(c)) => return Some(c.clone()),
        Response::Data(_) => return None,
        Response::Status(Status::Tagged(Tagged { body, .. }) | Status::Untagged(body)) => body.code.clone(),
        Response::Status(Status::Bye(b)) => b.code.clone(),
        Response::CommandContinuationRequest(CommandContinuationRequest::Basic(b)) => b.code().cloned(),
        Response::CommandContinuationRequest(_) => None,
    };
    match code {
        Some(Code::Capability(c)) => Some(c),
        _ => None,
    }
}

/// What has to arrive at the client.
pub fn translated(r: Response<'static>) -> Response<'static> {
    match r {
        Response::Data(Data::Capability(c)) => Response::Data(Data::Capability(filtered(&c))),
        Response::Status(Status::Tagged(Tagged { tag, body })) => Response::Status(Status::Tagged(Tagged {
            tag,
            body: StatusBody { code: filtered_code(body.code), ..body },
        })),
        Response::Status(Status::Untagged(body)) => {
            Response::Status(Status::Untagged(StatusBody { code: filtered_code(body.code), ..body }))
        }
        Response::Status(Status::Bye(b)) => Response::Status(Status::Bye(Bye { code: filtered_code(b.code), ..b })),
        Response::CommandContinuationRequest(CommandContinuationRequest::Basic(b)) => {
            Response::CommandContinuationRequest(
                CommandContinuationRequest::basic(filtered_code(b.code().cloned()), b.text().clone()).unwrap(),
            )
        }
        r => r,
    }
}

pub fn capabilities(rng: &mut Rng) -> Vec1<Capability<'static>> {
    const ALL: [&str; 54] = [
        "IMAP4REV1", "imap4rev1", "AUTH=PLAIN", "AUTH=LOGIN", "AUTH=XOAUTH2", "AUTH=SCRAM-SHA-1",
        "AUTH=SCRAM-SHA-256", "auth=plain", "SASL-IR", "QUOTA", "QUOTA=RES-STORAGE", "QUOTA=RES-X-FOO", "QUOTASET",
        "MOVE", "LITERAL+", "LITERAL-", "UNSELECT", "ID", "IDLE", "move",
        // not allowed
        "AUTH=SCRAM-SHA-1-PLUS", "AUTH=SCRAM-SHA-256-PLUS", "AUTH=GSSAPI", "AUTH=PLAIN-CLIENTTOKEN", "AUTH=CRAM-MD5",
        "AUTH=DIGEST-MD5", "AUTH=OAUTHBEARER", "AUTH=EXTERNAL", "AUTH=ANONYMOUS", "STARTTLS", "LOGINDISABLED",
        "ENABLE", "COMPRESS=DEFLATE", "CONDSTORE", "QRESYNC", "UIDPLUS", "BINARY", "METADATA", "METADATA-SERVER",
        "SORT", "SORT=DISPLAY", "THREAD=REFERENCES", "THREAD=ORDEREDSUBJECT", "LOGIN-REFERRALS",
        "MAILBOX-REFERRALS", "NAMESPACE", "UTF8=ACCEPT", "X-FOO", "IMAP4REV2", "IDLEX", "XMOVE", "LITERAL", "QUOTAX",
        "ACL",
    ];
    let n = if rng.chance(5) { 25 } else { rng.range(1, 7) };
    let style = rng.below(6);
    let v: Vec<_> = (0..n)
        .map(|_| {
            let s = match style {
                0 => *rng.pick(&ALL[20..]),
                1 => *rng.pick(&ALL[..20]),
                _ => *rng.pick(&ALL),
            };
            Capability::try_from(s).unwrap()
        })
        .collect();
    Vec1::try_from(v).unwrap()
}

impl Session {
    /// Connect to the proxy.
    pub fn open(w: &World, service: usize, ident: String, p: Profile, rng: &mut Rng) -> Result<Self, Mismatch> {
        let s = &w.services[service];
        let sock = ep::dial(s.addr, rng)
            .map_err(|e| mismatch!(["P01", "P03", "P04", "P07", "P06", "P02"], "cannot connect to the proxy ({}): {e}", s.addr))?;
        let v12 = rng.chance(30);
        let tls = s.bind_tls.map(|_| ep::good_client(v12));
        let mut rng = Rng::new(rng.u64());
        let mut cli = Ep::new(sock, tls, Rng::new(rng.u64()));
        cli.chop = rng.chance(p.chop);
        let mut g = Gen::new(Rng::new(rng.u64()));
        g.max_literal = p.max_literal;
        g.nonsync = p.nonsync;
        g.literals = p.literals;
        if p.marked {
            g.prefix = ident.clone();
        }
        let mut stats = Stats::default();
        stats.tls += s.bind_tls.is_some() as u64 + s.connect_tls as u64;
        let mut me = Self {
            service,
            cli,
            srv: None,
            p,
            rng,
            log: vec![format!("{}: bind tls {:?}, connect tls {}, client {ident}", s.name, s.bind_tls, s.connect_tls)],
            stats,
            script: VecDeque::new(),
            cstate: CState::Free,
            greeted: false,
            cscan: Scan::default(),
            to_client: VecDeque::new(),
            greeting: None,
            srv_v12: v12,
            smode: SMode::Command,
            sscan: Scan::default(),
            to_server: VecDeque::new(),
            announced: None,
            owed: vec![],
            chatter_left: 0,
            mute: false,
            last: Instant::now(),
            client_closed: false,
            server_closed: false,
            skip_server: false,
            early_done: false,
            greet: true,
            g,
            ident,
        };
        me.add_items();
        Ok(me)
    }

    pub fn add_items(&mut self) {
        let n = self.rng.range(self.p.count.0, self.p.count.1);
        for _ in 0..n {
            let item = loop {
                let item = match self.rng.weighted(&self.p.items) {
                    0 => Item::Plain(self.g.plain_command()),
                    1 => Item::Auth(self.g.auth_command()),
                    2 => Item::Idle(self.g.idle_command()),
                    _ => {
                        let tag = self.g.tag();
                        let size = MAX_LITERAL + 1 + if self.rng.chance(50) { 0 } else { self.rng.range(0, 4_000_000_00) as u32 };
                        let line = match self.rng.below(3) {
                            0 => format!("{} LOGIN {{{size}}}\r\n", tag.inner()),
                            1 => format!("{} APPEND box {{{size}}}\r\n", tag.inner()),
                            _ => format!("{} SELECT {{{size}}}\r\n", tag.inner()),
                        };
                        Item::TooBig(tag, line.into_bytes())
                    }
                };
                match &item {
                    Item::TooBig(..) => break item,
                    Item::Plain(c) | Item::Auth(c) | Item::Idle(c) if gen::command_round_trips(c) => break item,
                    _ => {}
                }
            };
            self.script.push_back(item);
        }
        self.chatter_left += self.rng.below(2 * n + 2) as u32;
    }

    fn note(&mut self, s: impl FnOnce() -> String) {
        if self.log.len() < 4000 {
            let mut s = s();
            if s.len() > 500 {
                let mut cut = 500;
                while !s.is_char_boundary(cut) {
                    cut -= 1;
                }
                s.truncate(cut);
            }
            self.log.push(s);
        }
    }

    // ---------------------------------------------------------------------------------- the server

    /// A response of the server: send it and expect it at the client.
    pub fn respond(&mut self, r: Response<'static>) {
        let bytes = gen::enc_response(&r);
        self.note(|| format!("server sends {r:?}"));
        if let Some(c) = caps_of(&r) {
            let f = filtered(&c);
            self.stats.caps_removed += (f != c) as u64;
            self.stats.caps_emptied += c.as_ref().iter().all(|c| !allowed(&c.to_string())) as u64;
        }
        self.srv.as_mut().unwrap().send(&bytes);
        self.to_client.push_back((translated(r), "forwarded"));
    }

    fn code(&mut self) -> Option<Option<Code<'static>>> {
        if self.rng.chance(self.p.caps) {
            Some(Some(Code::Capability(capabilities(&mut self.rng))))
        } else {
            None
        }
    }

    fn recode(&mut self, s: Status<'static>) -> Status<'static> {
        let Some(code) = self.code() else { return s };
        match s {
            Status::Tagged(Tagged { tag, body }) => Status::Tagged(Tagged { tag, body: StatusBody { code, ..body } }),
            Status::Untagged(body) => Status::Untagged(StatusBody { code, ..body }),
            Status::Bye(b) => Status::Bye(Bye { code, ..b }),
        }
    }

    fn tagged(&mut self, tag: Tag<'static>, kind: Option<StatusKind>) -> Response<'static> {
        loop {
            let s = match kind {
                Some(k) => self.g.status_of(Some(tag.clone()), k),
                None => self.g.status(Some(tag.clone())),
            };
            let r = Response::Status(self.recode(s));
            if gen::response_round_trips(&r) {
                return r;
            }
        }
    }

    fn continuation(&mut self) -> CommandContinuationRequest<'static> {
        loop {
            let mut c = self.g.continuation();
            if let (CommandContinuationRequest::Basic(b), Some(code)) = (&c, self.code()) {
                c = CommandContinuationRequest::basic(code, b.text().clone()).unwrap();
            }
            if gen::response_round_trips(&Response::CommandContinuationRequest(c.clone())) {
                return c;
            }
        }
    }

    pub fn chatter(&mut self) -> Response<'static> {
        loop {
            let r = match self.rng.below(10) {
                0..=2 => {
                    let s = self.g.untagged_status();
                    Response::Status(self.recode(s))
                }
                3 if self.p.continuations => Response::CommandContinuationRequest(self.continuation()),
                4 if self.rng.chance(self.p.caps) => Response::Data(Data::Capability(capabilities(&mut self.rng))),
                _ => {
                    let old = self.g.max_literal;
                    if self.rng.chance(self.p.big) {
                        self.g.max_literal = *self.rng.pick(&[5000, 70_000, 1_000_000]);
                        self.g.literals = 90;
                    }
                    let d = self.g.data();
                    self.g.max_literal = old;
                    self.g.literals = self.p.literals;
                    Response::Data(d)
                }
            };
            if gen::response_round_trips(&r) {
                return r;
            }
        }
    }

    pub fn send_greeting(&mut self) {
        let ident = self.ident.clone();
        let (bytes, expected) = self.make_greeting(&ident);
        self.srv.as_mut().unwrap().send(&bytes);
        self.greeting = Some(expected);
    }

    /// A greeting, and what the client has to get.
    pub fn make_greeting(&mut self, ident: &str) -> (Vec<u8>, Greeting<'static>) {
        let mut g = loop {
            let mut g = self.g.greeting();
            if g.kind == GreetingKind::Bye {
                g.kind = GreetingKind::Ok;
            }
            if let Some(c) = self.code() {
                g.code = c;
            }
            let b = gen::enc_greeting(&g);
            if matches!(GreetingCodec::default().decode(&b), Ok((r, ref d)) if r.is_empty() && *d == g) {
                break g;
            }
        };
        g.text = Text::try_from(format!("{} for {ident}", g.text.as_ref())).unwrap();
        self.note(|| format!("server sends {g:?}"));
        let b = gen::enc_greeting(&g);
        if let Some(Code::Capability(c)) = &g.code {
            self.stats.caps_removed += (filtered(c) != *c) as u64;
            self.stats.caps_emptied += c.as_ref().iter().all(|c| !allowed(&c.to_string())) as u64;
        }
        g.code = filtered_code(g.code);
        (b, g)
    }

    /// The server's side is this, which has sent its greeting.
    pub fn take_over(&mut self, srv: Ep, greeting: Greeting<'static>) {
        self.srv = Some(srv);
        self.greeting = Some(greeting);
    }

    fn server_receives(&mut self, m: Msg) -> Result<(), Mismatch> {
        self.note(|| format!("server receives {m:?}"));
        self.stats.commands += 1;
        match self.to_server.pop_front() {
            Some(e) if e == m => Ok(()),
            Some(e) => {
                let later = self.to_server.iter().any(|x| *x == m);
                Err(mismatch!(["P01", "P03"], "the server received {m:?}, but {}the client sent {e:?} next", if later { "too early: " } else { "" }))
            }
            None => Err(mismatch!(["P01", "P03"], "the server received {m:?}, which the client did not send (or not again)")),
        }
    }

    /// Look at the received bytes. True if something was consumed.
    pub fn server_parse(&mut self) -> Result<bool, Mismatch> {
        let buf = &self.srv.as_ref().unwrap().inbuf;
        if let Some(a) = &self.announced {
            if buf.len() > a.end {
                return Err(mismatch!(
                    ["P03", "P01"],
                    "the proxy sent {} more bytes after announcing a synchronizing literal ({:?}) without waiting for the answer",
                    buf.len() - a.end,
                    mon_common::show(&buf[..a.end])
                ));
            }
            return Ok(false);
        }
        if buf.is_empty() {
            return Ok(false);
        }
        match &self.smode {
            SMode::Command => {
                let found = self.sscan.step(buf, None, false, |b| match CommandCodec::default().decode(b) {
                    Ok((_, m)) => Decoded::Msg(m.into_static()),
                    Err(CommandDecodeError::LiteralFound { tag, length, mode }) => {
                        Decoded::Literal { tag: Some(tag.into_static()), length, mode }
                    }
                    Err(_) => Decoded::Bad,
                });
                match found {
                    Found::Msg(c, end) => {
                        self.srv.as_mut().unwrap().inbuf.drain(..end);
                        self.sscan = Scan::default();
                        self.server_receives(Msg::Command(c.clone()))?;
                        self.smode = match &c.body {
                            CommandBody::Authenticate { .. } => {
                                self.stats.auths += 1;
                                SMode::Auth { tag: c.tag, rounds: self.rng.below(4) as u32, awaiting: false }
                            }
                            CommandBody::Idle => {
                                self.stats.idles += 1;
                                SMode::IdleAsked { tag: c.tag }
                            }
                            _ => {
                                self.owed.push(c.tag);
                                SMode::Command
                            }
                        };
                        Ok(true)
                    }
                    Found::Literal { end, tag, length, mode } => {
                        if mode == LiteralMode::NonSync {
                            self.sscan.accept_literal(end, length);
                            return Ok(true);
                        }
                        let tag = tag.unwrap();
                        let delay = if self.rng.chance(50) { 0 } else { self.rng.range(1, 30) as u32 };
                        self.announced = Some(Announced { end, tag, length, delay });
                        Ok(true)
                    }
                    Found::Incomplete => Ok(false),
                    Found::BareLf(n) | Found::Bad(n) | Found::TooLong(n) => Err(mismatch!(
                        ["P01", "P03"],
                        "the server received something that is no command: {}",
                        mon_common::show(&self.srv.as_ref().unwrap().inbuf[..n])
                    )),
                }
            }
            SMode::Auth { tag, rounds, awaiting } => {
                let Some(end) = buf.iter().position(|b| *b == b'\n').map(|p| p + 1) else { return Ok(false) };
                if !awaiting {
                    return Err(mismatch!(["P01"], "the server received a line during AUTHENTICATE without asking: {}", mon_common::show(&buf[..end])));
                }
                let d: Result<_, AuthenticateDataDecodeError> = AuthenticateDataCodec::default().decode(&buf[..end]);
                let Ok(d) = d.map(|x| x.1.into_static()) else {
                    return Err(mismatch!(["P01"], "the server received no authenticate data: {}", mon_common::show(&buf[..end])));
                };
                let (tag, rounds) = (tag.clone(), *rounds);
                self.srv.as_mut().unwrap().inbuf.drain(..end);
                let rounds = if d == AuthenticateData::Cancel { 0 } else { rounds.saturating_sub(1) };
                self.stats.auth_data += 1;
                self.server_receives(Msg::Data(d))?;
                self.smode = SMode::Auth { tag, rounds, awaiting: false };
                Ok(true)
            }
            SMode::IdleAsked { .. } => Err(mismatch!(
                ["P01"],
                "the server received bytes after IDLE before it was accepted: {}",
                mon_common::show(buf)
            )),
            SMode::Idle { tag } => {
                let Some(end) = buf.iter().position(|b| *b == b'\n').map(|p| p + 1) else { return Ok(false) };
                let d: Result<_, IdleDoneDecodeError> = IdleDoneCodec::default().decode(&buf[..end]).map(|_| ());
                if d.is_err() {
                    return Err(mismatch!(["P01"], "the server received no DONE: {}", mon_common::show(&buf[..end])));
                }
                let tag = tag.clone();
                self.srv.as_mut().unwrap().inbuf.drain(..end);
                self.server_receives(Msg::Done)?;
                self.smode = SMode::Command;
                self.owed.push(tag);
                Ok(true)
            }
        }
    }

    /// The server does something, if it wants to.
    pub fn server_act(&mut self, eager: bool) -> Result<bool, Mismatch> {
        if self.mute {
            self.owed.clear();
            self.chatter_left = 0;
        }
        // An announced literal
        if let Some(a) = &mut self.announced {
            if a.delay > 0 {
                a.delay -= 1;
                if self.rng.chance(self.p.chatter) && !self.p.continuations && self.chatter_left > 0 {
                    self.stats.interleaved += 1;
                    self.chatter_left -= 1;
                    let r = self.chatter();
                    self.respond(r);
                } else if self.rng.chance(20) && !self.owed.is_empty() {
                    self.stats.interleaved += 1;
                    let i = self.rng.below(self.owed.len());
                    let t = self.owed.swap_remove(i);
                    let r = self.tagged(t, None);
                    self.respond(r);
                }
                return Ok(true);
            }
            let a = self.announced.take().unwrap();
            if self.rng.chance(self.p.nonsense) {
                for _ in 0..self.rng.range(1, 3) {
                    let b = *self.rng.pick(&[&b"* NONSENSE 1\r\n"[..], b"hello\r\n", b"* 1 NOTHING x\r\n", b"* OK x\n", b"\r\n"]);
                    self.note(|| format!("server sends {:?}", mon_common::show(b)));
                    self.srv.as_mut().unwrap().send(b);
                }
            }
            if self.rng.chance(self.p.reject) {
                return self.reject_literal(a);
            }
            self.stats.literals_at_server += 1;
            let c = self.continuation();
            self.note(|| format!("server accepts the literal: {c:?}"));
            let b = gen::enc_response(&Response::CommandContinuationRequest(c));
            self.srv.as_mut().unwrap().send(&b);
            self.sscan.accept_literal(a.end, a.length);
            return Ok(true);
        }
        if !eager && self.rng.chance(60) {
            return Ok(false);
        }
        if self.chatter_left > 0 && self.rng.chance(self.p.chatter) {
            self.chatter_left -= 1;
            let r = self.chatter();
            self.respond(r);
            return Ok(true);
        }
        match &self.smode {
            SMode::Auth { awaiting: true, .. } => {}
            SMode::Auth { tag, rounds, .. } => {
                let (tag, rounds) = (tag.clone(), *rounds);
                if rounds > 0 {
                    let c = self.continuation();
                    self.respond(Response::CommandContinuationRequest(c));
                    self.smode = SMode::Auth { tag, rounds, awaiting: true };
                } else {
                    let r = self.tagged(tag, None);
                    self.respond(r);
                    self.smode = SMode::Command;
                }
                return Ok(true);
            }
            SMode::IdleAsked { tag } => {
                let tag = tag.clone();
                if self.rng.chance(25) {
                    let kind = if self.rng.chance(50) { StatusKind::No } else { StatusKind::Bad };
                    let r = self.tagged(tag, Some(kind));
                    self.respond(r);
                    self.stats.idle_rejected += 1;
                    self.early_done = false;
                    self.smode = SMode::Command;
                } else {
                    let c = self.continuation();
                    self.respond(Response::CommandContinuationRequest(c));
                    self.smode = SMode::Idle { tag };
                    if std::mem::take(&mut self.early_done) {
                        self.to_server.push_back(Msg::Done);
                    }
                }
                return Ok(true);
            }
            _ => {}
        }
        if !self.owed.is_empty() && self.rng.chance(if eager { 100 } else { 40 }) {
            let i = self.rng.below(self.owed.len());
            let t = self.owed.swap_remove(i);
            let r = self.tagged(t, None);
            self.respond(r);
            return Ok(true);
        }
        Ok(false)
    }

    fn reject_literal(&mut self, a: Announced) -> Result<bool, Mismatch> {
        match self.to_server.pop_front() {
            Some(Msg::Command(c)) if c.tag == a.tag => {}
            e => {
                return Err(mismatch!(["P01", "P03"], "the proxy announced a literal of command {:?}, expected was {e:?}", a.tag));
            }
        }
        let srv = self.srv.as_mut().unwrap();
        srv.inbuf.drain(..a.end);
        self.sscan = Scan::default();
        let r = match self.rng.below(3) {
            0 => {
                let text = self.g.text();
                Response::Status(Status::bad(Some(a.tag.clone()), Some(Code::Alert), text).unwrap())
            }
            _ => self.tagged(a.tag.clone(), Some(StatusKind::Bad)),
        };
        self.note(|| format!("server rejects the literal: {r:?}"));
        let b = gen::enc_response(&r);
        self.srv.as_mut().unwrap().send(&b);
        let Response::Status(Status::Tagged(Tagged { body, .. })) = r else { unreachable!() };
        let e = match body.code {
            Some(Code::Alert) => {
                self.stats.alerts += 1;
                Status::bad(Some(a.tag), Some(Code::Alert), body.text).unwrap()
            }
            _ => Status::bad(Some(a.tag), None, Text::try_from(COMMAND_REJECTED).unwrap()).unwrap(),
        };
        self.stats.rejected_by_server += 1;
        self.to_client.push_back((Response::Status(e), "rejection"));
        Ok(true)
    }

    // ---------------------------------------------------------------------------------- the client

    fn client_send(&mut self, mut rest: VecDeque<Fragment>, item: Item) {
        loop {
            let Some(f) = rest.pop_front() else {
                self.client_sent(item);
                return;
            };
            match f {
                Fragment::Line { data } => {
                    self.cli.send(&data);
                    if let Some(Fragment::Literal { mode: LiteralMode::Sync, .. }) = rest.front() {
                        self.cstate = CState::WaitLiteral { rest, item, answered: false };
                        return;
                    }
                }
                Fragment::Literal { data, .. } => self.cli.send(&data),
            }
        }
    }

    fn client_sent(&mut self, item: Item) {
        match item {
            Item::Plain(c) => {
                self.to_server.push_back(Msg::Command(c));
                self.cstate = CState::Free;
            }
            Item::Auth(c) => {
                self.cstate = CState::Auth { tag: c.tag.clone(), reply: None };
                self.to_server.push_back(Msg::Command(c));
            }
            Item::Idle(c) => {
                let early = self.rng.chance(15);
                self.cstate = CState::IdleSent { tag: c.tag.clone(), early };
                self.to_server.push_back(Msg::Command(c));
                if early {
                    self.note(|| "client sends DONE, too".into());
                    let b = gen::enc_idle_done();
                    self.cli.send(&b);
                    self.early_done = true;
                    self.stats.early += 1;
                }
            }
            Item::TooBig(..) => unreachable!(),
        }
    }

    /// The client does something, if it wants to. `pipeline`: without waiting.
    pub fn client_act(&mut self) -> bool {
        match &mut self.cstate {
            CState::Free => {
                // (Some clients send before the greeting arrived.)
                let Some(item) = self.script.pop_front() else { return false };
                self.note(|| format!("client sends {item:?}"));
                match item {
                    Item::TooBig(tag, line) => {
                        self.cli.send(&line);
                        self.stats.too_big += 1;
                        self.cstate = CState::WaitTooBig(tag);
                    }
                    Item::Plain(ref c) | Item::Auth(ref c) | Item::Idle(ref c) => {
                        let fragments: VecDeque<Fragment> = CommandCodec::default().encode(c).collect();
                        self.client_send(fragments, item);
                    }
                }
                true
            }
            CState::WaitLiteral { answered: true, .. } => {
                let CState::WaitLiteral { rest, item, .. } = std::mem::replace(&mut self.cstate, CState::Free) else {
                    unreachable!()
                };
                self.client_send(rest, item);
                true
            }
            CState::Auth { reply, .. } => match reply {
                Some(0) => {
                    *reply = None;
                    let d = loop {
                        let d = self.g.auth_data();
                        let b = gen::enc_auth_data(&d);
                        if matches!(AuthenticateDataCodec::default().decode(&b), Ok((r, ref x)) if r.is_empty() && *x == d) {
                            break d;
                        }
                    };
                    let b = gen::enc_auth_data(&d);
                    self.note(|| format!("client sends {d:?}"));
                    self.cli.send(&b);
                    self.to_server.push_back(Msg::Data(d));
                    true
                }
                Some(n) => {
                    *n -= 1;
                    true
                }
                None => false,
            },
            CState::Idling { left } => {
                if *left > 0 {
                    *left -= 1;
                    return true;
                }
                self.note(|| "client sends DONE".into());
                let b = gen::enc_idle_done();
                self.cli.send(&b);
                self.to_server.push_back(Msg::Done);
                self.cstate = CState::Free;
                true
            }
            _ => false,
        }
    }

    pub fn client_parse(&mut self) -> Result<bool, Mismatch> {
        let buf = &self.cli.inbuf;
        if buf.is_empty() {
            return Ok(false);
        }
        if !self.greeted {
            let Some(end) = buf.iter().position(|b| *b == b'\n').map(|p| p + 1) else { return Ok(false) };
            let g: Result<_, GreetingDecodeError> = GreetingCodec::default().decode(&buf[..end]).map(|x| x.1.into_static());
            let Ok(g) = g else {
                return Err(mismatch!(["P01"], "the client received no greeting first: {}", mon_common::show(&buf[..end])));
            };
            match &self.greeting {
                Some(e) if *e == g => {}
                Some(e) => {
                    let caps = matches!((&e.code, &g.code), (Some(Code::Capability(a)), Some(Code::Capability(b))) if a != b);
                    let text = format!("the client received the greeting {g:?}, expected {e:?}");
                    return Err(match (caps, e.text == g.text) {
                        (true, true) => mismatch!(["P02"], "{text}"),
                        (_, true) => mismatch!(["P01"], "{text}"),
                        // (Perhaps that of another connection)
                        _ => mismatch!(["P01", "P04"], "{text}"),
                    });
                }
                None => return Err(mismatch!(["P01", "P04"], "the client received a greeting the server did not send: {g:?}")),
            }
            if let Some(Code::Capability(_)) = g.code {
                self.stats.cap_lists += 1;
            }
            self.note(|| format!("client receives {g:?}"));
            self.stats.responses += 1;
            self.greeted = true;
            self.cli.inbuf.drain(..end);
            return Ok(true);
        }
        let found = self.cscan.step(buf, None, false, |b| match ResponseCodec::default().decode(b) {
            Ok((_, m)) => Decoded::Msg(m.into_static()),
            Err(ResponseDecodeError::LiteralFound { length }) => {
                Decoded::Literal { tag: None, length, mode: LiteralMode::NonSync }
            }
            Err(_) => Decoded::Bad,
        });
        match found {
            Found::Msg(r, end) => {
                self.cli.inbuf.drain(..end);
                self.cscan = Scan::default();
                self.note(|| format!("client receives {r:?}"));
                self.client_receives(r)?;
                Ok(true)
            }
            Found::Literal { end, length, .. } => {
                self.cscan.accept_literal(end, length);
                Ok(true)
            }
            Found::Incomplete => Ok(false),
            Found::BareLf(n) | Found::Bad(n) | Found::TooLong(n) => Err(mismatch!(
                ["P01"],
                "the client received something that is no response: {}",
                mon_common::show(&self.cli.inbuf[..n])
            )),
        }
    }

    fn client_receives(&mut self, r: Response<'static>) -> Result<(), Mismatch> {
        // Answers of the proxy itself
        match &r {
            Response::CommandContinuationRequest(CommandContinuationRequest::Basic(b)) if b.text().as_ref() == ACCEPT => {
                return match &mut self.cstate {
                    CState::WaitLiteral { answered, .. } if !*answered => {
                        *answered = true;
                        self.stats.accepted_by_proxy += 1;
                        Ok(())
                    }
                    s => Err(mismatch!(["P03"], "the proxy sent {r:?} although no literal waits for it ({s:?})")),
                };
            }
            Response::Status(Status::Tagged(Tagged { tag, body })) if body.text.as_ref() == REJECT => {
                return match &self.cstate {
                    CState::WaitTooBig(t) if t == tag && body.kind == StatusKind::Bad => {
                        self.cstate = CState::Free;
                        Ok(())
                    }
                    s => Err(mismatch!(["P03"], "the proxy sent {r:?} although no such literal was announced ({s:?})")),
                };
            }
            _ => {}
        }
        self.stats.responses += 1;
        let Some((e, why)) = self.to_client.pop_front() else {
            return Err(mismatch!(["P01", "P03", "P04"], "the client received {r:?}, which the server did not send (or not again)"));
        };
        let (cr, ce) = (caps_of(&r), caps_of(&e));
        if ce.is_some() {
            self.stats.cap_lists += 1;
        }
        if e != r {
            let text = format!("the client received {r:?}, expected ({why}) {e:?}");
            if let (Some(a), Some(b)) = (cr, ce) {
                if a != b && same_but_caps(&r, &e) {
                    return Err(mismatch!(["P02"], "{text}"));
                }
            }
            return Err(if why == "rejection" || matches!(&r, Response::Status(s) if s.text().as_ref() == COMMAND_REJECTED) {
                mismatch!(["P03"], "{text}")
            } else {
                mismatch!(["P01"], "{text}")
            });
        }
        match (&mut self.cstate, &r) {
            (CState::Auth { tag, .. }, Response::Status(Status::Tagged(t))) if t.tag == *tag => self.cstate = CState::Free,
            (CState::Auth { reply, .. }, Response::CommandContinuationRequest(_)) => *reply = Some(self.rng.below(6) as u32),
            (CState::IdleSent { tag, .. }, Response::Status(Status::Tagged(t))) if t.tag == *tag => self.cstate = CState::Free,
            (CState::IdleSent { early: true, .. }, Response::CommandContinuationRequest(_)) => self.cstate = CState::Free,
            (CState::IdleSent { .. }, Response::CommandContinuationRequest(_)) => {
                self.cstate = CState::Idling { left: self.rng.below(40) as u32 }
            }
            _ => {}
        }
        Ok(())
    }

    // ------------------------------------------------------------------------------------- driving

    /// Take over the server's side of the connection.
    pub fn adopt(&mut self, w: &World) -> bool {
        let Some(sock) = w.accept(self.service) else { return false };
        self.adopt_socket(w, sock);
        true
    }
    pub fn adopt_socket(&mut self, w: &World, sock: std::net::TcpStream) {
        let tls = w.services[self.service].connect_tls.then(|| ep::good_server(self.srv_v12));
        let mut srv = Ep::new(sock, tls, Rng::new(self.rng.u64()));
        srv.chop = self.rng.chance(self.p.chop);
        self.srv = Some(srv);
        self.note(|| "the proxy connected to the server".into());
        if self.greet {
            self.send_greeting();
        }
    }

    pub fn step(&mut self, w: &World) -> Result<bool, Mismatch> {
        let mut progress = self.cli.pump();
        if self.srv.is_none() && !self.skip_server && self.adopt(w) {
            progress = true;
        }
        if let Some(s) = &mut self.srv {
            progress |= s.pump();
        }
        while self.client_parse()? {
            progress = true;
        }
        // (A server that has not greeted says nothing else.)
        if self.srv.is_some() && self.greeting.is_some() {
            while self.server_parse()? {
                progress = true;
                if self.announced.is_some() {
                    break;
                }
            }
            // Sometimes everything at once, sometimes bit by bit
            let eager = self.rng.chance(30);
            progress |= self.server_act(eager)?;
        }
        if self.rng.chance(40) {
            progress |= self.client_act();
        }
        if progress {
            self.last = Instant::now();
        }
        Ok(progress)
    }

    /// Nothing left to do or to wait for.
    pub fn at_rest(&self) -> bool {
        self.script.is_empty()
            && matches!(self.cstate, CState::Free)
            && self.greeted
            && self.to_client.is_empty()
            && self.to_server.is_empty()
            && self.owed.is_empty()
            && self.announced.is_none()
            && matches!(self.smode, SMode::Command)
            && self.cli.all_sent()
            && self.srv.as_ref().is_some_and(|s| s.all_sent())
            && self.cli.inbuf.is_empty()
            && self.srv.as_ref().is_some_and(|s| s.inbuf.is_empty())
    }

    pub fn expected_by_client(&self) -> Option<String> {
        match (self.greeted, &self.greeting) {
            (false, Some(g)) => Some(format!("{g:?}")),
            _ => self.to_client.front().map(|x| format!("{x:?}")),
        }
    }
    pub fn open_responses(&self) -> usize {
        self.to_client.len() + !self.greeted as usize
    }
    pub fn client_free(&self) -> bool {
        matches!(self.cstate, CState::Free)
    }
    pub fn client_sent_all(&self) -> bool {
        self.script.is_empty() && self.client_free() && self.cli.all_sent() && !self.cli.handshaking()
    }
    pub fn is_greeted(&self) -> bool {
        self.greeted
    }
    pub fn server_waits(&self) -> bool {
        self.announced.is_some()
    }
    pub fn touch(&mut self) {
        self.last = Instant::now();
    }
    /// Let everything on its way arrive, without anything new.
    pub fn calm(&mut self, w: &World) -> Result<(), Mismatch> {
        self.touch();
        loop {
            let mut progress = self.cli.pump();
            if self.srv.is_none() && self.adopt(w) {
                progress = true;
            }
            if let Some(s) = &mut self.srv {
                progress |= s.pump();
            }
            while self.client_parse()? {
                progress = true;
            }
            if self.srv.is_some() {
                while self.server_parse()? {
                    progress = true;
                    if self.announced.is_some() {
                        break;
                    }
                }
                if let Some(a) = &mut self.announced {
                    a.delay = 0;
                    progress |= self.server_act(true)?;
                }
                if self.greeted
                    && self.to_client.is_empty()
                    && self.to_server.is_empty()
                    && self.announced.is_none()
                    && self.cli.all_sent()
                    && self.srv.as_ref().is_some_and(|s| s.all_sent())
                {
                    return Ok(());
                }
            }
            if progress {
                self.touch();
            } else {
                std::thread::sleep(Duration::from_micros(60));
            }
            self.check_alive()?;
        }
    }

    pub fn state(&self) -> String {
        format!(
            "client state {:?}, client still expects {:?}, server mode {:?}, server still expects {:?}, greeted {}, server connected {}, client {:?}, server {:?}",
            self.cstate,
            self.to_client.front().map(|x| brief(x)),
            self.smode,
            self.to_server.front().map(|x| brief(x)),
            self.greeted,
            self.srv.is_some(),
            self.cli.ended,
            self.srv.as_ref().map(|s| s.ended.clone())
        )
    }

    /// Which properties a standstill contradicts.
    fn standstill(&self) -> Vec<&'static str> {
        let mut v = vec!["P01", "P04"];
        if matches!(self.cstate, CState::WaitLiteral { .. } | CState::WaitTooBig(_))
            || self.announced.is_some()
            || self.stats.rejected_by_server + self.stats.too_big + self.stats.literals_at_server > 0
        {
            v.push("P03");
        }
        if !self.greeted {
            v.push("P07");
        }
        v
    }

    pub fn check_alive(&self) -> Result<(), Mismatch> {
        for (name, e) in [("client", &self.cli.ended), ("server", &self.srv.as_ref().and_then(|s| s.ended.clone()))] {
            if let Some(e) = e {
                return Err(Mismatch {
                    props: self.standstill(),
                    what: format!("the proxy closed the connection to the {name} ({e:?}) in the middle of a proper session; {}", self.state()),
                });
            }
        }
        if self.last.elapsed() > WAIT {
            return Err(Mismatch {
                props: self.standstill(),
                what: format!("nothing happened for {WAIT:?}; {}", self.state()),
            });
        }
        Ok(())
    }

    /// Run until everything was delivered.
    pub fn run(&mut self, w: &World) -> Result<(), Mismatch> {
        self.last = Instant::now();
        let mut idle = 0;
        while !self.at_rest() {
            if self.step(w)? {
                idle = 0;
            } else {
                idle += 1;
                if idle > 3 {
                    std::thread::sleep(Duration::from_micros(if idle > 50 { 300 } else { 40 }));
                }
                if !self.at_rest() {
                    self.check_alive()?;
                }
            }
        }
        Ok(())
    }

    /// Close one side and wait until the proxy closed the other one.
    pub fn finish(&mut self, by_client: bool, kind: Close) -> Result<(), Mismatch> {
        self.log.push(format!("the {} closes ({kind:?})", if by_client { "client" } else { "server" }));
        self.stats.bytes = self.cli.sent + self.cli.received + self.srv.as_ref().map_or(0, |s| s.sent + s.received);
        let srv = self.srv.as_mut().unwrap();
        let (a, b) = if by_client { (&mut self.cli, srv) } else { (srv, &mut self.cli) };
        a.close(kind);
        let start = Instant::now();
        while b.ended.is_none() {
            if !(a.pump() | b.pump()) {
                std::thread::sleep(Duration::from_micros(50));
            }
            if start.elapsed() > WAIT {
                return Err(mismatch!(["P06"], "the {} closed ({kind:?}), but the proxy has not closed the other side after {WAIT:?}", if by_client { "client" } else { "server" }));
            }
        }
        if !b.inbuf.is_empty() {
            return Err(mismatch!(["P01", "P06"], "unexpected bytes after the end: {}", mon_common::show(&b.inbuf)));
        }
        if let Some(Ended::Tls(e)) = &b.ended {
            return Err(mismatch!(["P01", "P06"], "the proxy ended its connection with a TLS error: {e}"));
        }
        Ok(())
    }
}

fn brief(x: &impl std::fmt::Debug) -> String {
    let mut s = format!("{x:?}");
    if s.len() > 400 {
        s = s.chars().take(400).collect::<String>() + " …";
    }
    s
}

fn same_but_caps(a: &Response<'static>, b: &Response<'static>) -> bool {
    fn strip(r: &Response<'static>) -> Response<'static> {
        let one = || Some(Code::Capability(Vec1::from(Capability::Imap4Rev1)));
        match r.clone() {
            Response::Data(Data::Capability(_)) => Response::Data(Data::Capability(Vec1::from(Capability::Imap4Rev1))),
            Response::Status(Status::Tagged(Tagged { tag, body })) => {
                Response::Status(Status::Tagged(Tagged { tag, body: StatusBody { code: one(), ..body } }))
            }
            Response::Status(Status::Untagged(body)) => Response::Status(Status::Untagged(StatusBody { code: one(), ..body })),
            Response::Status(Status::Bye(b)) => Response::Status(Status::Bye(Bye { code: one(), ..b })),
            Response::CommandContinuationRequest(CommandContinuationRequest::Basic(b)) => {
                Response::CommandContinuationRequest(CommandContinuationRequest::basic(one(), b.text().clone()).unwrap())
            }
            r => r,
        }
    }
    strip(a) == strip(b)
}
