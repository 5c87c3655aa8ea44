//! Monitor for `imap_next::server::Server`: judges every boundary call.
use std::collections::{BTreeMap, VecDeque};

use bounded_static::IntoBoundedStatic;
use imap_codec::{
    decode::{CommandDecodeError, Decoder},
    AuthenticateDataCodec, CommandCodec, IdleDoneCodec,
};
use imap_next::{
    server::{Error, Event, Options, ResponseHandle, Server},
    Interrupt, Io, State,
};
use imap_types::{
    auth::AuthenticateData,
    command::{Command, CommandBody},
    core::{LiteralMode, Tag},
    response::{CommandContinuationRequest, Data, Greeting, Response, Status},
};
use mon_common::{guard, mismatch, show, Mismatch};

use crate::{
    gen::{enc_greeting, enc_response, Raw},
    scan::{Decoded, Found, Scan},
};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Mode {
    Command,
    AuthData,
    IdleUndecided,
    IdleDone,
}

#[derive(Clone, Debug)]
pub enum Item {
    Command(Command<'static>),
    AuthData(AuthenticateData<'static>),
    IdleDone,
    BareLf,
    Malformed,
    LiteralTooLong,
    CommandTooLong,
}

impl Item {
    pub fn name(&self) -> &'static str {
        match self {
            Item::Command(c) => match c.body {
                CommandBody::Authenticate { .. } => "AUTHENTICATE",
                CommandBody::Idle => "IDLE",
                _ => "command",
            },
            Item::AuthData(_) => "authenticate data",
            Item::IdleDone => "idle done",
            Item::BareLf => "bare-LF error",
            Item::Malformed => "malformed error",
            Item::LiteralTooLong => "literal-too-long error",
            Item::CommandTooLong => "command-too-long error",
        }
    }
}

enum Owed {
    Greeting(Greeting<'static>),
    Response(ResponseHandle, Response<'static>),
}

#[derive(PartialEq, Clone, Copy)]
enum Cur {
    User,
    Internal,
}

/// What `next` returned, for the log and for drivers.
#[derive(Debug, Clone)]
pub enum Outcome {
    Need,
    Out(Vec<u8>),
    Input(Item),
    GreetingSent,
    Sent(ResponseHandle),
}

pub struct SrvOpts {
    pub relaxed: bool,
    pub max_literal: u32,
    pub max_command: u32,
    pub accept: String,
    pub reject: String,
}

impl SrvOpts {
    pub fn to_options(&self) -> Options {
        let mut o = Options::default();
        o.crlf_relaxed = self.relaxed;
        o.max_literal_size = self.max_literal;
        o.max_command_size = self.max_command;
        o.set_literal_accept_text(self.accept.clone()).unwrap();
        o.set_literal_reject_text(self.reject.clone()).unwrap();
        o
    }
}

pub struct SrvMon {
    pub server: Server,
    pub opts: SrvOpts,
    pub mode: Mode,
    inbuf: Vec<u8>,
    scan: Scan,
    item: Option<(Item, usize)>,
    owed: VecDeque<(Owed, Vec<u8>)>,
    internal: VecDeque<(Vec<u8>, &'static str)>,
    /// Message that is partly output.
    cur: Option<(Cur, Vec<u8>)>,
    unreported: VecDeque<Owed>,
    pub handles: Vec<ResponseHandle>,
    pub log: Vec<String>,
    /// When set: every debug and display representation seen so far.
    pub texts: Option<Vec<String>>,
    /// Everything output so far.
    pub sent: Vec<u8>,
    pub counts: BTreeMap<String, u64>,
    pub empty_outs: u32,
    /// Hash-able abstract trace.
    pub trace: Vec<(u8, u32)>,
    pub refused_calls: u64,
    pub greeting_sent: bool,
}

fn decode_command(b: &[u8]) -> Decoded<Item> {
    match CommandCodec::default().decode(b) {
        Ok((rest, c)) if rest.is_empty() => Decoded::Msg(Item::Command(c.into_static())),
        Ok(_) => Decoded::Bad,
        Err(CommandDecodeError::LiteralFound { tag, length, mode }) => {
            Decoded::Literal { tag: Some(tag.into_static()), length, mode }
        }
        Err(_) => Decoded::Bad,
    }
}
fn decode_auth(b: &[u8]) -> Decoded<Item> {
    match AuthenticateDataCodec::default().decode(b) {
        Ok((rest, c)) if rest.is_empty() => Decoded::Msg(Item::AuthData(c.into_static())),
        _ => Decoded::Bad,
    }
}
fn decode_done(b: &[u8]) -> Decoded<Item> {
    match IdleDoneCodec::default().decode(b) {
        Ok((rest, _)) if rest.is_empty() => Decoded::Msg(Item::IdleDone),
        _ => Decoded::Bad,
    }
}

impl SrvMon {
    pub fn new(opts: SrvOpts, greeting: Greeting<'static>) -> Result<Self, Mismatch> {
        let o = opts.to_options();
        let g = greeting.clone();
        let server = guard(move || Server::new(o, g)).map_err(|p| panic_mismatch("Server::new", p))?;
        let bytes = enc_greeting(&greeting);
        Ok(Self {
            server,
            opts,
            mode: Mode::Command,
            inbuf: vec![],
            scan: Scan::default(),
            item: None,
            owed: [(Owed::Greeting(greeting), bytes)].into(),
            internal: VecDeque::new(),
            cur: None,
            unreported: VecDeque::new(),
            handles: vec![],
            log: vec![],
            texts: None,
            sent: vec![],
            counts: BTreeMap::new(),
            empty_outs: 0,
            trace: vec![],
            refused_calls: 0,
            greeting_sent: false,
        })
    }
    fn count(&mut self, k: &str) {
        *self.counts.entry(k.to_owned()).or_default() += 1;
    }
    pub fn buffered(&self) -> usize {
        self.inbuf.len()
    }
    pub fn output_pending(&self) -> bool {
        !self.owed.is_empty() || !self.internal.is_empty() || self.cur.is_some()
    }
    pub fn due(&self) -> Option<&Item> {
        self.item.as_ref().map(|i| &i.0)
    }

    pub fn feed(&mut self, bytes: &[u8]) -> Result<(), Mismatch> {
        self.log.push(format!("feed {}", show(bytes)));
        self.inbuf.extend_from_slice(bytes);
        let s = &mut self.server;
        guard(|| s.enqueue_input(bytes)).map_err(|p| panic_mismatch("enqueue_input", p))?;
        self.look();
        Ok(())
    }

    /// Find out which input item is due.
    fn look(&mut self) {
        while self.item.is_none() && self.mode != Mode::IdleUndecided {
            let decode = match self.mode {
                Mode::Command => decode_command,
                Mode::AuthData => decode_auth,
                Mode::IdleDone => decode_done,
                Mode::IdleUndecided => unreachable!(),
            };
            let max = self.opts.max_command as usize;
            match self.scan.step(&self.inbuf, Some(max), self.opts.relaxed, decode) {
                Found::Incomplete => return,
                Found::Msg(m, n) => self.item = Some((m, n)),
                Found::BareLf(n) => self.item = Some((Item::BareLf, n)),
                Found::Bad(n) => self.item = Some((Item::Malformed, n)),
                Found::TooLong(n) => self.item = Some((Item::CommandTooLong, n)),
                Found::Literal { end, tag, length, mode } => {
                    let tag = tag.unwrap();
                    if length > self.opts.max_literal {
                        if mode == LiteralMode::Sync {
                            let b = format!("{} BAD {}\r\n", tag.inner(), self.opts.reject);
                            self.internal.push_back((b.into_bytes(), "literal reject"));
                        }
                        self.item = Some((Item::LiteralTooLong, end));
                    } else {
                        if mode == LiteralMode::Sync {
                            let b = format!("+ {}\r\n", self.opts.accept);
                            self.internal.push_back((b.into_bytes(), "literal accept"));
                            self.count("synchronizing literal announced");
                        } else {
                            self.count("non-synchronizing literal announced");
                        }
                        self.scan.accept_literal(end, length);
                    }
                }
            }
        }
    }

    fn rescan(&mut self) {
        self.scan = Scan::default();
        self.item = None;
        self.look();
    }

    fn set_mode(&mut self, mode: Mode) {
        self.mode = mode;
        self.rescan();
    }

    /// Properties about input handling in the current situation.
    fn input_props(&self, extra: &[&'static str]) -> Vec<&'static str> {
        let mut p = vec!["C02", "C03", "C16"];
        p.extend_from_slice(extra);
        match self.mode {
            Mode::Command => {}
            Mode::AuthData => p.push("C13"),
            Mode::IdleUndecided | Mode::IdleDone => p.push("C14"),
        }
        match self.due() {
            Some(Item::BareLf) => p.push("C04"),
            Some(Item::CommandTooLong) => p.push("C05"),
            Some(Item::LiteralTooLong) => p.push("C06"),
            Some(Item::Command(c)) => match c.body {
                CommandBody::Authenticate { .. } => p.push("C13"),
                CommandBody::Idle => p.push("C14"),
                _ => {}
            },
            _ => {}
        }
        p
    }

    fn take_item(&mut self, got: &Item, discarded: Option<&[u8]>) -> Result<(), Mismatch> {
        let got_props: &[&'static str] = match got {
            Item::BareLf => &["C04"],
            Item::CommandTooLong => &["C05"],
            Item::LiteralTooLong => &["C06", "C05"],
            Item::AuthData(_) => &["C13"],
            Item::IdleDone => &["C14"],
            Item::Command(c) => match c.body {
                CommandBody::Authenticate { .. } => &["C13"],
                CommandBody::Idle => &["C14"],
                _ => &[],
            },
            Item::Malformed => &[],
        };
        let Some((due, n)) = &self.item else {
            let mut props = self.input_props(got_props);
            // Reporting something for an incomplete message depends on how the input was cut
            props.extend(["C01", "C04", "C05", "C06"]);
            return Err(Mismatch {
                props,
                what: format!(
                    "server reported {} ({got:?}) but no complete message is waiting (mode {:?}, waiting bytes: {})",
                    got.name(), self.mode, show(&self.inbuf)
                ),
            });
        };
        let same = match (due, got) {
            (Item::Command(a), Item::Command(b)) => a == b,
            (Item::AuthData(a), Item::AuthData(b)) => a == b,
            (Item::IdleDone, Item::IdleDone)
            | (Item::BareLf, Item::BareLf)
            | (Item::Malformed, Item::Malformed)
            | (Item::LiteralTooLong, Item::LiteralTooLong)
            | (Item::CommandTooLong, Item::CommandTooLong) => true,
            _ => false,
        };
        if !same {
            let mut props = self.input_props(got_props);
            props.extend(["C01", "C05", "C06"]);
            if self.opts.relaxed || self.inbuf[..*n].windows(2).any(|w| w[1] == b'\n' && w[0] != b'\r') {
                props.push("C04");
            }
            return Err(Mismatch {
                props,
                what: format!(
                    "server reported {} {got:?}, due was {} {due:?} (mode {:?}, waiting bytes: {})",
                    got.name(), due.name(), self.mode, show(&self.inbuf)
                ),
            });
        }
        if let Some(d) = discarded {
            if d != &self.inbuf[..*n] {
                let mut props = self.input_props(got_props);
                props.push("C01");
                return Err(Mismatch {
                    props,
                    what: format!(
                        "{} carries discarded bytes {} instead of {}",
                        got.name(), show(d), show(&self.inbuf[..*n])
                    ),
                });
            }
        }
        let n = *n;
        let due = self.item.take().unwrap().0;
        self.count(&format!("input: {}", due.name()));
        self.trace.push((1 + item_code(&due), n as u32));
        self.inbuf.drain(..n);
        self.scan = Scan::default();
        match due {
            Item::Command(c) => match c.body {
                CommandBody::Authenticate { .. } => self.mode = Mode::AuthData,
                CommandBody::Idle => self.mode = Mode::IdleUndecided,
                _ => {}
            },
            Item::IdleDone => self.mode = Mode::Command,
            _ => {}
        }
        self.look();
        Ok(())
    }

    fn out_props(&self) -> Vec<&'static str> {
        let mut p = vec!["C12", "C16"];
        if !self.internal.is_empty() {
            p.push("C06");
        }
        match self.mode {
            Mode::AuthData => p.push("C13"),
            Mode::IdleUndecided | Mode::IdleDone => p.push("C14"),
            _ => {}
        }
        p
    }

    fn take_output(&mut self, mut bytes: &[u8]) -> Result<(), Mismatch> {
        while !bytes.is_empty() {
            if self.cur.is_none() {
                // Which message starts here? Texts are unique, so at most one fits (greeting first).
                let fits = |m: &[u8]| {
                    let n = m.len().min(bytes.len());
                    n > 0 && m[..n] == bytes[..n]
                };
                let greeting_owed = matches!(self.owed.front(), Some((Owed::Greeting(_), _)));
                if self.owed.front().is_some_and(|(_, m)| fits(m)) {
                    let m = self.owed.front().unwrap().1.clone();
                    self.cur = Some((Cur::User, m));
                } else if !greeting_owed && self.internal.front().is_some_and(|(m, _)| fits(m)) {
                    let (m, _) = self.internal.front().unwrap().clone();
                    self.cur = Some((Cur::Internal, m));
                } else {
                    let mut props = self.out_props();
                    if bytes.starts_with(b"+ ") || String::from_utf8_lossy(bytes).contains(" BAD ") {
                        props.push("C06");
                        props.push("C20");
                    }
                    props.push("C01");
                    return Err(Mismatch {
                        props,
                        what: format!(
                            "server output {} which continues neither the oldest unsent response ({}) nor a due literal answer ({})",
                            show(bytes),
                            self.owed.front().map_or("none".into(), |(_, m)| show(m)),
                            self.internal.front().map_or("none".into(), |(m, w)| format!("{w} {}", show(m))),
                        ),
                    });
                }
            }
            let (kind, m) = self.cur.as_mut().unwrap();
            let n = m.len().min(bytes.len());
            if m[..n] != bytes[..n] {
                let what = format!("server output {} while {} is left of the message being sent", show(bytes), show(m));
                return Err(Mismatch { props: self.out_props(), what });
            }
            m.drain(..n);
            bytes = &bytes[n..];
            if m.is_empty() {
                let kind = *kind;
                self.cur = None;
                if kind == Cur::User {
                    let (o, m) = self.owed.pop_front().unwrap();
                    self.trace.push((20, m.len() as u32));
                    self.unreported.push_back(o);
                    self.count("output: enqueued message");
                } else {
                    let (m, w) = self.internal.pop_front().unwrap();
                    self.trace.push((21, m.len() as u32));
                    self.count(&format!("output: {w}"));
                }
            }
        }
        Ok(())
    }

    /// Call `next` once and judge the result.
    pub fn next(&mut self) -> Result<Outcome, Mismatch> {
        let s = &mut self.server;
        let r = guard(|| s.next()).map_err(|p| panic_mismatch("next", p))?;
        self.log.push(format!("next -> {}", show_result(&r)));
        if let Some(t) = &mut self.texts {
            t.push(format!("{:?}\n{:#?}", self.server, self.server));
            match &r {
                Ok(e) => t.push(format!("{e:?}\n{e:#?}")),
                Err(Interrupt::Error(e)) => {
                    t.push(format!("{e:?}\n{e:#?}\n{e}\n{e:#}"));
                    let mut src = std::error::Error::source(e);
                    while let Some(s) = src {
                        t.push(format!("{s:?}\n{s}"));
                        src = s.source();
                    }
                    t.push(format!("{:?}", Interrupt::<&Error>::Error(e)));
                }
                Err(Interrupt::Io(_)) => {}
            }
        }
        match r {
            Err(Interrupt::Io(Io::NeedMoreInput)) => {
                self.empty_outs = 0;
                if let Some(due) = self.due() {
                    let mut props = self.input_props(&["C15", "C01"]);
                    if matches!(due, Item::LiteralTooLong) {
                        props.push("C05");
                    }
                    if self.opts.relaxed {
                        props.push("C04");
                    }
                    return Err(Mismatch {
                        props,
                        what: format!(
                            "server asks for more input although {} {due:?} is due (mode {:?}, waiting bytes {})",
                            due.name(), self.mode, show(&self.inbuf)
                        ),
                    });
                }
                if !self.internal.is_empty() {
                    return Err(mismatch!(["C06", "C15", "C16"],
                        "server asks for more input although a {} is due", self.internal[0].1));
                }
                if self.output_pending() {
                    return Err(mismatch!(["C15", "C12", "C16"],
                        "server asks for more input although {} enqueued response(s) are not sent", self.owed.len()));
                }
                if !self.unreported.is_empty() {
                    return Err(mismatch!(["C15", "C12", "C16"],
                        "server asks for more input although {} sent response(s) were not reported", self.unreported.len()));
                }
                self.trace.push((0, 0));
                self.count("need-more-input accepted");
                Ok(Outcome::Need)
            }
            Err(Interrupt::Io(Io::Output(b))) => {
                if b.is_empty() {
                    self.empty_outs += 1;
                    if self.empty_outs > 8 {
                        return Err(mismatch!(["C03", "C15"], "server keeps returning empty output"));
                    }
                }
                self.sent.extend_from_slice(&b);
                self.take_output(&b)?;
                Ok(Outcome::Out(b))
            }
            Err(Interrupt::Error(e)) => {
                let (item, d) = match &e {
                    Error::ExpectedCrlfGotLf { discarded_bytes } => (Item::BareLf, discarded_bytes),
                    Error::MalformedMessage { discarded_bytes } => (Item::Malformed, discarded_bytes),
                    Error::LiteralTooLong { discarded_bytes } => (Item::LiteralTooLong, discarded_bytes),
                    Error::CommandTooLong { discarded_bytes } => (Item::CommandTooLong, discarded_bytes),
                };
                self.take_item(&item, Some(d.raw()))?;
                Ok(Outcome::Input(item))
            }
            Ok(ev) => match ev {
                Event::GreetingSent { greeting } => {
                    match self.unreported.pop_front() {
                        Some(Owed::Greeting(g)) if g == greeting => {}
                        _ => return Err(mismatch!(["C12", "C16"], "GreetingSent reported at the wrong time or with the wrong greeting")),
                    }
                    self.greeting_sent = true;
                    self.count("report: greeting sent");
                    self.trace.push((22, 0));
                    Ok(Outcome::GreetingSent)
                }
                Event::ResponseSent { handle, response } => {
                    match self.unreported.pop_front() {
                        Some(Owed::Response(h, r)) if h == handle && r == response => {}
                        Some(Owed::Response(h, r)) => {
                            return Err(mismatch!(["C12", "C16"],
                                "ResponseSent({handle:?}, {response:?}) but the oldest unreported response is {h:?} {r:?}"));
                        }
                        _ => {
                            return Err(mismatch!(["C12", "C16"],
                                "ResponseSent({handle:?}, {response:?}) although no enqueued response is completely output and unreported"));
                        }
                    }
                    self.count("report: response sent");
                    self.trace.push((23, 0));
                    Ok(Outcome::Sent(handle))
                }
                Event::CommandReceived { command } => {
                    if matches!(command.body, CommandBody::Authenticate { .. } | CommandBody::Idle) {
                        return Err(mismatch!(["C13", "C14", "C02"], "AUTHENTICATE/IDLE delivered as a regular command"));
                    }
                    let item = Item::Command(command);
                    self.take_item(&item, None)?;
                    Ok(Outcome::Input(item))
                }
                Event::CommandAuthenticateReceived { command_authenticate } => {
                    let item = Item::Command(command_authenticate.into());
                    self.take_item(&item, None)?;
                    Ok(Outcome::Input(item))
                }
                Event::AuthenticateDataReceived { authenticate_data } => {
                    let item = Item::AuthData(authenticate_data);
                    self.take_item(&item, None)?;
                    Ok(Outcome::Input(item))
                }
                Event::IdleCommandReceived { tag } => {
                    let item = Item::Command(Command { tag, body: CommandBody::Idle });
                    self.take_item(&item, None)?;
                    Ok(Outcome::Input(item))
                }
                Event::IdleDoneReceived => {
                    self.take_item(&Item::IdleDone, None)?;
                    Ok(Outcome::Input(Item::IdleDone))
                }
            },
        }
    }

    /// Call `next` until it asks for input (bounded).
    pub fn settle(&mut self) -> Result<Vec<Outcome>, Mismatch> {
        let budget = 64
            + 2 * self.inbuf.len()
            + 4 * (self.owed.len() + self.internal.len() + self.unreported.len());
        let mut v = vec![];
        let mut steps = 0;
        while steps < budget {
            let o = self.next()?;
            let done = matches!(o, Outcome::Need);
            // (There may be as many pieces of output as there are bytes owed.)
            steps += !matches!(&o, Outcome::Out(b) if !b.is_empty()) as usize;
            v.push(o);
            if done {
                return Ok(v);
            }
        }
        Err(mismatch!(["C03", "C15"], "server does not come to rest within {budget} steps"))
    }

    // ------------------------------------------------------------------------------ user calls

    fn owe(&mut self, handle: ResponseHandle, r: Response<'static>) -> Result<(), Mismatch> {
        if self.handles.contains(&handle) {
            return Err(mismatch!(["C17", "C12"], "handle {handle:?} was returned twice"));
        }
        self.handles.push(handle);
        let b = enc_response(&r);
        self.log.push(format!("  = {handle:?}, owes {}", show(&b)));
        self.owed.push_back((Owed::Response(handle, r), b));
        Ok(())
    }
    pub fn enqueue_data(&mut self, d: Data<'static>) -> Result<ResponseHandle, Mismatch> {
        self.log.push("enqueue_data".into());
        let (s, x) = (&mut self.server, d.clone());
        let h = guard(|| s.enqueue_data(x)).map_err(|p| panic_mismatch("enqueue_data", p))?;
        self.owe(h, Response::Data(d))?;
        Ok(h)
    }
    pub fn enqueue_status(&mut self, d: Status<'static>) -> Result<ResponseHandle, Mismatch> {
        self.log.push("enqueue_status".into());
        let (s, x) = (&mut self.server, d.clone());
        let h = guard(|| s.enqueue_status(x)).map_err(|p| panic_mismatch("enqueue_status", p))?;
        self.owe(h, Response::Status(d))?;
        Ok(h)
    }
    pub fn enqueue_continuation(
        &mut self,
        d: CommandContinuationRequest<'static>,
    ) -> Result<ResponseHandle, Mismatch> {
        self.log.push("enqueue_continuation_request".into());
        let (s, x) = (&mut self.server, d.clone());
        let h = guard(|| s.enqueue_continuation_request(x))
            .map_err(|p| panic_mismatch("enqueue_continuation_request", p))?;
        self.owe(h, Response::CommandContinuationRequest(d))?;
        Ok(h)
    }
    fn gate<T: PartialEq + std::fmt::Debug>(
        &mut self,
        name: &str,
        props: &[&'static str],
        allowed: bool,
        arg: &T,
        r: &Result<ResponseHandle, T>,
    ) -> Result<(), Mismatch> {
        self.log.push(format!("{name} -> {}", if r.is_ok() { "accepted" } else { "refused" }));
        self.count(&format!("call {name} {}", if r.is_ok() { "accepted" } else { "refused" }));
        self.trace.push((30, r.is_ok() as u32));
        match (allowed, r) {
            (true, Ok(_)) => Ok(()),
            (false, Err(back)) => {
                self.refused_calls += 1;
                if back == arg {
                    Ok(())
                } else {
                    Err(Mismatch { props: props.to_vec(), what: format!("{name} refused but handed back {back:?} instead of {arg:?}") })
                }
            }
            (true, Err(_)) => Err(Mismatch { props: props.to_vec(), what: format!("{name} refused in mode {:?}", self.mode) }),
            (false, Ok(_)) => Err(Mismatch { props: props.to_vec(), what: format!("{name} accepted in mode {:?}", self.mode) }),
        }
    }
    pub fn authenticate_continue(&mut self, d: CommandContinuationRequest<'static>) -> Result<bool, Mismatch> {
        let (s, x) = (&mut self.server, d.clone());
        let r = guard(|| s.authenticate_continue(x)).map_err(|p| panic_mismatch("authenticate_continue", p))?;
        let allowed = self.mode == Mode::AuthData;
        self.gate("authenticate_continue", &["C13", "C16"], allowed, &d, &r)?;
        if let Ok(h) = r {
            self.owe(h, Response::CommandContinuationRequest(d))?;
        }
        Ok(allowed)
    }
    pub fn authenticate_finish(&mut self, d: Status<'static>) -> Result<bool, Mismatch> {
        let (s, x) = (&mut self.server, d.clone());
        let r = guard(|| s.authenticate_finish(x)).map_err(|p| panic_mismatch("authenticate_finish", p))?;
        let allowed = self.mode == Mode::AuthData;
        self.gate("authenticate_finish", &["C13", "C16"], allowed, &d, &r)?;
        if let Ok(h) = r {
            self.owe(h, Response::Status(d))?;
            self.set_mode(Mode::Command);
        }
        Ok(allowed)
    }
    pub fn idle_accept(&mut self, d: CommandContinuationRequest<'static>) -> Result<bool, Mismatch> {
        let (s, x) = (&mut self.server, d.clone());
        let r = guard(|| s.idle_accept(x)).map_err(|p| panic_mismatch("idle_accept", p))?;
        let allowed = self.mode == Mode::IdleUndecided;
        self.gate("idle_accept", &["C14", "C16"], allowed, &d, &r)?;
        if let Ok(h) = r {
            self.owe(h, Response::CommandContinuationRequest(d))?;
            self.set_mode(Mode::IdleDone);
        }
        Ok(allowed)
    }
    pub fn idle_reject(&mut self, d: Status<'static>) -> Result<bool, Mismatch> {
        let (s, x) = (&mut self.server, d.clone());
        let r = guard(|| s.idle_reject(x)).map_err(|p| panic_mismatch("idle_reject", p))?;
        let allowed = self.mode == Mode::IdleUndecided;
        self.gate("idle_reject", &["C14", "C16"], allowed, &d, &r)?;
        if let Ok(h) = r {
            self.owe(h, Response::Status(d))?;
            self.set_mode(Mode::Command);
        }
        Ok(allowed)
    }
    /// Is the tag of the command whose literal is being waited for.
    pub fn log_text(&self) -> String {
        self.log.join("\n")
    }
}

fn item_code(i: &Item) -> u8 {
    match i {
        Item::Command(c) => match c.body {
            CommandBody::Authenticate { .. } => 1,
            CommandBody::Idle => 2,
            _ => 0,
        },
        Item::AuthData(_) => 3,
        Item::IdleDone => 4,
        Item::BareLf => 5,
        Item::Malformed => 6,
        Item::LiteralTooLong => 7,
        Item::CommandTooLong => 8,
    }
}

pub fn panic_mismatch(call: &str, p: String) -> Mismatch {
    mismatch!(
        ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16"],
        "panic in {call}: {p}"
    )
}

pub fn show_result(r: &Result<Event, Interrupt<Error>>) -> String {
    match r {
        Err(Interrupt::Io(Io::NeedMoreInput)) => "NeedMoreInput".into(),
        Err(Interrupt::Io(Io::Output(b))) => format!("Output {}", show(b)),
        Err(Interrupt::Error(e)) => {
            let (n, d) = match e {
                Error::ExpectedCrlfGotLf { discarded_bytes } => ("ExpectedCrlfGotLf", discarded_bytes),
                Error::MalformedMessage { discarded_bytes } => ("MalformedMessage", discarded_bytes),
                Error::LiteralTooLong { discarded_bytes } => ("LiteralTooLong", discarded_bytes),
                Error::CommandTooLong { discarded_bytes } => ("CommandTooLong", discarded_bytes),
            };
            format!("{n} {}", show(d.raw()))
        }
        Ok(e) => show(format!("{e:?}").as_bytes()),
    }
}

/// Like Debug, but with everything secret visible (for comparing).
fn reveal(e: &Event) -> String {
    use imap_codec::encode::Encoder;
    match e {
        Event::CommandReceived { command } => {
            format!("CommandReceived {}", show_all(&CommandCodec::default().encode(command).dump()))
        }
        Event::CommandAuthenticateReceived { command_authenticate: c } => {
            format!("{e:?} {:?}", c.initial_response.as_ref().map(|r| r.declassify().to_vec()))
        }
        Event::AuthenticateDataReceived { authenticate_data } => {
            format!("{e:?} {}", show_all(&AuthenticateDataCodec::default().encode(authenticate_data).dump()))
        }
        Event::ResponseSent { response, .. } => {
            // Handles differ from server to server
            format!("ResponseSent {}", show_all(&enc_response(response)))
        }
        e => format!("{e:?}"),
    }
}
pub fn show_all(b: &[u8]) -> String {
    b.escape_ascii().to_string()
}
pub fn show_result_full(r: &Result<Event, Interrupt<Error>>) -> String {
    match r {
        Err(Interrupt::Io(Io::NeedMoreInput)) => "NeedMoreInput".into(),
        Err(Interrupt::Io(Io::Output(b))) => format!("Output {}", show_all(b)),
        Err(Interrupt::Error(e)) => {
            let (n, d) = match e {
                Error::ExpectedCrlfGotLf { discarded_bytes } => ("ExpectedCrlfGotLf", discarded_bytes),
                Error::MalformedMessage { discarded_bytes } => ("MalformedMessage", discarded_bytes),
                Error::LiteralTooLong { discarded_bytes } => ("LiteralTooLong", discarded_bytes),
                Error::CommandTooLong { discarded_bytes } => ("CommandTooLong", discarded_bytes),
            };
            format!("{n} {}", show_all(d.raw()))
        }
        Ok(e) => reveal(e),
    }
}

#[allow(unused)]
fn unused(_: Tag) {}
