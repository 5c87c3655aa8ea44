//! Monitor for `imap_next::client::Client`: judges every boundary call.
use std::collections::{BTreeMap, VecDeque};

use bounded_static::IntoBoundedStatic;
use imap_codec::{
    decode::{Decoder, ResponseDecodeError},
    encode::{Encoder, Fragment},
    CommandCodec, GreetingCodec, ResponseCodec,
};
use imap_next::{
    client::{Client, CommandHandle, Error, Event, Options},
    Interrupt, Io, State,
};
use imap_types::{
    auth::AuthenticateData,
    command::{Command, CommandBody},
    core::LiteralMode,
    response::{CommandContinuationRequest, Greeting, Response, Status, StatusBody, StatusKind, Tagged},
};
use mon_common::{guard, mismatch, show, Mismatch};

use crate::{
    gen::{enc_auth_data, enc_idle_done, Raw},
    scan::{Decoded, Found, Scan},
    server_mon::{panic_mismatch, show_all},
};

#[derive(Clone, Debug)]
pub enum Item {
    Greeting(Greeting<'static>),
    Response(Response<'static>),
    BareLf,
    Malformed,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Plain,
    Auth,
    Idle,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Phase {
    /// Bytes of the current segment are allowed to go out.
    Sending,
    /// Sync literal announced; waits for the server.
    WaitLiteral,
    /// Everything is out, the final (plain) or start (auth, idle) report is due.
    ReportDue,
    /// AUTHENTICATE/IDLE: waits for the server.
    WaitServer,
    /// AUTHENTICATE/IDLE: the user may supply data / end idle.
    WaitUser,
    /// Authenticate data or DONE may go out.
    SendingReply,
    /// DONE is out; IdleDoneSent due.
    DoneReportDue,
}

struct Cur {
    handle: CommandHandle,
    command: Command<'static>,
    kind: Kind,
    phase: Phase,
    /// Front: what is left of the segment that may be sent now.
    segments: VecDeque<Vec<u8>>,
    reply: Vec<u8>,
}

#[derive(Debug, Clone)]
pub enum Outcome {
    Need,
    Out(Vec<u8>),
    Greeting(Greeting<'static>),
    /// A response was delivered (however classified).
    Response(Response<'static>, Class),
    Error(Item),
    Sent(CommandHandle, Command<'static>),
    AuthStarted(CommandHandle),
    IdleSent(CommandHandle),
    DoneSent(CommandHandle),
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Class {
    Unattributed,
    Rejected(CommandHandle),
    AuthStatus(CommandHandle),
    AuthContinue(CommandHandle),
    IdleAccepted(CommandHandle),
    IdleRejected(CommandHandle),
}

impl Class {
    fn name(&self) -> &'static str {
        match self {
            Class::Unattributed => "unattributed",
            Class::Rejected(_) => "command rejected",
            Class::AuthStatus(_) => "authenticate status",
            Class::AuthContinue(_) => "authenticate continuation",
            Class::IdleAccepted(_) => "idle accepted",
            Class::IdleRejected(_) => "idle rejected",
        }
    }
}

pub struct CliMon {
    pub client: Client,
    relaxed: bool,
    pub greeted: bool,
    inbuf: Vec<u8>,
    scan: Scan,
    item: Option<(Item, usize)>,
    queue: VecDeque<(CommandHandle, Command<'static>)>,
    cur: Option<Cur>,
    pub handles: Vec<CommandHandle>,
    pub log: Vec<String>,
    /// When set: every debug and display representation seen so far.
    pub texts: Option<Vec<String>>,
    pub sent: Vec<u8>,
    /// Everything received so far.
    pub fed: Vec<u8>,
    pub enqueued: Vec<Command<'static>>,
    pub counts: BTreeMap<String, u64>,
    pub trace: Vec<(u8, u32)>,
    empty_outs: u32,
    pub finals: u64,
}

fn decode_greeting(b: &[u8]) -> Decoded<Item> {
    match GreetingCodec::default().decode(b) {
        Ok((rest, g)) if rest.is_empty() => Decoded::Msg(Item::Greeting(g.into_static())),
        _ => Decoded::Bad,
    }
}
fn decode_response(b: &[u8]) -> Decoded<Item> {
    match ResponseCodec::default().decode(b) {
        Ok((rest, g)) if rest.is_empty() => Decoded::Msg(Item::Response(g.into_static())),
        Err(ResponseDecodeError::LiteralFound { length }) => {
            Decoded::Literal { tag: None, length, mode: LiteralMode::NonSync }
        }
        _ => Decoded::Bad,
    }
}

/// Byte runs of a command between the points where it must wait for the server.
pub fn segments(command: &Command) -> VecDeque<Vec<u8>> {
    let mut v: VecDeque<Vec<u8>> = VecDeque::new();
    let mut cur = vec![];
    for f in CommandCodec::default().encode(command) {
        match f {
            Fragment::Line { data } | Fragment::Literal { data, mode: LiteralMode::NonSync } => cur.extend(data),
            Fragment::Literal { data, mode: LiteralMode::Sync } => {
                v.push_back(std::mem::take(&mut cur));
                cur.extend(data);
            }
        }
    }
    v.push_back(cur);
    v
}

impl CliMon {
    pub fn new(relaxed: bool) -> Result<Self, Mismatch> {
        let mut o = Options::default();
        o.crlf_relaxed = relaxed;
        let client = guard(|| Client::new(o)).map_err(|p| panic_mismatch("Client::new", p))?;
        Ok(Self {
            client,
            relaxed,
            greeted: false,
            inbuf: vec![],
            scan: Scan::default(),
            item: None,
            queue: VecDeque::new(),
            cur: None,
            handles: vec![],
            log: vec![],
            texts: None,
            sent: vec![],
            fed: vec![],
            enqueued: vec![],
            counts: BTreeMap::new(),
            trace: vec![],
            empty_outs: 0,
            finals: 0,
        })
    }
    fn count(&mut self, k: &str) {
        *self.counts.entry(k.to_owned()).or_default() += 1;
    }
    pub fn phase(&self) -> Option<(Kind, Phase)> {
        self.cur.as_ref().map(|c| (c.kind, c.phase))
    }
    pub fn current_tag(&self) -> Option<imap_types::core::Tag<'static>> {
        self.cur.as_ref().map(|c| c.command.tag.clone())
    }
    pub fn queued_tag(&self, i: usize) -> Option<imap_types::core::Tag<'static>> {
        self.queue.get(i).map(|c| c.1.tag.clone())
    }
    pub fn queued(&self) -> usize {
        self.queue.len()
    }
    pub fn is_strict(&self) -> bool {
        !self.relaxed
    }
    pub fn idle(&self) -> bool {
        self.cur.is_none() && self.queue.is_empty()
    }
    fn start_next(&mut self) {
        if self.greeted && self.cur.is_none() {
            if let Some((handle, command)) = self.queue.pop_front() {
                let kind = match command.body {
                    CommandBody::Authenticate { .. } => Kind::Auth,
                    CommandBody::Idle => Kind::Idle,
                    _ => Kind::Plain,
                };
                self.cur = Some(Cur {
                    handle,
                    segments: segments(&command),
                    command,
                    kind,
                    phase: Phase::Sending,
                    reply: vec![],
                });
            }
        }
    }
    fn finish_current(&mut self) -> Cur {
        let c = self.cur.take().unwrap();
        self.finals += 1;
        self.start_next();
        c
    }

    pub fn feed(&mut self, bytes: &[u8]) -> Result<(), Mismatch> {
        self.log.push(format!("feed {}", show(bytes)));
        self.inbuf.extend_from_slice(bytes);
        self.fed.extend_from_slice(bytes);
        let s = &mut self.client;
        guard(|| s.enqueue_input(bytes)).map_err(|p| panic_mismatch("enqueue_input", p))?;
        self.look();
        Ok(())
    }
    fn look(&mut self) {
        while self.item.is_none() {
            let decode = if self.greeted { decode_response } else { decode_greeting };
            match self.scan.step(&self.inbuf, None, self.relaxed, decode) {
                Found::Incomplete => return,
                Found::Msg(m, n) => self.item = Some((m, n)),
                Found::BareLf(n) => self.item = Some((Item::BareLf, n)),
                Found::Bad(n) => self.item = Some((Item::Malformed, n)),
                Found::TooLong(_) => unreachable!(),
                Found::Literal { end, length, .. } => {
                    self.scan.accept_literal(end, length);
                    self.count("literal in response");
                }
            }
        }
    }
    fn consume(&mut self) -> Item {
        let (item, n) = self.item.take().unwrap();
        self.inbuf.drain(..n);
        self.scan = Scan::default();
        if let Item::Greeting(_) = item {
            self.greeted = true;
            self.start_next();
        }
        self.look();
        item
    }
    fn situation(&self) -> String {
        format!(
            "current command {:?}, waiting bytes {}",
            self.cur.as_ref().map(|c| (c.kind, c.phase, c.command.tag.inner().to_owned())),
            show(&self.inbuf)
        )
    }
    fn phase_props(&self) -> &'static [&'static str] {
        match self.phase() {
            Some((Kind::Plain, Phase::WaitLiteral)) => &["C07"],
            Some((Kind::Plain, _)) => &["C07"],
            Some((Kind::Auth, _)) => &["C09"],
            Some((Kind::Idle, _)) => &["C10"],
            None => &[],
        }
    }
    fn err(&self, props: &[&'static str], what: String) -> Mismatch {
        let mut p = props.to_vec();
        p.extend_from_slice(self.phase_props());
        Mismatch { props: p, what: format!("{what} ({})", self.situation()) }
    }

    /// How must the response that is due be classified right now? None: silently.
    fn classify(&self, r: &Response) -> Option<Class> {
        let Some(c) = &self.cur else { return Some(Class::Unattributed) };
        Some(match r {
            Response::Status(Status::Tagged(Tagged { tag, body: StatusBody { kind, .. } }))
                if *tag == c.command.tag =>
            {
                match c.kind {
                    Kind::Plain if c.phase == Phase::WaitLiteral && *kind == StatusKind::Bad => Class::Rejected(c.handle),
                    Kind::Plain => Class::Unattributed,
                    Kind::Auth if c.phase == Phase::Sending => Class::Unattributed,
                    Kind::Auth => Class::AuthStatus(c.handle),
                    Kind::Idle if matches!(c.phase, Phase::Sending | Phase::DoneReportDue) => Class::Unattributed,
                    Kind::Idle => Class::IdleRejected(c.handle),
                }
            }
            Response::CommandContinuationRequest(_) => match (c.kind, c.phase) {
                (Kind::Plain, Phase::WaitLiteral) => return None,
                (Kind::Auth, Phase::WaitServer) => Class::AuthContinue(c.handle),
                (Kind::Idle, Phase::WaitServer) => Class::IdleAccepted(c.handle),
                _ => Class::Unattributed,
            },
            _ => Class::Unattributed,
        })
    }

    fn take_output(&mut self, mut bytes: &[u8]) -> Result<(), Mismatch> {
        while !bytes.is_empty() {
            if !self.greeted {
                return Err(self.err(&["C08"], format!("client output {} before the greeting", show(bytes))));
            }
            // A due continuation request is consumed silently and releases the literal
            if let (Some((Kind::Plain, Phase::WaitLiteral)), Some((Item::Response(r), _))) = (self.phase(), &self.item) {
                if self.classify(r).is_none() {
                    self.consume();
                    self.count("continuation request released a literal");
                    self.trace.push((40, 0));
                    let c = self.cur.as_mut().unwrap();
                    c.segments.pop_front();
                    c.phase = Phase::Sending;
                }
            }
            let Some(c) = self.cur.as_mut() else {
                return Err(self.err(&["C08"], format!("client output {} although no command is queued", show(bytes))));
            };
            let allowed: &mut Vec<u8> = match c.phase {
                Phase::Sending => &mut c.segments[0],
                Phase::SendingReply => &mut c.reply,
                _ => {
                    let p = c.phase;
                    return Err(self.err(&["C08"], format!("client output {} while nothing may be sent ({p:?})", show(bytes))));
                }
            };
            let n = allowed.len().min(bytes.len());
            if allowed[..n] != bytes[..n] {
                let a = show(allowed);
                return Err(self.err(&["C08", "C16"], format!("client output {} instead of {a}", show(bytes))));
            }
            allowed.drain(..n);
            bytes = &bytes[n..];
            if allowed.is_empty() {
                let (what, next) = match (c.phase, c.kind) {
                    (Phase::Sending, Kind::Plain) if c.segments.len() > 1 => ("literal announced", Phase::WaitLiteral),
                    (Phase::Sending, _) => ("command completely output", Phase::ReportDue),
                    (_, Kind::Auth) => ("authenticate data output", Phase::WaitServer),
                    _ => ("DONE output", Phase::DoneReportDue),
                };
                c.phase = next;
                self.trace.push((41, next as u32));
                self.count(what);
            }
        }
        Ok(())
    }

    fn deliver(&mut self, got: Response<'static>, class: Class) -> Result<Outcome, Mismatch> {
        let base = &["C11", "C02", "C16", "C03"][..];
        let Some((item, _)) = &self.item else {
            let mut p = base.to_vec();
            p.extend(["C01", "C04"]);
            return Err(self.err(&p, format!("client delivered {got:?} although no complete response is waiting")));
        };
        let Item::Response(due) = item else {
            let mut p = base.to_vec();
            if matches!(item, Item::BareLf) {
                p.push("C04");
            }
            return Err(self.err(&p, format!("client delivered {got:?}, due was {item:?}")));
        };
        if *due != got {
            return Err(self.err(&["C11", "C02", "C16", "C03", "C04"], format!("client delivered {got:?}, due was {due:?}")));
        }
        let expected = self.classify(due);
        if expected != Some(class) {
            let mut p = vec!["C11"];
            match class {
                Class::AuthStatus(_) | Class::AuthContinue(_) => p.push("C09"),
                Class::IdleAccepted(_) | Class::IdleRejected(_) => p.push("C10"),
                Class::Rejected(_) => p.extend(["C07", "C08"]),
                Class::Unattributed => {}
            }
            if matches!(class, Class::AuthStatus(_) | Class::IdleRejected(_)) {
                p.push("C08");
            }
            return Err(self.err(&p, format!("client classified {got:?} as {class:?}, expected {expected:?} (None: silent)")));
        }
        self.consume();
        self.count(&format!("response: {}", class.name()));
        let phase = self.phase().map_or(99, |(k, p)| k as u32 * 16 + p as u32);
        self.trace.push((50 + response_code(&got), phase));
        Ok(Outcome::Response(got, class))
    }

    fn check_command(&self, what: &str, cur: &Cur, handle: CommandHandle, command: &Command<'static>) -> Result<(), Mismatch> {
        if cur.handle != handle || cur.command != *command {
            return Err(self.err(&["C08", "C16"], format!(
                "{what} carries {handle:?} {command:?} instead of {:?} {:?}", cur.handle, cur.command)));
        }
        Ok(())
    }

    /// Call `next` once and judge the result.
    pub fn next(&mut self) -> Result<Outcome, Mismatch> {
        let s = &mut self.client;
        let r = guard(|| s.next()).map_err(|p| panic_mismatch("next", p))?;
        self.log.push(format!("next -> {}", show_result(&r)));
        if let Some(t) = &mut self.texts {
            t.push(format!("{:?}\n{:#?}", self.client, self.client));
            match &r {
                Ok(e) => t.push(format!("{e:?}\n{e:#?}")),
                Err(Interrupt::Error(e)) => {
                    t.push(format!("{e:?}\n{e:#?}\n{e}\n{e:#}"));
                    let mut src = std::error::Error::source(e);
                    while let Some(s) = src {
                        t.push(format!("{s:?}\n{s}"));
                        src = s.source();
                    }
                    t.push(format!("{:?}", Interrupt::<&Error>::Error(e)));
                }
                Err(Interrupt::Io(_)) => {}
            }
        }
        match r {
            Err(Interrupt::Io(Io::NeedMoreInput)) => {
                self.empty_outs = 0;
                if let Some((item, _)) = &self.item {
                    let mut p = vec!["C15", "C11", "C02", "C01", "C03"];
                    if self.relaxed || matches!(item, Item::BareLf) {
                        p.push("C04");
                    }
                    return Err(self.err(&p, format!("client asks for more input although {item:?} is due")));
                }
                match self.phase() {
                    Some((_, p @ (Phase::Sending | Phase::SendingReply))) => {
                        return Err(self.err(&["C15", "C08", "C16"], format!("client asks for more input although it has something to send ({p:?})")));
                    }
                    Some((_, p @ (Phase::ReportDue | Phase::DoneReportDue))) => {
                        return Err(self.err(&["C15", "C08", "C16"], format!("client asks for more input although a report is due ({p:?})")));
                    }
                    _ => {}
                }
                self.count("need-more-input accepted");
                self.trace.push((0, 0));
                Ok(Outcome::Need)
            }
            Err(Interrupt::Io(Io::Output(b))) => {
                if b.is_empty() {
                    self.empty_outs += 1;
                    if self.empty_outs > 8 {
                        return Err(mismatch!(["C03", "C15"], "client keeps returning empty output"));
                    }
                }
                self.sent.extend_from_slice(&b);
                self.take_output(&b)?;
                Ok(Outcome::Out(b))
            }
            Err(Interrupt::Error(e)) => {
                let (lf, d) = match &e {
                    Error::ExpectedCrlfGotLf { discarded_bytes } => (true, discarded_bytes),
                    Error::MalformedMessage { discarded_bytes } => (false, discarded_bytes),
                };
                let ok = match &self.item {
                    Some((Item::BareLf, _)) => lf,
                    Some((Item::Malformed, _)) => !lf,
                    _ => false,
                };
                if !ok {
                    let what = format!("client reported {e:?} but due was {:?}", self.item);
                    return Err(self.err(&["C02", "C03", "C04", "C11", "C01"], what));
                }
                let n = self.item.as_ref().unwrap().1;
                let d = d.raw();
                if *d != self.inbuf[..n] {
                    let what = format!("client error carries {} instead of {}", show(d), show(&self.inbuf[..n]));
                    let mut p = vec!["C02", "C03", "C01"];
                    if lf {
                        p.push("C04");
                    }
                    return Err(self.err(&p, what));
                }
                let item = self.consume();
                self.count(if lf { "bare-LF error" } else { "malformed error" });
                self.trace.push((48 + lf as u8, n as u32));
                Ok(Outcome::Error(item))
            }
            Ok(ev) => match ev {
                Event::GreetingReceived { greeting } => {
                    match &self.item {
                        Some((Item::Greeting(g), _)) if *g == greeting => {}
                        due => {
                            let what = format!("client delivered {greeting:?}, due was {due:?}");
                            return Err(self.err(&["C11", "C02", "C16", "C03", "C04"], what));
                        }
                    }
                    self.consume();
                    self.count("greeting");
                    self.trace.push((42, 0));
                    Ok(Outcome::Greeting(greeting))
                }
                Event::CommandSent { handle, command } => {
                    match &self.cur {
                        Some(c) if c.kind == Kind::Plain && c.phase == Phase::ReportDue => {
                            self.check_command("CommandSent", c, handle, &command)?;
                        }
                        _ => return Err(self.err(&["C08"], format!("unexpected CommandSent({handle:?})"))),
                    }
                    self.finish_current();
                    self.count("final report: sent");
                    self.trace.push((43, 0));
                    Ok(Outcome::Sent(handle, command))
                }
                Event::AuthenticateStarted { handle } => match &mut self.cur {
                    Some(c) if c.kind == Kind::Auth && c.phase == Phase::ReportDue && c.handle == handle => {
                        c.phase = Phase::WaitServer;
                        self.count("report: authenticate started");
                        Ok(Outcome::AuthStarted(handle))
                    }
                    _ => Err(self.err(&["C08", "C09"], format!("unexpected AuthenticateStarted({handle:?})"))),
                },
                Event::IdleCommandSent { handle } => match &mut self.cur {
                    Some(c) if c.kind == Kind::Idle && c.phase == Phase::ReportDue && c.handle == handle => {
                        c.phase = Phase::WaitServer;
                        self.count("report: idle sent");
                        Ok(Outcome::IdleSent(handle))
                    }
                    _ => Err(self.err(&["C08", "C10"], format!("unexpected IdleCommandSent({handle:?})"))),
                },
                Event::IdleDoneSent { handle } => match &self.cur {
                    Some(c) if c.kind == Kind::Idle && c.phase == Phase::DoneReportDue && c.handle == handle => {
                        self.finish_current();
                        self.count("final report: idle done");
                        self.trace.push((44, 0));
                        Ok(Outcome::DoneSent(handle))
                    }
                    _ => Err(self.err(&["C08", "C10"], format!("unexpected IdleDoneSent({handle:?})"))),
                },
                Event::CommandRejected { handle, command, status } => {
                    if let Some(c) = &self.cur {
                        if c.handle == handle {
                            self.check_command("CommandRejected", c, handle, &command)?;
                        }
                    }
                    let o = self.deliver(Response::Status(status), Class::Rejected(handle))?;
                    self.finish_current();
                    Ok(o)
                }
                Event::AuthenticateContinuationRequestReceived { handle, continuation_request } => {
                    let o = self.deliver(
                        Response::CommandContinuationRequest(continuation_request),
                        Class::AuthContinue(handle),
                    )?;
                    self.cur.as_mut().unwrap().phase = Phase::WaitUser;
                    Ok(o)
                }
                Event::AuthenticateStatusReceived { handle, command_authenticate, status } => {
                    let command: Command<'static> = command_authenticate.into();
                    if let Some(c) = &self.cur {
                        if c.handle == handle {
                            self.check_command("AuthenticateStatusReceived", c, handle, &command)?;
                        }
                    }
                    let o = self.deliver(Response::Status(status), Class::AuthStatus(handle))?;
                    self.finish_current();
                    Ok(o)
                }
                Event::IdleAccepted { handle, continuation_request } => {
                    let o = self.deliver(
                        Response::CommandContinuationRequest(continuation_request),
                        Class::IdleAccepted(handle),
                    )?;
                    self.cur.as_mut().unwrap().phase = Phase::WaitUser;
                    Ok(o)
                }
                Event::IdleRejected { handle, status } => {
                    let o = self.deliver(Response::Status(status), Class::IdleRejected(handle))?;
                    self.finish_current();
                    Ok(o)
                }
                Event::DataReceived { data } => self.deliver(Response::Data(data), Class::Unattributed),
                Event::StatusReceived { status } => self.deliver(Response::Status(status), Class::Unattributed),
                Event::ContinuationRequestReceived { continuation_request } => self.deliver(
                    Response::CommandContinuationRequest(continuation_request),
                    Class::Unattributed,
                ),
            },
        }
    }

    pub fn settle(&mut self) -> Result<Vec<Outcome>, Mismatch> {
        let budget = 64 + 2 * self.inbuf.len() + 8 * (self.queue.len() + 1);
        let mut v = vec![];
        let mut steps = 0;
        while steps < budget {
            let o = self.next()?;
            let done = matches!(o, Outcome::Need);
            // (There may be as many pieces of output as there are bytes owed.)
            steps += !matches!(&o, Outcome::Out(b) if !b.is_empty()) as usize;
            v.push(o);
            if done {
                return Ok(v);
            }
        }
        Err(mismatch!(["C03", "C15"], "client does not come to rest within {budget} steps"))
    }

    // ------------------------------------------------------------------------------ user calls

    pub fn enqueue(&mut self, command: Command<'static>) -> Result<CommandHandle, Mismatch> {
        let (s, c) = (&mut self.client, command.clone());
        let h = guard(|| s.enqueue_command(c)).map_err(|p| panic_mismatch("enqueue_command", p))?;
        self.log.push(format!("enqueue_command {command:?} = {h:?}"));
        if self.handles.contains(&h) {
            return Err(mismatch!(["C17", "C08"], "handle {h:?} was returned twice"));
        }
        self.handles.push(h);
        self.enqueued.push(command.clone());
        self.queue.push_back((h, command));
        self.start_next();
        Ok(h)
    }
    pub fn set_authenticate_data(&mut self, d: AuthenticateData<'static>) -> Result<bool, Mismatch> {
        let (s, x) = (&mut self.client, d.clone());
        let r = guard(|| s.set_authenticate_data(x)).map_err(|p| panic_mismatch("set_authenticate_data", p))?;
        self.log.push(format!("set_authenticate_data -> {}", if r.is_ok() { "accepted" } else { "refused" }));
        self.count(if r.is_ok() { "call set_authenticate_data accepted" } else { "call set_authenticate_data refused" });
        self.trace.push((45, r.is_ok() as u32));
        let due = matches!(self.phase(), Some((Kind::Auth, Phase::WaitUser)));
        match r {
            Ok(h) => {
                if !due || self.cur.as_ref().unwrap().handle != h {
                    return Err(self.err(&["C09"], format!("set_authenticate_data accepted with {h:?}")));
                }
                let c = self.cur.as_mut().unwrap();
                c.reply = enc_auth_data(&d);
                c.phase = Phase::SendingReply;
            }
            Err(back) => {
                if due {
                    return Err(self.err(&["C09"], "set_authenticate_data refused".into()));
                }
                if back != d {
                    return Err(self.err(&["C09"], format!("refused data handed back as {back:?} instead of {d:?}")));
                }
            }
        }
        Ok(due)
    }
    pub fn set_idle_done(&mut self) -> Result<bool, Mismatch> {
        let s = &mut self.client;
        let r = guard(|| s.set_idle_done()).map_err(|p| panic_mismatch("set_idle_done", p))?;
        self.log.push(format!("set_idle_done -> {r:?}"));
        self.count(if r.is_some() { "call set_idle_done accepted" } else { "call set_idle_done refused" });
        self.trace.push((46, r.is_some() as u32));
        let due = matches!(self.phase(), Some((Kind::Idle, Phase::WaitUser)));
        match r {
            Some(h) => {
                if !due || self.cur.as_ref().unwrap().handle != h {
                    return Err(self.err(&["C10"], format!("set_idle_done accepted with {h:?}")));
                }
                let c = self.cur.as_mut().unwrap();
                c.reply = enc_idle_done();
                c.phase = Phase::SendingReply;
            }
            None if due => return Err(self.err(&["C10"], "set_idle_done refused".into())),
            None => {}
        }
        Ok(due)
    }
    pub fn log_text(&self) -> String {
        self.log.join("\n")
    }
}

fn response_code(r: &Response) -> u8 {
    match r {
        Response::Data(_) => 0,
        Response::Status(Status::Tagged(_)) => 1,
        Response::Status(_) => 2,
        Response::CommandContinuationRequest(CommandContinuationRequest::Basic(_)) => 3,
        Response::CommandContinuationRequest(_) => 4,
    }
}

pub fn show_result(r: &Result<Event, Interrupt<Error>>) -> String {
    match r {
        Err(Interrupt::Io(Io::NeedMoreInput)) => "NeedMoreInput".into(),
        Err(Interrupt::Io(Io::Output(b))) => format!("Output {}", show(b)),
        Err(Interrupt::Error(e)) => {
            let (n, d) = match e {
                Error::ExpectedCrlfGotLf { discarded_bytes } => ("ExpectedCrlfGotLf", discarded_bytes),
                Error::MalformedMessage { discarded_bytes } => ("MalformedMessage", discarded_bytes),
            };
            format!("{n} {}", show(d.raw()))
        }
        Ok(e) => show(format!("{e:?}").as_bytes()),
    }
}

/// Like Debug, but with everything secret visible and without handle numbers (for comparing).
fn reveal(e: &Event) -> String {
    let mut s = format!("{e:?}");
    // CommandHandle(generator, id): the generator differs from client to client
    while let Some(a) = s.find("CommandHandle(") {
        let end = s[a..].find(')').map_or(s.len(), |n| a + n + 1);
        s.replace_range(a..end, "<handle>");
    }
    match e {
        Event::CommandSent { command, .. } | Event::CommandRejected { command, .. } => {
            s += &show_all(&CommandCodec::default().encode(command).dump());
        }
        _ => {}
    }
    s
}
pub fn show_result_full(r: &Result<Event, Interrupt<Error>>) -> String {
    match r {
        Err(Interrupt::Io(Io::NeedMoreInput)) => "NeedMoreInput".into(),
        Err(Interrupt::Io(Io::Output(b))) => format!("Output {}", show_all(b)),
        Err(Interrupt::Error(e)) => {
            let (n, d) = match e {
                Error::ExpectedCrlfGotLf { discarded_bytes } => ("ExpectedCrlfGotLf", discarded_bytes),
                Error::MalformedMessage { discarded_bytes } => ("MalformedMessage", discarded_bytes),
            };
            format!("{n} {}", show_all(d.raw()))
        }
        Ok(e) => reveal(e),
    }
}
