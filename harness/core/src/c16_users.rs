//! C16 as the two users see it: a real client and a real server connected by pipes, and nothing
//! but what the users issue and what they are told.
use std::collections::VecDeque;

use imap_codec::{encode::Encoder, CommandCodec};
use imap_next::{
    client::{self, Client},
    server::{self, Server},
    Interrupt, Io, State,
};
use imap_types::{
    auth::AuthenticateData,
    command::{Command, CommandBody},
    core::Tag,
    response::{Greeting, Response, Status},
};
use mon_common::{guard, hash_of, Mismatch, Rng};

use crate::{
    c16::{refused, unsuitable},
    gen::{self, Gen},
    server_mon::SrvOpts,
    Seen,
};

fn bad(what: String) -> Mismatch {
    Mismatch { props: vec!["C16"], what }
}
fn died(who: &str, p: impl std::fmt::Debug) -> Mismatch {
    Mismatch { props: vec!["C03", "C16"], what: format!("{who} panicked: {p:?}") }
}

struct Users {
    c: Client,
    s: Server,
    g: Gen,
    max_literal: u32,
    max_command: u32,
    reject: String,
    c2s: VecDeque<u8>,
    s2c: VecDeque<u8>,
    log: Vec<String>,
    trace: Vec<(u8, usize)>,
    greeting: Greeting<'static>,
    greeted: bool,
    // Client's user
    issued: Vec<Command<'static>>,
    /// Commands whose end was told to the client's user
    ended: usize,
    data_issued: Vec<AuthenticateData<'static>>,
    dones_issued: usize,
    want_data: bool,
    want_done: bool,
    rejected: Vec<Tag<'static>>,
    responses_received: Vec<Response<'static>>,
    // Server's user
    received: Vec<Command<'static>>,
    data_received: Vec<AuthenticateData<'static>>,
    dones_received: usize,
    responses_issued: Vec<Response<'static>>,
    responses_sent: usize,
    auth: Option<Tag<'static>>,
    /// The server's user must answer the client's AUTHENTICATE command or data.
    auth_due: bool,
    idle: Option<Tag<'static>>,
    most: usize,
}

impl Users {
    fn client_step(&mut self) -> Result<bool, Mismatch> {
        use client::Event::*;
        let c = &mut self.c;
        let r = guard(|| c.next()).map_err(|p| died("the client", p))?;
        let event = match r {
            Ok(e) => e,
            Err(Interrupt::Io(Io::NeedMoreInput)) => return Ok(false),
            Err(Interrupt::Io(Io::Output(b))) => {
                self.trace.push((0, b.len()));
                self.c2s.extend(b);
                return Ok(true);
            }
            Err(Interrupt::Error(e)) => return Err(bad(format!("the client reported \"{e}\" although the server only sent well-formed responses"))),
        };
        self.log.push(format!("client: {event:?}"));
        let mut last = None;
        match event {
            GreetingReceived { greeting } => {
                if self.greeted || greeting != self.greeting {
                    return Err(bad(format!("the client received the greeting {greeting:?} instead of {:?}", self.greeting)));
                }
                self.greeted = true;
            }
            CommandSent { command, .. } => last = Some(command.tag),
            CommandRejected { command, status, .. } => {
                let own = Status::bad(Some(command.tag.clone()), None, self.reject.clone()).unwrap();
                if status != own {
                    return Err(bad(format!("the command {:?} was rejected with {status:?}, but the server answers {own:?}", command.tag)));
                }
                self.rejected.push(command.tag.clone());
                last = Some(command.tag);
            }
            AuthenticateStarted { .. } | IdleCommandSent { .. } => {}
            AuthenticateContinuationRequestReceived { continuation_request, .. } => {
                self.want_data = true;
                self.responses_received.push(Response::CommandContinuationRequest(continuation_request));
            }
            AuthenticateStatusReceived { status, command_authenticate, .. } => {
                self.want_data = false;
                self.responses_received.push(Response::Status(status));
                last = Some(command_authenticate.tag);
            }
            IdleAccepted { continuation_request, .. } => {
                self.want_done = true;
                self.responses_received.push(Response::CommandContinuationRequest(continuation_request));
            }
            IdleRejected { status, .. } => {
                if let Status::Tagged(t) = &status {
                    last = Some(t.tag.clone());
                }
                self.responses_received.push(Response::Status(status));
            }
            IdleDoneSent { .. } => last = self.issued.get(self.ended).map(|c| c.tag.clone()),
            DataReceived { data } => self.responses_received.push(Response::Data(data)),
            StatusReceived { status } => self.responses_received.push(Response::Status(status)),
            ContinuationRequestReceived { continuation_request } => {
                self.responses_received.push(Response::CommandContinuationRequest(continuation_request))
            }
        }
        if let Some(tag) = last {
            if self.issued.get(self.ended).map(|c| &c.tag) != Some(&tag) {
                return Err(bad(format!("the end of command {tag:?} was reported to the client's user when {:?} was due", self.issued.get(self.ended).map(|c| &c.tag))));
            }
            self.ended += 1;
        }
        Ok(true)
    }
    fn server_step(&mut self) -> Result<bool, Mismatch> {
        use server::Event::*;
        let s = &mut self.s;
        let r = guard(|| s.next()).map_err(|p| died("the server", p))?;
        let event = match r {
            Ok(e) => e,
            Err(Interrupt::Io(Io::NeedMoreInput)) => return Ok(false),
            Err(Interrupt::Io(Io::Output(b))) => {
                self.trace.push((1, b.len()));
                self.s2c.extend(b);
                return Ok(true);
            }
            Err(Interrupt::Error(server::Error::LiteralTooLong { .. })) => return Ok(true),
            Err(Interrupt::Error(e)) => return Err(bad(format!("the server reported \"{e}\" although the client only sent well-formed commands"))),
        };
        self.log.push(format!("server: {event:?}"));
        match event {
            GreetingSent { .. } => {}
            ResponseSent { .. } => self.responses_sent += 1,
            CommandReceived { command } => self.received.push(command),
            CommandAuthenticateReceived { command_authenticate } => {
                self.auth = Some(command_authenticate.tag.clone());
                self.auth_due = true;
                self.received.push(command_authenticate.into());
            }
            AuthenticateDataReceived { authenticate_data } => {
                self.auth_due = true;
                self.data_received.push(authenticate_data);
            }
            IdleCommandReceived { tag } => {
                self.idle = Some(tag.clone());
                self.received.push(Command { tag, body: CommandBody::Idle });
            }
            IdleDoneReceived => self.dones_received += 1,
        }
        Ok(true)
    }
    fn deliver(&mut self, to_server: bool, all: bool) -> Result<bool, Mismatch> {
        let q = if to_server { &mut self.c2s } else { &mut self.s2c };
        if q.is_empty() {
            return Ok(false);
        }
        let n = match self.g.rng.below(4) {
            _ if all => q.len(),
            0 => 1,
            1 => q.len(),
            2 => self.g.rng.range(1, 5).min(q.len()),
            _ => self.g.rng.range(1, q.len()),
        };
        let b: Vec<u8> = q.drain(..n).collect();
        self.trace.push((2 + to_server as u8, n));
        let (c, s) = (&mut self.c, &mut self.s);
        guard(move || if to_server { s.enqueue_input(&b) } else { c.enqueue_input(&b) }).map_err(|p| died("enqueue_input", p))?;
        Ok(true)
    }
    fn enqueue(&mut self) -> Result<(), Mismatch> {
        let max = self.max_literal;
        for _ in 0..20 {
            let c = match self.g.rng.weighted(&[64, 18, 18]) {
                0 => {
                    self.g.max_literal = match self.g.rng.below(10) {
                        0..=6 => max as usize,
                        _ => max as usize + 5,
                    };
                    self.g.plain_command()
                }
                1 => self.g.auth_command(),
                _ => self.g.idle_command(),
            };
            if unsuitable(&c, max) || !gen::command_round_trips(&c) || gen::enc_command(&c).len() > self.max_command as usize {
                continue;
            }
            self.log.push(format!("client's user: {c:?}"));
            let (client, command) = (&mut self.c, c.clone());
            guard(move || client.enqueue_command(command)).map_err(|p| died("enqueue_command", p))?;
            self.issued.push(c);
            break;
        }
        Ok(())
    }
    /// Does what was asked for.
    fn client_user(&mut self) -> Result<bool, Mismatch> {
        if self.want_data {
            let d = self.g.auth_data();
            self.want_data = false;
            let (c, e) = (&mut self.c, d.clone());
            match guard(move || c.set_authenticate_data(e)).map_err(|p| died("set_authenticate_data", p))? {
                Ok(_) => self.data_issued.push(d),
                Err(_) => return Err(bad("the authenticate data that was asked for was refused".into())),
            }
            return Ok(true);
        }
        if self.want_done {
            self.want_done = false;
            let c = &mut self.c;
            match guard(move || c.set_idle_done()).map_err(|p| died("set_idle_done", p))? {
                Some(_) => self.dones_issued += 1,
                None => return Err(bad("ending the accepted IDLE was refused".into())),
            }
            return Ok(true);
        }
        Ok(false)
    }
    fn server_user(&mut self, finish: bool) -> Result<bool, Mismatch> {
        if !finish && self.responses_issued.len() - self.responses_received.len().min(self.responses_issued.len()) < self.most {
            for _ in 0..self.g.rng.below(3) {
                let r = if self.g.rng.chance(70) {
                    Response::Data(self.g.data())
                } else {
                    let t = self.received.last().filter(|c| !matches!(c.body, CommandBody::Authenticate { .. } | CommandBody::Idle)).map(|c| c.tag.clone());
                    let t = if self.g.rng.chance(50) { t } else { None };
                    Response::Status(self.g.status(t))
                };
                if !gen::response_round_trips(&r) {
                    continue;
                }
                let (s, x) = (&mut self.s, r.clone());
                guard(move || match x {
                    Response::Data(d) => s.enqueue_data(d),
                    Response::Status(t) => s.enqueue_status(t),
                    _ => unreachable!(),
                })
                .map_err(|p| died("enqueue", p))?;
                self.issue(r);
            }
        }
        if self.auth_due {
            self.auth_due = false;
            let s = &mut self.s;
            if !finish && self.g.rng.chance(60) {
                let c = self.g.continuation();
                let x = c.clone();
                if guard(move || s.authenticate_continue(x).is_err()).map_err(|p| died("authenticate_continue", p))? {
                    return Err(bad("the server's user could not continue AUTHENTICATE".into()));
                }
                self.issue(Response::CommandContinuationRequest(c));
            } else {
                let t = self.g.status(self.auth.take());
                let x = t.clone();
                if guard(move || s.authenticate_finish(x).is_err()).map_err(|p| died("authenticate_finish", p))? {
                    return Err(bad("the server's user could not finish AUTHENTICATE".into()));
                }
                self.issue(Response::Status(t));
            }
            return Ok(true);
        }
        if let Some(tag) = self.idle.take() {
            let s = &mut self.s;
            if self.g.rng.chance(65) {
                let c = self.g.continuation();
                let x = c.clone();
                if guard(move || s.idle_accept(x).is_err()).map_err(|p| died("idle_accept", p))? {
                    return Err(bad("the server's user could not accept IDLE".into()));
                }
                self.issue(Response::CommandContinuationRequest(c));
            } else {
                let t = self.g.status(Some(tag));
                let x = t.clone();
                if guard(move || s.idle_reject(x).is_err()).map_err(|p| died("idle_reject", p))? {
                    return Err(bad("the server's user could not reject IDLE".into()));
                }
                self.issue(Response::Status(t));
            }
            return Ok(true);
        }
        Ok(false)
    }
    fn issue(&mut self, r: Response<'static>) {
        self.log.push(format!("server's user: {r:?}"));
        self.responses_issued.push(r);
    }
    fn check(&self, end: bool) -> Result<(), Mismatch> {
        fn prefix<T: PartialEq + std::fmt::Debug>(issued: &[T], received: &[T], what: &str, end: bool) -> Result<(), Mismatch> {
            if let Some(i) = (0..received.len()).find(|i| issued.get(*i) != Some(&received[*i])) {
                return Err(bad(format!("{what} number {i} was received as {:?} but issued as {:?}", received[i], issued.get(i))));
            }
            if end && issued.len() != received.len() {
                return Err(bad(format!("only {} of {} {what}s arrived although both sides are at rest; missing {:?}", received.len(), issued.len(), issued[received.len()])));
            }
            Ok(())
        }
        let max = self.max_literal;
        let expected: Vec<_> = self.issued.iter().filter(|c| !refused(c, max)).cloned().collect();
        prefix(&expected, &self.received, "command", end)?;
        let refused: Vec<_> = self.issued.iter().filter(|c| refused(c, max)).map(|c| c.tag.clone()).collect();
        prefix(&refused, &self.rejected, "rejected command", end)?;
        prefix(&self.data_issued, &self.data_received, "authenticate data", end)?;
        prefix(&self.responses_issued, &self.responses_received, "response", end)?;
        if self.dones_received > self.dones_issued || (end && self.dones_received != self.dones_issued) {
            return Err(bad(format!("{} idle-dones received, {} issued", self.dones_received, self.dones_issued)));
        }
        if end && (self.ended != self.issued.len() || !self.greeted || self.responses_sent != self.responses_issued.len()) {
            return Err(bad(format!(
                "at rest with {} of {} commands and {} of {} responses reported as done",
                self.ended,
                self.issued.len(),
                self.responses_sent,
                self.responses_issued.len()
            )));
        }
        Ok(())
    }
    fn run(&mut self, steps: usize) -> Result<(), Mismatch> {
        for _ in 0..steps {
            match self.g.rng.below(9) {
                0 if self.issued.len() < self.ended + 4 => self.enqueue()?,
                1 => {
                    self.client_user()?;
                }
                2 => {
                    self.server_user(false)?;
                }
                3 | 4 => {
                    self.deliver(true, false)?;
                }
                5 | 6 => {
                    self.deliver(false, false)?;
                }
                7 => {
                    for _ in 0..self.g.rng.range(1, 6) {
                        if !self.client_step()? {
                            break;
                        }
                    }
                }
                _ => {
                    for _ in 0..self.g.rng.range(1, 6) {
                        if !self.server_step()? {
                            break;
                        }
                    }
                }
            }
            self.check(false)?;
        }
        for _ in 0..2_000_000 {
            let mut moved = self.deliver(true, true)?;
            moved |= self.deliver(false, true)?;
            moved |= self.client_step()?;
            moved |= self.server_step()?;
            if !moved {
                moved |= self.client_user()?;
                moved |= self.server_user(true)?;
            }
            if !moved {
                return self.check(true);
            }
        }
        Err(bad("client and server do not come to rest".into()))
    }
}

pub fn case(rng: &mut Rng) -> Seen {
    let mut g = Gen::new(Rng::new(rng.u64()));
    g.literals = 60;
    g.nonsync = 25;
    let max_literal = match rng.below(6) {
        0 => 0,
        1 => rng.range(1, 5),
        2 if rng.chance(10) => 200_000,
        _ => rng.range(5, 80),
    } as u32;
    g.huge = g.huge_in_one_of(100);
    let greeting = g.greeting();
    let opts = SrvOpts {
        relaxed: rng.chance(50),
        max_literal,
        max_command: 1_000_000,
        accept: "accepted/literal-ok".into(),
        reject: "rejected/literal-no".into(),
    };
    let reject = opts.reject.to_string();
    let options = opts.to_options();
    let mut client_options = client::Options::default();
    client_options.crlf_relaxed = rng.chance(50);
    let steps = rng.range(20, 250);
    let first = greeting.clone();
    let made = guard(move || (Client::new(client_options), Server::new(options, first)));
    let (c, s) = match made {
        Ok(x) => x,
        Err(p) => return Seen { signature: 0, nontrivial: false, counts: vec![], log: String::new(), result: Err(died("new", p)) },
    };
    let mut u = Users {
        c,
        s,
        g,
        max_literal,
        max_command: 1_000_000,
        reject,
        c2s: VecDeque::new(),
        s2c: VecDeque::new(),
        log: vec![],
        trace: vec![],
        greeting,
        greeted: false,
        issued: vec![],
        ended: 0,
        data_issued: vec![],
        dones_issued: 0,
        want_data: false,
        want_done: false,
        rejected: vec![],
        responses_received: vec![],
        received: vec![],
        data_received: vec![],
        dones_received: 0,
        responses_issued: vec![],
        responses_sent: 0,
        auth: None,
        auth_due: false,
        idle: None,
        most: rng.range(1, 8),
    };
    let result = u.run(steps);
    let second = u.issued.iter().filter(|c| refused(c, max_literal)).filter(|c| later_literal(c, max_literal)).count();
    Seen {
        signature: hash_of(&u.trace),
        nontrivial: u.received.len() >= 2 && u.responses_received.len() >= 2,
        counts: vec![
            ("commands issued".into(), u.issued.len() as u64),
            ("commands received by the server".into(), u.received.len() as u64),
            ("commands rejected because of a literal".into(), u.rejected.len() as u64),
            ("commands rejected because of a later literal".into(), second as u64),
            ("authenticate data received".into(), u.data_received.len() as u64),
            ("idle dones received".into(), u.dones_received as u64),
            ("responses received by the client".into(), u.responses_received.len() as u64),
            ("cases judged by what the users see only".into(), 1),
        ],
        log: u.log.join("\n"),
        result,
    }
}

/// Is an earlier literal of this command accepted before one is refused?
fn later_literal(c: &Command<'static>, max: u32) -> bool {
    use imap_codec::encode::Fragment;
    let first = CommandCodec::default().encode(c).find_map(|f| match f {
        Fragment::Literal { data, .. } => Some(data.len()),
        _ => None,
    });
    first.is_some_and(|n| n <= max as usize)
}
