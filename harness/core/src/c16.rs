//! C16: client and server connected to each other.
use std::collections::VecDeque;

use imap_codec::encode::Fragment;
use imap_codec::{encode::Encoder, CommandCodec};
use imap_types::{
    auth::AuthenticateData,
    command::{Command, CommandBody},
    core::{LiteralMode, Tag},
    response::{Greeting, Response, Status, StatusBody, StatusKind, Tagged},
};
use mon_common::{hash_of, mismatch, Mismatch, Rng};

use crate::{
    client_mon::{self, Class, CliMon, Kind, Phase},
    gen::{self, Gen},
    server_mon::{self, Item, Mode, SrvMon, SrvOpts},
    Seen,
};

struct World {
    c: CliMon,
    s: SrvMon,
    g: Gen,
    c2s: VecDeque<u8>,
    s2c: VecDeque<u8>,
    // What users issued and got
    issued: Vec<Command<'static>>,
    finals: Vec<(usize, bool)>,
    data_issued: Vec<AuthenticateData<'static>>,
    dones_issued: usize,
    received: Vec<Command<'static>>,
    data_received: Vec<AuthenticateData<'static>>,
    dones_received: usize,
    greeting: Greeting<'static>,
    greetings_received: Vec<Greeting<'static>>,
    responses_issued: Vec<Response<'static>>,
    responses_received: Vec<Response<'static>>,
    rejected: Vec<Tag<'static>>,
    idle_tag: Option<Tag<'static>>,
    auth_tag: Option<Tag<'static>>,
    max_pending: usize,
}

/// Does the server refuse a literal of this command?
pub fn refused(c: &Command<'static>, max: u32) -> bool {
    CommandCodec::default().encode(c).any(|f| matches!(f, Fragment::Literal { data, mode: LiteralMode::Sync } if data.len() > max as usize))
}
pub fn unsuitable(c: &Command<'static>, max: u32) -> bool {
    CommandCodec::default()
        .encode(c)
        .any(|f| matches!(f, Fragment::Literal { data, mode: LiteralMode::NonSync } if data.len() > max as usize))
}

const E: &[&str] = &["C16"];
fn bad(what: String) -> Mismatch {
    Mismatch { props: E.to_vec(), what }
}

impl World {
    fn client_step(&mut self) -> Result<bool, Mismatch> {
        match self.c.next()? {
            client_mon::Outcome::Need => return Ok(false),
            client_mon::Outcome::Out(b) => self.c2s.extend(b),
            client_mon::Outcome::Greeting(g) => self.greetings_received.push(g),
            client_mon::Outcome::Response(r, class) => match class {
                Class::Rejected(_) => {
                    let Response::Status(Status::Tagged(Tagged { tag, body: StatusBody { kind, code, text } })) = &r else {
                        return Err(bad(format!("command rejected by {r:?}")));
                    };
                    if *kind != StatusKind::Bad || code.is_some() || text.inner() != self.s.opts.reject {
                        return Err(bad(format!("command rejected by {r:?}, the server's own answer has text {:?}", self.s.opts.reject)));
                    }
                    self.rejected.push(tag.clone());
                }
                _ => self.responses_received.push(r),
            },
            client_mon::Outcome::Error(i) => return Err(mismatch!(["C16", "C03"], "client reported {i:?} although the server only sent well-formed responses")),
            _ => {}
        }
        Ok(true)
    }
    fn server_step(&mut self) -> Result<bool, Mismatch> {
        match self.s.next()? {
            server_mon::Outcome::Need => return Ok(false),
            server_mon::Outcome::Out(b) => self.s2c.extend(b),
            server_mon::Outcome::Input(i) => match i {
                Item::Command(c) => {
                    match c.body {
                        CommandBody::Authenticate { .. } => self.auth_tag = Some(c.tag.clone()),
                        CommandBody::Idle => self.idle_tag = Some(c.tag.clone()),
                        _ => {}
                    }
                    self.received.push(c)
                }
                Item::AuthData(d) => self.data_received.push(d),
                Item::IdleDone => self.dones_received += 1,
                Item::LiteralTooLong => {}
                i => return Err(mismatch!(["C16", "C03"], "server reported {} although the client only sent well-formed commands", i.name())),
            },
            _ => {}
        }
        Ok(true)
    }
    fn deliver(&mut self, to_server: bool, all: bool) -> Result<bool, Mismatch> {
        let q = if to_server { &mut self.c2s } else { &mut self.s2c };
        if q.is_empty() {
            return Ok(false);
        }
        let n = if all { q.len() } else {
            match self.g.rng.below(4) {
                0 => 1,
                1 => q.len(),
                2 => self.g.rng.range(1, 5).min(q.len()),
                _ => self.g.rng.range(1, q.len()),
            }
        };
        let b: Vec<u8> = q.drain(..n).collect();
        if to_server {
            self.s.feed(&b)?;
        } else {
            self.c.feed(&b)?;
        }
        Ok(true)
    }
    fn enqueue(&mut self) -> Result<(), Mismatch> {
        let max = self.s.opts.max_literal;
        for _ in 0..20 {
            let c = match self.g.rng.weighted(&[60, 20, 20]) {
                0 => {
                    self.g.max_literal = match self.g.rng.below(10) {
                        0..=6 => max as usize,
                        _ => max as usize + 5,
                    };
                    self.g.plain_command()
                }
                1 => self.g.auth_command(),
                _ => self.g.idle_command(),
            };
            if unsuitable(&c, max) || !gen::command_round_trips(&c) || gen::enc_command(&c).len() > self.s.opts.max_command as usize {
                continue;
            }
            self.c.enqueue(c.clone())?;
            self.issued.push(c);
            break;
        }
        Ok(())
    }
    fn client_user(&mut self) -> Result<(), Mismatch> {
        match self.c.phase() {
            Some((Kind::Auth, Phase::WaitUser)) => {
                let d = self.g.auth_data();
                if self.c.set_authenticate_data(d.clone())? {
                    self.data_issued.push(d);
                }
            }
            Some((Kind::Idle, Phase::WaitUser)) => {
                if self.c.set_idle_done()? {
                    self.dones_issued += 1;
                }
            }
            // Premature or late: must be refused (the monitor checks)
            _ if self.g.rng.chance(10) => {
                self.c.set_idle_done()?;
                let d = self.g.auth_data();
                self.c.set_authenticate_data(d)?;
            }
            _ => {}
        }
        Ok(())
    }
    fn issue(&mut self, r: Response<'static>) {
        self.responses_issued.push(r);
    }
    fn server_user(&mut self, finish: bool) -> Result<(), Mismatch> {
        if !finish && self.responses_issued.len() - self.responses_received.len() < self.max_pending {
            for _ in 0..self.g.rng.below(3) {
                if self.g.rng.chance(70) {
                    let d = self.g.data();
                    if gen::response_round_trips(&Response::Data(d.clone())) {
                        self.s.enqueue_data(d.clone())?;
                        self.issue(Response::Data(d));
                    }
                } else {
                    let t = self.received.last().filter(|c| !matches!(c.body, CommandBody::Authenticate { .. } | CommandBody::Idle)).map(|c| c.tag.clone());
                    let t = if self.g.rng.chance(50) { t } else { None };
                    let st = self.g.status(t);
                    self.s.enqueue_status(st.clone())?;
                    self.issue(Response::Status(st));
                }
            }
        }
        match self.s.mode {
            Mode::AuthData => {
                // One answer per command/data: only when the client waits for it
                if self.answers_due() {
                    if !finish && self.g.rng.chance(60) {
                        let c = self.g.continuation();
                        if self.s.authenticate_continue(c.clone())? {
                            self.issue(Response::CommandContinuationRequest(c));
                        }
                    } else {
                        let st = self.g.status(self.auth_tag.clone());
                        if self.s.authenticate_finish(st.clone())? {
                            self.issue(Response::Status(st));
                        }
                        self.auth_tag = None;
                    }
                }
            }
            Mode::IdleUndecided => {
                if self.g.rng.chance(65) {
                    let c = self.g.continuation();
                    if self.s.idle_accept(c.clone())? {
                        self.issue(Response::CommandContinuationRequest(c));
                    }
                } else {
                    let st = self.g.status(self.idle_tag.clone());
                    if self.s.idle_reject(st.clone())? {
                        self.issue(Response::Status(st));
                    }
                }
                self.idle_tag = None;
            }
            _ => {}
        }
        Ok(())
    }
    /// Number of continuations sent in this exchange equals number of data received?
    fn answers_due(&self) -> bool {
        let sent = self.responses_issued.iter().rev();
        // Continuations of AUTHENTICATE exchanges sent minus data received over all time: IDLE
        // continuations are answered by DONE, so count only what belongs to AUTHENTICATE.
        let _ = sent;
        self.auth_continuations() == self.data_received.len()
    }
    fn auth_continuations(&self) -> usize {
        self.s.counts.get("call authenticate_continue accepted").copied().unwrap_or(0) as usize
    }
    fn check(&self, end: bool) -> Result<(), Mismatch> {
        fn prefix<T: PartialEq + std::fmt::Debug>(issued: &[T], received: &[T], what: &str, end: bool) -> Result<(), Mismatch> {
            for (i, r) in received.iter().enumerate() {
                match issued.get(i) {
                    Some(x) if x == r => {}
                    x => return Err(bad(format!("{what} number {i} was received as {r:?} but issued as {x:?}"))),
                }
            }
            if end && issued.len() != received.len() {
                return Err(bad(format!("only {} of {} {what}s arrived although both sides are at rest; missing {:?}", received.len(), issued.len(), issued[received.len()])));
            }
            Ok(())
        }
        let max = self.s.opts.max_literal;
        let expected: Vec<Command<'static>> = self.issued.iter().filter(|c| !refused(c, max)).cloned().collect();
        prefix(&expected, &self.received, "command", end)?;
        let refused: Vec<Tag<'static>> = self.issued.iter().filter(|c| refused(c, max)).map(|c| c.tag.clone()).collect();
        prefix(&refused, &self.rejected, "rejected command", end)?;
        prefix(&self.data_issued, &self.data_received, "authenticate data", end)?;
        prefix(std::slice::from_ref(&self.greeting), &self.greetings_received, "greeting", end)?;
        prefix(&self.responses_issued, &self.responses_received, "response", end)?;
        if self.dones_received > self.dones_issued || (end && self.dones_received != self.dones_issued) {
            return Err(bad(format!("{} idle-dones received, {} issued", self.dones_received, self.dones_issued)));
        }
        Ok(())
    }
    fn run(&mut self, steps: usize) -> Result<(), Mismatch> {
        for _ in 0..steps {
            match self.g.rng.below(9) {
                0 if self.c.queued() < 4 => self.enqueue()?,
                1 => self.client_user()?,
                2 => self.server_user(false)?,
                3 | 4 => {
                    self.deliver(true, false)?;
                }
                5 | 6 => {
                    self.deliver(false, false)?;
                }
                7 => {
                    let n = self.g.rng.range(1, 6);
                    for _ in 0..n {
                        if !self.client_step()? {
                            break;
                        }
                    }
                }
                _ => {
                    let n = self.g.rng.range(1, 6);
                    for _ in 0..n {
                        if !self.server_step()? {
                            break;
                        }
                    }
                }
            }
            self.check(false)?;
        }
        // Cooperative end: everything must come to rest
        let mut calm = 0;
        for _ in 0..2000 {
            let mut moved = false;
            moved |= self.deliver(true, true)?;
            moved |= self.deliver(false, true)?;
            while self.client_step()? {
                moved = true;
            }
            while self.server_step()? {
                moved = true;
            }
            if !moved {
                let before = (self.data_issued.len(), self.dones_issued, self.responses_issued.len());
                self.client_user()?;
                self.server_user(true)?;
                if before == (self.data_issued.len(), self.dones_issued, self.responses_issued.len()) {
                    calm += 1;
                    if calm > 2 {
                        break;
                    }
                }
            } else {
                calm = 0;
            }
        }
        if calm <= 2 {
            return Err(mismatch!(["C16", "C15"], "client and server do not come to rest"));
        }
        if !self.c.idle() {
            return Err(bad(format!("client still waits with {:?} although everything was delivered and answered", self.c.phase())));
        }
        if self.s.mode != Mode::Command || self.s.buffered() > 0 {
            return Err(bad(format!("server at rest in mode {:?} with {} bytes waiting", self.s.mode, self.s.buffered())));
        }
        self.check(true)
    }
}

pub fn case(rng: &mut Rng) -> Seen {
    let mut g = Gen::new(Rng::new(rng.u64()));
    g.literals = 60;
    g.nonsync = 25;
    let max_literal = match rng.below(6) {
        0 => 0,
        1 => rng.range(1, 5),
        2 if rng.chance(5) => 200_000,
        _ => rng.range(5, 80),
    } as u32;
    g.huge = g.huge_in_one_of(100);
    let greeting = g.greeting();
    let opts = SrvOpts {
        relaxed: rng.chance(50),
        max_literal,
        max_command: 1_000_000,
        accept: "accepted/literal-ok".into(),
        reject: "rejected/literal-no".into(),
    };
    let relaxed = rng.chance(50);
    let steps = rng.range(20, 250);
    let made = CliMon::new(relaxed).and_then(|c| SrvMon::new(opts, greeting.clone()).map(|s| (c, s)));
    let (c, s) = match made {
        Ok(x) => x,
        Err(e) => return Seen { signature: 0, nontrivial: false, counts: vec![], log: String::new(), result: Err(e) },
    };
    let mut w = World {
        c,
        s,
        g,
        c2s: VecDeque::new(),
        s2c: VecDeque::new(),
        issued: vec![],
        finals: vec![],
        data_issued: vec![],
        dones_issued: 0,
        received: vec![],
        data_received: vec![],
        dones_received: 0,
        greeting,
        greetings_received: vec![],
        responses_issued: vec![],
        responses_received: vec![],
        rejected: vec![],
        idle_tag: None,
        auth_tag: None,
        max_pending: rng.range(1, 8),
    };
    let _ = &w.finals;
    let result = w.run(steps);
    let mut counts: Vec<(String, u64)> = vec![
        ("commands issued".into(), w.issued.len() as u64),
        ("commands received by the server".into(), w.received.len() as u64),
        ("commands rejected because of a literal".into(), w.rejected.len() as u64),
        ("authenticate data received".into(), w.data_received.len() as u64),
        ("idle dones received".into(), w.dones_received as u64),
        ("responses received by the client".into(), w.responses_received.len() as u64),
    ];
    counts.push(("client bytes".into(), w.c.sent.len() as u64));
    counts.push(("server bytes".into(), w.s.sent.len() as u64));
    Seen {
        signature: hash_of(&(&w.c.trace, &w.s.trace)),
        nontrivial: w.received.len() >= 2 && w.responses_received.len() >= 2,
        counts,
        log: format!("client:\n{}\n\nserver:\n{}", w.c.log_text(), w.s.log_text()),
        result,
    }
}
