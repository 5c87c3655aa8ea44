//! Workload drivers: hostile peers and users around the monitors.
use imap_codec::{encode::Encoder, CommandCodec, ResponseCodec};
use imap_types::{
    command::{Command, CommandBody},
    core::{Literal, Quoted},
    mailbox::Mailbox,
    response::{Code, CommandContinuationRequest, Response, Status, StatusKind},
};
use mon_common::{Mismatch, Rng};

use crate::{
    client_mon::{self, CliMon, Kind, Phase},
    gen::{self, Gen},
    server_mon::{Mode, SrvMon, SrvOpts},
};

// ------------------------------------------------------------------------------------------ server

#[derive(Clone)]
pub struct SrvProfile {
    pub steps: usize,
    /// plain, auth, idle, garbage, mutated, sized, big literal
    pub segments: [u32; 7],
    /// feed, next, user
    pub actions: [u32; 3],
    /// Percentage of user calls that ignore the current mode.
    pub wild: u32,
    /// Percentage of line ends that are a bare LF.
    pub lf: u32,
    pub relaxed: u32,
    /// Small limits, so that they are hit.
    pub small_limits: bool,
    pub literals: u32,
    pub nonsync: u32,
    /// Percentage of mutations applied to auth data and DONE.
    pub break_replies: u32,
    pub max_literal_gen: usize,
    /// One session in so many sends or receives something really big.
    pub huge: usize,
}

impl Default for SrvProfile {
    fn default() -> Self {
        Self {
            steps: 60,
            segments: [40, 12, 12, 8, 8, 10, 10],
            actions: [40, 45, 15],
            wild: 15,
            lf: 4,
            relaxed: 40,
            small_limits: true,
            literals: 45,
            nonsync: 30,
            break_replies: 15,
            max_literal_gen: 40,
            huge: 150,
        }
    }
}

/// A command whose encoding has exactly `total` bytes, if possible.
pub fn sized_command(g: &mut Gen, total: usize) -> Option<Command<'static>> {
    let tag = g.tag();
    let shape = g.rng.below(5);
    let nonsync = g.rng.chance(50);
    let mut lit = |n: usize| {
        let mut b = vec![b'x'; n];
        for c in b.iter_mut() {
            *c = *g.rng.pick(b"abc\r\n{}+ ");
        }
        let l = Literal::try_from(b).unwrap();
        if nonsync {
            l.into_non_sync()
        } else {
            l
        }
    };
    let quoted = |n: usize| Mailbox::from(imap_types::core::AString::from(Quoted::try_from("q".repeat(n)).unwrap()));
    let mut build = |n: usize| -> CommandBody<'static> {
        match shape {
            0 | 1 => CommandBody::Select { mailbox: quoted(n) },
            2 => CommandBody::Append { mailbox: Mailbox::Inbox, flags: vec![], message: lit(n) },
            3 => CommandBody::Rename { from: Mailbox::from(lit(n / 2)), to: Mailbox::from(lit(n - n / 2)) },
            _ => CommandBody::Rename { from: Mailbox::from(lit(n)), to: quoted(3) },
        }
    };
    for n in 0..=total {
        let c = Command { tag: tag.clone(), body: build(n) };
        let len = gen::enc_command(&c).len();
        if len == total {
            return Some(c);
        }
        if len > total {
            return None;
        }
        if total - len > 12 {
            // Skip ahead; the encoding grows by at least one byte per step
            let c = Command { tag: tag.clone(), body: build(n + (total - len) - 8) };
            if gen::enc_command(&c).len() < total {
                // continue the search from there
                for m in n + (total - len) - 8..=total {
                    let c = Command { tag: tag.clone(), body: build(m) };
                    let len = gen::enc_command(&c).len();
                    if len == total {
                        return Some(c);
                    }
                    if len > total {
                        return None;
                    }
                }
            }
        }
    }
    None
}

pub struct SrvDriver {
    pub g: Gen,
    pub keep_texts: bool,
    pub p: SrvProfile,
    stream: Vec<u8>,
    gen_mode: Mode,
    max_command: usize,
    max_literal: usize,
}

impl SrvDriver {
    pub fn new(rng: Rng, p: SrvProfile) -> Self {
        let mut g = Gen::new(rng);
        g.literals = p.literals;
        g.nonsync = p.nonsync;
        g.max_literal = p.max_literal_gen;
        g.huge = g.huge_in_one_of(p.huge);
        Self { g, p, keep_texts: false, stream: vec![], gen_mode: Mode::Command, max_command: 0, max_literal: 0 }
    }
    pub fn options(&mut self) -> SrvOpts {
        let r = &mut self.g.rng;
        let (max_literal, max_command) = if r.chance(3) {
            // Limits that are hardly ones
            let huge = [i32::MAX as usize, 1 << 31, 3_000_000_000, u32::MAX as usize];
            (*r.pick(&huge), *r.pick(&huge))
        } else if self.p.small_limits {
            match r.below(6) {
                0 => (r.range(0, 5), r.range(1, 40)),
                1 => (r.range(0, 20), r.range(20, 90)),
                2 => (r.range(10, 60), r.range(30, 200)),
                // literal limit above the command limit
                3 => (r.range(50, 300), r.range(20, 80)),
                _ => (r.range(20, 60), r.range(100, 500)),
            }
        } else {
            (10_000, 100_000)
        };
        self.max_command = max_command;
        self.max_literal = max_literal;
        let relaxed = r.chance(self.p.relaxed);
        SrvOpts {
            relaxed,
            max_literal: max_literal as u32,
            max_command: max_command as u32,
            accept: "accepted/literal-ok".into(),
            reject: "rejected/literal-no".into(),
        }
    }
    fn push_command(&mut self, c: &Command<'static>) {
        let lf = self.p.lf;
        let mut rng = Rng::new(self.g.rng.u64());
        let b = gen::with_line_ends(CommandCodec::default().encode(c), || rng.chance(lf));
        self.stream.extend(b);
    }
    fn line(&mut self, mut b: Vec<u8>) {
        if self.g.rng.chance(self.p.lf) && b.ends_with(b"\r\n") {
            b.truncate(b.len() - 2);
            b.push(b'\n');
        }
        if self.g.rng.chance(self.p.break_replies) {
            self.g.mutate(&mut b);
        }
        self.stream.extend(b);
    }
    /// Append something to the stream the peer wants to send.
    pub fn extend(&mut self) {
        match self.gen_mode {
            Mode::AuthData => {
                if self.g.rng.chance(70) {
                    let d = self.g.auth_data();
                    let b = gen::enc_auth_data(&d);
                    self.line(b);
                    if self.g.rng.chance(40) {
                        self.gen_mode = Mode::Command;
                    }
                    return;
                }
                self.gen_mode = Mode::Command;
            }
            Mode::IdleDone => {
                if self.g.rng.chance(80) {
                    let b = gen::enc_idle_done();
                    self.line(b);
                }
                self.gen_mode = Mode::Command;
                return;
            }
            _ => {}
        }
        match self.g.rng.weighted(&self.p.segments) {
            0 => {
                let c = self.g.plain_command();
                self.push_command(&c);
            }
            1 => {
                let c = self.g.auth_command();
                self.push_command(&c);
                self.gen_mode = Mode::AuthData;
            }
            2 => {
                let c = self.g.idle_command();
                self.push_command(&c);
                self.gen_mode = Mode::IdleDone;
            }
            3 => {
                let b = self.g.garbage();
                self.stream.extend(b);
            }
            4 => {
                let c = self.g.plain_command();
                let mut b = gen::enc_command(&c);
                self.g.mutate(&mut b);
                self.stream.extend(b);
                if self.g.rng.chance(50) {
                    self.stream.extend(b"\r\n");
                }
            }
            5 => {
                let d = self.g.rng.range(0, 6) as isize - 3;
                let total = (self.max_command as isize + d).max(8) as usize;
                if let Some(c) = sized_command(&mut self.g, total.min(2000)) {
                    self.push_command(&c);
                }
            }
            _ if self.g.rng.chance(25) => {
                // An announcement without the literal
                let n = *self.g.rng.pick(&[
                    self.max_literal + 1,
                    self.max_literal + 256,
                    self.max_literal + 65536,
                    65_535,
                    65_536,
                    1 << 24,
                    (1 << 31) - 1,
                    1 << 31,
                    (1 << 31) + 1,
                    3_000_000_000,
                    u32::MAX as usize - 1,
                    u32::MAX as usize,
                    1 << 32,
                    (1 << 32) + 1,
                ]);
                let (tag, plus) = (self.g.tag(), if self.g.rng.chance(self.p.nonsync) { "+" } else { "" });
                let verb = *self.g.rng.pick(&["LOGIN", "SELECT", "APPEND box", "LOGIN {1+}\r\nx"]);
                let b = format!("{} {verb} {{{n}{plus}}}\r\n", tag.inner()).into_bytes();
                self.stream.extend(b);
            }
            _ => {
                let keep = self.g.max_literal;
                self.g.max_literal = (self.max_literal + self.g.rng.below(4)).min(2000);
                let lit = self.g.literals;
                self.g.literals = 90;
                let c = self.g.plain_command();
                self.g.literals = lit;
                self.g.max_literal = keep;
                self.push_command(&c);
            }
        }
    }
    pub fn take_stream(&mut self) -> Vec<u8> {
        std::mem::take(&mut self.stream)
    }
    pub fn chunk(&mut self) -> Vec<u8> {
        if self.stream.is_empty() || self.g.rng.chance(30) {
            self.extend();
        }
        let len = self.stream.len();
        if len == 0 {
            return vec![];
        }
        let n = match self.g.rng.below(5) {
            0 => 1,
            1 => len,
            2 => self.g.rng.range(1, 4).min(len),
            _ => self.g.rng.range(1, len),
        };
        self.stream.drain(..n).collect()
    }
    pub fn user(&mut self, m: &mut SrvMon) -> Result<(), Mismatch> {
        let wild = self.g.rng.chance(self.p.wild);
        let choice = if wild {
            self.g.rng.below(8)
        } else {
            match m.mode {
                Mode::Command => self.g.rng.below(3),
                Mode::AuthData => *self.g.rng.pick(&[0, 1, 3, 3, 4, 4]),
                Mode::IdleUndecided => *self.g.rng.pick(&[0, 1, 5, 5, 6, 6]),
                Mode::IdleDone => self.g.rng.below(2),
            }
        };
        match choice {
            0 => {
                let d = self.g.data();
                m.enqueue_data(d)?;
            }
            1 | 7 => {
                let tag = if self.g.rng.chance(50) { Some(self.g.tag()) } else { None };
                let s = match tag {
                    Some(_) => self.g.status(tag),
                    None => self.g.untagged_status(),
                };
                m.enqueue_status(s)?;
            }
            2 => {
                let c = self.g.continuation();
                m.enqueue_continuation(c)?;
            }
            3 => {
                let c = self.g.continuation();
                m.authenticate_continue(c)?;
            }
            4 => {
                let s = self.g.closing_status();
                m.authenticate_finish(s)?;
            }
            5 => {
                let c = self.g.continuation();
                m.idle_accept(c)?;
            }
            _ => {
                let s = self.g.closing_status();
                m.idle_reject(s)?;
            }
        }
        Ok(())
    }
    /// Run a whole case.
    pub fn run(&mut self, out: &mut Option<SrvMon>) -> Result<(), Mismatch> {
        let o = self.options();
        let greeting = self.g.greeting();
        *out = Some(SrvMon::new(o, greeting)?);
        let m = out.as_mut().unwrap();
        if self.keep_texts {
            m.texts = Some(vec![]);
        }
        if self.g.rng.chance(50) {
            m.settle()?;
        }
        for _ in 0..self.p.steps {
            match self.g.rng.weighted(&self.p.actions) {
                0 => {
                    let c = self.chunk();
                    if !c.is_empty() {
                        m.feed(&c)?;
                    }
                }
                1 => {
                    if self.g.rng.chance(50) {
                        m.next()?;
                    } else {
                        m.settle()?;
                    }
                }
                _ => {
                    for _ in 0..self.g.rng.range(1, 3) {
                        self.user(m)?;
                    }
                }
            }
        }
        // Come to rest: answer what is open, take the rest of the stream
        let rest = std::mem::take(&mut self.stream);
        for n in self.g.cuts(rest.len()).into_iter().scan(0, |p, n| {
            *p += n;
            Some((*p - n, n))
        }) {
            m.feed(&rest[n.0..n.0 + n.1])?;
            m.settle()?;
            match m.mode {
                Mode::IdleUndecided => {
                    let c = self.g.continuation();
                    m.idle_accept(c)?;
                }
                Mode::AuthData if self.g.rng.chance(30) => {
                    let s = self.g.closing_status();
                    m.authenticate_finish(s)?;
                }
                _ => {}
            }
        }
        m.settle()?;
        m.settle()?;
        Ok(())
    }
}

// ------------------------------------------------------------------------------------------ client

#[derive(Clone)]
pub struct CliProfile {
    pub steps: usize,
    /// plain, auth, idle
    pub commands: [u32; 3],
    /// enqueue, peer, next, user calls
    pub actions: [u32; 4],
    /// Percentage of user calls made at any time.
    pub wild: u32,
    pub lf: u32,
    pub relaxed: u32,
    pub literals: u32,
    pub nonsync: u32,
    /// What the server sends: fitting answer, data, untagged status, tagged status for current,
    /// tagged status for a queued or unknown command, stray continuation, garbage, mutated
    pub peer: [u32; 8],
    pub max_literal_gen: usize,
    /// One session in so many sends or receives something really big.
    pub huge: usize,
    pub late_greeting: u32,
}

impl Default for CliProfile {
    fn default() -> Self {
        Self {
            steps: 70,
            commands: [60, 20, 20],
            actions: [15, 35, 35, 15],
            wild: 20,
            lf: 3,
            relaxed: 40,
            literals: 50,
            nonsync: 30,
            peer: [45, 15, 8, 8, 8, 6, 4, 6],
            max_literal_gen: 40,
            huge: 150,
            late_greeting: 50,
        }
    }
}

pub struct CliDriver {
    pub g: Gen,
    pub keep_texts: bool,
    pub p: CliProfile,
    stream: Vec<u8>,
    greeting_sent: bool,
    done_tags: Vec<imap_types::core::Tag<'static>>,
}

impl CliDriver {
    pub fn new(rng: Rng, p: CliProfile) -> Self {
        let mut g = Gen::new(rng);
        g.literals = p.literals;
        g.nonsync = p.nonsync;
        g.max_literal = p.max_literal_gen;
        g.huge = g.huge_in_one_of(p.huge);
        g.huge_append = g.huge_in_one_of(p.huge);
        Self { g, p, keep_texts: false, stream: vec![], greeting_sent: false, done_tags: vec![] }
    }
    pub fn command(&mut self) -> Command<'static> {
        match self.g.rng.weighted(&self.p.commands) {
            0 => self.g.plain_command(),
            1 => self.g.auth_command(),
            _ => self.g.idle_command(),
        }
    }
    fn push(&mut self, r: Response<'static>) {
        let lf = self.p.lf;
        let mut rng = Rng::new(self.g.rng.u64());
        let b = gen::with_line_ends(ResponseCodec::default().encode(&r), || rng.chance(lf));
        self.stream.extend(b);
    }
    fn ccr(&mut self) -> Response<'static> {
        Response::CommandContinuationRequest(self.g.continuation())
    }
    /// Let the server want to send something that suits (or does not suit) the client's state.
    pub fn extend(&mut self, m: &CliMon) {
        if !self.greeting_sent {
            self.greeting_sent = true;
            if self.g.rng.chance(8) {
                let b = self.g.garbage();
                self.stream.extend(b);
            }
            let g = self.g.greeting();
            let mut b = gen::enc_greeting(&g);
            if self.g.rng.chance(self.p.lf) {
                let n = b.len();
                b.truncate(n - 2);
                b.push(b'\n');
                if m_is_strict(m) {
                    self.greeting_sent = false;
                }
            }
            self.stream.extend(b);
            return;
        }
        let tag = m.current_tag();
        match self.g.rng.weighted(&self.p.peer) {
            0 => match m.phase() {
                Some((Kind::Plain, Phase::WaitLiteral)) => {
                    if self.g.rng.chance(80) {
                        let r = self.ccr();
                        self.push(r);
                    } else {
                        let s = self.g.status_of(tag, StatusKind::Bad);
                        self.push(Response::Status(s));
                    }
                }
                Some((Kind::Auth, _)) => {
                    if self.g.rng.chance(60) {
                        let r = self.ccr();
                        self.push(r);
                    } else {
                        let s = self.g.status(tag);
                        self.push(Response::Status(s));
                    }
                }
                Some((Kind::Idle, _)) => {
                    if self.g.rng.chance(70) {
                        let r = self.ccr();
                        self.push(r);
                    } else {
                        let s = self.g.status(tag);
                        self.push(Response::Status(s));
                    }
                }
                _ => {
                    let d = self.g.data();
                    self.push(Response::Data(d));
                }
            },
            1 => {
                let d = self.g.data();
                self.push(Response::Data(d));
            }
            2 => {
                let s = self.g.untagged_status();
                self.push(Response::Status(s));
            }
            3 => {
                let tag = tag.or_else(|| self.done_tags.last().cloned()).unwrap_or_else(|| self.g.tag());
                let s = self.g.status(Some(tag));
                self.push(Response::Status(s));
            }
            4 => {
                let t = match self.g.rng.below(4) {
                    0 => m.queued_tag(0),
                    1 => m.queued_tag(1),
                    2 => tag.map(|t| {
                        // almost the current tag
                        let s = t.inner().to_owned();
                        let s = match self.g.rng.below(4) {
                            0 => format!("{s}x"),
                            1 => s.to_uppercase(),
                            2 => s.to_lowercase(),
                            _ => format!("x{s}"),
                        };
                        imap_types::core::Tag::try_from(s).unwrap()
                    }),
                    _ => None,
                };
                let t = t.unwrap_or_else(|| self.g.tag());
                let s = self.g.status(Some(t));
                self.push(Response::Status(s));
            }
            5 => {
                for _ in 0..self.g.rng.range(1, 2) {
                    let r = self.ccr();
                    self.push(r);
                }
            }
            6 => {
                let b = self.g.garbage();
                self.stream.extend(b);
            }
            _ => {
                let r = Response::Data(self.g.data());
                let mut b = gen::enc_response(&r);
                self.g.mutate(&mut b);
                self.stream.extend(b);
                if self.g.rng.chance(60) {
                    self.stream.extend(b"\r\n");
                }
            }
        }
    }
    pub fn user(&mut self, m: &mut CliMon) -> Result<(), Mismatch> {
        let wild = self.g.rng.chance(self.p.wild);
        match m.phase() {
            Some((Kind::Auth, Phase::WaitUser)) if !wild => {
                let d = self.g.auth_data();
                m.set_authenticate_data(d)?;
            }
            Some((Kind::Idle, Phase::WaitUser)) if !wild => {
                m.set_idle_done()?;
            }
            _ => {
                if self.g.rng.chance(50) {
                    let d = self.g.auth_data();
                    m.set_authenticate_data(d)?;
                } else {
                    m.set_idle_done()?;
                }
            }
        }
        Ok(())
    }
    fn note(&mut self, o: &client_mon::Outcome) {
        if let client_mon::Outcome::Sent(_, c) = o {
            self.done_tags.push(c.tag.clone());
        }
    }
    pub fn run(&mut self, out: &mut Option<CliMon>) -> Result<(), Mismatch> {
        let relaxed = self.g.rng.chance(self.p.relaxed);
        *out = Some(CliMon::new(relaxed)?);
        let m = out.as_mut().unwrap();
        if self.keep_texts {
            m.texts = Some(vec![]);
        }
        if !self.g.rng.chance(self.p.late_greeting) {
            self.extend(m);
            let b = std::mem::take(&mut self.stream);
            m.feed(&b)?;
        }
        for _ in 0..self.p.steps {
            match self.g.rng.weighted(&self.p.actions) {
                0 => {
                    for _ in 0..self.g.rng.range(1, 2) {
                        if m.queued() < 4 {
                            let mut c = self.command();
                            if self.g.rng.chance(5) {
                                // The very same command, or another one with the same tag
                                if let Some(old) = m.enqueued.last() {
                                    if self.g.rng.chance(50) {
                                        c = old.clone();
                                    } else {
                                        c.tag = old.tag.clone();
                                    }
                                }
                            }
                            m.enqueue(c)?;
                        }
                    }
                }
                1 => {
                    if self.stream.is_empty() || self.g.rng.chance(20) {
                        self.extend(m);
                    }
                    let len = self.stream.len();
                    let n = match self.g.rng.below(6) {
                        0 => 1.min(len),
                        1 => self.g.rng.range(0, len),
                        2 => self.g.rng.range(0, 3).min(len),
                        _ => len,
                    };
                    if n > 0 {
                        let b: Vec<u8> = self.stream.drain(..n).collect();
                        m.feed(&b)?;
                    }
                }
                2 => {
                    if self.g.rng.chance(50) {
                        let o = m.next()?;
                        self.note(&o);
                    } else {
                        for o in m.settle()? {
                            self.note(&o);
                        }
                    }
                }
                _ => self.user(m)?,
            }
        }
        let b = std::mem::take(&mut self.stream);
        m.feed(&b)?;
        m.settle()?;
        // Let everything queued finish with a cooperative server
        for _ in 0..200 {
            if m.idle() || !self.greeting_sent {
                break;
            }
            let keep = (self.p.peer, self.p.lf);
            self.p.peer = [1, 0, 0, 0, 0, 0, 0, 0];
            self.p.lf = 0;
            self.extend(m);
            (self.p.peer, self.p.lf) = keep;
            let b = std::mem::take(&mut self.stream);
            m.feed(&b)?;
            m.settle()?;
            self.user(m)?;
            m.settle()?;
        }
        m.settle()?;
        Ok(())
    }
}

fn m_is_strict(m: &CliMon) -> bool {
    !m.greeted && m.is_strict()
}

#[allow(unused)]
pub fn alert() -> Code<'static> {
    Code::Alert
}
#[allow(unused)]
fn keep(_: CommandContinuationRequest, _: Status) {}
