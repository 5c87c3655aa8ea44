//! P04: hostile clients and servers next to proper sessions.
use std::{
    collections::{BTreeMap, BTreeSet, HashMap},
    net::TcpStream,
    time::{Duration, Instant},
};

use imap_types::{
    core::Tag,
    response::{Code, Data, Greeting, Response, Status, StatusKind},
};
use mon_common::{mismatch, Mismatch, Rng};

use crate::{
    ep::{self, Close, Ep},
    gen::{self, Gen},
    session::{self, Profile, Session},
    world::{World, WAIT},
    Outcome,
};

/// Names of connections; they can be found in any stream of bytes.
pub fn ident(kind: char, rng: &mut Rng) -> String {
    format!("q{kind}{:012x}z", rng.u64() & 0xffff_ffff_ffff)
}

pub fn idents(b: &[u8]) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    for w in b.windows(15) {
        if w[0] == b'q' && b"csgk".contains(&w[1]) && w[14] == b'z' && w[2..14].iter().all(u8::is_ascii_hexdigit) {
            out.insert(String::from_utf8_lossy(w).into_owned());
        }
    }
    out
}

struct Peer {
    client: bool,
    service: usize,
    ep: Ep,
    ident: String,
    g: Gen,
    rng: Rng,
    steps: u32,
    end: Option<Close>,
    linger: bool,
    /// Anything goes (otherwise only things that make sense by themselves)
    wild: bool,
    raw: bool,
    log: Vec<String>,
    // server
    greeted: bool,
    lines_at: usize,
    seen: Vec<(String, String)>,
    // client
    open_tag: Option<String>,
    /// Written before the connection was known to be hostile
    pub born: Instant,
}

pub fn hello(rng: &mut Rng) -> Vec<u8> {
    let mut c = ep::good_client(rng.chance(30));
    let mut v = vec![];
    while c.wants_write() && c.write_tls(&mut v).is_ok() {}
    v
}

impl Peer {
    fn new(client: bool, service: usize, sock: TcpStream, tls: Option<rustls::Connection>, ident: String, rng: &mut Rng) -> Self {
        let mut rng = Rng::new(rng.u64());
        let mut ep = Ep::new(sock, tls, Rng::new(rng.u64()));
        ep.chop = rng.chance(30);
        let mut g = Gen::new(Rng::new(rng.u64()));
        g.prefix = ident.clone();
        g.max_literal = *rng.pick(&[0, 5, 40, 40, 2000]);
        g.nonsync = *rng.pick(&[0, 30, 100]);
        let steps = if rng.chance(15) { 0 } else { rng.range(1, 25) as u32 };
        let end = match rng.below(8) {
            0 => None,
            1 | 2 => Some(Close::Reset),
            3 => Some(Close::Full),
            4 => Some(Close::NotifyOnly),
            5 => Some(Close::NotifyFin),
            _ => Some(Close::Fin),
        };
        Self {
            client,
            service,
            ep,
            ident,
            g,
            steps,
            end,
            linger: rng.chance(30),
            wild: rng.chance(60),
            raw: false,
            log: vec![],
            greeted: client,
            lines_at: 0,
            seen: vec![],
            open_tag: None,
            born: Instant::now(),
            rng,
        }
    }

    fn say(&mut self, what: &str, b: &[u8]) {
        if self.log.len() < 60 {
            self.log.push(format!("{} sends {what}: {}", self.ident, mon_common::show(&b[..b.len().min(160)])));
        }
        if self.raw {
            self.ep.send_raw(b);
        } else {
            self.ep.send(b);
        }
    }

    fn done(&self) -> bool {
        self.ep.ended.is_some() || self.ep.is_closed() || (self.steps == 0 && (self.linger || self.ep.all_sent())) || self.born.elapsed() > Duration::from_millis(250)
    }

    fn step(&mut self) -> bool {
        let mut p = self.ep.pump();
        if self.steps == 0 {
            if !self.linger {
                if let Some(e) = self.end {
                    self.ep.close(e);
                }
            }
            return p;
        }
        if self.rng.chance(60) {
            return p;
        }
        self.steps -= 1;
        p = true;
        if self.raw {
            self.raw_action();
        } else if self.client {
            self.client_action();
        } else {
            self.server_action();
        }
        p
    }

    /// For a connection that should be TLS
    fn raw_action(&mut self) {
        let mut rng = Rng::new(self.rng.u64());
        let b = match rng.below(9) {
            0 => b"a001 CAPABILITY\r\n".to_vec(),
            1 => b"* OK plaintext\r\n".to_vec(),
            2 => self.g.garbage(),
            3 => {
                let mut h = hello(&mut rng);
                h.truncate(rng.range(1, h.len()));
                h
            }
            4 => {
                let mut h = hello(&mut rng);
                self.g.mutate(&mut h);
                h
            }
            5 => hello(&mut rng),
            6 => {
                // Some record
                let n = rng.range(0, 60);
                let mut v = vec![*rng.pick(&[20, 21, 22, 23, 24, 0]), 3, *rng.pick(&[1, 3, 4]), (n >> 8) as u8, n as u8];
                v.extend((0..n).map(|_| rng.u64() as u8));
                v
            }
            7 => vec![21, 3, 3, 0, 2, 2, 40],
            _ => vec![22],
        };
        self.say("raw bytes", &b);
    }

    fn client_action(&mut self) {
        let w = if self.wild {
            [20, 8, 8, 6, 6, 8, 10, 6, 2, 5, 6, 2, 3, 4]
        } else {
            [40, 15, 15, 8, 8, 0, 0, 0, 0, 0, 14, 0, 0, 0]
        };
        match self.rng.weighted(&w) {
            0 => {
                let c = self.g.plain_command();
                // (Literals without waiting for an answer)
                let b = gen::enc_command(&c);
                self.say("a command", &b);
            }
            1 => {
                let c = self.g.idle_command();
                self.open_tag = Some(c.tag.inner().to_owned());
                let b = gen::enc_command(&c);
                self.say("IDLE", &b);
            }
            2 => {
                let c = self.g.auth_command();
                self.open_tag = Some(c.tag.inner().to_owned());
                let b = gen::enc_command(&c);
                self.say("AUTHENTICATE", &b);
            }
            3 => {
                let d = self.g.auth_data();
                let b = gen::enc_auth_data(&d);
                self.say("authenticate data", &b);
            }
            4 => self.say("DONE", b"DONE\r\n"),
            5 => {
                let b = self.g.garbage();
                self.say("garbage", &b);
            }
            6 => {
                let c = self.g.plain_command();
                let mut b = gen::enc_command(&c);
                self.g.mutate(&mut b);
                if self.rng.chance(70) {
                    b.extend(b"\r\n");
                }
                self.say("a mutated command", &b);
            }
            7 => {
                let n: u64 = *self.rng.pick(&[0, 1, 100, 26_214_400, 26_214_401, 200_000_000, 4_294_967_295, 4_294_967_296, u64::MAX]);
                let plus = if self.rng.chance(50) { "+" } else { "" };
                let t = self.g.tag();
                let b = format!("{} {} {{{n}{plus}}}\r\n", t.inner(), self.rng.pick(&["SELECT", "APPEND x", "LOGIN", "LOGIN a"]));
                self.say("an announcement", b.as_bytes());
            }
            8 => {
                let n = if self.rng.chance(3) { 27_000_000 } else { self.rng.range(1, 300_000) };
                let t = self.g.tag();
                let mut b = format!("{} ", t.inner()).into_bytes();
                b.resize(n + b.len(), b'x');
                if self.rng.chance(80) {
                    b.extend(b"\r\n");
                }
                self.say("a long line", &b);
            }
            9 => {
                let r = Response::Data(self.g.data());
                let b = gen::enc_response(&r);
                self.say("a response", &b);
            }
            10 => {}
            11 => self.ep.deaf = !self.ep.deaf,
            12 => {
                let b: &[u8] = *self.rng.pick(&[&b"\0"[..], b"\n", b"\r\n", b"\r", b"*\r\n", b" \r\n", b"a\0b\r\n"]);
                self.say("odd bytes", b);
            }
            _ => {
                // Many of the same kind at once
                let one = match self.rng.below(4) {
                    0 => b"DONE\r\n".to_vec(),
                    1 => gen::enc_command(&self.g.idle_command()),
                    2 => gen::enc_command(&self.g.auth_command()),
                    _ => b"a NOOP\r\n".to_vec(),
                };
                let n = self.rng.range(2, 30);
                let b = one.repeat(n);
                self.say("a burst", &b);
            }
        }
    }

    fn listen(&mut self) {
        let b = &self.ep.inbuf;
        while let Some(n) = b[self.lines_at..].iter().position(|b| *b == b'\n') {
            let line = String::from_utf8_lossy(&b[self.lines_at..self.lines_at + n.min(300)]).into_owned();
            self.lines_at += n + 1;
            let mut w = line.split_whitespace();
            if let (Some(t), Some(c)) = (w.next(), w.next()) {
                if Tag::try_from(t).is_ok() {
                    self.seen.push((t.to_owned(), c.to_ascii_uppercase()));
                }
            }
        }
    }

    fn server_action(&mut self) {
        self.listen();
        if !self.greeted {
            self.greeted = true;
            let mut rng = Rng::new(self.rng.u64());
            let mut g: Greeting<'static> = self.g.greeting();
            if rng.chance(30) {
                g.code = Some(Code::Capability(session::capabilities(&mut rng)));
            }
            let mut b = gen::enc_greeting(&g);
            match rng.below(12) {
                0 => {
                    self.g.mutate(&mut b);
                    b.extend(b"\r\n");
                }
                1 => b = self.g.garbage(),
                2 => b.clear(),
                3 => b = gen::enc_response(&Response::Data(self.g.data())),
                4 => b = b"+ go\r\n".to_vec(),
                5 => b = format!("* OK {{{}}}\r\n", 100_000_000).into_bytes(),
                6 => b.extend(b.clone()),
                _ => {}
            }
            self.say("a greeting", &b);
            return;
        }
        let w = if self.wild {
            [25, 8, 14, 8, 8, 10, 8, 4, 4, 8, 2, 6]
        } else {
            [45, 0, 30, 15, 10, 0, 0, 0, 0, 0, 0, 0]
        };
        match self.rng.weighted(&w) {
            0 => {
                // Something about a command
                if self.seen.is_empty() {
                    return;
                }
                let i = if self.rng.chance(70) { self.seen.len() - 1 } else { self.rng.below(self.seen.len()) };
                let (t, c) = if self.rng.chance(40) { self.seen[i].clone() } else { self.seen.remove(i) };
                let tag = Tag::try_from(t).unwrap();
                if (c == "IDLE" || c == "AUTHENTICATE") && self.rng.chance(60) {
                    let r = self.g.continuation();
                    let b = gen::enc_response(&Response::CommandContinuationRequest(r));
                    self.say("a continuation request", &b);
                    if self.rng.chance(50) {
                        return;
                    }
                }
                let s = self.g.status(Some(tag));
                let mut b = gen::enc_response(&Response::Status(s));
                if self.wild && self.rng.chance(20) {
                    b.extend(b.clone());
                }
                self.say("a completion", &b);
            }
            1 => {
                let t = self.g.tag();
                let s = self.g.status(Some(t));
                let b = gen::enc_response(&Response::Status(s));
                self.say("a completion of nothing", &b);
            }
            2 => {
                let n = if self.wild { self.rng.range(1, 3) } else { 1 };
                for _ in 0..n {
                    let r = self.g.continuation();
                    let b = gen::enc_response(&Response::CommandContinuationRequest(r));
                    self.say("a continuation request", &b);
                }
            }
            3 => {
                let r = Response::Data(self.g.data());
                let b = gen::enc_response(&r);
                self.say("data", &b);
            }
            4 => {
                let mut rng = Rng::new(self.rng.u64());
                let caps = session::capabilities(&mut rng);
                let r = match rng.below(4) {
                    0 => Response::Data(Data::Capability(caps)),
                    1 => Response::Status(Status::new(self.seen.pop().and_then(|x| Tag::try_from(x.0).ok()), StatusKind::Ok, Some(Code::Capability(caps)), self.g.text()).unwrap()),
                    2 => Response::Status(Status::bye(Some(Code::Capability(caps)), self.g.text()).unwrap()),
                    _ => Response::CommandContinuationRequest(
                        imap_types::response::CommandContinuationRequest::basic(Some(Code::Capability(caps)), self.g.text()).unwrap(),
                    ),
                };
                let b = gen::enc_response(&r);
                self.say("capabilities", &b);
            }
            5 => {
                let s = self.g.status(None);
                let r = if self.rng.chance(50) { Response::Data(self.g.data()) } else { Response::Status(s) };
                let mut b = gen::enc_response(&r);
                self.g.mutate(&mut b);
                if self.rng.chance(70) {
                    b.extend(b"\r\n");
                }
                self.say("a mutated response", &b);
            }
            6 => {
                let b = self.g.garbage();
                self.say("garbage", &b);
            }
            7 => {
                let n: u64 = *self.rng.pick(&[0, 1, 1000, 26_214_401, 200_000_000, 4_294_967_296, u64::MAX]);
                let b = format!("* {} FETCH (RFC822 {{{n}}}\r\n{}", self.rng.below(3), self.g.word());
                self.say("an announcement", b.as_bytes());
            }
            8 => {
                let b = format!("* BYE {}\r\n", self.g.word());
                self.say("BYE", b.as_bytes());
            }
            9 => {
                // The literal of a command is rejected or accepted, both, or twice
                if let Some((t, _)) = self.seen.last().cloned() {
                    let b = match self.rng.below(4) {
                        0 => format!("+ go\r\n{t} BAD no\r\n"),
                        1 => format!("{t} BAD no\r\n+ go\r\n"),
                        2 => format!("{t} BAD [ALERT] no {}\r\n{t} BAD no\r\n", self.ident),
                        _ => format!("+ go\r\n+ go\r\n{t} OK yes\r\n"),
                    };
                    self.say("answers", b.as_bytes());
                }
            }
            10 => self.ep.deaf = !self.ep.deaf,
            _ => {
                let b: &[u8] = *self.rng.pick(&[&b"\0"[..], b"\n", b"\r\n", b"+\r\n", b"+ \r\n", b"* \r\n", b"* 0 EXPUNGE\r\n", b"x OK\r\n", b"a NOOP\r\n", b"* CAPABILITY\r\n", b"* OK [CAPABILITY] x\r\n"]);
                self.say("odd bytes", b);
            }
        }
    }
}

pub struct Control {
    pub s: Session,
    candidates: Vec<(String, Ep, Greeting<'static>)>,
    start: Instant,
    name: String,
    pub result: Option<Result<(), Mismatch>>,
    rounds: u32,
    finish: bool,
    pub keep_raw: bool,
}

impl Control {
    pub fn open(w: &World, service: usize, rng: &mut Rng) -> Result<Self, Mismatch> {
        let name = ident('k', rng);
        let p = Profile {
            count: (1, 6),
            marked: true,
            max_literal: *rng.pick(&[30, 60, 60, 5000]),
            ..Profile::default()
        };
        let mut s = Session::open(w, service, name.clone(), p, rng)?;
        s.skip_server = true;
        Ok(Self { s, candidates: vec![], start: Instant::now(), name, result: None, rounds: rng.below(2) as u32, finish: rng.chance(60), keep_raw: false })
    }
    /// A connection of the proxy that may belong to this session
    pub fn candidate(&mut self, w: &World, sock: TcpStream, rng: &mut Rng) {
        let tls = w.services[self.s.service].connect_tls.then(|| ep::good_server(self.s.srv_v12));
        let mut e = Ep::new(sock, tls, Rng::new(rng.u64()));
        let name = ident('g', rng);
        e.keep_raw = self.keep_raw;
        let own = std::mem::replace(&mut self.s.g.prefix, name.clone());
        let (b, g) = self.s.make_greeting(&name);
        self.s.g.prefix = own;
        e.send(&b);
        self.candidates.push((name, e, g));
    }
    /// Alone at this service
    pub fn run(&mut self, w: &World, rng: &mut Rng) -> Result<(), Mismatch> {
        while self.result.is_none() {
            let mut p = false;
            while let Some(sock) = w.accept(self.s.service) {
                p = true;
                if self.s.srv.is_none() {
                    self.candidate(w, sock, rng);
                }
            }
            p |= self.step(w, rng)?;
            if !p {
                std::thread::sleep(Duration::from_micros(60));
            }
        }
        Ok(())
    }
    pub fn step(&mut self, w: &World, rng: &mut Rng) -> Result<bool, Mismatch> {
        if self.s.srv.is_none() {
            let mut p = self.s.cli.pump();
            for c in &mut self.candidates {
                p |= c.1.pump();
            }
            if self.s.cli.inbuf.contains(&b'\n') {
                let names = idents(&self.s.cli.inbuf);
                let Some(i) = self.candidates.iter().position(|c| names.contains(&c.0)) else {
                    return Err(mismatch!(["P04", "P01"], "{} received a greeting that no server sent to it: {}", self.name, mon_common::show(&self.s.cli.inbuf)));
                };
                let (_, e, g) = self.candidates.swap_remove(i);
                self.s.take_over(e, g);
                self.s.touch();
                return Ok(true);
            }
            if rng.chance(20) {
                p |= self.s.client_act();
            }
            if let Some(e) = &self.s.cli.ended {
                return Err(mismatch!(["P04", "P01"], "the proxy closed a proper connection before the greeting: {e:?}"));
            }
            if self.start.elapsed() > WAIT {
                return Err(mismatch!(
                    ["P04", "P01"],
                    "the client of a proper session has not received a greeting after {WAIT:?} ({} connections to its server)",
                    self.candidates.len()
                ));
            }
            return Ok(p);
        }
        let p = self.s.step(w)?;
        if self.s.at_rest() {
            if self.rounds == 0 {
                self.result = Some(Ok(()));
            } else {
                self.rounds -= 1;
                self.s.add_items();
            }
            return Ok(true);
        }
        if !p {
            self.s.check_alive()?;
        }
        Ok(p)
    }
}

fn new_client(w: &World, service: usize, rng: &mut Rng) -> Option<Peer> {
    let s = &w.services[service];
    let sock = ep::dial(s.addr, rng).ok()?;
    let name = ident('c', rng);
    let mut raw = false;
    let tls = match s.bind_tls {
        None => {
            raw = rng.chance(5);
            None
        }
        Some(_) => match rng.below(10) {
            0 => {
                raw = true;
                None
            }
            1 => Some(ep::tls_client(ep::client_config("rogue", rng.chance(30), &["imap"]))),
            2 => Some(ep::tls_client(ep::client_config("ca", rng.chance(30), &["http/1.1"]))),
            _ => Some(ep::good_client(rng.chance(30))),
        },
    };
    let mut p = Peer::new(true, service, sock, tls, name, rng);
    p.raw = raw;
    Some(p)
}

fn new_server(w: &World, service: usize, sock: TcpStream, rng: &mut Rng) -> Peer {
    let name = ident('s', rng);
    let mut raw = false;
    let tls = if w.services[service].connect_tls {
        match rng.below(8) {
            0 => {
                raw = true;
                None
            }
            1 => Some(rustls::Connection::Server(rustls::ServerConnection::new(ep::server_config("untrusted", rng.chance(30))).unwrap())),
            _ => Some(ep::good_server(rng.chance(30))),
        }
    } else {
        None
    };
    let mut p = Peer::new(false, service, sock, tls, name, rng);
    p.raw = raw;
    p
}

pub fn case(w: &World, rng: &mut Rng) -> Outcome {
    let mut extra: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut controls: Vec<Control> = vec![];
    let mut peers: Vec<Peer> = vec![];
    let result = run(w, rng, &mut controls, &mut peers, &mut extra);
    let sessions: Vec<&Session> = controls.iter().map(|c| &c.s).collect();
    let mut o = Outcome::of(&sessions, result);
    o.log = String::new();
    for p in &peers {
        o.log += &format!("hostile {} {} at service {} (raw {}, ended {:?}, end {:?}, lingers {}):\n  {}\n", if p.client { "client" } else { "server" }, p.ident, p.service, p.raw, p.ep.ended, p.end, p.linger, p.log.join("\n  "));
    }
    for s in sessions {
        o.log += &format!("proper session {}:\n  {}\n", s.ident, s.log.join("\n  "));
    }
    o.signature = mon_common::hash_of(&o.log);
    o.nontrivial = !controls.is_empty() && peers.iter().any(|p| p.ep.sent > 0);
    o.counts.extend(extra.into_iter().map(|(k, v)| (k.to_owned(), v)));
    // Everything ends.
    for p in &mut peers {
        if rng.chance(50) {
            p.ep.close(Close::Reset);
            p.ep.pump();
        }
    }
    o
}

fn run(w: &World, rng: &mut Rng, controls: &mut Vec<Control>, peers: &mut Vec<Peer>, extra: &mut BTreeMap<&'static str, u64>) -> Result<(), Mismatch> {
    let n = w.services.len();
    // At these services new connections meet hostile servers.
    let mut bad: Vec<bool> = (0..n).map(|_| rng.chance(60)).collect();
    let keep = rng.below(n);
    bad[keep] = false;
    let accept = |controls: &mut Vec<Control>, peers: &mut Vec<Peer>, rng: &mut Rng| {
        let mut p = false;
        for s in 0..n {
            while let Some(sock) = w.accept(s) {
                p = true;
                match controls.iter_mut().find(|c| c.s.service == s && c.s.srv.is_none() && c.result.is_none()) {
                    Some(c) => c.candidate(w, sock, rng),
                    None => peers.push(new_server(w, s, sock, rng)),
                }
            }
        }
        // What turned out to belong to somebody else
        for c in controls {
            if c.s.srv.is_some() {
                for (name, e, _) in c.candidates.drain(..) {
                    let mut p = new_server_from(c.s.service, e, name, rng);
                    p.greeted = true;
                    peers.push(p);
                }
            }
        }
        p
    };
    // Early sessions
    for _ in 0..rng.range(1, 2) {
        let s = rng.below(n);
        let mut c = Control::open(w, s, rng)?;
        let until = rng.below(3);
        controls.push(c);
        c = controls.pop().unwrap();
        let mut v = vec![c];
        while v[0].s.srv.is_none() || (until == 1 && !v[0].s.is_greeted()) {
            let mut p = accept(&mut v, peers, rng);
            p |= v[0].step(w, rng)?;
            if !p {
                std::thread::sleep(Duration::from_micros(60));
            }
        }
        controls.append(&mut v);
    }
    // Then the hostile ones, and more proper ones
    let mut clients = rng.range(1, 7);
    let mut late = 1 + rng.below(2);
    let start = Instant::now();
    loop {
        let mut p = accept(controls, peers, rng);
        if clients > 0 && rng.chance(15) {
            clients -= 1;
            let s = rng.below(n);
            if let Some(c) = new_client(w, s, rng) {
                *extra.entry("hostile clients").or_default() += 1;
                peers.push(c);
            }
            p = true;
        }
        for x in peers.iter_mut() {
            p |= x.step();
        }
        for c in controls.iter_mut().filter(|c| c.result.is_none()) {
            p |= c.step(w, rng)?;
        }
        let waiting = controls.iter().any(|c| c.s.srv.is_none());
        let quiet = clients == 0 && peers.iter().all(|x| x.done());
        if late > 0 && !waiting && (rng.chance(1) || quiet) {
            late -= 1;
            let good: Vec<usize> = (0..n).filter(|s| !bad[*s]).collect();
            let s = *rng.pick(&good);
            controls.push(Control::open(w, s, rng)?);
            *extra.entry("proper sessions begun after hostile ones").or_default() += 1;
            p = true;
        }
        if late == 0 && (quiet || start.elapsed() > Duration::from_secs(4)) && controls.iter().all(|c| c.result.is_some()) {
            break;
        }
        if !p {
            std::thread::sleep(Duration::from_micros(60));
        }
    }
    for c in controls.iter_mut() {
        if c.finish {
            let by_client = rng.chance(50);
            c.s.finish(by_client, Close::Fin)?;
        }
    }
    // Who heard of whom?
    let mut pairs: HashMap<String, String> = HashMap::new();
    let own: HashMap<&str, bool> = peers.iter().map(|p| (p.ident.as_str(), p.client)).collect();
    for p in peers.iter() {
        for id in idents(&p.ep.inbuf) {
            *extra.entry("names found in what hostile peers received").or_default() += 1;
            if id == p.ident {
                continue;
            }
            if controls.iter().any(|c| c.name == id) {
                return Err(mismatch!(["P04"], "{} received data of the proper session {id}", p.ident));
            }
            match own.get(id.as_str()) {
                // (of an earlier case: its connections were closed, but may still be served)
                None => continue,
                Some(client) if *client == p.client => {
                    // Perhaps the other side repeated it.
                    let text = format!("{} received the name of another {}: {id}", p.ident, if *client { "client" } else { "server" });
                    return Err(Mismatch { props: vec!["P04"], what: text });
                }
                Some(_) => {}
            }
            let (c, s) = if p.client { (p.ident.clone(), id) } else { (id, p.ident.clone()) };
            for (a, b) in [(&c, &s), (&s, &c)] {
                if let Some(old) = pairs.insert(a.clone(), b.clone()) {
                    if old != *b {
                        return Err(mismatch!(["P04"], "{a} exchanged data with both {old} and {b}"));
                    }
                }
            }
        }
    }
    *extra.entry("hostile servers").or_default() += peers.iter().filter(|p| !p.client).count() as u64;
    *extra.entry("hostile connections that exchanged names").or_default() += pairs.len() as u64 / 2;
    *extra.entry("bytes of hostile peers").or_default() += peers.iter().map(|p| p.ep.sent).sum::<u64>();
    *extra.entry("hostile connections closed by the proxy").or_default() += peers.iter().filter(|p| p.ep.ended.is_some()).count() as u64;
    Ok(())
}

fn new_server_from(service: usize, ep: Ep, name: String, rng: &mut Rng) -> Peer {
    let mut rng = Rng::new(rng.u64());
    let mut g = Gen::new(Rng::new(rng.u64()));
    g.prefix = name.clone();
    Peer {
        client: false,
        service,
        ep,
        ident: name,
        g,
        steps: rng.range(0, 20) as u32,
        end: Some(Close::Fin),
        linger: rng.chance(30),
        wild: rng.chance(60),
        raw: false,
        log: vec![],
        greeted: true,
        lines_at: 0,
        seen: vec![],
        open_tag: None,
        born: Instant::now(),
        rng,
    }
}

/// After everything was closed: no connection is kept, and nothing runs.
pub fn aftermath(w: &mut World, files: usize) -> Result<u64, Mismatch> {
    let start = Instant::now();
    loop {
        w.discard_connections();
        let now = w.files();
        if now <= files {
            break;
        }
        if start.elapsed() > Duration::from_secs(45) {
            return Err(mismatch!(["P04"], "all connections were closed 45 s ago, but the proxy still has {now} open files ({files} at its start)"));
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    let a = w.ticks();
    let t = Instant::now();
    std::thread::sleep(Duration::from_millis(400));
    let used = w.ticks() - a;
    if used as f64 > t.elapsed().as_secs_f64() * 50.0 {
        return Err(mismatch!(["P04"], "the proxy keeps computing although there is no connection ({used} ticks in {:?})", t.elapsed()));
    }
    Ok(used)
}
