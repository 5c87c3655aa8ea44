//! P08: credentials and discarded bytes do not show up in what the proxy writes to its log.
use std::{
    collections::BTreeMap,
    time::{Duration, Instant},
};

use mon_common::{mismatch, Mismatch, Rng};

use crate::{
    ep::{self, Close, Ep},
    world::{World, WAIT},
    Outcome,
};

fn base64(b: &[u8]) -> String {
    const T: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            s.push(if i > c.len() { '=' } else { T[(n >> (18 - 6 * i)) as usize & 63] as char });
        }
    }
    s
}

struct Talk<'a> {
    w: &'a World,
    service: usize,
    c: Ep,
    s: Option<Ep>,
    /// The server waits for data of AUTHENTICATE with this tag, so many times
    auth: Option<(String, u32)>,
    idle: Option<String>,
    /// Server's whims
    refuse: bool,
    refuse_auth: bool,
    greeted: bool,
    greeting: Vec<u8>,
    seen: BTreeMap<String, u64>,
    log: Vec<String>,
}

impl Talk<'_> {
    fn count(&mut self, what: &str) {
        *self.seen.entry(what.to_owned()).or_default() += 1;
    }
    /// The server answers what it has received.
    fn serve(&mut self) -> bool {
        let Some(s) = &mut self.s else { return false };
        if !self.greeted {
            self.greeted = true;
            s.send(&self.greeting);
        }
        let mut did = false;
        while let Some(i) = s.inbuf.iter().position(|b| *b == b'\n') {
            did = true;
            let line: Vec<u8> = s.inbuf.drain(..=i).collect();
            let line = String::from_utf8_lossy(&line).into_owned();
            if let Some((tag, left)) = self.auth.take() {
                if line.starts_with('*') || left == 0 {
                    let end = if self.refuse_auth { "NO" } else { "OK" };
                    s.send(format!("{tag} {end} ended\r\n").as_bytes());
                } else {
                    s.send(b"+ UGFzc3dvcmQ6\r\n");
                    self.auth = Some((tag, left - 1));
                }
                continue;
            }
            if line.starts_with("DONE") {
                if let Some(tag) = self.idle.take() {
                    s.send(format!("{tag} OK done\r\n").as_bytes());
                }
                continue;
            }
            let t = line.trim_end();
            if t.ends_with('}') {
                if t.ends_with("+}") {
                } else if self.refuse {
                    let tag = t.split(' ').next().unwrap();
                    s.send(format!("{tag} BAD too much\r\n").as_bytes());
                } else {
                    s.send(b"+ go on\r\n");
                }
                continue;
            }
            let mut words = line.split_whitespace();
            let (tag, word) = (words.next().unwrap_or(""), words.next().unwrap_or("").to_uppercase());
            if tag.len() != 7 || !tag.starts_with('t') {
                // (The rest of a command with literals)
                if let Some(tag) = self.log.iter().rev().find_map(|l| l.strip_prefix("tag ")) {
                    s.send(format!("{tag} OK fine\r\n").as_bytes());
                }
                continue;
            }
            if word == "AUTHENTICATE" {
                if words.nth(1).is_some() {
                    s.send(format!("{tag} {} ended\r\n", if self.refuse_auth { "NO" } else { "OK" }).as_bytes());
                } else {
                    s.send(b"+ VXNlcm5hbWU6\r\n");
                    self.auth = Some((tag.to_owned(), 1));
                }
            } else if word == "IDLE" {
                s.send(b"+ idling\r\n");
                self.idle = Some(tag.to_owned());
            } else {
                s.send(format!("{tag} OK fine\r\n").as_bytes());
            }
        }
        did
    }
    /// Until the client has received this. False: it does not come.
    fn until(&mut self, what: &str, at_most: Duration) -> bool {
        let start = Instant::now();
        loop {
            let mut p = self.c.pump();
            match &mut self.s {
                None => {
                    if let Some(sock) = self.w.accept(self.service) {
                        let tls = self.w.services[self.service].connect_tls.then(|| ep::good_server(false));
                        self.s = Some(Ep::new(sock, tls, Rng::new(self.log.len() as u64)));
                        p = true;
                    }
                }
                Some(s) => p |= s.pump(),
            }
            p |= self.serve();
            if let Some(i) = self.c.inbuf.windows(what.len()).position(|x| x == what.as_bytes()) {
                if let Some(e) = self.c.inbuf[i..].iter().position(|b| *b == b'\n') {
                    self.c.inbuf.drain(..=i + e);
                    return true;
                }
            }
            if self.c.ended.is_some() || start.elapsed() > at_most {
                return false;
            }
            if !p {
                std::thread::sleep(Duration::from_micros(60));
            }
        }
    }
    fn say(&mut self, b: &[u8]) {
        self.log.push(format!("client: {}", mon_common::show(b)));
        self.c.send(b);
    }
}

pub fn case(w: &World, secret: &str, rng: &mut Rng) -> Outcome {
    let service = rng.below(w.services.len());
    let s = &w.services[service];
    // (of cases before)
    while w.accept(service).is_some() {}
    let dialed = match ep::dial(s.addr, rng) {
        Ok(d) => d,
        Err(e) => return Outcome::of(&[], Err(mismatch!(["P04"], "cannot connect to the proxy: {e}"))),
    };
    let mut tls = s.bind_tls.is_some().then(|| ep::good_client(rng.chance(40)));
    // Nonsense from the beginning
    let plain = tls.is_some() && rng.chance(6);
    if plain {
        tls = None;
    }
    let bad_greeting = !plain && rng.chance(5);
    let greeting = if bad_greeting {
        match rng.below(4) {
            0 => format!("* OK {secret}\n"),
            1 => format!("{secret}\r\n"),
            2 => format!("* BAD {secret}\r\n"),
            _ => format!("* OK [{secret}\r\n"),
        }
    } else {
        "* OK hi\r\n".to_owned()
    };
    let mut t = Talk {
        w,
        service,
        c: Ep::new(dialed, tls, Rng::new(rng.u64())),
        s: None,
        auth: None,
        idle: None,
        refuse: false,
        refuse_auth: rng.chance(30),
        greeted: false,
        greeting: greeting.into_bytes(),
        seen: BTreeMap::new(),
        log: vec![],
    };
    t.c.chop = rng.chance(30);
    let mut result: Result<(), Mismatch> = Ok(());
    if plain {
        t.count("secrets sent in the clear where TLS is expected");
        t.say(format!("t000001 LOGIN user {secret}\r\n").as_bytes());
        t.until("* ", Duration::from_millis(300));
    } else if bad_greeting {
        t.count("malformed greetings with secrets");
        t.until("* ", Duration::from_millis(300));
    } else if !t.until("* OK hi", WAIT) {
        result = Err(mismatch!(["P01", "P04"], "the client received no greeting"));
    } else {
        for _ in 0..rng.range(2, 9) {
            if !step(&mut t, secret, rng) {
                break;
            }
        }
    }
    // The end comes somehow
    match rng.below(4) {
        0 => t.c.close(Close::Fin),
        1 => {
            if let Some(s) = &mut t.s {
                s.close(*rng.pick(&[Close::Fin, Close::Reset, Close::Full]))
            }
        }
        2 => t.c.close(Close::Reset),
        _ => t.c.close(Close::Full),
    }
    let start = Instant::now();
    while start.elapsed() < Duration::from_millis(3) {
        t.c.pump();
        if let Some(s) = &mut t.s {
            s.pump();
        }
    }
    let mut o = Outcome::of(&[], result);
    o.nontrivial = !t.seen.is_empty();
    o.log = t.log.join("\n").replace(secret, "(secret)");
    o.signature = mon_common::hash_of(&o.log);
    o.counts.extend(t.seen);
    o
}

fn step(t: &mut Talk, secret: &str, rng: &mut Rng) -> bool {
    let tag = format!("t{:06x}", rng.below(1 << 24));
    t.log.push(format!("tag {tag}"));
    t.refuse = false;
    // (Nothing is claimed about answers here.)
    let long = Duration::from_millis(700);
    let short = Duration::from_millis(150);
    // (Short and long ones may be treated differently.)
    let secret = &secret.repeat(match rng.below(30) {
        0..=19 => 1,
        20..=25 => rng.range(2, 6),
        26..=28 => rng.range(6, 80),
        _ => rng.range(80, 2000),
    });
    let n = secret.len();
    match rng.below(18) {
        0..=3 => {
            // LOGIN in all its forms
            t.count("passwords sent");
            let user = *rng.pick(&["user", "\"the user\"", "{4+}\r\nuser"]);
            let form = rng.below(4);
            t.refuse = rng.chance(25);
            match form {
                0 => t.say(format!("{tag} LOGIN {user} {secret}\r\n").as_bytes()),
                1 => t.say(format!("{tag} LOGIN {user} \"{secret} \"\r\n").as_bytes()),
                2 => t.say(format!("{tag} LOGIN {user} {{{n}+}}\r\n{secret}\r\n").as_bytes()),
                _ => {
                    t.say(format!("{tag} LOGIN {user} {{{n}}}\r\n").as_bytes());
                    if !t.until("+ ", long) {
                        return false;
                    }
                    t.say(format!("{secret}\r\n").as_bytes());
                }
            }
            t.until(&tag, long)
        }
        4 | 5 => {
            t.count("initial responses sent");
            let m = *rng.pick(&["PLAIN", "XOAUTH2", "LOGIN"]);
            let d = base64(format!("\0user\0{secret}").as_bytes());
            t.say(format!("{tag} AUTHENTICATE {m} {d}\r\n").as_bytes());
            t.until(&tag, long)
        }
        6..=8 => {
            let m = *rng.pick(&["PLAIN", "LOGIN", "SCRAM-SHA-256"]);
            t.say(format!("{tag} AUTHENTICATE {m}\r\n").as_bytes());
            for i in 0..2 {
                if !t.until("+ ", short) {
                    return t.c.ended.is_none();
                }
                if i == 0 && rng.chance(20) {
                    // No base64: it is discarded
                    t.count("invalid authenticate data sent");
                    t.say(format!("{secret}!!\r\n").as_bytes());
                }
                if rng.chance(10) {
                    t.say(b"*\r\n");
                    break;
                }
                t.count("authenticate data sent");
                let pad = *rng.pick(&["", "\0", "\0u"]);
                let d = base64(format!("{pad}{secret}").as_bytes());
                t.say(format!("{d}\r\n").as_bytes());
            }
            t.until(&tag, short) || t.c.ended.is_none()
        }
        9 | 10 => {
            // Mistyped
            t.count("malformed messages with secrets sent by clients");
            let b = match rng.below(6) {
                0 => format!("{tag} LOGIN user {secret} oops\r\n"),
                1 => format!("{tag} LOGON user {secret}\r\n"),
                2 => format!("{tag} LOGIN user \"{secret}\r\n"),
                3 => format!("{tag} LOGIN user {secret}\n"),
                4 => format!("{secret}\r\n"),
                _ => format!("{tag} LOGIN user {{{n}+}}\r\n{secret}  \r\n"),
            };
            t.say(b.as_bytes());
            true
        }
        11 => {
            t.count("announcements with secrets that are too big");
            t.say(format!("{tag} LOGIN {secret} {{99999999}}\r\n").as_bytes());
            t.until(&tag, long)
        }
        12 => {
            // More than a command may have
            t.count("messages with secrets and very long ones");
            t.say(format!("{tag} LOGIN user {secret} {{26214401+}}\r\n").as_bytes());
            false
        }
        13 | 14 => {
            // The server sends nonsense
            t.count("malformed messages with secrets sent by servers");
            let b = match rng.below(4) {
                0 => format!("* {secret} is nothing\r\n"),
                1 => format!("* OK {secret}\n"),
                2 => format!("{secret}\r\n"),
                _ => format!("* LIST () {{{n}}}\r\n{secret}\r\n"),
            };
            if let Some(s) = &mut t.s {
                t.log.push("server: nonsense".into());
                s.send(b.as_bytes());
            }
            true
        }
        17 => {
            // Data that nobody has asked for yet
            t.count("authenticate data sent too early");
            let m = *rng.pick(&["PLAIN", "LOGIN"]);
            let d = base64(secret.as_bytes());
            t.say(format!("{tag} AUTHENTICATE {m}\r\n{d}\r\n").as_bytes());
            t.until(&tag, short) || t.c.ended.is_none()
        }
        15 => {
            // The server confuses the proxy while a secret is under way
            t.count("passwords sent to confusing servers");
            t.say(format!("{tag} LOGIN user {{{n}+}}\r\n{secret}\r\n").as_bytes());
            if let Some(s) = &mut t.s {
                s.send(rng.pick(&["+ what\r\n", "* BYE no\r\n", "t000000 OK stale\r\n", "+ \r\n+ \r\n"]).as_bytes());
            }
            t.until(&tag, short) || t.c.ended.is_none()
        }
        _ => {
            t.say(format!("{tag} IDLE\r\n").as_bytes());
            if !t.until("+ ", long) {
                return false;
            }
            if rng.chance(40) {
                t.count("secrets sent instead of DONE");
                t.say(format!("{secret}\r\n").as_bytes());
            }
            t.say(b"DONE\r\n");
            t.until(&tag, short) || t.c.ended.is_none()
        }
    }
}
