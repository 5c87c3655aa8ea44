//! C21: memory held by client and server, watched by a counting allocator.
use imap_next::{
    client::{self, Client},
    server::{self, Server},
    Interrupt, Io, State,
};
use imap_types::{
    auth::AuthenticateData,
    command::{Command, CommandBody},
    core::Tag,
    response::{CommandContinuationRequest, Greeting, Response, Status},
};
use mon_common::{guard, hash_of, mismatch, Mismatch, Rng};

use crate::{
    gen::{self, Gen},
    heap::Account,
    Seen,
};

/// Memory that may be held in any case
const BASE: usize = 256 * 1024;
/// ... and per byte that was received but not yet delivered (or was queued by the user)
const PER_BYTE: usize = 16;
/// Growth that may remain between the first and the last of many equal rounds
const GROWTH: usize = 8 * 1024;

fn died(p: String) -> Mismatch {
    Mismatch { props: vec!["C03", "C21"], what: format!("panicked: {p}") }
}

#[derive(Clone)]
enum Op {
    /// Feed this in pieces of these sizes
    Feed(Vec<u8>, Vec<usize>),
    /// Feed this many bytes again and again
    Flood(Vec<u8>, usize),
    Response(Response<'static>),
    Command(Command<'static>),
    /// Answer whatever the client waits for (true: with a refusal)
    Serve(bool),
}

impl std::fmt::Debug for Op {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Self::Feed(b, c) => write!(f, "feed \"{}\" in {} pieces", mon_common::show(b), c.len()),
            Self::Flood(b, n) => write!(f, "feed {n} times \"{}\"", mon_common::show(b)),
            Self::Response(r) => write!(f, "enqueue {r:?}"),
            Self::Command(c) => write!(f, "enqueue {c:?}"),
            Self::Serve(refuse) => write!(f, "the server answers (refusing: {refuse})"),
        }
    }
}

trait Machine {
    /// Call `next` until input is needed. Returns the number of things that happened.
    fn drain(&mut self, a: &mut Account) -> Result<usize, Mismatch>;
    fn feed(&mut self, a: &mut Account, b: &[u8]) -> Result<(), Mismatch>;
    fn op(&mut self, a: &mut Account, op: &Op) -> Result<usize, Mismatch>;
    fn round(&mut self);
}

struct Srv {
    s: Server,
    reactions: usize,
    /// (Big enough from the beginning, so that the machine's account is not charged for it)
    tag: String,
}

impl Machine for Srv {
    fn drain(&mut self, a: &mut Account) -> Result<usize, Mismatch> {
        use server::Event::*;
        let mut n = 0;
        loop {
            let (s, kept) = (&mut self.s, &mut self.tag);
            let (mut auth, mut idle) = (false, false);
            let mut keep = |tag: &Tag| {
                kept.clear();
                kept.push_str(tag.inner());
            };
            let more = guard(|| {
                a.call(|| match s.next() {
                    Ok(e) => {
                        match e {
                            CommandAuthenticateReceived { command_authenticate } => {
                                keep(&command_authenticate.tag);
                                auth = true;
                            }
                            AuthenticateDataReceived { .. } => auth = true,
                            IdleCommandReceived { tag } => {
                                keep(&tag);
                                idle = true;
                            }
                            _ => {}
                        }
                        true
                    }
                    Err(Interrupt::Io(Io::NeedMoreInput)) => false,
                    Err(_) => true,
                })
            })
            .map_err(died)?;
            if auth {
                self.reactions += 1;
                let s = &mut self.s;
                if self.reactions % 2 == 1 {
                    guard(|| a.call(|| s.authenticate_continue(CommandContinuationRequest::basic(None, "go on").unwrap()).is_ok())).map_err(died)?;
                } else {
                    let tag = Tag::try_from(self.tag.clone()).ok();
                    guard(|| a.call(|| s.authenticate_finish(Status::ok(tag.clone(), None, "done").unwrap()).is_ok())).map_err(died)?;
                }
            }
            if idle {
                self.reactions += 1;
                let s = &mut self.s;
                if self.reactions % 3 != 0 {
                    guard(|| a.call(|| s.idle_accept(CommandContinuationRequest::basic(None, "idling").unwrap()).is_ok())).map_err(died)?;
                } else {
                    let tag = Tag::try_from(self.tag.clone()).ok();
                    guard(|| a.call(|| s.idle_reject(Status::no(tag.clone(), None, "no").unwrap()).is_ok())).map_err(died)?;
                }
            }
            n += more as usize;
            if !more {
                return Ok(n);
            }
        }
    }
    fn feed(&mut self, a: &mut Account, b: &[u8]) -> Result<(), Mismatch> {
        let s = &mut self.s;
        guard(|| a.call(|| s.enqueue_input(b))).map_err(died)
    }
    fn op(&mut self, a: &mut Account, op: &Op) -> Result<usize, Mismatch> {
        if let Op::Response(r) = op {
            let s = &mut self.s;
            guard(|| {
                a.call(|| match r.clone() {
                    Response::Data(d) => drop(s.enqueue_data(d)),
                    Response::Status(t) => drop(s.enqueue_status(t)),
                    Response::CommandContinuationRequest(c) => drop(s.enqueue_continuation_request(c)),
                })
            })
            .map_err(died)?;
        }
        Ok(0)
    }
    fn round(&mut self) {
        self.reactions = 0;
    }
}

struct Cli {
    c: Client,
    /// The last line that was sent
    line: Vec<u8>,
    tag: Vec<u8>,
    idle: bool,
    auth: bool,
    want_data: bool,
    want_done: bool,
}

impl Cli {
    fn wrote(&mut self, b: &[u8]) {
        for l in b.split_inclusive(|x| *x == b'\n') {
            if self.line.ends_with(b"\n") || self.line.len() > 200 {
                self.line.clear();
            }
            self.line.extend(&l[l.len().saturating_sub(200)..]);
        }
    }
}

impl Machine for Cli {
    fn drain(&mut self, a: &mut Account) -> Result<usize, Mismatch> {
        use client::Event::*;
        let mut n = 0;
        loop {
            let c = &mut self.c;
            let (mut data, mut done, mut out) = (false, false, None);
            let more = guard(|| {
                a.call(|| match c.next() {
                    Ok(e) => {
                        match e {
                            AuthenticateContinuationRequestReceived { .. } => data = true,
                            IdleAccepted { .. } => done = true,
                            _ => {}
                        }
                        true
                    }
                    Err(Interrupt::Io(Io::NeedMoreInput)) => false,
                    Err(Interrupt::Io(Io::Output(b))) => {
                        out = Some(b);
                        true
                    }
                    Err(_) => true,
                })
            })
            .map_err(died)?;
            if let Some(b) = out {
                a.call(|| ());
                a.held -= b.capacity() as isize;
                self.wrote(&b);
            }
            self.want_data |= data;
            self.want_done |= done;
            n += more as usize;
            if !more {
                return Ok(n);
            }
        }
    }
    fn feed(&mut self, a: &mut Account, b: &[u8]) -> Result<(), Mismatch> {
        let c = &mut self.c;
        guard(|| a.call(|| c.enqueue_input(b))).map_err(died)
    }
    fn op(&mut self, a: &mut Account, op: &Op) -> Result<usize, Mismatch> {
        match op {
            Op::Command(x) => {
                let c = &mut self.c;
                self.tag = x.tag.inner().as_bytes().to_vec();
                self.auth = matches!(x.body, CommandBody::Authenticate { .. });
                self.idle = matches!(x.body, CommandBody::Idle);
                guard(|| a.call(|| drop(c.enqueue_command(x.clone())))).map_err(died)?;
                Ok(0)
            }
            Op::Serve(refuse) => {
                let mut n = self.drain(a)?;
                for i in 0..40 {
                    let waits = self.line.ends_with(b"}\r\n") && !self.line.ends_with(b"+}\r\n");
                    let end = |s: &str| [&self.tag[..], s.as_bytes()].concat();
                    if waits && *refuse && i > 0 {
                        let b = end(" BAD no\r\n");
                        self.line.clear();
                        self.feed(a, &b)?;
                    } else if waits || (i < 2 && (self.auth || self.idle)) {
                        if waits {
                            self.line.clear();
                        }
                        self.feed(a, b"+ go\r\n")?;
                    } else {
                        let b = end(" OK done\r\n");
                        self.feed(a, &b)?;
                        n += self.drain(a)?;
                        break;
                    }
                    n += self.drain(a)?;
                    let c = &mut self.c;
                    if std::mem::take(&mut self.want_data) {
                        guard(|| a.call(|| c.set_authenticate_data(AuthenticateData::r#continue(vec![b'x'; 40])).is_ok())).map_err(died)?;
                    }
                    let c = &mut self.c;
                    if std::mem::take(&mut self.want_done) {
                        guard(|| a.call(|| c.set_idle_done())).map_err(died)?;
                    }
                    n += self.drain(a)?;
                }
                Ok(n)
            }
            _ => Ok(0),
        }
    }
    fn round(&mut self) {}
}

/// Stands for the tag of a command, which is another one in each round
const TAG: &str = "T0000000";

fn tagged(b: &[u8], tag: &str) -> Vec<u8> {
    let mut v = b.to_vec();
    let mut i = 0;
    while i + TAG.len() <= v.len() {
        if v[i..].starts_with(TAG.as_bytes()) {
            v[i..i + tag.len()].copy_from_slice(tag.as_bytes());
            i += tag.len();
        } else {
            i += 1;
        }
    }
    v
}

fn whole(b: Vec<u8>) -> Op {
    let n = b.len();
    Op::Feed(b, vec![n])
}

fn pieces(rng: &mut Rng, b: Vec<u8>, max: usize, ops: &mut Vec<Op>) {
    if b.len() < max && rng.chance(60) {
        ops.push(whole(b));
        return;
    }
    let mut left = b.len();
    let mut cuts = vec![];
    while left > 0 {
        let n = if rng.chance(10) { max } else { rng.range(1, 60.min(max)) }.min(left);
        cuts.push(n);
        left -= n;
    }
    ops.push(Op::Feed(b, cuts));
}

pub fn case(rng: &mut Rng) -> Seen {
    let server = rng.chance(50);
    let mut g = Gen::new(Rng::new(rng.u64()));
    let chunk = *rng.pick(&[50, 500, 4096]);
    let mut ops: Vec<Op> = vec![];
    let mut tail: Vec<Op> = vec![];
    // The bytes that may have to be held in the repeated rounds, and in the tail
    let mut window: usize;
    let mut tail_window: usize;
    let items = rng.range(2, 12);
    let mut opts = server::Options::default();
    let relaxed = rng.chance(30);
    opts.crlf_relaxed = relaxed;
    let mut queued = 0;
    if server {
        let small = rng.chance(75);
        let d = server::Options::default();
        if small {
            opts.max_literal_size = *rng.pick(&[60, 500, 3000, 20_000]);
            opts.max_command_size = opts.max_literal_size + *rng.pick(&[100, 400, 4000]);
        }
        let (lit, cmd) = (opts.max_literal_size as usize, opts.max_command_size as usize);
        for _ in 0..items {
            match rng.below(11) {
                0..=3 => {
                    g.max_literal = lit.min(3000);
                    let mut c = match rng.below(6) {
                        0 => g.auth_command(),
                        1 => g.idle_command(),
                        _ => g.plain_command(),
                    };
                    c.tag = Tag::try_from(TAG).unwrap();
                    let b = gen::enc_command(&c);
                    pieces(rng, b, chunk, &mut ops);
                    // (What may follow AUTHENTICATE or IDLE)
                    pieces(rng, b"AAAA\r\n".to_vec(), chunk, &mut ops);
                    pieces(rng, b"DONE\r\n".to_vec(), chunk, &mut ops);
                }
                4 => {
                    let mut b = g.garbage();
                    b.extend(b"\r\n");
                    pieces(rng, b, chunk, &mut ops);
                }
                5 => pieces(rng, b"a NOOP\n".to_vec(), chunk, &mut ops),
                // Announcements that are too big
                6 => {
                    let n = lit + rng.range(1, 9);
                    pieces(rng, format!("{TAG} LOGIN {{{n}}}\r\n").into_bytes(), chunk, &mut ops);
                }
                7 => pieces(rng, format!("{TAG} LOGIN {{4294967295}}\r\n").into_bytes(), chunk, &mut ops),
                8 if small => {
                    let n = lit + rng.range(1, 9);
                    let mut b = format!("{TAG} LOGIN {{{n}+}}\r\n").into_bytes();
                    b.extend(vec![b'z'; n]);
                    b.extend(b" {1+}\r\nx\r\n");
                    pieces(rng, b, chunk, &mut ops);
                }
                9 if small => {
                    // Longer than a command may be
                    let mut b = b"q NOOP ".to_vec();
                    b.extend(vec![b'z'; cmd + rng.below(300)]);
                    b.extend(b"\r\n");
                    pieces(rng, b, chunk, &mut ops);
                }
                _ => {
                    g.max_literal = 2000;
                    let r = if rng.chance(60) { Response::Data(g.data()) } else { Response::Status(g.untagged_status()) };
                    queued += gen::enc_response(&r).len();
                    ops.push(Op::Response(r));
                }
            }
        }
        if small {
            pieces(rng, b"\r\n\r\n".to_vec(), chunk, &mut ops);
        }
        let fed: usize = ops.iter().map(|o| if let Op::Feed(b, _) = o { b.len() } else { 0 }).sum();
        window = cmd.min(2 * fed) + chunk + 2 * queued;
        // Finally, something that the limits have to bound
        let zs = vec![b'z'; *rng.pick(&[1, 100, 4096, 60_000])];
        match rng.below(5) {
            0 => {
                // A line without end (beyond the biggest limit in some cases)
                let total = if small { cmd * 40 + 500_000 } else { 300_000 };
                let times = (total / zs.len()).min(100_000);
                tail.push(Op::Flood(zs.clone(), times));
                tail_window = cmd.min(zs.len() * times) + zs.len();
            }
            1 => {
                // The biggest literal is announced, but does not come
                tail.push(whole(format!("\r\nl LOGIN {{{lit}}}\r\n").into_bytes()));
                tail.push(whole(b"abc".to_vec()));
                tail_window = 40;
            }
            2 => {
                tail.push(whole(format!("\r\nl LOGIN {{{lit}+}}\r\n").into_bytes()));
                tail_window = 40;
            }
            3 => {
                // Error after error
                let b = b"nonsense\r\n".repeat(rng.range(1, 30));
                tail_window = b.len();
                tail.push(Op::Flood(b, 3000));
            }
            _ => {
                // Rejections without end
                let b = format!("x LOGIN {{{}}}\r\n", d.max_literal_size as usize + 1).into_bytes();
                tail_window = b.len();
                tail.push(Op::Flood(b, 5000));
            }
        }
        tail_window += window;
    } else {
        g.max_literal = 1500;
        let mut biggest = 0;
        for _ in 0..items {
            match rng.below(8) {
                0..=2 => {
                    let r = if rng.chance(60) { Response::Data(g.data()) } else { Response::Status(g.untagged_status()) };
                    let b = gen::enc_response(&r);
                    biggest = biggest.max(b.len());
                    pieces(rng, b, chunk, &mut ops);
                }
                3 => {
                    let mut b = g.garbage();
                    b.retain(|x| *x != b'{' && *x != b'}');
                    b.extend(b"\r\n");
                    biggest = biggest.max(b.len());
                    pieces(rng, b, chunk, &mut ops);
                }
                4 => pieces(rng, b"* OK bare\n".to_vec(), chunk, &mut ops),
                _ => {
                    let mut c = match rng.below(5) {
                        0 => g.auth_command(),
                        1 => g.idle_command(),
                        _ => g.plain_command(),
                    };
                    c.tag = Tag::try_from(TAG).unwrap();
                    queued += gen::enc_command(&c).len() + 100;
                    ops.push(Op::Command(c));
                    ops.push(Op::Serve(rng.chance(25)));
                }
            }
        }
        window = 2 * biggest + chunk + 2 * queued + 200;
        match rng.below(4) {
            0 | 1 => {
                let n: u64 = *rng.pick(&[10_000_000, 300_000_000, 4_294_967_295]);
                tail.push(whole(format!("\r\n* 1 FETCH (BODY[] {{{n}}}\r\n").into_bytes()));
                let b = vec![b'l'; rng.range(1, 300)];
                tail_window = 100 + b.len() * 50;
                tail.push(Op::Flood(b, 50));
            }
            2 => {
                let b = b"nonsense\r\n".repeat(rng.range(1, 30));
                tail_window = b.len();
                tail.push(Op::Flood(b, 3000));
            }
            _ => {
                let b = b"* OK fine\r\n".repeat(rng.range(1, 30));
                tail_window = b.len();
                tail.push(Op::Flood(b, 3000));
            }
        }
        tail_window += window;
    }
    // (The machine's first greeting and so on)
    window += 300;
    tail_window += 300;
    let mut account = Account::default();
    let mut log = format!("{} relaxed {relaxed}\nrepeated:\n", if server { "server" } else { "client" });
    for o in &ops {
        log += &format!("  {o:?}\n");
    }
    log += "finally:\n";
    for o in &tail {
        log += &format!("  {o:?}\n");
    }
    let mut counts = vec![];
    let rounds = match rng.below(20) {
        0 => 3000,
        1..=4 => 300,
        _ => rng.range(40, 80),
    };
    let mut happened = 0;
    let result = (|| {
        let mut m: Box<dyn Machine> = if server {
            let s = guard(|| account.call(|| Server::new(opts.clone(), Greeting::ok(None, "hi").unwrap()))).map_err(died)?;
            Box::new(Srv { s, reactions: 0, tag: String::with_capacity(1 << 16) })
        } else {
            let mut o = client::Options::default();
            o.crlf_relaxed = relaxed;
            let c = guard(|| account.call(|| Client::new(o))).map_err(died)?;
            Box::new(Cli { c, line: vec![], tag: vec![], idle: false, auth: false, want_data: false, want_done: false })
        };
        if !server {
            m.feed(&mut account, b"* OK hi\r\n")?;
        }
        happened += m.drain(&mut account)?;
        let mut early = 0;
        let mut late = 0;
        for r in 0..rounds {
            m.round();
            let tag = format!("T{r:07}");
            for o in &ops {
                match o {
                    Op::Feed(b, cuts) => {
                        let b = tagged(b, &tag);
                        let mut at = 0;
                        for n in cuts {
                            m.feed(&mut account, &b[at..at + n])?;
                            at += n;
                            happened += m.drain(&mut account)?;
                        }
                    }
                    Op::Command(c) => {
                        let mut c = c.clone();
                        c.tag = Tag::try_from(tag.clone()).unwrap();
                        happened += m.op(&mut account, &Op::Command(c))?;
                    }
                    o => happened += m.op(&mut account, o)?,
                }
                happened += m.drain(&mut account)?;
                bound(&account, window, "in the repeated rounds")?;
            }
            if r < rounds / 4 {
                early = early.max(account.held);
            } else if r + rounds / 4 >= rounds {
                late = late.max(account.held);
            }
        }
        if late > early + (GROWTH + 4 * window) as isize {
            return Err(mismatch!(["C21"], "the memory that is held grows with the number of messages: at most {early} bytes after each of the first {} rounds, up to {late} after the last of {rounds} like rounds", rounds / 4));
        }
        account.peak = account.held;
        let mut fed = 0u64;
        for o in &tail {
            match o {
                Op::Flood(b, n) => {
                    for _ in 0..*n {
                        m.feed(&mut account, b)?;
                        fed += b.len() as u64;
                        happened += m.drain(&mut account)?;
                        bound(&account, tail_window, "at the end")?;
                    }
                }
                Op::Feed(b, _) => m.feed(&mut account, b)?,
                _ => {}
            }
            happened += m.drain(&mut account)?;
            bound(&account, tail_window, "at the end")?;
        }
        counts.push(("bytes fed at the end".to_string(), fed));
        account.call(|| drop(m));
        Ok(())
    })();
    let side = if server { "server" } else { "client" };
    counts.push((format!("{side} rounds"), rounds as u64));
    counts.push((format!("{side} events, errors and outputs"), happened as u64));
    counts.push((format!("{side} cases with a peak above 64 KiB"), (account.peak > 65536) as u64));
    Seen {
        signature: hash_of(&(server, window, tail_window, rounds, happened)),
        nontrivial: happened > rounds,
        counts,
        log,
        result,
    }
}

fn bound(a: &Account, window: usize, when: &str) -> Result<(), Mismatch> {
    let max = BASE + PER_BYTE * window;
    if a.peak > max as isize {
        return Err(mismatch!(
            ["C21"],
            "{} bytes of memory were held {when}, although at most {window} bytes were received and not yet delivered, or queued (more than {max} is no longer in proportion)",
            a.peak
        ));
    }
    Ok(())
}
