//! S01-S06 and the stream part of C19: the real `Stream` over loopback sockets (plain and TLS),
//! driven with a scripted state machine, against a scripted peer.
#[path = "../../common/capture.rs"]
mod capture;
mod peer;

use std::{
    collections::VecDeque,
    future::Future,
    pin::Pin,
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Arc, OnceLock,
    },
    task::{Context, Poll},
    time::Duration,
};

use imap_next::{
    stream::{Error, Stream},
    Interrupt, Io, State,
};
use mon_common::{guard, hash_of, mismatch, set_current, Args, Mismatch, Report, Rng};
use peer::{Close, Peer, Step, WAIT};
use rustls::{
    pki_types::{pem::PemObject, CertificateDer, PrivateKeyDer, ServerName},
    ClientConfig, RootCertStore, ServerConfig,
};
use tokio::net::TcpSocket;
use tokio_rustls::{TlsAcceptor, TlsConnector};

// ------------------------------------------------------------------------ the scripted state machine

#[derive(Clone, Debug)]
enum Act {
    /// Output the next n bytes
    Out(usize),
    /// Needs input until n bytes were received in total
    Need(usize),
    Event(u32),
    Error(u32),
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum After {
    Nothing,
    /// Flush; then the peer must be able to finish its steps while nobody drives the stream
    FlushBarrier,
    Flush,
    Pause,
    /// Let the peer go on
    Release,
}

struct Script {
    acts: VecDeque<Act>,
    expect: Arc<Vec<u8>>,
    received: usize,
    out: Arc<Vec<u8>>,
    out_at: usize,
    bad: Option<String>,
    trace: Vec<(u8, u8)>,
    fed: u64,
    asked: u64,
    progress: Arc<AtomicU64>,
}

fn log2(n: usize) -> u8 {
    (usize::BITS - n.leading_zeros()) as u8
}

impl State for Script {
    type Event = u32;
    type Error = u32;

    fn enqueue_input(&mut self, bytes: &[u8]) {
        self.fed += 1;
        self.progress.fetch_add(1, Ordering::SeqCst);
        self.trace.push((0, log2(bytes.len())));
        let end = self.received + bytes.len();
        if self.bad.is_none() && self.expect.get(self.received..end) != Some(bytes) {
            let k = bytes
                .iter()
                .zip(self.expect[self.received.min(self.expect.len())..].iter())
                .take_while(|(a, b)| a == b)
                .count();
            self.bad = Some(format!(
                "the state machine was given wrong bytes: they differ at offset {} (of {} sent by the peer), in a piece of {} bytes at {}",
                self.received + k,
                self.expect.len(),
                bytes.len(),
                self.received
            ));
        }
        self.received = end;
    }

    fn next(&mut self) -> Result<u32, Interrupt<u32>> {
        self.asked += 1;
        loop {
            match self.acts.front() {
                None => return Err(Interrupt::Io(Io::NeedMoreInput)),
                Some(Act::Need(n)) if self.received < *n => return Err(Interrupt::Io(Io::NeedMoreInput)),
                _ => {}
            }
            self.progress.fetch_add(1, Ordering::SeqCst);
            match self.acts.pop_front().unwrap() {
                Act::Need(_) => {}
                Act::Out(n) => {
                    self.trace.push((1, log2(n)));
                    let v = self.out[self.out_at..self.out_at + n].to_vec();
                    self.out_at += n;
                    return Err(Interrupt::Io(Io::Output(v)));
                }
                Act::Event(id) => {
                    self.trace.push((2, 0));
                    return Ok(id);
                }
                Act::Error(id) => {
                    self.trace.push((3, 0));
                    return Err(Interrupt::Error(id));
                }
            }
        }
    }
}

// ------------------------------------------------------------------------------------- futures

/// The future's result, or `None` if nothing happened in the whole conversation for `WAIT * n`.
async fn patient<F: Future>(progress: &AtomicU64, n: u32, f: F) -> Option<F::Output> {
    tokio::pin!(f);
    loop {
        let before = progress.load(Ordering::SeqCst);
        match tokio::time::timeout(WAIT * n, &mut f).await {
            Ok(r) => return Some(r),
            Err(_) if progress.load(Ordering::SeqCst) == before => return None,
            Err(_) => {}
        }
    }
}

enum Polled<T> {
    Done(T),
    Cancelled,
    Panic(String),
}

/// Polls under the guard and gives up at a suspension point when the plan says so.
struct Plan<'a, F> {
    f: F,
    rng: &'a mut Rng,
    cancel: u32,
    points: &'a mut u64,
}

impl<F: Future + Unpin> Future for Plan<'_, F> {
    type Output = Polled<F::Output>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let this = &mut *self;
        match guard(|| Pin::new(&mut this.f).poll(cx)) {
            Err(p) => Poll::Ready(Polled::Panic(p)),
            Ok(Poll::Ready(r)) => Poll::Ready(Polled::Done(r)),
            Ok(Poll::Pending) => {
                *this.points += 1;
                if this.cancel > 0 && this.rng.chance(this.cancel) {
                    return Poll::Ready(Polled::Cancelled);
                }
                Poll::Pending
            }
        }
    }
}

// ---------------------------------------------------------------------------------------- cases

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Tls {
    No,
    /// The stream under test is the TLS client
    Client { v12: bool },
    Server { v12: bool },
}

struct Case {
    tls: Tls,
    /// Socket buffer sizes of the stream under test and of the peer
    buffers: (Option<u32>, Option<u32>),
    /// This many bytes leave the peer together with the end of its handshake
    early: usize,
    /// ... and so does the close notification
    early_notify: bool,
    acts: Vec<Act>,
    after: Vec<After>,
    steps: Vec<Step>,
    total_in: usize,
    total_out: usize,
    close: Option<Close>,
    cancel: u32,
    fine: bool,
    slow: bool,
    seed: u64,
    text: Option<String>,
}

impl Case {
    fn describe(&self) -> String {
        let mut s = format!(
            "{:?}, socket buffers {:?}, {} bytes with the handshake, {}% cancelled, fine segments {}, slow peer {}, peer sends {} and stream sends {} bytes, close {:?}\nstate machine:\n",
            self.tls, self.buffers, self.early, self.cancel, self.fine, self.slow, self.total_in, self.total_out, self.close
        );
        let mut e = 0;
        for a in self.acts.iter().take(200) {
            s += &format!("  {a:?}");
            if matches!(a, Act::Event(_) | Act::Error(_)) {
                s += &format!(" then {:?}", self.after[e]);
                e += 1;
            }
            s.push('\n');
        }
        s += "peer:\n";
        for p in self.steps.iter().take(200) {
            s += &format!("  {p:?}\n");
        }
        s
    }
}

struct Builder {
    acts: Vec<Act>,
    after: Vec<After>,
    steps: Vec<Step>,
    sent: usize,
    out: usize,
    needed: usize,
    recvd: usize,
    id: u32,
}

impl Builder {
    fn send(&mut self, n: usize) {
        self.steps.push(Step::Send(n));
        self.sent += n;
    }
    fn out(&mut self, n: usize) {
        self.acts.push(Act::Out(n));
        self.out += n;
    }
    fn need(&mut self, n: usize) {
        if n > self.needed {
            self.acts.push(Act::Need(n));
            self.needed = n;
        }
    }
    fn recv(&mut self, n: usize) {
        if n > self.recvd {
            self.steps.push(Step::Recv(n));
            self.recvd = n;
        }
    }
    fn event(&mut self, error: bool, after: After) {
        self.id += 1;
        self.acts.push(if error { Act::Error(self.id) } else { Act::Event(self.id) });
        self.after.push(after);
    }
    fn barrier(&mut self) {
        self.need(self.sent);
        self.event(false, After::FlushBarrier);
        self.recv(self.out);
        self.steps.push(Step::Signal);
    }
}

fn size(rng: &mut Rng, big: usize) -> usize {
    match rng.below(10) {
        0 => 1,
        1..=4 => rng.range(1, 60),
        5 | 6 => rng.range(60, 1500),
        7 => *rng.pick(&[127, 128, 129, 255, 256, 1023, 1024, 4095, 4096, 4097, 8192]),
        8 => rng.range(1500, 20_000.min(big.max(1501))),
        _ => {
            if rng.chance(50) {
                rng.range(1, big)
            } else {
                (*rng.pick(&[16383, 16384, 16385, 32768, 65535, 65536, 65537, 131072])).min(big)
            }
        }
    }
}

fn make(property: &str, rng: &mut Rng) -> Case {
    let mut tls = match rng.below(5) {
        0 => Tls::Client { v12: true },
        1 => Tls::Client { v12: false },
        2 => Tls::Server { v12: rng.chance(40) },
        _ => Tls::No,
    };
    if property == "S04" && tls == Tls::No {
        let v12 = rng.chance(40);
        tls = if rng.chance(50) { Tls::Client { v12 } } else { Tls::Server { v12 } };
    }
    let mut b = Builder { acts: vec![], after: vec![], steps: vec![], sent: 0, out: 0, needed: 0, recvd: 0, id: 0 };
    let mut early = 0;
    if tls != Tls::No && rng.chance(if property == "S04" { 60 } else { 25 }) {
        early = size(rng, 20_000);
        b.sent = early;
        if rng.chance(70) {
            // Nothing else comes until this was delivered
            b.need(early);
            let after = *rng.pick(&[After::FlushBarrier, After::Nothing]);
            b.event(false, after);
            if after == After::FlushBarrier {
                b.steps.push(Step::Signal);
            }
        }
    }
    let early_notify = early > 0 && matches!(property, "S04" | "S05" | "S02") && rng.chance(25);
    if early_notify {
        b = Builder { sent: early, acts: vec![], after: vec![], steps: vec![], out: 0, needed: 0, recvd: 0, id: 0 };
    }
    let big = match property {
        "S05" | "C19" => 3_000,
        "S03" => 3_000_000,
        _ => *rng.pick(&[3_000, 3_000, 40_000, 300_000]),
    };
    let small_buffers = rng.chance(match property {
        "S02" | "S03" => 70,
        _ => 30,
    });
    let buffers = if small_buffers { (Some(rng.range(4096, 12_000) as u32), Some(rng.range(4096, 12_000) as u32)) } else { (None, None) };
    let tokens = match property {
        _ if early_notify => 0,
        "S05" => rng.range(0, 8),
        "S03" => rng.range(1, 10),
        _ => rng.range(2, 25),
    };
    let flood = match property {
        "S03" => rng.chance(50),
        "S01" | "S02" | "S04" if !early_notify => rng.below(400) == 0,
        _ => false,
    };
    if flood {
        // Both sides send more than everything in between can hold before they read.
        let total = rng.range(6_000_000, 9_000_000);
        let mut left = total;
        while left > 0 {
            let n = rng.range(1, 2_000_000).min(left);
            b.out(n);
            left -= n;
            if rng.chance(20) {
                b.event(false, After::Nothing);
            }
        }
        b.send(rng.range(6_000_000, 9_000_000));
        b.recv(b.out);
        b.need(b.sent);
        b.event(false, After::Nothing);
    }
    for _ in 0..tokens {
        match rng.below(14) {
            0..=2 => {
                let n = size(rng, big);
                b.out(n);
                if property == "S03" && rng.chance(60) {
                    // must arrive although the peer says nothing
                    b.recv(b.out);
                    b.steps.push(Step::Send(1));
                    b.sent += 1;
                    b.need(b.sent);
                }
            }
            3..=5 => b.send(size(rng, big)),
            6 | 7 => {
                let n = if rng.chance(50) { b.sent } else { rng.range(b.needed, b.sent) };
                b.need(n);
            }
            8 => {
                let n = if rng.chance(50) { b.out } else { rng.range(b.recvd, b.out) };
                b.recv(n);
            }
            9 => b.event(rng.chance(30), After::Nothing),
            10 => b.event(false, After::Pause),
            11 => {
                b.steps.push(Step::Sleep(rng.range(1, 1500) as u64));
                if rng.chance(40) && tls != Tls::No {
                    b.steps.push(Step::Rekey);
                }
            }
            12 => b.barrier(),
            _ => {
                // The peer goes on only when the driver got here.
                b.recv(b.out);
                b.event(false, After::Release);
                b.steps.push(Step::Wait);
                if rng.chance(50) {
                    b.need(b.sent);
                    b.event(false, After::Flush);
                    b.recv(b.out);
                }
            }
        }
    }
    let mut close = None;
    if early_notify || property == "S05" || (property == "S02" && rng.chance(20)) {
        let kinds: &[Close] = if tls == Tls::No {
            &[Close::Fin, Close::Fin, Close::Reset]
        } else {
            &[Close::Fin, Close::NotifyFin, Close::NotifyOnly, Close::NotifyFin, Close::NotifyOnly, Close::Reset, Close::Garbage, Close::CutRecord]
        };
        let kind = if early_notify { *rng.pick(&[Close::NotifyFin, Close::NotifyOnly]) } else { *rng.pick(kinds) };
        close = Some(kind);
        b.recv(b.out);
        if rng.chance(40) && !early_notify {
            // Data together with the end
            b.send(size(rng, big));
        }
        b.need(b.sent);
        if rng.chance(60) {
            b.event(rng.chance(20), After::Nothing);
        }
        if rng.chance(40) {
            // Output and reports that are due although the peer is gone already
            for _ in 0..rng.range(1, 4) {
                b.out(size(rng, big));
                if rng.chance(70) {
                    // (The peer still reads.)
                    let after = *rng.pick(&[After::Nothing, After::Nothing, After::Flush]);
                    b.event(rng.chance(20), after);
                }
            }
        }
        b.steps.push(Step::Close(kind));
    } else {
        b.barrier();
    }
    let volume = b.sent + b.out;
    Case {
        tls,
        buffers,
        early,
        early_notify,
        acts: b.acts,
        after: b.after,
        steps: b.steps,
        total_in: b.sent,
        total_out: b.out,
        close,
        cancel: if property == "S02" { *rng.pick(&[20, 50, 80, 95]) } else { 0 },
        fine: volume < 100_000 && rng.chance(60),
        slow: volume < 400_000 && rng.chance(40),
        seed: rng.u64(),
        text: None,
    }
}

// ------------------------------------------------------------------------------------ certificates

struct Configs {
    client12: Arc<ClientConfig>,
    client13: Arc<ClientConfig>,
    server12: Arc<ServerConfig>,
    server13: Arc<ServerConfig>,
}

fn configs() -> &'static Configs {
    static C: OnceLock<Configs> = OnceLock::new();
    C.get_or_init(|| {
        let dir = std::path::PathBuf::from(std::env::var("VERIF_DIR").unwrap_or("/verif".into())).join("harness/certs");
        let chain: Vec<_> = CertificateDer::pem_file_iter(dir.join("good.pem")).unwrap().map(|c| c.unwrap()).collect();
        let key = || PrivateKeyDer::from_pem_file(dir.join("good-key.pem")).unwrap();
        let mut roots = RootCertStore::empty();
        roots.add(CertificateDer::from_pem_file(dir.join("ca.pem")).unwrap()).unwrap();
        let client = |v: &'static rustls::SupportedProtocolVersion| {
            Arc::new(ClientConfig::builder_with_protocol_versions(&[v]).with_root_certificates(roots.clone()).with_no_client_auth())
        };
        let server = |v: &'static rustls::SupportedProtocolVersion| {
            Arc::new(
                ServerConfig::builder_with_protocol_versions(&[v])
                    .with_no_client_auth()
                    .with_single_cert(chain.clone(), key())
                    .unwrap(),
            )
        };
        Configs {
            client12: client(&rustls::version::TLS12),
            client13: client(&rustls::version::TLS13),
            server12: server(&rustls::version::TLS12),
            server13: server(&rustls::version::TLS13),
        }
    })
}

// -------------------------------------------------------------------------------------------- run

struct Side {
    name: &'static str,
    stream: Stream,
    script: Script,
    /// Kinds of reports that must come, in order
    ids: VecDeque<(bool, u32)>,
    after: VecDeque<After>,
    from_peer: tokio::sync::mpsc::UnboundedReceiver<()>,
    to_peer: std::sync::mpsc::Sender<()>,
    over: Arc<AtomicBool>,
    peer: Option<std::thread::JoinHandle<Result<peer::PeerDone, String>>>,
    close: Option<Close>,
    progress: Arc<AtomicU64>,
    total_in: usize,
    total_out: usize,
    failed: u32,
    /// A failure was reported while reports were outstanding
    broken: bool,
    done: bool,
    rng: Rng,
    cancel: u32,
    points: u64,
    cancels: u64,
    flush_cancels: u64,
    barriers: u64,
    reports: u64,
}

fn pattern(seed: u64, n: usize, text: &Option<String>) -> Arc<Vec<u8>> {
    let mut v = Vec::with_capacity(n + 8);
    if let Some(t) = text {
        while v.len() < n {
            v.extend(format!("* OK {t}\r\n").bytes());
        }
    }
    let mut rng = Rng::new(seed);
    while v.len() < n {
        v.extend(rng.u64().to_le_bytes());
    }
    v.truncate(n);
    Arc::new(v)
}

async fn open(case: &Case, name: &'static str, seed: u64) -> Result<Side, String> {
    let e = |e: std::io::Error| format!("harness: {e}");
    let listen = TcpSocket::new_v4().map_err(e)?;
    let dial = TcpSocket::new_v4().map_err(e)?;
    let mut rng = Rng::new(case.seed ^ seed);
    let stream_listens = rng.chance(50);
    let (ours, theirs) = if stream_listens { (&listen, &dial) } else { (&dial, &listen) };
    for (s, b) in [(ours, case.buffers.0), (theirs, case.buffers.1)] {
        if let Some(b) = b {
            let _ = s.set_send_buffer_size(b);
            let _ = s.set_recv_buffer_size(b);
        }
    }
    // Addresses all over 127.0.0.0/8, so that closed connections do not use up the ports.
    let mut ip = Rng::new(case.seed ^ seed ^ (std::process::id() as u64) << 32);
    let mut ip = || std::net::SocketAddr::from(([127, ip.range(1, 250) as u8, ip.range(0, 250) as u8, ip.range(1, 250) as u8], 0));
    listen.bind(ip()).map_err(e)?;
    dial.bind(ip()).map_err(e)?;
    let listener = listen.listen(4).map_err(e)?;
    let addr = listener.local_addr().map_err(e)?;
    let (dialed, accepted) = tokio::join!(dial.connect(addr), listener.accept());
    let (dialed, accepted) = (dialed.map_err(e)?, accepted.map_err(e)?.0);
    let (ours, theirs) = if stream_listens { (accepted, dialed) } else { (dialed, accepted) };
    let _ = ours.set_nodelay(true);
    let theirs = theirs.into_std().map_err(e)?;
    theirs.set_nonblocking(false).map_err(e)?;
    let c = configs();
    let host = ServerName::try_from("localhost").unwrap();
    let tls = match case.tls {
        Tls::No => None,
        Tls::Client { v12 } => {
            let conf = if v12 { c.server12.clone() } else { c.server13.clone() };
            Some(rustls::Connection::Server(rustls::ServerConnection::new(conf).unwrap()))
        }
        Tls::Server { v12 } => {
            let conf = if v12 { c.client12.clone() } else { c.client13.clone() };
            Some(rustls::Connection::Client(rustls::ClientConnection::new(conf, host.clone()).unwrap()))
        }
    };
    let data = pattern(case.seed ^ seed ^ 1, case.total_in, &case.text);
    let expect = pattern(case.seed ^ seed ^ 2, case.total_out, &case.text);
    let (to_driver, from_peer) = tokio::sync::mpsc::unbounded_channel();
    let (to_peer, from_driver) = std::sync::mpsc::channel();
    let over = Arc::new(AtomicBool::new(false));
    let progress = Arc::new(AtomicU64::new(0));
    let peer = Peer {
        progress: progress.clone(),
        early_notify: case.early_notify,
        sock: theirs,
        tls,
        rng: Rng::new(case.seed ^ seed ^ 3),
        data: data.clone(),
        expect: expect.clone(),
        sent: 0,
        received: 0,
        to_driver,
        from_driver,
        over: over.clone(),
        fine: case.fine,
        slow_reader: case.slow,
        segments: 0,
        records: 0,
        pending: vec![],
    };
    let (steps, early) = (case.steps.clone(), case.early);
    let peer = std::thread::spawn(move || peer.run(early, steps, name));
    let handshake = async {
        Ok(match case.tls {
            Tls::No => Stream::insecure(ours),
            Tls::Client { v12 } => {
                let conf = if v12 { c.client12.clone() } else { c.client13.clone() };
                Stream::tls(TlsConnector::from(conf).connect(host, ours).await.map_err(e)?.into())
            }
            Tls::Server { v12 } => {
                let conf = if v12 { c.server12.clone() } else { c.server13.clone() };
                Stream::tls(TlsAcceptor::from(conf).accept(ours).await.map_err(e)?.into())
            }
        })
    };
    let stream = match handshake.await {
        Ok(s) => s,
        Err(e) => {
            let e: String = e;
            over.store(true, Ordering::SeqCst);
            return Err(format!("{e}; {:?}", peer.join().map(|r| r.map(|_| ()))));
        }
    };
    Ok(Side {
        name,
        stream,
        script: Script {
            acts: case.acts.clone().into(),
            expect: data,
            received: 0,
            out: expect,
            out_at: 0,
            bad: None,
            trace: vec![],
            fed: 0,
            asked: 0,
            progress: progress.clone(),
        },
        progress,
        ids: case
            .acts
            .iter()
            .filter_map(|a| match a {
                Act::Event(i) => Some((false, *i)),
                Act::Error(i) => Some((true, *i)),
                _ => None,
            })
            .collect(),
        after: case.after.clone().into(),
        from_peer,
        to_peer,
        over,
        peer: Some(peer),
        close: case.close,
        total_in: case.total_in,
        total_out: case.total_out,
        failed: 0,
        broken: false,
        done: false,
        rng,
        cancel: case.cancel,
        points: 0,
        cancels: 0,
        flush_cancels: 0,
        barriers: 0,
        reports: 0,
    })
}

type Next = Result<u32, Error<u32>>;

impl Side {
    /// One `next`, possibly cancelled.
    async fn next(&mut self) -> Result<Option<Next>, String> {
        if self.cancels > 400 {
            self.cancel = 0;
        }
        let plan = Plan {
            f: Box::pin(self.stream.next(&mut self.script)),
            rng: &mut self.rng,
            cancel: self.cancel,
            points: &mut self.points,
        };
        match patient(&self.progress, 1, plan).await {
            None => Err(format!(
                "{}: `next` did not return for {WAIT:?}: {} of {} bytes were delivered, {} of {} bytes were output, next steps of the state machine {:?}{}",
                self.name,
                self.script.received,
                self.total_in,
                self.script.out_at,
                self.total_out,
                self.script.acts.iter().take(3).collect::<Vec<_>>(),
                self.close.map(|c| format!(", the peer has closed or will close with {c:?}")).unwrap_or_default()
            )),
            Some(Polled::Panic(p)) => Err(format!("{}: `next` panicked: {p}", self.name)),
            Some(Polled::Cancelled) => {
                self.cancels += 1;
                self.breathe().await;
                Ok(None)
            }
            Some(Polled::Done(r)) => Ok(Some(r)),
        }
    }
    async fn breathe(&mut self) {
        match self.rng.below(4) {
            0 => {}
            1 => tokio::task::yield_now().await,
            2 => std::thread::yield_now(),
            _ => tokio::time::sleep(Duration::from_micros(self.rng.range(1, 800) as u64)).await,
        }
    }
    async fn flush(&mut self) -> Result<(), String> {
        loop {
            let plan = Plan {
                f: Box::pin(self.stream.flush()),
                rng: &mut self.rng,
                cancel: self.cancel,
                points: &mut self.points,
            };
            match patient(&self.progress, 1, plan).await {
                None => return Err(format!("{}: `flush` did not return for {WAIT:?} although the peer reads", self.name)),
                Some(Polled::Panic(p)) => return Err(format!("{}: `flush` panicked: {p}", self.name)),
                Some(Polled::Cancelled) => {
                    self.cancels += 1;
                    self.flush_cancels += 1;
                    self.breathe().await;
                }
                Some(Polled::Done(Ok(()))) => return Ok(()),
                // The failure may have been noticed already
                Some(Polled::Done(Err(_))) if matches!(self.close, Some(Close::Garbage | Close::Reset)) => {
                    self.failed += 1;
                    self.broken = true;
                    return Ok(());
                }
                Some(Polled::Done(Err(e))) => return Err(format!("{}: `flush` failed: {e:?}", self.name)),
            }
        }
    }

    /// Is it an error of sending?
    fn unsendable(&self, e: &Error<u32>) -> bool {
        match e {
            Error::Io(e) => e.kind() != std::io::ErrorKind::InvalidData && self.script.out_at > 0,
            _ => false,
        }
    }

    /// Judge what `next` returned.
    async fn judge(&mut self, r: Next) -> Result<(), String> {
        let name = self.name;
        if let Some(b) = &self.script.bad {
            return Err(format!("{name}: {b}"));
        }
        let got = match r {
            Ok(id) => (false, id),
            Err(Error::State(id)) => (true, id),
            Err(e) => {
                let Some(kind) = self.close else {
                    return Err(format!(
                        "{name}: `next` failed with {e:?} although the peer did not close; {} of {} bytes were delivered, {} of {} bytes output",
                        self.script.received, self.total_in, self.script.out_at, self.total_out
                    ));
                };
                let complete = self.script.received == self.total_in && self.ids.is_empty();
                let closed = matches!(e, Error::Closed);
                let io = matches!(e, Error::Io(_));
                let ok = match kind {
                    Close::Fin | Close::NotifyFin | Close::NotifyOnly => closed && complete,
                    Close::CutRecord => (closed || io) && complete,
                    // An aborted connection is no end of stream (but may look like one after the failure
                    // was reported).
                    Close::Reset => io || closed && self.failed > 0,
                    // Everything in front of the bytes that are no TLS record still has to be delivered
                    // and handled, unless something had to be sent on the broken connection.
                    Close::Garbage => !closed && complete || self.failed > 0 || io && self.unsendable(&e),
                };
                if !ok {
                    return Err(format!(
                        "{name}: after the peer closed with {kind:?}, `next` failed with {e:?}; {} of {} bytes were delivered before, {} reports were outstanding",
                        self.script.received,
                        self.total_in,
                        self.ids.len()
                    ));
                }
                self.failed += 1;
                self.broken |= !complete;
                self.reports += 1;
                if self.failed >= 3 {
                    self.done = true;
                }
                return Ok(());
            }
        };
        if self.failed > 0 && !self.broken && self.close != Some(Close::Reset) {
            return Err(format!("{name}: `next` returned {got:?} after it had failed because the peer closed"));
        }
        self.reports += 1;
        let want = self.ids.pop_front();
        if want != Some(got) {
            return Err(format!("{name}: `next` returned {got:?} (error?, number) instead of {want:?}"));
        }
        match self.after.pop_front().unwrap() {
            After::Nothing => {}
            After::Flush => self.flush().await?,
            After::Pause => self.breathe().await,
            After::Release => {
                let _ = self.to_peer.send(());
            }
            After::FlushBarrier => {
                self.flush().await?;
                self.barriers += 1;
                if patient(&self.progress, 2, self.from_peer.recv()).await.flatten().is_none() {
                    return Err(format!(
                        "{name}: after a successful `flush` the peer did not get everything ({} bytes were output so far)",
                        self.script.out_at
                    ));
                }
            }
        }
        if self.close.is_none() && self.ids.is_empty() {
            self.done = true;
        }
        Ok(())
    }

    fn finish(mut self, result: Result<(), String>, out: &mut Outcome) {
        self.over.store(true, Ordering::SeqCst);
        let quiet = self.close.is_none() || matches!(self.close, Some(Close::Fin | Close::NotifyFin));
        drop(self.to_peer);
        drop(self.stream);
        let peer = self.peer.take().unwrap().join();
        let mut result = result;
        match peer {
            Ok(Ok(d)) => {
                out.add("bytes received by peers", d.received as u64);
                out.add("bytes sent by peers", d.sent as u64);
                out.add("segments sent by peers", d.segments);
                out.add("TLS records sent by peers", d.records);
            }
            Ok(Err(p)) => {
                // What the peer saw explains more.
                if result.is_err() {
                    result = result.map_err(|e| format!("{e}; {p}"));
                } else if quiet {
                    result = Err(p);
                }
            }
            Err(_) => result = Err("harness: the peer panicked".into()),
        }
        if result.is_ok() && self.close.is_none() && (self.script.received != self.total_in || self.script.out_at != self.total_out) {
            result = Err(format!("harness: a script did not finish: {} {}", self.script.received, self.script.out_at));
        }
        out.add("suspension points", self.points);
        out.add("futures dropped at a suspension point", self.cancels);
        out.add("flushes dropped at a suspension point", self.flush_cancels);
        out.add("flushes after which the peer got everything", self.barriers);
        out.add("events and errors returned", self.reports);
        out.add("pieces of input delivered", self.script.fed);
        out.add("calls of the state machine", self.script.asked);
        if let Some(c) = self.close {
            out.add(&format!("peer closed with {c:?}"), 1);
        }
        out.signature.push(hash_of(&self.script.trace));
        if let (Err(e), Ok(())) = (result, &out.result) {
            out.result = Err(e);
        }
    }
}

struct Outcome {
    result: Result<(), String>,
    counts: Vec<(String, u64)>,
    signature: Vec<u64>,
}

impl Outcome {
    fn add(&mut self, k: &str, n: u64) {
        self.counts.push((k.to_owned(), n));
    }
}

async fn drive(side: &mut Side) -> Result<(), String> {
    while !side.done {
        if let Some(r) = side.next().await? {
            side.judge(r).await?;
        }
    }
    Ok(())
}

/// Two streams in one select loop, as a proxy has them.
async fn drive_pair(a: &mut Side, b: &mut Side) -> Result<(), String> {
    let mut switches = 0;
    while !a.done && !b.done {
        enum Which {
            A(Result<Option<Next>, String>),
            B(Result<Option<Next>, String>),
        }
        let w = tokio::select! {
            r = a.next() => Which::A(r),
            r = b.next() => Which::B(r),
        };
        match w {
            Which::A(r) => {
                b.cancels += 1;
                if let Some(r) = r? {
                    a.judge(r).await?;
                }
            }
            Which::B(r) => {
                a.cancels += 1;
                if let Some(r) = r? {
                    b.judge(r).await?;
                }
            }
        }
        switches += 1;
        let _ = switches;
    }
    drive(a).await?;
    drive(b).await
}

/// The peer goes away while there is more output than the transport can take: neither `flush` nor
/// `next` may report success.
async fn lost_output(case: &Case, rng: &mut Rng, log: &mut String, out: &mut Outcome) -> Result<(), String> {
    let mut side = match open(case, "stream", 0).await {
        Ok(s) => s,
        Err(e) => return Err(format!("harness: {e}")),
    };
    let failure = |e: &Error<u32>| matches!(e, Error::Io(_) | Error::Closed);
    let mut result = Ok(());
    let mut flushes = 0;
    let mut nexts = 0;
    let mut failed = 0;
    let _ = side.to_peer.send(());
    for round in 0..40 {
        if failed >= 4 || result.is_err() {
            break;
        }
        let early = round < 2 && rng.chance(50);
        // (The first calls may happen while the peer is still there: they make no progress.)
        let wait = if early { Duration::from_millis(rng.range(1, 10) as u64) } else { WAIT };
        if round > 0 && rng.chance(60) {
            log.push_str("flush\n");
            match tokio::time::timeout(wait, side.stream.flush()).await {
                Ok(Ok(())) => {
                    result = Err(format!(
                        "`flush` succeeded although the peer went away after it had taken at most {} of {} bytes",
                        case.total_in, case.total_out
                    ))
                }
                Ok(Err(e)) => {
                    log.push_str(&format!("  {e:?}\n"));
                    flushes += 1;
                    failed += 1;
                }
                Err(_) if early => {}
                Err(_) => result = Err(format!("`flush` did not return for {WAIT:?} although the peer went away")),
            }
        } else {
            log.push_str("next\n");
            match tokio::time::timeout(wait, side.stream.next(&mut side.script)).await {
                Ok(Ok(id)) => {
                    result = Err(format!("`next` returned event {id} although its output was not written and the peer went away"));
                }
                Ok(Err(e)) => {
                    log.push_str(&format!("  {e:?}\n"));
                    if !failure(&e) {
                        result = Err(format!("`next` failed with {e:?} after the peer went away"));
                    }
                    nexts += 1;
                    failed += 1;
                }
                Err(_) if early => {}
                Err(_) => result = Err(format!("`next` did not return for {WAIT:?} although the peer went away")),
            }
        }
    }
    out.add("flushes that reported lost output", flushes);
    out.add("failures of `next` with lost output", nexts);
    out.add("cases with output that cannot be delivered", 1);
    out.signature.push(hash_of(&log));
    side.close = Some(Close::Reset);
    side.over.store(true, Ordering::SeqCst);
    drop(side.to_peer);
    drop(side.stream);
    let _ = side.peer.take().unwrap().join();
    result
}

fn lost_case(rng: &mut Rng) -> Case {
    let mut case = make("S05", rng);
    case.early = 0;
    case.early_notify = false;
    case.buffers = if rng.chance(50) { (Some(rng.range(4096, 12_000) as u32), Some(rng.range(4096, 12_000) as u32)) } else { (None, None) };
    // More than the transport takes
    let total = if case.buffers.0.is_some() { rng.range(2_000_000, 4_000_000) } else { rng.range(24_000_000, 30_000_000) };
    let taken = if rng.chance(50) { 0 } else { rng.range(1, 100_000) };
    case.acts = vec![];
    let mut left = total;
    if rng.chance(50) {
        let n = rng.range(1, 1000);
        case.acts.push(Act::Out(n));
        left -= n;
    }
    case.acts.push(Act::Out(left));
    case.after = vec![];
    case.total_out = total;
    case.total_in = 0;
    case.steps = vec![Step::Recv(taken), Step::Sleep(rng.range(1, 5000) as u64), Step::Close(Close::Reset)];
    case.close = Some(Close::Reset);
    case.cancel = 0;
    case.fine = false;
    case.slow = false;
    case
}

// ------------------------------------------------------------------------------------------- idle

/// What the driver does while the peer waits for it.
struct Round {
    /// The transport cannot take the output
    stuck: bool,
    /// The output may be written before the round is over
    output: bool,
    /// Times at which the peer waits
    waits: usize,
}

fn idle_case(rng: &mut Rng) -> (Case, Vec<Round>) {
    let mut case = make("S01", rng);
    let mut b = Builder { acts: vec![], after: vec![], steps: vec![], sent: 0, out: 0, needed: 0, recvd: 0, id: 0 };
    case.early = if case.tls != Tls::No && rng.chance(30) { rng.range(1, 5000) } else { 0 };
    case.early_notify = false;
    b.sent = case.early;
    case.buffers = (Some(rng.range(4096, 12_000) as u32), Some(rng.range(4096, 12_000) as u32));
    let mut rounds = vec![];
    for _ in 0..rng.range(1, 4) {
        let stuck = rng.chance(35);
        if rng.chance(50) {
            b.send(rng.range(1, 3000));
        }
        if stuck {
            b.out(rng.range(300_000, 900_000));
        } else if rng.chance(50) {
            b.out(rng.range(1, 3000));
        }
        let output = b.out > b.recvd;
        let mut waits = 0;
        if stuck || rng.chance(30) {
            b.steps.push(Step::Wait);
            waits += 1;
        }
        b.recv(b.out);
        if waits == 0 || rng.chance(50) {
            let n = rng.range(1, 3000);
            b.steps.push(Step::SendHeld(n));
            b.sent += n;
            waits += 1;
        } else {
            b.send(rng.range(1, 3000));
        }
        b.need(b.sent);
        b.event(rng.chance(20), After::Nothing);
        rounds.push(Round { stuck, output, waits });
    }
    b.barrier();
    case.acts = b.acts;
    case.after = b.after;
    case.steps = b.steps;
    case.total_in = b.sent;
    case.total_out = b.out;
    case.close = None;
    case.cancel = 0;
    case.fine = false;
    case.slow = false;
    (case, rounds)
}

const WINDOW: Duration = Duration::from_millis(25);
const WINDOWS: usize = 16;
/// Polls in a window that are no sign of a busy loop (two of them are ours)
const POLLS: u64 = 8;

/// Polls for some windows of time, as long as there is a busy loop. Returns how often the future was
/// polled in the quietest window, or its result.
async fn watch<F: Future>(f: F) -> Result<u64, F::Output> {
    let mut f = Box::pin(f);
    let mut least = u64::MAX;
    for _ in 0..WINDOWS {
        let mut polls = 0;
        let counted = std::future::poll_fn(|cx| {
            polls += 1;
            f.as_mut().poll(cx)
        });
        if let Ok(r) = tokio::time::timeout(WINDOW, counted).await {
            return Err(r);
        }
        least = least.min(polls);
        if least <= POLLS {
            break;
        }
    }
    Ok(least)
}

/// S06: operations that wait are idle, and go on as soon as there is something to do.
async fn idle(case: &Case, rounds: &[Round], rng: &mut Rng, log: &mut String, out: &mut Outcome) -> Result<(), String> {
    let mut side = open(case, "stream", 0).await?;
    let mut result = Ok(());
    let mut watched = 0;
    let mut flushes = 0;
    'rounds: for (i, round) in rounds.iter().enumerate() {
        // (Before the first release the transport cannot take the output.)
        let mut stuck = round.stuck;
        for _ in 0..round.waits {
            for _ in 0..rng.range(1, 3) {
                if rng.chance(40) {
                    log.push_str(&format!("round {i}: flush (stuck {stuck})\n"));
                    // Nothing was output as long as `next` was not called.
                    match watch(side.stream.flush()).await {
                        Ok(n) if n > POLLS => {
                            result = Err(format!(
                                "`flush` is busy although the peer does not read: polled at least {n} times in each of {WINDOWS} periods of {WINDOW:?}"
                            ))
                        }
                        Ok(_) => flushes += u64::from(stuck),
                        Err(Ok(())) => {}
                        Err(Err(e)) => result = Err(format!("`flush` failed with {e:?} although the peer did not close")),
                    }
                } else {
                    log.push_str(&format!("round {i}: next (stuck {stuck})\n"));
                    match watch(side.stream.next(&mut side.script)).await {
                        Ok(n) if n > POLLS => {
                            result = Err(format!(
                                "`next` is busy although nothing happens on the connection: polled at least {n} times in each of {WINDOWS} periods of {WINDOW:?} (output that the peer does not read yet: {})",
                                stuck && round.output
                            ))
                        }
                        Ok(_) => watched += 1,
                        Err(r) => result = Err(format!("`next` returned {r:?} although the peer had not sent what was needed and did not close")),
                    }
                }
                if let Some(b) = &side.script.bad {
                    result = Err(b.clone());
                }
                if result.is_err() {
                    break 'rounds;
                }
            }
            let _ = side.to_peer.send(());
            stuck = false;
        }
        // The peer sends the rest now.
        match side.next().await {
            Ok(Some(r)) => result = side.judge(r).await,
            Ok(None) => result = Err("harness: cancelled".into()),
            Err(e) => result = Err(e),
        }
        if result.is_err() {
            break;
        }
    }
    if result.is_ok() {
        result = drive(&mut side).await;
    }
    out.add("waiting calls of `next` that were idle", watched);
    out.add("waiting calls of `flush` that were idle", flushes);
    out.add("rounds with output that the transport cannot take at first", rounds.iter().filter(|r| r.stuck).count() as u64);
    side.finish(result, out);
    Ok(())
}

fn run_idle(rng: &mut Rng) -> (Outcome, String, bool) {
    let (case, rounds) = idle_case(rng);
    let mut log = case.describe();
    let mut out = Outcome { result: Ok(()), counts: vec![], signature: vec![] };
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    if let Err(e) = rt.block_on(idle(&case, &rounds, rng, &mut log, &mut out)) {
        out.result = Err(e);
    }
    out.signature.push(hash_of(&log));
    let key = match case.tls {
        Tls::No => "plain TCP cases",
        Tls::Client { .. } => "TLS client cases",
        Tls::Server { .. } => "TLS server cases",
    };
    out.add(key, 1);
    let nontrivial = out.counts.iter().any(|c| c.0.starts_with("waiting calls of `next`") && c.1 > 0);
    (out, log, nontrivial)
}

fn run(property: &str, rng: &mut Rng, text: Option<String>) -> (Outcome, String, bool) {
    if property == "S06" {
        return run_idle(rng);
    }
    if property == "S05" && text.is_none() && rng.chance(4) {
        let case = lost_case(rng);
        let mut log = case.describe();
        let mut out = Outcome { result: Ok(()), counts: vec![], signature: vec![] };
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        let r = rt.block_on(lost_output(&case, rng, &mut log, &mut out));
        out.result = r;
        return (out, log, true);
    }
    let mut case = make(property, rng);
    case.text = text.clone();
    let mut log = case.describe();
    let mut out = Outcome { result: Ok(()), counts: vec![], signature: vec![] };
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let pair = property == "S02" && rng.chance(35);
    rt.block_on(async {
        let mut a = match open(&case, "stream", 0).await {
            Ok(a) => a,
            // Garbage or a reset may arrive together with the end of the handshake.
            Err(_) if matches!(case.close, Some(Close::Garbage | Close::Reset)) => return,
            Err(e) => {
                out.result = Err(e);
                return;
            }
        };
        if pair {
            let mut second = make(property, rng);
            second.cancel = case.cancel.min(50);
            case.cancel = second.cancel;
            log += "--- in one select loop with:\n";
            log += &second.describe();
            let mut b = match open(&second, "second stream", 99).await {
                Ok(b) => b,
                Err(_) if matches!(second.close, Some(Close::Garbage | Close::Reset)) => {
                    a.finish(Ok(()), &mut out);
                    out.result = Ok(());
                    return;
                }
                Err(e) => {
                    a.finish(Ok(()), &mut out);
                    out.result = Err(e);
                    return;
                }
            };
            let r = drive_pair(&mut a, &mut b).await;
            out.add("pairs of streams in one select loop", 1);
            let failed = r.is_err();
            a.finish(r, &mut out);
            let mut rest = Outcome { result: Ok(()), counts: vec![], signature: vec![] };
            b.finish(Ok(()), &mut rest);
            out.counts.extend(rest.counts);
            out.signature.extend(rest.signature);
            if !failed && out.result.is_ok() {
                out.result = rest.result;
            } else if let (Err(e), Err(f)) = (&out.result, rest.result) {
                out.result = Err(format!("{e}; {f}"));
            }
        } else {
            let r = drive(&mut a).await;
            a.finish(r, &mut out);
        }
    });
    let key = match case.tls {
        Tls::No => "plain TCP cases",
        Tls::Client { .. } => "TLS client cases",
        Tls::Server { .. } => "TLS server cases",
    };
    out.add(key, 1);
    if case.early > 0 {
        out.add("cases with data at the end of the handshake", 1);
    }
    if case.early_notify {
        out.add("cases in which the TLS connection was closed together with the end of the handshake", 1);
    }
    if case.total_out > 65536 && case.tls != Tls::No {
        out.add("TLS cases with more than 64 KiB of output", 1);
    }
    if case.total_in > 6_000_000 {
        out.add("cases in which both sides send megabytes before they read", 1);
    }
    let nontrivial = match property {
        _ if out.signature.is_empty() => false,
        "S02" => out.counts.iter().any(|c| c.0.starts_with("futures dropped") && c.1 > 0),
        _ => case.total_in + case.total_out > 0,
    };
    (out, log, nontrivial)
}

fn main() {
    mon_common::install_panic_hook();
    let args = Args::parse();
    let property = args.property.clone();
    let logs = property == "C19";
    if logs && cfg!(debug_assertions) {
        eprintln!("the log check is about release builds");
        std::process::exit(2);
    }
    mon_common::start_wedge_watchdog(&property, args.dir.clone(), &["S01", "S02", "S03", "S04", "S05", "S06"]);
    let rule = match property.as_str() {
        "S02" => "a case is one generated conversation; it counts when at least one future was dropped at a suspension point; distinct = different sequences of deliveries, outputs and reports",
        "S06" => "a case is one generated conversation in which the peer keeps the stream waiting at several points; it counts when a waiting call was watched; distinct = different conversations and sequences of calls",
        _ => "a case is one generated conversation of a stream with its peer; it counts when bytes were exchanged; distinct = different sequences of deliveries (by size class), outputs and reports",
    };
    let mut report = Report::new(args, rule).shard(if property == "S03" { 4 } else { 8 });
    report.assumptions.push("Linux loopback sockets, rustls as cached, tokio-rustls replaced by the stand-in".into());
    let budget = report.args.budget.unwrap_or(match (report.args.thorough, logs) {
        (true, _) => 600.0,
        (false, true) => 5.0,
        _ => 12.0,
    });
    if logs {
        tracing::subscriber::set_global_default(capture::Capture).unwrap();
    }
    let profile = if logs { "S05" } else { property.as_str() };
    let first = report.args.case.unwrap_or(0);
    let last = report.args.case.map_or(u64::MAX, |c| c + 1);
    let mut case = first;
    let mut troubles = 0;
    while case < last && (report.elapsed() < budget || case == first) {
        set_current(format!("property {property} seed {} case {case}", report.args.seed));
        let mut rng = Rng::for_case(report.args.seed, &property, case);
        let marker = logs.then(|| capture::Marker::new(&mut rng));
        let (out, log, nontrivial) = run(profile, &mut rng, marker.as_ref().map(|m| m.text.clone()));
        report.case(hash_of(&out.signature), nontrivial);
        for (k, n) in &out.counts {
            report.count(&if logs { format!("release stream: {k}") } else { k.clone() }, *n);
        }
        if nontrivial && case % 7 == 3 {
            report.sample(|| log.clone());
        }
        let mut bad: Option<Mismatch> = None;
        if let Some(m) = &marker {
            let texts = std::mem::take(&mut *capture::RECORDS.lock().unwrap());
            report.count("release stream: log records searched", texts.len() as u64);
            for t in &texts {
                if let Some(form) = m.find(t) {
                    bad = Some(mismatch!(["C19"], "a log record of a release build contains bytes of the stream ({form}): {t}"));
                }
            }
        } else if let Err(e) = &out.result {
            if e.starts_with("harness:") {
                // (No port or the like.) Once is nothing; the case is not counted as seen.
                troubles += 1;
                report.count("cases given up", 1);
                eprintln!("{property}: case {case}: {e}");
                if troubles > 5 + case / 100 {
                    report.inconclusive = Some(e.clone());
                    println!("{e}\n{log}");
                    break;
                }
                std::thread::sleep(Duration::from_millis(100));
                case += 1;
                continue;
            }
            bad = Some(Mismatch { props: vec![["S01", "S02", "S03", "S04", "S05", "S06"].iter().find(|p| **p == property).unwrap()], what: e.clone() });
        }
        if let Some(m) = bad {
            if report.mismatch(&m, case, &format!("{}\n{log}", m.what)) {
                break;
            }
        }
        case += 1;
    }
    report.finish()
}
