//! S07: a real client and a real server, each over a stream, with a recording relay between the two
//! sockets; plain, over TLS, and upgraded from one to the other in the middle of the session.
use std::{
    collections::VecDeque,
    sync::{Arc, OnceLock},
    time::Duration,
};

use imap_next::{
    client::{self, Client, Event as C},
    server::{self, Event as S, Server},
    stream::{Error, Stream},
    State,
};
use imap_types::{
    auth::AuthenticateData,
    command::{Command, CommandBody},
    core::Tag,
    response::{Greeting, Response, Status, StatusKind, Tagged},
};
use mon_common::{hash_of, show, Args, Mismatch, Report, Rng};
use rustls::{
    pki_types::{pem::PemObject, CertificateDer, PrivateKeyDer, ServerName},
    ClientConfig, RootCertStore, ServerConfig,
};
use tokio::{
    io::{AsyncReadExt, AsyncWriteExt},
    net::{TcpListener, TcpStream},
};
use tokio_rustls::{TlsAcceptor, TlsConnector};

#[allow(dead_code)]
#[path = "../../core/src/gen.rs"]
mod gen;
use gen::Gen;

struct Configs {
    client: [Arc<ClientConfig>; 2],
    server: [Arc<ServerConfig>; 2],
}

fn configs() -> &'static Configs {
    static CONFIGS: OnceLock<Configs> = OnceLock::new();
    CONFIGS.get_or_init(|| {
        let dir = std::path::PathBuf::from(std::env::var("VERIF_DIR").unwrap_or("/verif".into())).join("harness/certs");
        let chain: Vec<_> = CertificateDer::pem_file_iter(dir.join("good.pem")).unwrap().map(|c| c.unwrap()).collect();
        let key = || PrivateKeyDer::from_pem_file(dir.join("good-key.pem")).unwrap();
        let mut roots = RootCertStore::empty();
        roots.add(CertificateDer::from_pem_file(dir.join("ca.pem")).unwrap()).unwrap();
        let client = |v: &'static rustls::SupportedProtocolVersion| {
            Arc::new(ClientConfig::builder_with_protocol_versions(&[v]).with_root_certificates(roots.clone()).with_no_client_auth())
        };
        let server = |v: &'static rustls::SupportedProtocolVersion| {
            Arc::new(ServerConfig::builder_with_protocol_versions(&[v]).with_no_client_auth().with_single_cert(chain.clone(), key()).unwrap())
        };
        Configs {
            client: [client(&rustls::version::TLS12), client(&rustls::version::TLS13)],
            server: [server(&rustls::version::TLS12), server(&rustls::version::TLS13)],
        }
    })
}

#[derive(Debug, Clone)]
struct Plan {
    tls_first: bool,
    /// STARTTLS is the last command of the first phase and the server agrees
    upgrade: bool,
    /// STARTTLS is tried before, and refused
    refused: bool,
    v13: usize,
    /// Commands before and after the upgrade
    commands: [usize; 2],
    window: usize,
    relaxed: bool,
    /// Percentage of pending calls that are dropped
    cancel: u32,
    /// Largest number of bytes that the relay passes on at once
    chunk: usize,
    /// Use `stream_mut`
    peek: bool,
    close_politely: bool,
}

/// Some time during which others can do something.
async fn pause(how: u32) {
    match how {
        0..=5 => {
            for _ in 0..how {
                tokio::task::yield_now().await
            }
        }
        n => tokio::time::sleep(Duration::from_micros(100 * (n - 5) as u64)).await,
    }
}

/// The next event, or `None` if the future was dropped before there was one.
async fn next<T: State>(stream: &mut Stream, state: &mut T, patience: Option<u32>) -> Option<Result<T::Event, Error<T::Error>>> {
    match patience {
        None => Some(stream.next(state).await),
        Some(n) => tokio::select! {
            biased;
            r = stream.next(state) => Some(r),
            _ = pause(n) => None,
        },
    }
}

async fn flush(stream: &mut Stream, rng: &mut Rng, cancel: u32) -> Result<u64, String> {
    let mut dropped = 0;
    loop {
        if rng.chance(cancel) {
            let n = rng.below(8) as u32;
            tokio::select! {
                biased;
                r = stream.flush() => return r.map(|()| dropped).map_err(|e| format!("flush failed: {e}")),
                _ = pause(n) => dropped += 1,
            }
        } else {
            return stream.flush().await.map(|()| dropped).map_err(|e| format!("flush failed: {e}"));
        }
    }
}

#[derive(Default)]
struct ClientSeen {
    /// Each command with what belongs to it
    issued: Vec<(Command<'static>, Vec<Vec<u8>>)>,
    data: Vec<AuthenticateData<'static>>,
    dones: usize,
    greeting: Option<Greeting<'static>>,
    responses: Vec<Response<'static>>,
    dropped: u64,
    log: Vec<String>,
}

#[derive(Default)]
struct ServerSeen {
    greeted: bool,
    received: Vec<Command<'static>>,
    data: Vec<AuthenticateData<'static>>,
    dones: usize,
    issued: Vec<Response<'static>>,
    sent: usize,
    dropped: u64,
    log: Vec<String>,
}

fn short(x: impl std::fmt::Debug) -> String {
    let mut s = format!("{x:?}");
    if s.len() > 300 {
        let n = (0..=300).rev().find(|i| s.is_char_boundary(*i)).unwrap();
        s.truncate(n);
        s += " ...";
    }
    s
}

fn tag_of(s: &Status<'static>) -> Option<Tag<'static>> {
    match s {
        Status::Tagged(Tagged { tag, .. }) => Some(tag.clone()),
        _ => None,
    }
}

async fn client_side(sock: TcpStream, plan: Plan, mut g: Gen, seen: &mut ClientSeen) -> Result<(), String> {
    let connector = TlsConnector::from(configs().client[plan.v13].clone());
    let connect = |sock| connector.connect(ServerName::try_from("localhost").unwrap(), sock);
    let mut stream = if plan.tls_first {
        Stream::tls(connect(sock).await.map_err(|e| format!("the client's handshake failed: {e}"))?.into())
    } else {
        Stream::insecure(sock)
    };
    let mut options = client::Options::default();
    options.crlf_relaxed = plan.relaxed;
    let mut client = Client::new(options);
    let mut rng = Rng::new(g.rng.u64());
    let mut want_data = false;
    let mut want_done = false;
    for phase in 0..2 {
        let mut todo: VecDeque<Command<'static>> = VecDeque::new();
        while todo.len() < plan.commands[phase] {
            let c = match g.rng.weighted(&[70, 15, 15]) {
                0 => g.plain_command(),
                1 => g.auth_command(),
                _ => g.idle_command(),
            };
            if matches!(c.body, CommandBody::StartTLS) || !gen::command_round_trips(&c) {
                continue;
            }
            todo.push_back(c);
        }
        if phase == 0 && plan.refused {
            todo.insert(todo.len() / 2, Command { tag: g.tag(), body: CommandBody::StartTLS });
        }
        let last = plan.upgrade && phase == 0;
        if last {
            todo.push_back(Command { tag: g.tag(), body: CommandBody::StartTLS });
        }
        let mut open: Vec<Tag<'static>> = vec![];
        while !(todo.is_empty() && open.is_empty() && seen.greeting.is_some()) {
            while open.len() < plan.window && !todo.is_empty() {
                let c = todo.pop_front().unwrap();
                open.push(c.tag.clone());
                seen.issued.push((c.clone(), vec![]));
                client.enqueue_command(c);
                if rng.chance(30) {
                    break;
                }
            }
            let hurry = want_data || want_done || (open.len() < plan.window && !todo.is_empty());
            let patience = (hurry || rng.chance(plan.cancel)).then(|| rng.below(12) as u32);
            let event = match next(&mut stream, &mut client, patience).await {
                None => {
                    seen.dropped += 1;
                    if rng.chance(70) && want_data {
                        want_data = false;
                        let d = g.auth_data();
                        client.set_authenticate_data(d.clone()).map_err(|_| "the client refused authenticate data that the server asked for".to_owned())?;
                        seen.log.push("client: data".into());
                        let at = seen.issued.iter_mut().find(|(c, _)| open.contains(&c.tag) && matches!(c.body, CommandBody::Authenticate { .. })).ok_or("no AUTHENTICATE is open")?;
                        at.1.push(gen::enc_auth_data(&d));
                        seen.data.push(d);
                    } else if rng.chance(70) && want_done {
                        want_done = false;
                        client.set_idle_done().ok_or("the client refused to end IDLE")?;
                        seen.log.push("client: done".into());
                        let at = seen.issued.iter_mut().find(|(c, _)| open.contains(&c.tag) && matches!(c.body, CommandBody::Idle)).ok_or("no IDLE is open")?;
                        at.1.push(gen::enc_idle_done());
                        seen.dones += 1;
                    }
                    continue;
                }
                Some(Ok(e)) => e,
                Some(Err(e)) => return Err(format!("the client's stream failed in phase {phase}: {e}")),
            };
            seen.log.push(format!("client: {}", short(&event)));
            let end = |open: &mut Vec<Tag<'static>>, tag: &Tag<'static>| open.retain(|t| t != tag);
            match event {
                C::GreetingReceived { greeting } => seen.greeting = Some(greeting),
                C::CommandSent { .. } | C::AuthenticateStarted { .. } | C::IdleCommandSent { .. } | C::IdleDoneSent { .. } => {}
                C::AuthenticateContinuationRequestReceived { continuation_request, .. } => {
                    want_data = true;
                    seen.responses.push(Response::CommandContinuationRequest(continuation_request));
                }
                C::AuthenticateStatusReceived { status, command_authenticate, .. } => {
                    want_data = false;
                    end(&mut open, &command_authenticate.tag);
                    seen.responses.push(Response::Status(status));
                }
                C::IdleAccepted { continuation_request, .. } => {
                    want_done = true;
                    seen.responses.push(Response::CommandContinuationRequest(continuation_request));
                }
                C::IdleRejected { status, .. } | C::StatusReceived { status } => {
                    if let Some(t) = tag_of(&status) {
                        end(&mut open, &t);
                    }
                    seen.responses.push(Response::Status(status));
                }
                C::DataReceived { data } => seen.responses.push(Response::Data(data)),
                e => return Err(format!("the client reported {e:?}")),
            }
            if plan.peek && rng.chance(10) {
                stream.stream_mut().peer_addr().map_err(|e| format!("the stream's socket is not usable: {e}"))?;
            }
        }
        if last {
            pause(rng.below(12) as u32).await;
            seen.dropped += flush(&mut stream, &mut rng, plan.cancel).await?;
            let sock = TcpStream::from(stream);
            seen.log.push("client: upgrade".into());
            let tls = connect(sock).await.map_err(|e| format!("the client's handshake failed after STARTTLS: {e}"))?;
            stream = Stream::tls(tls.into());
        }
    }
    if plan.close_politely {
        seen.dropped += flush(&mut stream, &mut rng, plan.cancel).await?;
    }
    Ok(())
}

async fn server_side(sock: TcpStream, plan: Plan, mut g: Gen, greeting: Greeting<'static>, seen: &mut ServerSeen) -> Result<(), String> {
    let acceptor = TlsAcceptor::from(configs().server[plan.v13].clone());
    let accept = |sock| acceptor.accept(sock);
    let mut stream = if plan.tls_first {
        Stream::tls(accept(sock).await.map_err(|e| format!("the server's handshake failed: {e}"))?.into())
    } else {
        Stream::insecure(sock)
    };
    let mut options = server::Options::default();
    options.crlf_relaxed = plan.relaxed;
    let mut server = Server::new(options, greeting);
    let mut rng = Rng::new(g.rng.u64());
    let mut due: VecDeque<Command<'static>> = VecDeque::new();
    let mut auth: Option<Tag<'static>> = None;
    let mut auth_due = false;
    let mut idle: Option<Tag<'static>> = None;
    let mut idle_due = false;
    let mut refusals = plan.refused as usize;
    let mut upgrading = None;
    let mut upgraded = false;
    loop {
        // What the server's user has to say
        if auth_due && rng.chance(60) {
            auth_due = false;
            if rng.chance(50) {
                let c = g.continuation();
                if server.authenticate_continue(c.clone()).is_err() {
                    return Err("the server refused to continue AUTHENTICATE".into());
                }
                seen.issued.push(Response::CommandContinuationRequest(c));
            } else {
                let s = g.status(auth.take());
                if server.authenticate_finish(s.clone()).is_err() {
                    return Err("the server refused to finish AUTHENTICATE".into());
                }
                seen.issued.push(Response::Status(s));
            }
        }
        if idle_due && rng.chance(60) {
            idle_due = false;
            if rng.chance(70) {
                let c = g.continuation();
                if server.idle_accept(c.clone()).is_err() {
                    return Err("the server refused to accept IDLE".into());
                }
                seen.issued.push(Response::CommandContinuationRequest(c));
            } else {
                let s = g.status(idle.take());
                if server.idle_reject(s.clone()).is_err() {
                    return Err("the server refused to reject IDLE".into());
                }
                seen.issued.push(Response::Status(s));
            }
        }
        if upgrading.is_none() && !due.is_empty() && rng.chance(60) {
            for _ in 0..rng.below(4) {
                let d = g.data();
                if gen::response_round_trips(&Response::Data(d.clone())) {
                    server.enqueue_data(d.clone());
                    seen.issued.push(Response::Data(d));
                }
            }
            let c = due.pop_front().unwrap();
            let starttls = matches!(c.body, CommandBody::StartTLS);
            let s = match starttls {
                true if refusals > 0 => g.status_of(Some(c.tag), StatusKind::No),
                true => g.status_of(Some(c.tag), StatusKind::Ok),
                _ => g.status(Some(c.tag)),
            };
            let handle = server.enqueue_status(s.clone());
            seen.issued.push(Response::Status(s));
            if starttls && refusals > 0 {
                refusals -= 1;
            } else if starttls {
                upgrading = Some(handle);
            }
        }
        let hurry = auth_due || idle_due || !due.is_empty();
        let patience = (hurry || rng.chance(plan.cancel)).then(|| rng.below(12) as u32);
        let event = match next(&mut stream, &mut server, patience).await {
            None => {
                seen.dropped += 1;
                continue;
            }
            Some(Ok(e)) => e,
            Some(Err(e)) => {
                seen.log.push(format!("server: end: {e}"));
                if upgrading.is_some() {
                    return Err(format!("the server's stream failed before the answer to STARTTLS was sent: {e}"));
                }
                if plan.upgrade && !upgraded {
                    return Err(format!("the server's stream failed before the upgrade: {e}"));
                }
                if !matches!(e, Error::Closed) {
                    return Err(format!("the server's stream failed with \"{e}\" instead of being closed"));
                }
                return Ok(());
            }
        };
        seen.log.push(format!("server: {}", short(&event)));
        match event {
            S::GreetingSent { .. } => seen.greeted = true,
            S::ResponseSent { handle, response } => {
                if seen.issued.get(seen.sent) != Some(&response) {
                    return Err(format!("the server reported {response:?} as sent"));
                }
                seen.sent += 1;
                if upgrading == Some(handle) {
                    upgrading = None;
                    upgraded = true;
                    // (The client may begin to speak TLS at once.)
                    for _ in 0..rng.below(3) {
                        pause(rng.below(30) as u32).await;
                        seen.dropped += flush(&mut stream, &mut rng, plan.cancel).await?;
                    }
                    seen.dropped += flush(&mut stream, &mut rng, plan.cancel).await?;
                    let sock = TcpStream::from(stream);
                    seen.log.push("server: upgrade".into());
                    let tls = accept(sock).await.map_err(|e| format!("the server's handshake failed after STARTTLS: {e}"))?;
                    stream = Stream::tls(tls.into());
                }
            }
            S::CommandReceived { command } => {
                seen.received.push(command.clone());
                due.push_back(command);
            }
            S::CommandAuthenticateReceived { command_authenticate } => {
                auth = Some(command_authenticate.tag.clone());
                auth_due = true;
                seen.received.push(command_authenticate.into());
            }
            S::AuthenticateDataReceived { authenticate_data } => {
                seen.data.push(authenticate_data);
                auth_due = true;
            }
            S::IdleCommandReceived { tag } => {
                idle = Some(tag.clone());
                idle_due = true;
                seen.received.push(Command { tag, body: CommandBody::Idle });
            }
            S::IdleDoneReceived => {
                seen.dones += 1;
                let s = g.status(idle.take());
                server.enqueue_status(s.clone());
                seen.issued.push(Response::Status(s));
            }
        }
        if plan.peek && rng.chance(10) {
            stream.stream_mut().peer_addr().map_err(|e| format!("the stream's socket is not usable: {e}"))?;
        }
    }
}

/// Pass on what comes, and keep it.
async fn relay(mut from: tokio::net::tcp::OwnedReadHalf, mut to: tokio::net::tcp::OwnedWriteHalf, mut rng: Rng, chunk: usize) -> Vec<u8> {
    let mut record = vec![];
    let mut buffer = vec![0; 70_000];
    loop {
        let n = rng.range(1, chunk);
        match from.read(&mut buffer[..n]).await {
            Ok(n) if n > 0 => {
                record.extend(&buffer[..n]);
                if to.write_all(&buffer[..n]).await.is_err() {
                    return record;
                }
            }
            _ => break,
        }
        if rng.chance(20) {
            pause(rng.below(8) as u32).await;
        }
    }
    let _ = to.shutdown().await;
    record
}

/// Is this a sequence of TLS records?
fn records(mut b: &[u8]) -> Result<usize, String> {
    let mut n = 0;
    while !b.is_empty() {
        if !(20..=23).contains(&b[0]) || b.len() < 5 || b[1] != 3 || b[2] > 4 {
            return Err(format!("there is something that is no TLS record (after {n} records): {}", show(b)));
        }
        let len = u16::from_be_bytes([b[3], b[4]]) as usize;
        if len > 16384 + 2048 {
            return Err(format!("there is a TLS record of {len} bytes"));
        }
        if b.len() < 5 + len {
            return Err(format!("the last TLS record is incomplete: {}", show(b)));
        }
        n += 1;
        b = &b[5 + len..];
    }
    Ok(n)
}

fn same<T: PartialEq + std::fmt::Debug>(what: &str, issued: &[T], received: &[T]) -> Result<(), String> {
    for (i, r) in received.iter().enumerate() {
        if issued.get(i) != Some(r) {
            return Err(format!("{what} number {i} was received as {} but issued as {}", short(r), short(issued.get(i))));
        }
    }
    if issued.len() != received.len() {
        return Err(format!("only {} of {} {what}s were received; the first missing one is {}", received.len(), issued.len(), short(&issued[received.len()])));
    }
    Ok(())
}

struct Outcome {
    result: Result<(), String>,
    log: String,
    signature: u64,
    nontrivial: bool,
    counts: Vec<(&'static str, u64)>,
}

async fn case(rng: &mut Rng) -> Outcome {
    let kind = rng.weighted(&[20, 15, 65]);
    let mut plan = Plan {
        tls_first: kind == 1,
        upgrade: kind == 2,
        refused: kind == 2 && rng.chance(15),
        v13: rng.below(2),
        commands: [rng.below(8), rng.range(1, 8)],
        window: *rng.pick(&[1, 2, 5]),
        relaxed: rng.chance(50),
        cancel: *rng.pick(&[0, 30, 80]),
        chunk: *rng.pick(&[1, 7, 100, 3000, 60_000]),
        peek: rng.chance(30),
        close_politely: rng.chance(50),
    };
    let marker = format!("Mk{:08x}", rng.u64() as u32);
    let make = |rng: &mut Rng, c: &str| {
        let mut g = Gen::new(Rng::new(rng.u64()));
        g.prefix = format!("{marker}{c}");
        g.max_literal = *g.rng.pick(&[20, 100, 3000]);
        g
    };
    let (mut cg, mut sg) = (make(rng, "c"), make(rng, "s"));
    cg.huge_append = cg.huge_in_one_of(15);
    sg.huge = sg.huge_in_one_of(15);
    if cg.huge_append.is_some() || sg.huge.is_some() || cg.max_literal == 3000 {
        plan.chunk = plan.chunk.max(3000);
    }
    let greeting = sg.greeting();
    let mut out = Outcome { result: Ok(()), log: format!("{plan:?}\n"), signature: 0, nontrivial: false, counts: vec![] };
    let e = |e: std::io::Error| format!("harness: {e}");
    let setup = async {
        let a = TcpListener::bind("127.0.0.1:0").await.map_err(e)?;
        let b = TcpListener::bind("127.0.0.1:0").await.map_err(e)?;
        let (c, r1) = tokio::join!(TcpStream::connect(a.local_addr().map_err(e)?), a.accept());
        let (r2, s) = tokio::join!(TcpStream::connect(b.local_addr().map_err(e)?), b.accept());
        let all = [c.map_err(e)?, r1.map_err(e)?.0, r2.map_err(e)?, s.map_err(e)?.0];
        for s in &all {
            s.set_nodelay(true).map_err(e)?;
        }
        Ok::<_, String>(all)
    };
    let [c, r1, r2, s] = match setup.await {
        Ok(x) => x,
        Err(e) => {
            out.result = Err(e);
            return out;
        }
    };
    let ((fc, tc), (fs, ts)) = (r1.into_split(), r2.into_split());
    let up = tokio::spawn(relay(fc, ts, Rng::new(rng.u64()), plan.chunk));
    let down = tokio::spawn(relay(fs, tc, Rng::new(rng.u64()), plan.chunk));
    let (mut cs, mut ss) = (ClientSeen::default(), ServerSeen::default());
    let both = async {
        // When one side gives up, the other one's failure is no news
        tokio::try_join!(client_side(c, plan.clone(), cg, &mut cs), server_side(s, plan.clone(), sg, greeting.clone(), &mut ss)).map(|_| ())
    };
    let r = tokio::time::timeout(Duration::from_secs(60), both).await;
    out.result = match r {
        Ok(r) => r,
        Err(_) => Err("client and server did not get to the end within 60 seconds".into()),
    };
    if out.result.is_err() {
        up.abort();
        down.abort();
    }
    let (up, down) = (up.await.unwrap_or_default(), down.await.unwrap_or_default());
    out.log += &cs.log.iter().chain(&ss.log).map(|l| format!("{l}\n")).collect::<String>();
    if out.result.is_ok() {
        out.result = judge(&plan, &greeting, &cs, &ss, &up, &down, &marker);
    }
    out.signature = hash_of(&(format!("{plan:?}"), up.len(), down.len(), &cs.log, &ss.log));
    out.nontrivial = !ss.received.is_empty() && !cs.responses.is_empty();
    out.counts = vec![
        (if plan.upgrade { "sessions upgraded to TLS" } else if plan.tls_first { "sessions over TLS" } else { "plain sessions" }, 1),
        ("commands received by the server", ss.received.len() as u64),
        ("authenticate data received by the server", ss.data.len() as u64),
        ("idle dones received by the server", ss.dones as u64),
        ("responses received by the client", cs.responses.len() as u64),
        ("futures dropped", cs.dropped + ss.dropped),
        ("bytes from the client on the wire", up.len() as u64),
        ("bytes from the server on the wire", down.len() as u64),
    ];
    out
}

fn judge(plan: &Plan, greeting: &Greeting<'static>, c: &ClientSeen, s: &ServerSeen, up: &[u8], down: &[u8], marker: &str) -> Result<(), String> {
    let commands: Vec<_> = c.issued.iter().map(|c| c.0.clone()).collect();
    same("command", &commands, &s.received)?;
    same("authenticate data", &c.data, &s.data)?;
    same("idle done", &vec![(); c.dones], &vec![(); s.dones])?;
    if c.greeting.as_ref() != Some(greeting) || !s.greeted {
        return Err(format!("the greeting {greeting:?} was received as {:?} (reported as sent: {})", c.greeting, s.greeted));
    }
    same("response", &s.issued, &c.responses)?;
    if s.sent != s.issued.len() {
        return Err(format!("{} of {} responses were reported as sent", s.sent, s.issued.len()));
    }
    // The wire: first exactly what was said in plaintext, then nothing but TLS
    let (mut plain_up, mut plain_down) = (0, 0);
    if !plan.tls_first {
        let agreed = |t: &Tag<'static>| {
            s.issued.iter().any(|r| matches!(r, Response::Status(Status::Tagged(x)) if &x.tag == t && x.body.kind == StatusKind::Ok))
        };
        for (command, more) in &c.issued {
            for b in std::iter::once(&gen::enc_command(command)).chain(more) {
                if !up[plain_up..].starts_with(b) {
                    return Err(format!("{} should have come from the client in plaintext, but on the wire there is {}", show(b), show(&up[plain_up..])));
                }
                plain_up += b.len();
            }
            if matches!(command.body, CommandBody::StartTLS) && agreed(&command.tag) {
                break;
            }
        }
        let starttls: Vec<_> = commands.iter().filter(|c| matches!(c.body, CommandBody::StartTLS) && agreed(&c.tag)).map(|c| c.tag.clone()).collect();
        let go_on = gen::enc_response(&Response::CommandContinuationRequest(
            imap_types::response::CommandContinuationRequest::basic(None, server::Options::default().literal_accept_text().clone()).unwrap(),
        ));
        let mut expect = vec![gen::enc_greeting(greeting)];
        for r in &s.issued {
            expect.push(gen::enc_response(r));
            if matches!(r, Response::Status(Status::Tagged(x)) if starttls.contains(&x.tag)) {
                break;
            }
        }
        for b in &expect {
            while !down[plain_down..].starts_with(b) && down[plain_down..].starts_with(&go_on) {
                plain_down += go_on.len();
            }
            if !down[plain_down..].starts_with(b) {
                return Err(format!("{} should have come from the server in plaintext, but on the wire there is {}", show(b), show(&down[plain_down..])));
            }
            plain_down += b.len();
        }
    }
    for (who, rest) in [("client", &up[plain_up..]), ("server", &down[plain_down..])] {
        if !plan.tls_first && !plan.upgrade {
            if !rest.is_empty() {
                return Err(format!("the {who} sent more than it was told to: {}", show(rest)));
            }
            continue;
        }
        let n = records(rest).map_err(|e| format!("in what the {who} sent over TLS {e}"))?;
        if n == 0 {
            return Err(format!("the {who} sent nothing over TLS"));
        }
        if let Some(i) = rest.windows(marker.len()).position(|w| w == marker.as_bytes()) {
            return Err(format!("the {who} sent this over TLS without encryption: {}", show(&rest[i.saturating_sub(20)..])));
        }
    }
    Ok(())
}

fn main() {
    mon_common::install_panic_hook();
    let args = Args::parse();
    let property = args.property.clone();
    mon_common::start_wedge_watchdog(&property, args.dir.clone(), &["S07"]);
    let rule = "a case is one session of a client and a server over two streams; it counts when commands and responses were received; distinct = different plans and sequences of events";
    let mut report = Report::new(args, rule).shard(8);
    report.assumptions.push("Linux loopback sockets, rustls as cached, tokio-rustls and imap-codec replaced by the stand-ins".into());
    let budget = report.args.budget.unwrap_or(if report.args.thorough { 600.0 } else { 12.0 });
    let runtime = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let first = report.args.case.unwrap_or(0);
    let last = report.args.case.map_or(u64::MAX, |c| c + 1);
    let mut case_number = first;
    let mut troubles = 0;
    while case_number < last && (report.elapsed() < budget || case_number == first) {
        mon_common::set_current(format!("property {property} seed {} case {case_number}", report.args.seed));
        let mut rng = Rng::for_case(report.args.seed, &property, case_number);
        let out = match mon_common::guard(|| runtime.block_on(case(&mut rng))) {
            Ok(out) => out,
            Err(p) => Outcome { result: Err(format!("panic: {p:?}")), log: String::new(), signature: 0, nontrivial: false, counts: vec![] },
        };
        match &out.result {
            Err(e) if e.starts_with("harness:") => {
                troubles += 1;
                report.count("cases given up", 1);
                eprintln!("{property}: case {case_number}: {e}");
                if troubles > 5 + case_number / 100 {
                    report.inconclusive = Some(e.clone());
                    break;
                }
                std::thread::sleep(Duration::from_millis(100));
            }
            r => {
                report.case(out.signature, out.nontrivial);
                for (k, n) in &out.counts {
                    report.count(k, *n);
                }
                if out.nontrivial && case_number % 7 == 3 {
                    report.sample(|| out.log.clone());
                }
                if let Err(e) = r {
                    let m = Mismatch { props: vec!["S07"], what: e.clone() };
                    if report.mismatch(&m, case_number, &format!("{e}\n{}", out.log)) {
                        break;
                    }
                }
            }
        }
        case_number += 1;
    }
    report.finish()
}
