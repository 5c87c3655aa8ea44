//! P07: TLS where TLS is configured, with the configured identity and trusted servers only.
use std::{
    collections::BTreeMap,
    sync::Arc,
    time::{Duration, Instant},
};

use mon_common::{mismatch, Mismatch, Rng};
use rustls::{
    crypto::aws_lc_rs::sign::any_supported_type,
    pki_types::{pem::PemObject, PrivateKeyDer},
    server::{ClientHello, ResolvesServerCert},
    sign::CertifiedKey,
    Connection, ServerConfig, ServerConnection,
};

use crate::{
    ep::{self, Close, Ep},
    hostile::{self, Control},
    world::{Service, World, WAIT},
    Outcome,
};

type Counts = BTreeMap<String, u64>;

pub fn case(w: &World, rng: &mut Rng) -> Outcome {
    let mut counts = Counts::new();
    let mut log = vec![];
    let mut controls = vec![];
    let result = match rng.weighted(&[40, 32, 22, 6]) {
        0 => bad_server(w, rng, &mut counts, &mut log),
        1 => bad_client(w, rng, &mut counts, &mut log, &mut controls),
        2 => Ok(()),
        _ => bad_configuration(w, rng, &mut counts, &mut log),
    };
    // Afterwards (or all there is) a good one, with the right certificates on both sides
    let result = result.and_then(|_| {
        if log.is_empty() || rng.chance(30) {
            good(w, rng, &mut counts, &mut log, &mut controls)
        } else {
            Ok(())
        }
    });
    let sessions: Vec<_> = controls.iter().map(|c| &c.s).collect();
    let mut o = Outcome::of(&sessions, result);
    o.log = format!("{}\n{}", log.join("\n"), o.log);
    o.signature = mon_common::hash_of(&o.log);
    o.nontrivial = true;
    o.counts.extend(counts);
    o
}

/// The bytes are nothing but TLS records (the last one perhaps incomplete).
fn only_records(b: &[u8]) -> Result<(), String> {
    let mut at = 0;
    while at < b.len() {
        let r = &b[at..];
        let n = if r.len() < 5 { 0 } else { (r[3] as usize) << 8 | r[4] as usize };
        if !(20..=24).contains(&r[0]) || r.len() > 1 && r[1] != 3 || n > 16640 {
            return Err(format!("no TLS record at byte {at}: {}", mon_common::show(&r[..r.len().min(80)])));
        }
        at += 5 + n;
    }
    Ok(())
}

fn contains(b: &[u8], what: &str) -> bool {
    b.windows(what.len()).any(|w| w == what.as_bytes())
}

fn nap(p: bool) {
    if !p {
        std::thread::sleep(Duration::from_micros(60));
    }
}

// ------------------------------------------------------------------------------------- bad servers

/// A certificate without looking whether the key is its key
#[derive(Debug)]
struct Fixed(Arc<CertifiedKey>);
impl ResolvesServerCert for Fixed {
    fn resolve(&self, _: ClientHello) -> Option<Arc<CertifiedKey>> {
        Some(self.0.clone())
    }
}

fn config(chain: &str, leaf_only: bool, key: &str, v12: bool, alpn: &[&str]) -> Arc<ServerConfig> {
    let key = PrivateKeyDer::from_pem_file(ep::certs_dir().join(format!("{key}-key.pem"))).unwrap();
    let v = if v12 { &rustls::version::TLS12 } else { &rustls::version::TLS13 };
    let mut chain = ep::chain(chain);
    if leaf_only {
        chain.truncate(1);
    }
    let key = CertifiedKey::new(chain, any_supported_type(&key).unwrap());
    let mut c = ServerConfig::builder_with_protocol_versions(&[v])
        .with_no_client_auth()
        .with_cert_resolver(Arc::new(Fixed(Arc::new(key))));
    c.alpn_protocols = alpn.iter().map(|a| a.as_bytes().to_vec()).collect();
    Arc::new(c)
}

pub fn bad_server(w: &World, rng: &mut Rng, counts: &mut Counts, log: &mut Vec<String>) -> Result<(), Mismatch> {
    let services: Vec<usize> = (0..w.services.len()).filter(|s| w.services[*s].connect_tls).collect();
    let service = *rng.pick(&services);
    let s = &w.services[service];
    let name = hostile::ident('s', rng);
    let secret = hostile::ident('c', rng);
    let v12 = rng.chance(40);
    let greeting = format!("* OK [CAPABILITY IMAP4REV1 STARTTLS] {name}\r\n");
    let certs = [
        "untrusted", "expired", "otherhost", "future", "clientonly", "nosan", "selfsigned", "byleaf", "wild", "rogue",
        if s.host == "localhost" { "iponly" } else { "dnsonly" },
        "@key", "@incomplete", "@alpn",
    ];
    let others = ["plaintext", "late plaintext", "garbage", "alert", "end", "reset", "half", "silent"];
    let mode = if rng.chance(70) { *rng.pick(&certs) } else { *rng.pick(&others) };
    let server = |tls: bool| -> Option<Connection> {
        if !tls {
            return None;
        }
        let c = match mode {
            "@key" => config("good", false, "second", v12, &["imap"]),
            "@incomplete" => config("deep", true, "deep", v12, &["imap"]),
            "@alpn" => config("good", false, "good", v12, &["http/1.1"]),
            m => config(m, rng_flag(&secret), m, v12, &["imap"]),
        };
        Some(Connection::Server(ServerConnection::new(c).unwrap()))
    };
    let by_tls = certs.contains(&mode);
    *counts.entry(format!("servers: {mode}")).or_default() += 1;
    log.push(format!("{} (bind {:?}, to {}): server with {mode}, TLS 1.{}", s.name, s.bind_tls, s.host, if v12 { 2 } else { 3 }));
    let sock = ep::dial(s.addr, rng).map_err(|e| mismatch!(["P07", "P04"], "cannot connect to the proxy: {e}"))?;
    let mut cli = Ep::new(sock, s.bind_tls.map(|_| ep::good_client(rng.chance(50))), Rng::new(rng.u64()));
    let login = format!("a1 LOGIN user {secret}\r\na2 NOOP\r\n");
    if rng.chance(60) {
        cli.send(login.as_bytes());
    }
    let mut servers: Vec<Ep> = vec![];
    let start = Instant::now();
    let mut last = Instant::now();
    let silent = mode == "silent" || mode == "half";
    // (One look more for connections that come late)
    let mut rest = None;
    loop {
        let mut p = cli.pump();
        while let Some(sock) = w.accept(service) {
            p = true;
            // On a second try, there might be less security.
            let first = servers.is_empty();
            let tls = if by_tls { server(first || rng.chance(50)) } else { None };
            let plain = by_tls && tls.is_none();
            let mut e = Ep::new(sock, tls, Rng::new(rng.u64()));
            e.keep_raw = true;
            match mode {
                _ if plain => e.send(greeting.as_bytes()),
                "plaintext" => e.send(greeting.as_bytes()),
                "garbage" => {
                    let b: Vec<u8> = (0..rng.range(1, 400)).map(|_| rng.u64() as u8).collect();
                    // (Not by chance the beginning of a record that never ends)
                    e.send_raw(b"\0\0\0\0\0\0\0");
                    e.send_raw(&b);
                }
                "alert" => e.send_raw(&[21, 3, 3, 0, 2, 2, 40]),
                "end" => e.close(Close::Fin),
                "reset" => e.close(Close::Reset),
                _ if by_tls => e.send(greeting.as_bytes()),
                _ => {}
            }
            servers.push(e);
        }
        for e in &mut servers {
            p |= e.pump();
            if mode == "late plaintext" && e.queued == 0 && !e.raw_in.is_empty() {
                // Once the proxy has begun
                e.send(greeting.as_bytes());
            }
            if mode == "half" && e.queued == 0 && !e.raw_in.is_empty() {
                // The begin of a proper answer
                let mut c = Connection::Server(ServerConnection::new(config("good", false, "good", v12, &["imap"])).unwrap());
                let mut input = &e.raw_in[..];
                let mut out = vec![];
                if c.read_tls(&mut input).is_ok() && c.process_new_packets().is_ok() {
                    while c.wants_write() && c.write_tls(&mut out).is_ok() {}
                }
                out.truncate(rng.range(1, out.len().max(2) - 1));
                e.queued = 1;
                e.send_raw(&out);
                e.close(*rng.pick(&[Close::Fin, Close::Reset]));
            }
        }
        if p {
            last = Instant::now();
        }
        // What the peers see
        if !cli.inbuf.is_empty() && (contains(&cli.inbuf, &name) || !cli.inbuf.starts_with(b"* BYE")) && cli.inbuf.len() >= 5 {
            return Err(mismatch!(["P07"], "the client got {} although the server ({mode}) did not prove to be {}", mon_common::show(&cli.inbuf), s.host));
        }
        for e in &servers {
            if !e.inbuf.is_empty() && e.tls.is_some() {
                return Err(mismatch!(["P07"], "the proxy sent data to a server with {mode}: {}", mon_common::show(&e.inbuf)));
            }
            if let (Some(t), None) = (&e.tls, &e.ended) {
                if !t.is_handshaking() {
                    return Err(mismatch!(["P07"], "the proxy completed a handshake with a server with {mode} as {}", s.host));
                }
            }
            only_records(&e.raw_in).map_err(|x| mismatch!(["P07"], "the proxy sent plain text to its TLS server ({mode}): {x}"))?;
            if contains(&e.raw_in, &secret) {
                return Err(mismatch!(["P07"], "the secret of the client reached the server ({mode})"));
            }
        }
        if silent && !servers.is_empty() && last.elapsed() > Duration::from_millis(30) {
            break;
        }
        if let Some(t) = rest {
            if Instant::now() > t {
                break;
            }
        } else if cli.ended.is_some() {
            rest = Some(Instant::now() + Duration::from_millis(3));
        }
        if start.elapsed() > WAIT {
            return Err(mismatch!(
                ["P07"],
                "the proxy has not closed the connection of the client although the handshake with the server ({mode}) failed (proxy connected {} times)",
                servers.len()
            ));
        }
        nap(p);
    }
    *counts.entry("connections of the proxy to TLS servers that must not be used".into()).or_default() += servers.len() as u64;
    for e in &mut servers {
        e.close(Close::Full);
        e.pump();
    }
    Ok(())
}

fn rng_flag(s: &str) -> bool {
    s.as_bytes()[5] % 2 == 0
}

// ------------------------------------------------------------------------------------- bad clients

pub fn bad_client(w: &World, rng: &mut Rng, counts: &mut Counts, log: &mut Vec<String>, controls: &mut Vec<Control>) -> Result<(), Mismatch> {
    let services: Vec<usize> = (0..w.services.len()).filter(|s| w.services[*s].bind_tls.is_some()).collect();
    let service = *rng.pick(&services);
    let s = w.services[service].clone();
    let modes = [
        "plaintext", "http", "garbage", "partial hello", "mutated hello", "hello and plaintext", "hello and a false record", "alert", "nothing",
        "distrust", "http/1.1", "hello and end",
    ];
    let mode = *rng.pick(&modes);
    *counts.entry(format!("clients: {mode}")).or_default() += 1;
    log.push(format!("{}: client with {mode}", s.name));
    let secret = hostile::ident('c', rng);
    let v12 = rng.chance(40);
    let tls = match mode {
        "distrust" => Some(ep::tls_client(ep::client_config("rogue", v12, &["imap"]))),
        "http/1.1" => Some(ep::tls_client(ep::client_config("ca", v12, &["http/1.1"]))),
        _ => None,
    };
    let by_tls = tls.is_some();
    let sock = ep::dial(s.addr, rng).map_err(|e| mismatch!(["P07", "P04"], "cannot connect to the proxy: {e}"))?;
    let mut cli = Ep::new(sock, tls, Rng::new(rng.u64()));
    cli.keep_raw = true;
    let text = format!("a1 LOGIN user {secret}\r\na2 NOOP\r\na3 STARTTLS\r\n");
    // A peer that has not said anything wrong may be waited for.
    let mut patient = false;
    match mode {
        "plaintext" => cli.send(text.as_bytes()),
        "http" => cli.send(format!("GET /{secret} HTTP/1.1\r\nHost: localhost\r\n\r\n").as_bytes()),
        "garbage" => {
            let b: Vec<u8> = (0..rng.range(1, 300)).map(|_| rng.u64() as u8).collect();
            cli.send_raw(b"\0\0\0\0\0\0\0");
            cli.send_raw(&b);
        }
        "partial hello" => {
            let mut h = hostile::hello(rng);
            h.truncate(rng.range(1, h.len() - 1));
            cli.send_raw(&h);
            patient = true;
        }
        "mutated hello" => {
            let mut h = hostile::hello(rng);
            let i = rng.below(h.len());
            h[i] ^= 1 << rng.below(8);
            cli.send_raw(&h);
            patient = true;
        }
        "hello and plaintext" => {
            cli.send_raw(&hostile::hello(rng));
            cli.send_raw(text.as_bytes());
        }
        "hello and a false record" => {
            cli.send_raw(&hostile::hello(rng));
            let n = text.len();
            cli.send_raw(&[20, 3, 3, 0, 1, 1, 23, 3, 3, 0, n as u8]);
            cli.send_raw(text.as_bytes());
        }
        "alert" => cli.send_raw(&[21, 3, 3, 0, 2, 2, 40]),
        "nothing" => patient = true,
        "hello and end" => {
            cli.send_raw(&hostile::hello(rng));
            cli.close(*rng.pick(&[Close::Fin, Close::Full, Close::Reset]));
            patient = true;
        }
        _ => cli.send(text.as_bytes()),
    }
    let mut servers: Vec<(Ep, bool)> = vec![];
    let start = Instant::now();
    let name = hostile::ident('s', rng);
    let until = Duration::from_millis(rng.range(2, 15) as u64);
    let mut rest = None;
    loop {
        let mut p = cli.pump();
        while let Some(sock) = w.accept(service) {
            p = true;
            let mut e = Ep::new(sock, s.connect_tls.then(|| ep::good_server(v12)), Rng::new(rng.u64()));
            e.send(format!("* OK {name}\r\n").as_bytes());
            servers.push((e, true));
        }
        for (e, _) in &mut servers {
            p |= e.pump();
            if !e.inbuf.is_empty() {
                return Err(mismatch!(["P07"], "the proxy forwarded data of a client that had not completed a handshake ({mode}): {}", mon_common::show(&e.inbuf)));
            }
        }
        only_records(&cli.raw_in).map_err(|x| mismatch!(["P07"], "the proxy sent plain text on its TLS endpoint ({mode}): {x}"))?;
        if contains(&cli.raw_in, &name) || !cli.inbuf.is_empty() && by_tls {
            return Err(mismatch!(["P07"], "the proxy sent data to a client that had not completed a handshake ({mode})"));
        }
        if by_tls && cli.ended.is_none() && !cli.handshaking() && mode == "distrust" {
            return Err(mismatch!(["P07"], "harness: a handshake was completed with {mode}"));
        }
        if patient && start.elapsed() > until {
            break;
        }
        if let Some(t) = rest {
            if Instant::now() > t {
                break;
            }
        } else if cli.ended.is_some() || cli.sock.is_none() {
            rest = Some(Instant::now() + Duration::from_millis(2));
        }
        if start.elapsed() > WAIT {
            return Err(mismatch!(["P07"], "the proxy has not closed a connection whose handshake failed ({mode})"));
        }
        nap(p);
    }
    if !patient && by_tls && mode == "http/1.1" && !cli.handshaking() && cli.ended.is_none() {
        return Err(mismatch!(["P07"], "the proxy agreed on {mode}"));
    }
    // Meanwhile others are served.
    if patient || rng.chance(30) {
        let mut c = Control::open(w, service, rng)?;
        let r = c.run(w, rng);
        controls.push(c);
        r.map_err(|m| also(m, &format!("while a client with {mode} waits")))?;
        *counts.entry("sessions while a handshake was incomplete".into()).or_default() += 1;
    }
    cli.close(if rng.chance(50) { Close::Reset } else { Close::Fin });
    cli.pump();
    Ok(())
}

fn also(mut m: Mismatch, what: &str) -> Mismatch {
    if m.props.contains(&"P04") && !m.props.contains(&"P07") {
        m.props.insert(0, "P07");
    }
    m.what = format!("{what}: {}", m.what);
    m
}

// ------------------------------------------------------------------------------------ good sessions

fn good(w: &World, rng: &mut Rng, counts: &mut Counts, log: &mut Vec<String>, controls: &mut Vec<Control>) -> Result<(), Mismatch> {
    let service = rng.below(w.services.len());
    let s = w.services[service].clone();
    let mut c = Control::open(w, service, rng)?;
    c.keep_raw = true;
    c.s.cli.keep_raw = true;
    log.push(format!("{}: a proper session", s.name));
    let r = c.run(w, rng);
    controls.push(c);
    r.map_err(|m| also(m, "a proper session"))?;
    let c = controls.last().unwrap();
    let srv = c.s.srv.as_ref().unwrap();
    if let (Some(cert), Some(Connection::Client(t))) = (s.bind_tls, &c.s.cli.tls) {
        let chain = ep::chain(cert);
        let got: Vec<Vec<u8>> = t.peer_certificates().unwrap_or(&[]).iter().map(|c| c.to_vec()).collect();
        if got != chain.iter().map(|c| c.to_vec()).collect::<Vec<_>>() {
            return Err(mismatch!(["P07"], "the proxy did not present the configured chain {cert}.pem of {} certificates, but {} certificates", chain.len(), got.len()));
        }
        if t.alpn_protocol() != Some(b"imap") {
            return Err(mismatch!(["P07"], "ALPN with the client: {:?}", t.alpn_protocol().map(String::from_utf8_lossy)));
        }
        *counts.entry("configured chains seen".into()).or_default() += 1;
    }
    if let Some(Connection::Server(t)) = &srv.tls {
        if t.alpn_protocol() != Some(b"imap") {
            return Err(mismatch!(["P07"], "ALPN with the server: {:?}", t.alpn_protocol().map(String::from_utf8_lossy)));
        }
        let want = (s.host == "localhost").then_some("localhost");
        if t.server_name() != want {
            return Err(mismatch!(["P07"], "the proxy asked the server for {:?} instead of {want:?}", t.server_name()));
        }
        *counts.entry("handshakes with servers checked".into()).or_default() += 1;
    }
    for (what, tls, e) in [("client", s.bind_tls.is_some(), &c.s.cli), ("server", s.connect_tls, srv)] {
        if !tls {
            continue;
        }
        only_records(&e.raw_in).map_err(|x| mismatch!(["P07"], "the proxy sent plain text to the {what}: {x}"))?;
        if contains(&e.raw_in, &c.s.ident) {
            return Err(mismatch!(["P07"], "the proxy sent plain text to the {what}, in TLS records"));
        }
        *counts.entry("bytes that were nothing but TLS records".into()).or_default() += e.raw_in.len() as u64;
    }
    Ok(())
}

// ------------------------------------------------------------------------------- bad configurations

fn bad_configuration(w: &World, rng: &mut Rng, counts: &mut Counts, log: &mut Vec<String>) -> Result<(), Mismatch> {
    let odd: Vec<&Service> = w.odd.iter().filter(|s| s.host != crate::world::NOBODY).collect();
    let s: &Service = odd[rng.below(odd.len())];
    let name = hostile::ident('s', rng);
    let secret = hostile::ident('c', rng);
    let bad_identity = s.host != "127.1";
    let tls = match s.bind_tls {
        Some(_) if rng.chance(60) => Some(ep::good_client(rng.chance(50))),
        _ => None,
    };
    let by_tls = tls.is_some();
    log.push(format!("{}: bind {:?}, to {}, client with TLS: {by_tls}", s.name, s.bind_tls, s.host));
    *counts.entry(format!("bad configurations: {}", if bad_identity { "identity" } else { "host" })).or_default() += 1;
    // (Not to listen at all is fine as well.)
    let Ok(sock) = ep::dial(s.addr, rng) else {
        *counts.entry("services that do not listen".into()).or_default() += 1;
        return Ok(());
    };
    let mut cli = Ep::new(sock, tls, Rng::new(rng.u64()));
    cli.keep_raw = true;
    cli.send(format!("a1 LOGIN user {secret}\r\na2 NOOP\r\n").as_bytes());
    let mut servers: Vec<Ep> = vec![];
    let start = Instant::now();
    while cli.ended.is_none() {
        let mut p = cli.pump();
        while let Some(sock) = w.accept_at(s) {
            p = true;
            let mut e = Ep::new(sock, s.connect_tls.then(|| ep::good_server(rng.chance(50))), Rng::new(rng.u64()));
            e.keep_raw = true;
            e.send(format!("* OK {name}\r\n").as_bytes());
            servers.push(e);
        }
        for e in &mut servers {
            p |= e.pump();
            if !e.inbuf.is_empty() || contains(&e.raw_in, &secret) {
                return Err(mismatch!(["P07"], "the proxy forwards data although it cannot be secured as configured ({}): {}", log.join("; "), mon_common::show(&e.raw_in)));
            }
        }
        if contains(&cli.raw_in, &name) || contains(&cli.inbuf, &name) || cli.inbuf.starts_with(b"* OK") || cli.inbuf.starts_with(b"* PREAUTH") {
            return Err(mismatch!(["P07"], "the proxy sent data to a client although the connection cannot be secured as configured ({})", log.join("; ")));
        }
        if by_tls && bad_identity && !cli.handshaking() {
            return Err(mismatch!(["P07"], "the proxy completed a handshake without its identity ({})", log.join("; ")));
        }
        if start.elapsed() > WAIT {
            return Err(mismatch!(["P07"], "the proxy keeps a connection that cannot be secured as configured ({})", log.join("; ")));
        }
        nap(p);
    }
    Ok(())
}
