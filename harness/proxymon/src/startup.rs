//! P09: the services of a proxy are independent of each other, and its configuration is the one asked for.
use std::{
    net::{Ipv4Addr, SocketAddr, TcpListener, TcpStream},
    path::PathBuf,
    process::{Child, Command},
    sync::{Arc, Mutex},
    time::{Duration, Instant},
};

use mon_common::{mismatch, Mismatch, Rng};

use crate::{
    ep::{self, Ep},
    world::{launch, Said, WAIT},
    Outcome,
};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Kind {
    Good,
    /// Somebody else listens there
    Occupied,
    /// Same address as another service
    Twin(usize),
    /// Not an address of this machine
    Foreign,
    /// No address at all
    Nonsense,
}

struct Plan {
    kind: Kind,
    addr: SocketAddr,
    host: String,
    bind_tls: Option<&'static str>,
    connect_tls: bool,
    upstream: usize,
    name: String,
    /// Keeps an address occupied
    _holder: Option<TcpListener>,
}

/// The directory of a case, removed in the end
struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
struct Proxy(Child, Arc<Mutex<Said>>);
impl Drop for Proxy {
    fn drop(&mut self) {
        let _ = self.0.kill();
        let _ = self.0.wait();
    }
}
impl Proxy {
    fn said(&self) -> String {
        std::thread::sleep(Duration::from_millis(150));
        self.1.lock().unwrap().last.iter().cloned().collect::<Vec<_>>().join("\n")
    }
    fn panics(&self) -> Option<String> {
        self.1.lock().unwrap().panics.first().cloned()
    }
}

fn free_addr(rng: &mut Rng) -> SocketAddr {
    loop {
        let ip = Ipv4Addr::new(127, rng.range(1, 250) as u8, rng.range(0, 250) as u8, rng.range(1, 250) as u8);
        if let Ok(a) = TcpListener::bind((ip, 0)).and_then(|l| l.local_addr()) {
            return a;
        }
    }
}

fn plans(rng: &mut Rng, upstreams: usize, none_good: bool) -> Vec<Plan> {
    let mut v: Vec<Plan> = vec![];
    for i in 0..rng.range(1, 7) {
        let mut kind = match rng.below(10) {
            0..=4 => Kind::Good,
            5 | 6 => Kind::Occupied,
            7 => Kind::Foreign,
            8 => Kind::Nonsense,
            _ => match v.iter().position(|p| p.kind == Kind::Good && rng.chance(60)) {
                Some(i) => Kind::Twin(i),
                None => Kind::Good,
            },
        };
        if none_good && matches!(kind, Kind::Good | Kind::Twin(_)) {
            kind = *rng.pick(&[Kind::Occupied, Kind::Foreign]);
        }
        let mut addr = free_addr(rng);
        let mut holder = None;
        match kind {
            Kind::Occupied => {
                let l = TcpListener::bind(addr).or_else(|_| TcpListener::bind((Ipv4Addr::LOCALHOST, 0))).expect("harness: no free port");
                addr = l.local_addr().unwrap();
                holder = Some(l);
            }
            Kind::Twin(i) => addr = v[i].addr,
            _ => {}
        }
        let host = match kind {
            Kind::Foreign => rng.pick(&["192.0.2.17", "203.0.113.1", "198.51.100.77"]).to_string(),
            Kind::Nonsense => rng.pick(&["no host", "999.1.1.1.", "a..b", "-", "[::1"]).to_string(),
            _ => addr.ip().to_string(),
        };
        let name = match rng.below(6) {
            0 => "".into(),
            1 => "same".into(),
            2 => "Überraschung ✓".into(),
            3 => "# a 'name' {} %s".into(),
            _ => format!("service {i}"),
        };
        v.push(Plan {
            kind,
            addr,
            host,
            bind_tls: rng.chance(35).then(|| *rng.pick(&["good", "second", "deep"])),
            connect_tls: rng.chance(35),
            upstream: rng.below(upstreams),
            name,
            _holder: holder,
        });
    }
    v
}

fn toml(plans: &[Plan], upstreams: &[TcpListener]) -> String {
    let mut t = String::new();
    for p in plans {
        let port = p.addr.port();
        t += &format!("[[services]]\nname = \"{}\"\n[services.bind]\nhost = \"{}\"\nport = {port}\n", p.name, p.host);
        match p.bind_tls {
            None => t += "encryption = \"Insecure\"\n",
            Some(c) => {
                let d = ep::certs_dir();
                let d = d.display();
                t += &format!("encryption = \"Tls\"\n[services.bind.identity]\ntype = \"CertificateChainAndLeafKey\"\ncertificate_chain_path = \"{d}/{c}.pem\"\nleaf_key_path = \"{d}/{c}-key.pem\"\n");
            }
        }
        let up = upstreams[p.upstream].local_addr().unwrap().port();
        let enc = if p.connect_tls { "Tls" } else { "Insecure" };
        t += &format!("[services.connect]\nencryption = \"{enc}\"\nhost = \"127.0.0.1\"\nport = {up}\n\n");
    }
    t
}

/// A client of that service must be greeted by that server. Ok(None): nobody listens.
fn visit(p: &Plan, candidates: &[usize], upstreams: &[TcpListener], proxy: &mut Proxy, rng: &mut Rng) -> Result<Option<usize>, String> {
    for u in candidates {
        while upstreams[*u].accept().is_ok() {}
    }
    let Ok(sock) = ep::dial(p.addr, rng) else { return Ok(None) };
    let tls = p.bind_tls.is_some().then(|| ep::good_client(rng.chance(30)));
    let mut c = Ep::new(sock, tls, Rng::new(rng.u64()));
    let word = format!("id{:x}", rng.u64());
    let mut s: Vec<(usize, Ep, bool)> = vec![];
    let mut answered = false;
    let start = Instant::now();
    loop {
        let mut progress = c.pump();
        for u in candidates {
            while let Ok((sock, _)) = upstreams[*u].accept() {
                let tls = p.connect_tls.then(|| ep::good_server(rng.chance(30)));
                let mut e = Ep::new(sock, tls, Rng::new(rng.u64()));
                e.send(format!("* OK {word} upstream {u}.\r\n").as_bytes());
                s.push((*u, e, false));
                progress = true;
            }
        }
        for (_, s, done) in &mut s {
            progress |= s.pump();
            if !*done && s.inbuf.ends_with(b"\r\n") {
                *done = true;
                let text = String::from_utf8_lossy(&s.inbuf).into_owned();
                if text != format!("{word} NOOP\r\n") {
                    return Err(format!("the server got {text:?} in place of the client's {word} NOOP"));
                }
                s.send(format!("{word} OK done\r\n").as_bytes());
            }
        }
        if !answered {
            if let Some(i) = c.inbuf.iter().position(|b| *b == b'\n') {
                let line: Vec<u8> = c.inbuf.drain(..=i).collect();
                let want = candidates.iter().find(|u| line == format!("* OK {word} upstream {u}.\r\n").as_bytes());
                if want.is_none() {
                    return Err(format!("the client got {:?} in place of the greeting", mon_common::show(&line)));
                }
                answered = true;
                c.send(format!("{word} NOOP\r\n").as_bytes());
            }
        } else if c.inbuf == format!("{word} OK done\r\n").as_bytes() {
            return Ok(s.iter().find(|s| s.2).map(|s| s.0));
        }
        if let Some(e) = &c.ended {
            return Err(format!("the connection of the client ended: {e:?}"));
        }
        if let Some(x) = proxy.0.try_wait().ok().flatten() {
            return Err(format!("the proxy process ended: {x}"));
        }
        if start.elapsed() > WAIT {
            return Err(format!("nothing happens for {WAIT:?} (greeted: {answered}, connections to the server: {})", s.len()));
        }
        if !progress {
            std::thread::sleep(Duration::from_micros(60));
        }
    }
}

pub fn case(rng: &mut Rng) -> Outcome {
    let mut log = vec![];
    let mut counts: Vec<(String, u64)> = vec![];
    let result = run(rng, &mut log, &mut counts);
    let mut o = Outcome::of(&[], result);
    o.counts = counts;
    o.nontrivial = log.len() > 1;
    o.log = log.join("\n");
    o.signature = mon_common::hash_of(&o.log);
    o
}

fn run(rng: &mut Rng, log: &mut Vec<String>, counts: &mut Vec<(String, u64)>) -> Result<(), Mismatch> {
    let mut count = |k: &str| counts.push((k.to_owned(), 1));
    let h = |e: std::io::Error| mismatch!(["harness"], "harness: {e}");
    let dir = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or("/verif".into()));
    let scratch = Scratch(dir.join(format!("build/scratch/start-{}-{:x}", std::process::id(), rng.u64())));
    std::fs::create_dir_all(scratch.0.join("other")).map_err(h)?;
    let mut upstreams = vec![];
    for _ in 0..3 {
        let l = TcpListener::bind((Ipv4Addr::LOCALHOST, 0)).map_err(h)?;
        l.set_nonblocking(true).map_err(h)?;
        upstreams.push(l);
    }
    let scenario = rng.weighted(&[70, 15, 15]);
    let plans = plans(rng, upstreams.len(), scenario == 1);
    let text = toml(&plans, &upstreams);
    // Where the configuration is
    let named = rng.chance(60);
    let path = if named { *rng.pick(&["other/my config.toml", "other/x", "y.conf"]) } else { "config.toml" };
    let mut cmd = Command::new(dir.join("build/net/debug/proxy-under-test"));
    cmd.current_dir(&scratch.0);
    if named {
        cmd.arg("--config");
        if rng.chance(50) {
            cmd.arg(path);
        } else {
            cmd.arg(scratch.0.join(path));
        }
    }
    cmd.env_remove("RUST_BACKTRACE").env("SSL_CERT_FILE", ep::certs_dir().join("ca.pem"));
    cmd.env("TOKIO_WORKER_THREADS", rng.pick(&[1, 1, 2, 4]).to_string());
    cmd.env("RUST_LOG", *rng.pick(&["error", "info", "trace", "off"]));
    // A configuration that is not the one asked for
    let mut decoy = None;
    if named && rng.chance(50) {
        let d = Plan { kind: Kind::Good, addr: free_addr(rng), host: String::new(), bind_tls: None, connect_tls: false, upstream: 0, name: "decoy".into(), _holder: None };
        let d = Plan { host: d.addr.ip().to_string(), ..d };
        std::fs::write(scratch.0.join("config.toml"), toml(std::slice::from_ref(&d), &upstreams)).map_err(h)?;
        decoy = Some(d);
    }
    log.push(format!("{scenario} named={named} decoy={}", decoy.is_some()));
    for p in &plans {
        log.push(format!("{:?} tls={:?}/{} upstream {} {:?}", p.kind, p.bind_tls, p.connect_tls, p.upstream, p.name));
    }
    if scenario == 2 {
        // No good
        let bad = match rng.below(6) {
            0 => None,
            1 => Some(format!("{text}\n[[services]]\nname = \"half\"\n")),
            2 => Some("services = 1\n".to_owned()),
            3 => Some(text[..text.rfind("encryption").unwrap() + 4].to_owned()),
            4 => Some(text.replacen("encryption = \"", "encryption = \"No", 1)),
            _ => Some(format!("{text}\n]]")),
        };
        log.push(format!("configuration: {}", bad.as_deref().unwrap_or("missing").lines().rev().take(4).collect::<Vec<_>>().join("/")));
        if let Some(b) = bad {
            std::fs::write(scratch.0.join(path), b).map_err(h)?;
        }
    } else {
        std::fs::write(scratch.0.join(path), &text).map_err(h)?;
    }
    let (child, said) = launch(&mut cmd, None).map_err(|e| mismatch!(["harness"], "{e}"))?;
    let mut proxy = Proxy(child, said);
    let start = Instant::now();
    if scenario != 0 {
        // It must end
        let status = loop {
            if let Some(s) = proxy.0.try_wait().map_err(h)? {
                break s;
            }
            if start.elapsed() > WAIT {
                let why = if scenario == 1 { "none of its services could be started" } else { "it has no usable configuration" };
                return Err(mismatch!(["P09"], "the proxy runs on, although {why}\n{}", proxy.said()));
            }
            std::thread::sleep(Duration::from_millis(1));
        };
        let said = proxy.said();
        if let Some(p) = proxy.panics() {
            return Err(mismatch!(["P09", "P04"], "the proxy panicked: {p}"));
        }
        if status.code().is_none() {
            return Err(mismatch!(["P09", "P04"], "the proxy was killed: {status}\n{said}"));
        }
        if scenario == 2 {
            if status.success() {
                return Err(mismatch!(["P09"], "the proxy reports success without a usable configuration\n{said}"));
            }
            if said.trim().is_empty() {
                return Err(mismatch!(["P09"], "the proxy has nothing to say about its unusable configuration"));
            }
            count("ends because of an unusable configuration");
        } else {
            count("ends because no service could be started");
        }
        return Ok(());
    }
    if !plans.iter().any(|p| p.kind == Kind::Good) {
        count("proxies with nothing to serve");
        return Ok(());
    }
    let mut order: Vec<usize> = (0..plans.len()).collect();
    for i in (1..order.len()).rev() {
        order.swap(i, rng.below(i + 1));
    }
    for round in 0..2 {
        for i in &order {
            let p = &plans[*i];
            if p.kind != Kind::Good {
                continue;
            }
            // One of the services with that address
            let twins: Vec<usize> = (0..plans.len()).filter(|j| *j == *i || plans[*j].kind == Kind::Twin(*i)).collect();
            if twins.len() > 1 {
                // (whose encryption is not known)
                let start = Instant::now();
                while TcpStream::connect(p.addr).is_err() {
                    if start.elapsed() > WAIT || round == 1 {
                        return Err(mismatch!(["P09"], "nobody listens on the address {} of two services\n{}", p.addr, proxy.said()));
                    }
                    std::thread::sleep(Duration::from_millis(2));
                }
                count("addresses of two services that are served");
                continue;
            }
            let start = Instant::now();
            loop {
                match visit(p, &[p.upstream], &upstreams, &mut proxy, rng) {
                    Err(e) => return Err(mismatch!(["P09"], "service {i} ({:?}): {e}\n{}", p.addr, proxy.said())),
                    Ok(Some(_)) => break,
                    Ok(None) => {
                        if let Some(x) = proxy.0.try_wait().ok().flatten() {
                            return Err(mismatch!(["P09"], "the proxy ended ({x}) although it could serve service {i}\n{}", proxy.said()));
                        }
                        if round == 1 || start.elapsed() > WAIT {
                            return Err(mismatch!(["P09"], "service {i} does not listen on {}, round {round}\n{}", p.addr, proxy.said()));
                        }
                        std::thread::sleep(Duration::from_millis(2));
                    }
                }
            }
            count("services that reached their servers");
            if round == 0 && plans.iter().any(|p| p.kind != Kind::Good) {
                count("services that reached their servers next to ones that failed");
            }
        }
    }
    for p in &plans {
        match p.kind {
            Kind::Good => {}
            _ => count("services that could not be started"),
        }
    }
    if let Some(d) = &decoy {
        if TcpStream::connect(d.addr).is_ok() {
            return Err(mismatch!(["P09"], "the proxy serves what config.toml says, although it was given the configuration {path:?}"));
        }
        count("other configurations that were not used");
    }
    if let Some(p) = proxy.panics() {
        return Err(mismatch!(["P09", "P04"], "the proxy panicked: {p}"));
    }
    count(if named { "configurations given by name" } else { "default configurations" });
    Ok(())
}
