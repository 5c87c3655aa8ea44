//! The proxy process, and the listening sockets of the mock servers behind it.
use std::{
    collections::VecDeque,
    io::{BufRead, BufReader},
    net::{Ipv4Addr, SocketAddr, TcpListener, TcpStream},
    os::unix::process::CommandExt,
    process::{Child, Command, Stdio},
    sync::{Arc, Mutex},
    time::{Duration, Instant},
};

use mon_common::Rng;

use crate::{ep, marker::Marker};

#[derive(Clone, Debug)]
pub struct Service {
    pub name: String,
    pub bind_tls: Option<&'static str>,
    pub connect_tls: bool,
    pub host: &'static str,
    pub addr: SocketAddr,
    pub listener: usize,
}

#[derive(Default)]
pub struct Said {
    pub lines: u64,
    pub panics: Vec<String>,
    pub last: VecDeque<String>,
    /// Lines (and parts of them) that show the secret
    pub leaks: Vec<String>,
    pub searched: u64,
    pub redacted: u64,
}

pub struct World {
    pub child: Child,
    pub services: Vec<Service>,
    pub odd: Vec<Service>,
    pub listeners: Vec<TcpListener>,
    pub said: Arc<Mutex<Said>>,
    pub panics_seen: usize,
    config: std::path::PathBuf,
}

pub const WAIT: Duration = Duration::from_secs(20);

/// Start a proxy, and read all it says.
pub fn launch(cmd: &mut Command, secret: Option<Arc<Marker>>) -> Result<(Child, Arc<Mutex<Said>>), String> {
    cmd.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    unsafe {
        cmd.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    let mut child = cmd.spawn().map_err(|e| format!("harness: cannot start the proxy: {e}"))?;
    let said = Arc::new(Mutex::new(Said::default()));
    let (o, r) = (child.stdout.take().unwrap(), child.stderr.take().unwrap());
    for p in [Box::new(o) as Box<dyn std::io::Read + Send>, Box::new(r)] {
        let said = said.clone();
        let secret = secret.clone();
        std::thread::spawn(move || {
            let mut r = BufReader::with_capacity(1 << 16, p);
            let mut line = vec![];
            loop {
                line.clear();
                match r.read_until(b'\n', &mut line) {
                    Ok(0) | Err(_) => return,
                    Ok(_) => {}
                }
                let panicked = line.windows(11).any(|w| w == b"panicked at") && line.starts_with(b"\nthread '") | line.starts_with(b"thread '");
                let mut leak = None;
                let mut redacted = false;
                if let Some(m) = &secret {
                    let text = plain(&line);
                    leak = m.find(&text).map(|form| format!("as {form}: {}", text.chars().take(700).collect::<String>()));
                    redacted = text.contains("REDACTED");
                }
                line.truncate(600);
                let text = String::from_utf8_lossy(&line).trim_end().to_owned();
                let mut s = said.lock().unwrap();
                s.lines += 1;
                if secret.is_some() {
                    s.searched += 1;
                    s.redacted += redacted as u64;
                    s.leaks.extend(leak);
                }
                if panicked {
                    s.panics.push(text.clone());
                }
                if s.last.len() > 150 {
                    s.last.pop_front();
                }
                s.last.push_back(text);
            }
        });
    }
    Ok((child, said))
}

/// Our listeners are on another address.
pub const NOBODY: &str = "127.0.0.2";

impl World {
    /// `odd`: with services whose configuration is no good.
    /// `secret`: something to look for in all output.
    pub fn start(rng: &mut Rng, log: bool, odd: bool, secret: Option<Arc<Marker>>) -> Result<Self, String> {
        let e = |e: std::io::Error| format!("harness: {e}");
        let mut services = vec![];
        let mut listeners = vec![];
        // certificate and key for clients, upstream TLS, upstream host
        type Plan = (Option<(&'static str, &'static str)>, bool, &'static str);
        let same = |c: &'static str| Some((c, c));
        let mut plan: Vec<Plan> = vec![
            (None, false, "127.0.0.1"),
            (None, true, "localhost"),
            (same("good"), false, "127.0.0.1"),
            (same("second"), true, "127.0.0.1"),
            (None, true, "127.0.0.1"),
            (same("deep"), false, "localhost"),
        ];
        let good = plan.len();
        if odd {
            plan.push((Some(("missing", "good")), false, "127.0.0.1"));
            plan.push((Some(("good", "missing")), false, "127.0.0.1"));
            plan.push((Some(("good", "second")), false, "127.0.0.1"));
            plan.push((Some(("@empty", "good")), false, "127.0.0.1"));
            plan.push((Some(("good", "@empty")), false, "127.0.0.1"));
            plan.push((Some(("@garbage", "good")), true, "127.0.0.1"));
            // Not the name of a server, but an address
            plan.push((None, true, "127.1"));
            plan.push((same("good"), true, "127.1"));
            // Nobody listens there
            plan.push((None, false, NOBODY));
            plan.push((None, true, NOBODY));
        }
        let mut toml = String::new();
        for (i, (identity, connect_tls, host)) in plan.into_iter().enumerate() {
            let listener = TcpListener::bind((Ipv4Addr::LOCALHOST, 0)).map_err(e)?;
            listener.set_nonblocking(true).map_err(e)?;
            let up = listener.local_addr().map_err(e)?;
            listeners.push(listener);
            // A free port on some loopback address
            let ip = Ipv4Addr::new(127, rng.range(1, 250) as u8, rng.range(0, 250) as u8, rng.range(1, 250) as u8);
            let addr = TcpListener::bind((ip, 0)).and_then(|l| l.local_addr()).map_err(e)?;
            let name = format!("service {i}");
            let (bip, bport) = (addr.ip(), addr.port());
            toml += &format!("[[services]]\nname = \"{name}\"\n[services.bind]\n");
            match identity {
                None => toml += &format!("encryption = \"Insecure\"\nhost = \"{bip}\"\nport = {bport}\n"),
                Some((c, k)) => {
                    let d = ep::certs_dir();
                    let path = |c: &str, end: &str| match c {
                        "@empty" => "/dev/null".into(),
                        "@garbage" => format!("{}/gen.sh", d.display()),
                        c => format!("{}/{c}{end}", d.display()),
                    };
                    toml += &format!(
                        "encryption = \"Tls\"\nhost = \"{bip}\"\nport = {bport}\n[services.bind.identity]\ntype = \"CertificateChainAndLeafKey\"\ncertificate_chain_path = \"{}\"\nleaf_key_path = \"{}\"\n",
                        path(c, ".pem"),
                        path(k, "-key.pem")
                    );
                }
            }
            let enc = if connect_tls { "Tls" } else { "Insecure" };
            toml += &format!("[services.connect]\nencryption = \"{enc}\"\nhost = \"{host}\"\nport = {}\n\n", up.port());
            services.push(Service { name, bind_tls: identity.map(|i| i.0), connect_tls, host, addr, listener: i });
        }
        let dir = std::path::PathBuf::from(std::env::var("VERIF_DIR").unwrap_or("/verif".into()));
        let scratch = dir.join("build/scratch");
        std::fs::create_dir_all(&scratch).map_err(e)?;
        let config = scratch.join(format!("proxy-{}-{}.toml", std::process::id(), rng.u64()));
        std::fs::write(&config, toml).map_err(e)?;
        let mut cmd = Command::new(dir.join("build/net/debug/proxy-under-test"));
        cmd.arg("--config").arg(&config);
        cmd.env_remove("RUST_BACKTRACE").env("SSL_CERT_FILE", ep::certs_dir().join("ca.pem"));
        cmd.env("TOKIO_WORKER_THREADS", rng.pick(&[1, 1, 2, 4]).to_string());
        // (The library traces raw data in debug builds, on purpose.)
        cmd.env("RUST_LOG", if secret.is_some() { "trace,imap_next=debug" } else if log { "trace" } else { "error" });
        let (child, said) = launch(&mut cmd, secret)?;
        let odd_services = services.split_off(good);
        let mut w = Self { child, services, odd: odd_services, listeners, said, panics_seen: 0, config };
        // Wait until every service listens. (Without connections to them, if possible: nothing should
        // have passed the proxy yet.)
        let start = Instant::now();
        let mut probed = false;
        for i in 0..w.services.len() {
            loop {
                match listens(w.services[i].addr) {
                    Some(true) => break,
                    Some(false) => {}
                    None => {
                        probed = true;
                        if let Ok(s) = ep::dial(w.services[i].addr, rng) {
                            drop(s);
                            break;
                        }
                    }
                }
                if let Some(x) = w.exited() {
                    return Err(format!("the proxy ended at its start: {x}; {}", w.log()));
                }
                if start.elapsed() > WAIT {
                    return Err(format!("the proxy does not listen on {} after {WAIT:?}; {}", w.services[i].addr, w.log()));
                }
                std::thread::sleep(Duration::from_millis(3));
            }
        }
        if !probed {
            return Ok(w);
        }
        // (The probes reach the mock servers as connections that end at once.)
        let mut open: Vec<usize> = (0..w.services.len()).filter(|i| w.services[*i].bind_tls.is_none()).collect();
        let start = Instant::now();
        while !open.is_empty() && start.elapsed() < Duration::from_secs(5) {
            open.retain(|i| w.accept(*i).is_none());
            std::thread::sleep(Duration::from_millis(3));
        }
        std::thread::sleep(Duration::from_millis(100));
        w.discard_connections();
        Ok(w)
    }
    pub fn exited(&mut self) -> Option<String> {
        self.child.try_wait().ok().flatten().map(|s| s.to_string())
    }
    /// Number of open files of the proxy
    pub fn files(&self) -> usize {
        std::fs::read_dir(format!("/proc/{}/fd", self.child.id())).map_or(0, |d| d.count())
    }
    /// Processor time the proxy used (in ticks of 10 ms)
    pub fn ticks(&self) -> u64 {
        let s = std::fs::read_to_string(format!("/proc/{}/stat", self.child.id())).unwrap_or_default();
        let rest = s.rsplit(')').next().unwrap_or("");
        let f: Vec<_> = rest.split_whitespace().collect();
        f.get(11).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) + f.get(12).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0)
    }
    pub fn discard_connections(&mut self) {
        for l in &self.listeners {
            while l.accept().is_ok() {}
        }
    }
    pub fn accept(&self, service: usize) -> Option<TcpStream> {
        self.accept_at(&self.services[service])
    }
    pub fn accept_at(&self, service: &Service) -> Option<TcpStream> {
        self.listeners[service.listener].accept().ok().map(|x| x.0)
    }
    pub fn new_panics(&mut self) -> Vec<String> {
        let s = self.said.lock().unwrap();
        let new = s.panics[self.panics_seen..].to_vec();
        self.panics_seen = s.panics.len();
        new
    }
    pub fn new_leaks(&mut self) -> Vec<String> {
        std::mem::take(&mut self.said.lock().unwrap().leaks)
    }
    pub fn log(&self) -> String {
        let s = self.said.lock().unwrap();
        let skip = s.last.len().saturating_sub(60);
        s.last.iter().skip(skip).cloned().collect::<Vec<_>>().join("\n")
    }
}

/// Whether there is a listening socket with this address, if the system tells.
fn listens(a: SocketAddr) -> Option<bool> {
    let SocketAddr::V4(a) = a else { return None };
    let table = std::fs::read_to_string("/proc/net/tcp").ok()?;
    let own = format!("{:08X}:{:04X}", u32::from_ne_bytes(a.ip().octets()), a.port());
    let mut any = false;
    for line in table.lines().skip(1) {
        let f: Vec<_> = line.split_whitespace().collect();
        if f.get(3) == Some(&"0A") {
            any = true;
            if f.get(1) == Some(&&*own) {
                return Some(true);
            }
        }
    }
    // (The mock servers listen.)
    any.then_some(false)
}

/// Without the escape sequences for colours
fn plain(b: &[u8]) -> String {
    let mut r = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == 0x1b && b.get(i + 1) == Some(&b'[') {
            i += 2;
            while i < b.len() && !b[i].is_ascii_alphabetic() {
                i += 1;
            }
            i += 1;
        } else {
            r.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8_lossy(&r).into_owned()
}

impl Drop for World {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        let _ = std::fs::remove_file(&self.config);
    }
}
