//! One end of a connection to the proxy: nonblocking socket, plain or TLS (rustls driven by hand).
use std::{
    io::{ErrorKind, Read, Write},
    net::{Shutdown, SocketAddr, TcpStream},
    sync::{Arc, OnceLock},
};

use mon_common::Rng;
use rustls::{
    pki_types::{pem::PemObject, CertificateDer, PrivateKeyDer, ServerName},
    ClientConfig, ClientConnection, Connection, RootCertStore, ServerConfig, ServerConnection,
};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Close {
    /// FIN (the socket stays open for reading)
    Fin,
    /// TLS close notification, then FIN
    NotifyFin,
    /// TLS close notification, the connection stays open
    NotifyOnly,
    /// The socket is closed
    Full,
    /// RST
    Reset,
    /// Something that is no TLS record (or not one of this connection), the socket stays open
    Garbage,
}

/// How the other side's closing was seen.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ended {
    Eof,
    Reset,
    Tls(String),
}

pub struct Ep {
    pub sock: Option<TcpStream>,
    pub tls: Option<Connection>,
    /// Encrypted (or plain) bytes on their way to the socket
    raw: Vec<u8>,
    raw_at: usize,
    /// Plain bytes to be sent
    out: Vec<u8>,
    /// Received plain bytes
    pub inbuf: Vec<u8>,
    /// All raw bytes received (kept only if `keep_raw`)
    pub raw_in: Vec<u8>,
    pub keep_raw: bool,
    pub ended: Option<Ended>,
    pub closing: Option<Close>,
    closed: bool,
    /// Write in small pieces
    pub chop: bool,
    /// Do not read for the time being
    pub deaf: bool,
    pub rng: Rng,
    pub sent: u64,
    pub received: u64,
    /// Plain bytes put into `send`
    pub queued: u64,
}

impl Ep {
    pub fn new(sock: TcpStream, tls: Option<Connection>, rng: Rng) -> Self {
        let _ = sock.set_nonblocking(true);
        let _ = sock.set_nodelay(true);
        Self {
            sock: Some(sock),
            tls,
            raw: vec![],
            raw_at: 0,
            out: vec![],
            inbuf: vec![],
            raw_in: vec![],
            keep_raw: false,
            ended: None,
            closing: None,
            closed: false,
            chop: false,
            deaf: false,
            rng,
            sent: 0,
            received: 0,
            queued: 0,
        }
    }
    pub fn send(&mut self, bytes: &[u8]) {
        self.queued += bytes.len() as u64;
        self.out.extend(bytes);
    }
    /// Bytes that go to the socket as they are.
    pub fn send_raw(&mut self, bytes: &[u8]) {
        self.raw.extend(bytes);
    }
    /// Close once everything is sent.
    pub fn close(&mut self, kind: Close) {
        self.closing.get_or_insert(kind);
    }
    pub fn all_sent(&self) -> bool {
        self.out.is_empty() && self.raw_at == self.raw.len()
    }
    pub fn is_closed(&self) -> bool {
        self.closed
    }
    pub fn handshaking(&self) -> bool {
        self.tls.as_ref().is_some_and(|t| t.is_handshaking())
    }

    /// Do whatever is possible. True if something happened.
    pub fn pump(&mut self) -> bool {
        let mut progress = false;
        if self.sock.is_none() {
            return false;
        }
        // Plain -> raw
        match &mut self.tls {
            None => {
                if !self.out.is_empty() {
                    self.raw.append(&mut self.out);
                }
            }
            Some(tls) => {
                if !tls.is_handshaking() && !self.out.is_empty() {
                    tls.set_buffer_limit(None);
                    let n = if self.chop {
                        let max = *self.rng.pick(&[3, 40, 2000]);
                        self.rng.range(1, max).min(self.out.len())
                    } else {
                        self.out.len()
                    };
                    if tls.writer().write_all(&self.out[..n]).is_ok() {
                        self.out.drain(..n);
                    }
                    progress = true;
                }
                while tls.wants_write() {
                    if tls.write_tls(&mut self.raw).is_err() {
                        break;
                    }
                }
            }
        }
        // Raw -> socket
        let mut budget = if self.chop { 3 } else { 64 };
        while self.raw_at < self.raw.len() && budget > 0 && !self.closed {
            budget -= 1;
            let left = self.raw.len() - self.raw_at;
            let n = if self.chop {
                let max = *self.rng.pick(&[2, 30, 3000]);
                self.rng.range(1, max).min(left)
            } else {
                left.min(1 << 16)
            };
            match self.sock.as_mut().unwrap().write(&self.raw[self.raw_at..self.raw_at + n]) {
                Ok(0) => break,
                Ok(n) => {
                    self.raw_at += n;
                    self.sent += n as u64;
                    progress = true;
                }
                Err(e) if e.kind() == ErrorKind::WouldBlock => break,
                Err(e) if e.kind() == ErrorKind::Interrupted => {}
                Err(_) => {
                    // The proxy closed; the reader sees how.
                    self.raw_at = self.raw.len();
                    self.out.clear();
                    break;
                }
            }
        }
        if self.raw_at == self.raw.len() && self.raw_at > 0 {
            self.raw.clear();
            self.raw_at = 0;
        }
        if let (Some(kind), false, true) = (self.closing, self.closed, self.all_sent()) {
            progress = true;
            self.do_close(kind);
            if self.sock.is_none() {
                return true;
            }
        }
        // Socket -> raw -> plain
        if self.deaf || self.ended.is_some() {
            return progress;
        }
        // (Otherwise the proxy's small writes wait for delayed acknowledgements.)
        quick_ack(self.sock.as_ref().unwrap());
        let mut buf = [0; 16384];
        for _ in 0..8 {
            let max = if self.chop { self.rng.range(1, 3000) } else { buf.len() };
            let n = match self.sock.as_mut().unwrap().read(&mut buf[..max]) {
                Ok(0) => {
                    self.ended = Some(Ended::Eof);
                    return true;
                }
                Ok(n) => n,
                Err(e) if e.kind() == ErrorKind::WouldBlock => break,
                Err(e) if e.kind() == ErrorKind::Interrupted => continue,
                Err(_) => {
                    self.ended = Some(Ended::Reset);
                    return true;
                }
            };
            progress = true;
            self.received += n as u64;
            if self.keep_raw {
                self.raw_in.extend(&buf[..n]);
            }
            match &mut self.tls {
                None => self.inbuf.extend(&buf[..n]),
                Some(tls) => {
                    let mut chunk = &buf[..n];
                    while !chunk.is_empty() {
                        let r = tls.read_tls(&mut chunk).map_err(|e| e.to_string());
                        let r = r.and_then(|_| tls.process_new_packets().map_err(|e| e.to_string()));
                        // (Data decrypted before an error counts as well.)
                        let mut plain = [0; 4096];
                        while let Ok(n @ 1..) = tls.reader().read(&mut plain) {
                            self.inbuf.extend(&plain[..n]);
                        }
                        if let Err(e) = r {
                            // Send the alert.
                            while tls.wants_write() && tls.write_tls(&mut self.raw).is_ok() {}
                            let _ = self.sock.as_mut().unwrap().write(&self.raw[self.raw_at..]);
                            self.ended = Some(Ended::Tls(e));
                            return true;
                        }
                    }
                }
            }
        }
        progress
    }

    fn do_close(&mut self, kind: Close) {
        self.closed = true;
        let quiet = self.ended.is_some() || self.handshaking();
        // (During a handshake, rustls does not like it.)
        if let (Some(tls), false, Close::NotifyFin | Close::NotifyOnly) = (&mut self.tls, quiet, kind) {
            tls.send_close_notify();
            let mut out = vec![];
            while tls.wants_write() && tls.write_tls(&mut out).is_ok() {}
            let s = self.sock.as_mut().unwrap();
            let _ = s.set_nonblocking(false);
            let _ = s.write_all(&out);
            let _ = s.set_nonblocking(true);
        }
        match kind {
            Close::Garbage if self.tls.is_some() && !quiet => {
                let mut b = match self.rng.below(4) {
                    // A record of application data that nobody encrypted
                    0 => b"\x17\x03\x03\x00\x20".to_vec(),
                    // No type of a record
                    1 => b"\x99\x03\x03\x00\x20".to_vec(),
                    // Too long
                    2 => b"\x17\x03\x03\xff\xff".to_vec(),
                    // Plain text
                    _ => b"* BYE I am done\r\n".to_vec(),
                };
                b.extend((0..self.rng.range(40, 200)).map(|i| i as u8));
                let s = self.sock.as_mut().unwrap();
                let _ = s.set_nonblocking(false);
                let _ = s.write_all(&b);
                let _ = s.set_nonblocking(true);
            }
            Close::NotifyOnly if self.tls.is_some() && !quiet => {}
            Close::Full => self.sock = None,
            Close::Reset => {
                reset(self.sock.take().unwrap());
            }
            _ => {
                let _ = self.sock.as_ref().unwrap().shutdown(Shutdown::Write);
            }
        }
    }
}

fn quick_ack(sock: &TcpStream) {
    use std::os::fd::AsRawFd;
    let one: i32 = 1;
    unsafe {
        libc::setsockopt(sock.as_raw_fd(), libc::IPPROTO_TCP, libc::TCP_QUICKACK, &one as *const _ as *const libc::c_void, 4);
    }
}

/// Close with RST.
pub fn reset(sock: TcpStream) {
    use std::os::fd::AsRawFd;
    let l = libc::linger { l_onoff: 1, l_linger: 0 };
    unsafe {
        libc::setsockopt(
            sock.as_raw_fd(),
            libc::SOL_SOCKET,
            libc::SO_LINGER,
            &l as *const _ as *const libc::c_void,
            std::mem::size_of_val(&l) as u32,
        );
    }
}

// ------------------------------------------------------------------------------------ TLS settings

pub fn certs_dir() -> std::path::PathBuf {
    std::path::PathBuf::from(std::env::var("VERIF_DIR").unwrap_or("/verif".into())).join("harness/certs")
}

pub fn chain(name: &str) -> Vec<CertificateDer<'static>> {
    CertificateDer::pem_file_iter(certs_dir().join(format!("{name}.pem"))).unwrap().map(|c| c.unwrap()).collect()
}

pub fn server_config(cert: &str, v12: bool) -> Arc<ServerConfig> {
    let key = PrivateKeyDer::from_pem_file(certs_dir().join(format!("{cert}-key.pem"))).unwrap();
    let v = if v12 { &rustls::version::TLS12 } else { &rustls::version::TLS13 };
    let mut c = ServerConfig::builder_with_protocol_versions(&[v])
        .with_no_client_auth()
        .with_single_cert(chain(cert), key)
        .unwrap();
    c.alpn_protocols = vec![b"imap".to_vec()];
    Arc::new(c)
}

pub fn client_config(root: &str, v12: bool, alpn: &[&str]) -> Arc<ClientConfig> {
    let mut roots = RootCertStore::empty();
    roots.add(chain(root).remove(0)).unwrap();
    let v = if v12 { &rustls::version::TLS12 } else { &rustls::version::TLS13 };
    let mut c = ClientConfig::builder_with_protocol_versions(&[v]).with_root_certificates(roots).with_no_client_auth();
    c.alpn_protocols = alpn.iter().map(|a| a.as_bytes().to_vec()).collect();
    Arc::new(c)
}

struct Good {
    client: [Arc<ClientConfig>; 2],
    server: [Arc<ServerConfig>; 2],
}

fn good() -> &'static Good {
    static G: OnceLock<Good> = OnceLock::new();
    G.get_or_init(|| Good {
        client: [client_config("ca", false, &["imap"]), client_config("ca", true, &["imap"])],
        server: [server_config("good", false), server_config("good", true)],
    })
}

pub fn tls_client(conf: Arc<ClientConfig>) -> Connection {
    Connection::Client(ClientConnection::new(conf, ServerName::try_from("localhost").unwrap()).unwrap())
}
pub fn good_client(v12: bool) -> Connection {
    tls_client(good().client[v12 as usize].clone())
}
pub fn good_server(v12: bool) -> Connection {
    Connection::Server(ServerConnection::new(good().server[v12 as usize].clone()).unwrap())
}

/// Connect from some address of 127.0.0.0/8 (so that closed connections do not use up the ports).
pub fn dial(to: SocketAddr, rng: &mut Rng) -> std::io::Result<TcpStream> {
    use std::os::fd::FromRawFd;
    let SocketAddr::V4(to) = to else { return TcpStream::connect(to) };
    unsafe {
        let fd = libc::socket(libc::AF_INET, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0);
        if fd < 0 {
            return Err(std::io::Error::last_os_error());
        }
        let s = TcpStream::from_raw_fd(fd);
        let addr = |ip: [u8; 4], port: u16| libc::sockaddr_in {
            sin_family: libc::AF_INET as u16,
            sin_port: port.to_be(),
            sin_addr: libc::in_addr { s_addr: u32::from_ne_bytes(ip) },
            sin_zero: [0; 8],
        };
        let size = std::mem::size_of::<libc::sockaddr_in>() as u32;
        let from = addr([127, rng.range(1, 250) as u8, rng.range(0, 250) as u8, rng.range(1, 250) as u8], 0);
        libc::bind(fd, &from as *const _ as *const libc::sockaddr, size);
        let to = addr(to.ip().octets(), to.port());
        if libc::connect(fd, &to as *const _ as *const libc::sockaddr, size) < 0 {
            return Err(std::io::Error::last_os_error());
        }
        Ok(s)
    }
}
