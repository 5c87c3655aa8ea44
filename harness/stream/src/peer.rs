//! The other end of a stream: a thread with a blocking socket, plain or TLS (rustls driven by
//! hand), that follows a list of steps.
use std::{
    io::{ErrorKind, Read, Write},
    net::{Shutdown, TcpStream},
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        mpsc::{Receiver, RecvTimeoutError},
        Arc,
    },
    time::Duration,
};

use mon_common::Rng;
use rustls::Connection;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Close {
    /// FIN
    Fin,
    /// TLS close notification, then FIN
    NotifyFin,
    /// TLS close notification, the connection stays open
    NotifyOnly,
    /// RST
    Reset,
    /// Bytes that are no TLS record, the connection stays open (until the other side is done)
    Garbage,
    /// Part of a TLS record, then FIN
    CutRecord,
}

#[derive(Clone, Debug)]
pub enum Step {
    /// Send the next n bytes
    Send(usize),
    /// Send the next n bytes, but wait for the driver somewhere in between (in the middle of a
    /// record, for example)
    SendHeld(usize),
    /// Receive until n bytes were received in total
    Recv(usize),
    Sleep(u64),
    /// Ask for new TLS keys
    Rekey,
    /// Tell the driver that all steps so far are done
    Signal,
    /// Wait for the driver
    Wait,
    Close(Close),
}

pub const WAIT: Duration = Duration::from_secs(20);

pub struct Peer {
    pub sock: TcpStream,
    pub tls: Option<Connection>,
    pub rng: Rng,
    /// All bytes this side sends in its life
    pub data: Arc<Vec<u8>>,
    /// All bytes the other side sends in its life
    pub expect: Arc<Vec<u8>>,
    pub sent: usize,
    pub received: usize,
    pub to_driver: tokio::sync::mpsc::UnboundedSender<()>,
    pub from_driver: Receiver<()>,
    /// The driver is done with the whole case
    pub over: Arc<AtomicBool>,
    /// Small segments, pauses
    pub fine: bool,
    pub slow_reader: bool,
    pub segments: u64,
    pub records: u64,
    /// Counts whatever happens in this conversation
    pub progress: Arc<AtomicU64>,
    /// The close notification leaves together with the end of the handshake
    pub early_notify: bool,
    /// Decrypted and not yet looked at
    pub pending: Vec<u8>,
}

pub struct PeerDone {
    pub sent: usize,
    pub received: usize,
    pub segments: u64,
    pub records: u64,
}

impl Peer {
    pub fn run(mut self, early: usize, steps: Vec<Step>, name: &str) -> Result<PeerDone, String> {
        let _ = self.sock.set_nodelay(true);
        let _ = self.sock.set_read_timeout(Some(WAIT));
        let _ = self.sock.set_write_timeout(Some(WAIT));
        if self.tls.is_some() {
            self.handshake(early).map_err(|e| format!("peer {name}: handshake: {e}"))?;
        }
        for (i, s) in steps.iter().enumerate() {
            self.step(s).map_err(|e| format!("peer {name}, step {i} ({s:?}): {e}"))?;
        }
        // Closing with unread data (TLS session tickets, for example) would reset the connection.
        if !steps.iter().any(|s| matches!(s, Step::Close(_))) {
            self.linger();
        }
        Ok(PeerDone { sent: self.sent, received: self.received, segments: self.segments, records: self.records })
    }

    fn linger(&mut self) {
        // (Output that is still on its way is read, so that its sender is not held up.)
        let start = std::time::Instant::now();
        let _ = self.sock.set_nonblocking(true);
        let mut buf = [0; 16384];
        while !self.over.load(Ordering::SeqCst) && start.elapsed() < WAIT * 3 {
            if !matches!(self.sock.read(&mut buf), Ok(1..)) {
                std::thread::sleep(Duration::from_micros(100));
            }
        }
    }

    fn pause(&mut self) {
        match self.rng.below(12) {
            0..=5 => {}
            6..=8 => std::thread::yield_now(),
            9 | 10 => std::thread::sleep(Duration::from_micros(self.rng.range(1, 60) as u64)),
            _ => std::thread::sleep(Duration::from_micros(self.rng.range(50, 400) as u64)),
        }
    }

    /// Write bytes to the socket, in segments.
    fn raw(&mut self, bytes: &[u8]) -> Result<(), String> {
        let mut rest = bytes;
        while !rest.is_empty() {
            let n = if self.fine {
                let small = self.rng.chance(60) && bytes.len() < 4000;
                self.rng.range(1, if small { 9 } else { 1 + bytes.len() / 5 }).min(rest.len())
            } else {
                rest.len()
            };
            let mut piece = &rest[..n];
            while !piece.is_empty() {
                match self.sock.write(piece) {
                    Ok(k) => piece = &piece[k..],
                    Err(e) if e.kind() == ErrorKind::Interrupted => {}
                    Err(e) => return Err(format!("cannot write {} bytes: {e} (the other side does not read)", piece.len())),
                }
                self.progress.fetch_add(1, Ordering::SeqCst);
            }
            self.segments += 1;
            rest = &rest[n..];
            if self.fine {
                self.pause();
            }
        }
        Ok(())
    }

    fn tls_out(&mut self) -> Result<(), String> {
        let tls = self.tls.as_mut().unwrap();
        let mut out = vec![];
        while tls.wants_write() {
            tls.write_tls(&mut out).map_err(|e| e.to_string())?;
        }
        self.raw(&out)
    }

    fn handshake(&mut self, early: usize) -> Result<(), String> {
        if early > 0 {
            let data = self.data.clone();
            let tls = self.tls.as_mut().unwrap();
            tls.set_buffer_limit(None);
            // Leaves as soon as the handshake permits, together with its last bytes.
            tls.writer().write_all(&data[..early]).map_err(|e| e.to_string())?;
            self.sent = early;
        }
        loop {
            let tls = self.tls.as_mut().unwrap();
            let mut out = vec![];
            while tls.wants_write() {
                tls.write_tls(&mut out).map_err(|e| e.to_string())?;
            }
            let handshaking = tls.is_handshaking();
            if !handshaking && self.early_notify {
                tls.send_close_notify();
                while tls.wants_write() {
                    tls.write_tls(&mut out).map_err(|e| e.to_string())?;
                }
            }
            if !out.is_empty() {
                self.sock.write_all(&out).map_err(|e| e.to_string())?;
            }
            if !handshaking {
                return Ok(());
            }
            self.tls_in()?;
        }
    }

    fn tls_in(&mut self) -> Result<usize, String> {
        let mut buf = [0; 5000];
        let n = match self.sock.read(&mut buf) {
            Ok(n) => n,
            Err(e) if matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::TimedOut) => {
                return Err(format!("received nothing for {WAIT:?}"));
            }
            Err(e) => return Err(e.to_string()),
        };
        let tls = self.tls.as_mut().unwrap();
        let mut chunk = &buf[..n];
        if n == 0 {
            return Ok(0);
        }
        while !chunk.is_empty() {
            tls.read_tls(&mut chunk).map_err(|e| e.to_string())?;
            tls.process_new_packets().map_err(|e| format!("TLS: {e}"))?;
            drain(tls, &mut self.pending)?;
        }
        Ok(n)
    }

    fn got(&mut self, bytes: &[u8]) -> Result<(), String> {
        self.progress.fetch_add(1, Ordering::SeqCst);
        let end = self.received + bytes.len();
        if self.expect.get(self.received..end) != Some(bytes) {
            let k = bytes
                .iter()
                .zip(self.expect[self.received.min(self.expect.len())..].iter())
                .take_while(|(a, b)| a == b)
                .count();
            return Err(format!(
                "received wrong bytes: differs at offset {} of {} expected, in a piece of {} at {}",
                self.received + k,
                self.expect.len(),
                bytes.len(),
                self.received
            ));
        }
        self.received = end;
        Ok(())
    }

    fn recv(&mut self, upto: usize) -> Result<(), String> {
        while self.received < upto {
            if self.slow_reader {
                self.pause();
            }
            let n;
            let mut plain = vec![];
            if self.tls.is_some() {
                n = if self.pending.is_empty() { self.tls_in()? } else { 1 };
                plain = std::mem::take(&mut self.pending);
                self.tls_out()?;
            } else {
                let max = if self.slow_reader { self.rng.range(1, 3000) } else { 65536 };
                plain.resize(max, 0);
                n = match self.sock.read(&mut plain) {
                    Ok(n) => n,
                    Err(e) if matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::TimedOut) => {
                        return Err(format!("received nothing for {WAIT:?}, at {} of {upto} bytes", self.received));
                    }
                    Err(e) => return Err(format!("at {} of {upto} bytes: {e}", self.received)),
                };
                plain.truncate(n);
            }
            self.got(&plain)?;
            if n == 0 {
                return Err(format!("the connection ended at {} of {upto} bytes", self.received));
            }
        }
        Ok(())
    }

    fn step(&mut self, s: &Step) -> Result<(), String> {
        match s {
            Step::Send(n) => {
                let data = self.data.clone();
                let (from, to) = (self.sent, self.sent + n);
                self.sent = to;
                if self.tls.is_some() {
                    let mut cipher = vec![];
                    let mut at = from;
                    let tiny = self.rng.chance(30) && *n < 3000;
                    let whole = self.rng.chance(20);
                    while at < to {
                        let max = if tiny { 5 } else { 16384 };
                        let k = if whole { to - at } else { self.rng.range(1, max).min(to - at) };
                        let tls = self.tls.as_mut().unwrap();
                        tls.set_buffer_limit(None);
                        tls.writer().write_all(&data[at..at + k]).map_err(|e| e.to_string())?;
                        while tls.wants_write() {
                            tls.write_tls(&mut cipher).map_err(|e| e.to_string())?;
                            self.records += 1;
                        }
                        at += k;
                        if self.rng.chance(20) {
                            self.raw(&std::mem::take(&mut cipher))?;
                        }
                    }
                    self.raw(&cipher)
                } else {
                    self.raw(&data[from..to])
                }
            }
            Step::SendHeld(n) => {
                let data = self.data.clone();
                let mut bytes = data[self.sent..self.sent + n].to_vec();
                self.sent += n;
                if let Some(tls) = self.tls.as_mut() {
                    tls.set_buffer_limit(None);
                    tls.writer().write_all(&bytes).map_err(|e| e.to_string())?;
                    bytes.clear();
                    while tls.wants_write() {
                        tls.write_tls(&mut bytes).map_err(|e| e.to_string())?;
                        self.records += 1;
                    }
                }
                let cut = self.rng.range(0, bytes.len() - 1);
                self.raw(&bytes[..cut])?;
                self.step(&Step::Wait)?;
                self.raw(&bytes[cut..])
            }
            Step::Recv(n) => self.recv(*n),
            Step::Sleep(us) => {
                std::thread::sleep(Duration::from_micros(*us));
                Ok(())
            }
            Step::Rekey => {
                if let Some(tls) = &mut self.tls {
                    if tls.protocol_version() == Some(rustls::ProtocolVersion::TLSv1_3) {
                        tls.refresh_traffic_keys().map_err(|e| e.to_string())?;
                        self.tls_out()?;
                    }
                }
                Ok(())
            }
            Step::Signal => {
                let _ = self.to_driver.send(());
                Ok(())
            }
            Step::Wait => loop {
                let before = self.progress.load(Ordering::SeqCst);
                match self.from_driver.recv_timeout(WAIT * 3) {
                    Ok(()) => return Ok(()),
                    Err(RecvTimeoutError::Timeout) if before != self.progress.load(Ordering::SeqCst) => {}
                    Err(_) => return Err("the driver did not come".into()),
                }
            },
            Step::Close(kind) => {
                if let Some(tls) = &mut self.tls {
                    let mut out = vec![];
                    match kind {
                        Close::NotifyFin | Close::NotifyOnly => {
                            tls.send_close_notify();
                            while tls.wants_write() {
                                let _ = tls.write_tls(&mut out);
                            }
                        }
                        Close::Garbage => out = b"* BYE this is no TLS record at all\r\n".to_vec(),
                        Close::CutRecord => {
                            let _ = tls.writer().write_all(b"never complete");
                            while tls.wants_write() {
                                let _ = tls.write_tls(&mut out);
                            }
                            let n = self.rng.range(1, out.len() - 1);
                            out.truncate(n);
                        }
                        _ => {}
                    }
                    self.raw(&out)?;
                }
                match kind {
                    Close::Reset => reset(&self.sock),
                    Close::NotifyOnly | Close::Garbage if self.tls.is_some() => {
                        // Stay until the other side gave up.
                        self.linger();
                    }
                    _ => {
                        let _ = self.sock.shutdown(Shutdown::Write);
                        // The socket stays open for reading until the other side is done, so that
                        // there is no reset that destroys data on its way.
                        self.linger();
                    }
                }
                Ok(())
            }
        }
    }
}

fn drain(tls: &mut Connection, plain: &mut Vec<u8>) -> Result<(), String> {
    let mut buf = [0; 4096];
    loop {
        match tls.reader().read(&mut buf) {
            Ok(0) => return Ok(()),
            Ok(n) => plain.extend(&buf[..n]),
            Err(e) if e.kind() == ErrorKind::WouldBlock => return Ok(()),
            Err(e) => return Err(e.to_string()),
        }
    }
}

/// Close with RST.
fn reset(sock: &TcpStream) {
    // A closed receive queue with unread data, or a zero linger time, resets. std has no linger,
    // tokio has: convert.
    if let Ok(s) = sock.try_clone() {
        let _ = s.set_nonblocking(true);
        let rt = tokio::runtime::Builder::new_current_thread().enable_io().build().unwrap();
        let _g = rt.enter();
        if let Ok(t) = tokio::net::TcpStream::from_std(s) {
            #[allow(deprecated)]
            let _ = t.set_linger(Some(Duration::ZERO));
        }
    }
}
