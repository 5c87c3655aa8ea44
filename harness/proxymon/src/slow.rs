//! A reader so slow that it needs longer than common timeouts for what the proxy still has for it
//! after the other side closed.
use std::{
    io::{ErrorKind, Read, Write},
    net::TcpStream,
    os::fd::AsRawFd,
    thread::JoinHandle,
    time::{Duration, Instant},
};

use mon_common::{mismatch, Mismatch, Rng};

use crate::{ep, world::World};

/// The number of this scenario (it is not one of many cases)
pub const CASE: u64 = 1_000_000_001;

const SIZE: usize = 20_000_000;
/// Bytes per second
const RATE: f64 = 300_000.0;
/// For how long the reader is slow (in seconds)
const SLOW: f64 = 38.0;

fn small_buffer(s: &TcpStream) {
    let size: libc::c_int = 65536;
    unsafe {
        libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_RCVBUF, &size as *const _ as *const libc::c_void, 4);
    }
}

fn until(s: &mut TcpStream, what: &[u8]) -> std::io::Result<()> {
    let mut got = vec![];
    while !got.windows(what.len()).any(|w| w == what) {
        let mut b = [0];
        if s.read(&mut b)? == 0 {
            return Err(ErrorKind::UnexpectedEof.into());
        }
        got.push(b[0]);
    }
    Ok(())
}

pub struct Slow {
    what: String,
    thread: JoinHandle<Result<Vec<u8>, String>>,
    expected: Vec<u8>,
}

fn plain_service(w: &World) -> Option<usize> {
    (0..w.services.len()).find(|i| w.services[*i].bind_tls.is_none() && !w.services[*i].connect_tls)
}

/// A client and a server, after the greeting.
fn connected(w: &World, i: usize, rng: &mut Rng) -> Result<(TcpStream, TcpStream), Mismatch> {
    let broken = |e: std::io::Error| mismatch!(["P01", "P03", "P06"], "a new connection broke: {e}");
    let mut client = ep::dial(w.services[i].addr, rng).map_err(broken)?;
    let start = Instant::now();
    let mut server = loop {
        if let Some(s) = w.accept(i) {
            break s;
        }
        if start.elapsed() > crate::world::WAIT {
            return Err(mismatch!(["P01", "P03", "P04", "P06"], "the proxy did not connect to the server"));
        }
        std::thread::sleep(Duration::from_millis(1));
    };
    server.set_nonblocking(false).map_err(broken)?;
    for s in [&client, &server] {
        s.set_read_timeout(Some(Duration::from_secs(30))).map_err(broken)?;
    }
    server.write_all(b"* OK hi\r\n").map_err(broken)?;
    until(&mut client, b"\r\n").map_err(broken)?;
    Ok((client, server))
}

/// P03: a literal of exactly the largest size is accepted by the proxy, and the server gets all of it.
pub fn largest(w: &World, rng: &mut Rng) -> Result<(), Mismatch> {
    let Some(i) = plain_service(w) else { return Ok(()) };
    let (mut client, mut server) = connected(w, i, rng)?;
    let size = crate::session::MAX_LITERAL as usize;
    let body: Vec<u8> = (0..size).map(|_| b"abcdefghijklmnop"[rng.below(16)]).collect();
    let head = format!("A1 APPEND INBOX {{{size}}}\r\n");
    let broken = |what: &str, e: std::io::Error| mismatch!(["P03"], "a literal of exactly {size} bytes: {what}: {e}");
    client.write_all(head.as_bytes()).map_err(|e| broken("announcement", e))?;
    until(&mut client, format!("+ {}\r\n", crate::session::ACCEPT).as_bytes()).map_err(|e| broken("the proxy did not accept it", e))?;
    let sent = body.clone();
    let mut c = client.try_clone().map_err(|e| broken("harness", e))?;
    let writer = std::thread::spawn(move || c.write_all(&sent).and_then(|_| c.write_all(b"\r\n")));
    until(&mut server, head.as_bytes()).map_err(|e| broken("the server did not see the announcement", e))?;
    server.write_all(b"+ go\r\n").map_err(|e| broken("go", e))?;
    let mut got = vec![0; size + 2];
    server.read_exact(&mut got).map_err(|e| broken("the server did not get it", e))?;
    if got[..size] != body || &got[size..] != b"\r\n" {
        return Err(mismatch!(["P03", "P01"], "a literal of exactly {size} bytes was changed"));
    }
    server.write_all(b"A1 OK there\r\n").map_err(|e| broken("status", e))?;
    until(&mut client, b"A1 OK there\r\n").map_err(|e| broken("the client did not get the status", e))?;
    let _ = writer.join();
    Ok(())
}

pub fn open(w: &World, by_client: bool, rng: &mut Rng) -> Result<Option<Slow>, Mismatch> {
    let Some(i) = plain_service(w) else { return Ok(None) };
    let (client, server) = connected(w, i, rng)?;
    let body: Vec<u8> = (0..SIZE).map(|_| b"abcdefghijklmnop"[rng.below(16)]).collect();
    let (mut reader, mut writer, head, tail) = if by_client {
        (server, client, format!("A1 APPEND INBOX {{{SIZE}+}}\r\n"), "\r\nA2 NOOP\r\n")
    } else {
        (client, server, format!("* 1 FETCH (BODY[] {{{SIZE}}}\r\n"), ")\r\n* 2 EXISTS\r\n")
    };
    small_buffer(&reader);
    let expected = [head.as_bytes(), &body, tail.as_bytes()].concat();
    let sent = expected.clone();
    std::thread::spawn(move || {
        // (Then it is closed.)
        let _ = writer.write_all(&sent);
    });
    let thread = std::thread::spawn(move || {
        let start = Instant::now();
        let mut got = vec![];
        let mut b = vec![0; 32768];
        loop {
            match reader.read(&mut b) {
                Ok(0) => return Ok(got),
                Ok(n) => got.extend(&b[..n]),
                Err(e) => return Err(format!("{e} after {} bytes and {:.1} s", got.len(), start.elapsed().as_secs_f64())),
            }
            let due = got.len() as f64 / RATE;
            while start.elapsed().as_secs_f64() < due.min(SLOW) {
                std::thread::sleep(Duration::from_millis(20));
            }
        }
    });
    let what = if by_client { "the client sent a large command and closed, the server reads slowly" } else { "the server sent a large response and closed, the client reads slowly" };
    Ok(Some(Slow { what: what.to_owned(), thread, expected }))
}

/// Wait for the end, and look at what arrived.
pub fn done(s: Slow) -> Result<(), Mismatch> {
    match s.thread.join() {
        Ok(Ok(got)) if got == s.expected => Ok(()),
        Ok(Ok(got)) => {
            let same = got.iter().zip(&s.expected).take_while(|(a, b)| a == b).count();
            Err(mismatch!(["P06", "P01"], "{}: {} of {} bytes arrived, the first {same} as sent", s.what, got.len(), s.expected.len()))
        }
        Ok(Err(e)) => Err(mismatch!(["P06", "P01"], "{}: {e}", s.what)),
        Err(_) => Err(mismatch!(["P06"], "{}: harness: panic", s.what)),
    }
}
