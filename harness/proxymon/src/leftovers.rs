//! P10: what is left of connections that are over.
use std::{
    io::{Read, Write},
    net::{Shutdown, TcpStream},
    time::{Duration, Instant},
};

use mon_common::{hash_of, mismatch, Mismatch, Rng};

use crate::{closing, ep, hostile, secure, session::Session, world::World, Outcome};

/// The number of the scenario with many connections (it is not one of many cases)
pub const CASE: u64 = 1_000_000_002;
/// … in one round
const CONNECTIONS: usize = 400;
/// … and this many that end at once
const BRIEF: usize = 1500;
const WAIT: Duration = Duration::from_secs(45);

fn said(s: &mut TcpStream, what: &[u8]) -> bool {
    let mut got = vec![];
    let mut b = [0];
    while !got.ends_with(what) {
        match s.read(&mut b) {
            Ok(1) => got.push(b[0]),
            _ => return false,
        }
    }
    true
}

/// Connections that ended, but whose sockets may still be open on our side
type Open = Vec<TcpStream>;

/// A connection over plain TCP (to begin with) that ends somehow. Returns how.
fn raw(w: &World, size: usize, open: &mut Open, rng: &mut Rng) -> &'static str {
    // (Some services cannot reach their server, or not be used at all.)
    let service = match rng.below(10) {
        0 if !w.odd.is_empty() => rng.pick(&w.odd),
        1 => rng.pick(&w.services),
        _ => &w.services[0],
    };
    // (The servers of earlier clients)
    while let Some(s) = w.accept(0) {
        open.push(s);
    }
    let Ok(mut c) = ep::dial(service.addr, rng) else { return "not connected" };
    let _ = c.set_read_timeout(Some(Duration::from_millis(100)));
    let end = |c: TcpStream, s: Option<TcpStream>, open: &mut Open, rng: &mut Rng| {
        let mut both: Vec<_> = s.into_iter().chain([c]).collect();
        if rng.chance(50) {
            both.reverse();
        }
        for s in both {
            match rng.below(6) {
                0 => ep::reset(s),
                1 => {
                    let _ = s.shutdown(Shutdown::Write);
                    open.push(s);
                }
                2 => open.push(s),
                _ => drop(s),
            }
        }
    };
    if service.bind_tls.is_some() || service.addr != w.services[0].addr {
        let said: &[u8] = rng.pick(&[&b""[..], b"\x16\x03\x01\x02\x00\x01", b"a NOOP\r\n", b"\x16\x03\x01\x00\x02\x01\x00"]);
        let _ = c.write_all(said);
        end(c, w.accept_at(service), open, rng);
        return "during a handshake, or without a server";
    }
    let how = rng.below(10);
    if how == 0 {
        end(c, None, open, rng);
        let start = Instant::now();
        while start.elapsed() < Duration::from_millis(5) {
            if let Some(s) = w.accept(0) {
                open.push(s);
                break;
            }
            std::thread::sleep(Duration::from_micros(50));
        }
        return "at once";
    }
    let start = Instant::now();
    let mut s = loop {
        match w.accept(0) {
            Some(s) => break s,
            None if start.elapsed() > Duration::from_millis(500) => {
                end(c, None, open, rng);
                return "while the proxy connected";
            }
            None => std::thread::sleep(Duration::from_micros(50)),
        }
    };
    let _ = s.set_nonblocking(false);
    let _ = s.set_read_timeout(Some(Duration::from_millis(100)));
    let _ = s.set_write_timeout(Some(Duration::from_millis(500)));
    let _ = c.set_write_timeout(Some(Duration::from_millis(500)));
    if how == 1 {
        end(c, Some(s), open, rng);
        return "before the greeting";
    }
    let _ = s.write_all(b"* OK hi\r\n");
    // (It may be the server of an earlier client.)
    if !said(&mut c, b"hi\r\n") {
        end(c, Some(s), open, rng);
        return "before the client got the greeting";
    }
    // (Nothing is said twice.)
    let mut text = vec![b'x'; size];
    for x in text.iter_mut().step_by(7) {
        *x = b'a' + rng.below(26) as u8;
    }
    let t = hostile::ident('t', rng);
    let what = match how {
        2 => {
            let _ = write!(c, "{t} APPEND {t} {{{size}}}\r\n");
            said(&mut c, b"\r\n");
            let _ = c.write_all(&text[..size / 2]);
            "in the middle of a client's literal"
        }
        3 => {
            let _ = write!(c, "{t} APPEND {t} {{{size}}}\r\n");
            said(&mut c, b"\r\n");
            let _ = c.write_all(&text);
            let _ = c.write_all(b"\r\n");
            said(&mut s, b"}\r\n");
            if rng.chance(50) {
                let _ = s.write_all(b"+ go on\r\n");
                let _ = s.read(&mut [0; 10]);
            }
            "while a literal was forwarded to the server"
        }
        4 => {
            let _ = write!(s, "* 1 FETCH (RFC822 {{{size}}}\r\n");
            let _ = s.write_all(&text[..size / 2]);
            "in the middle of a server's literal"
        }
        5 => {
            let _ = write!(s, "* 1 FETCH (RFC822 {{{size}}}\r\n");
            let _ = s.write_all(&text);
            let _ = s.write_all(b")\r\n");
            let _ = c.read(&mut [0; 10]);
            "while a literal was forwarded to the client"
        }
        6 => {
            let _ = write!(c, "{t} IDLE\r\n");
            said(&mut s, b"\r\n");
            if rng.chance(60) {
                let _ = s.write_all(b"+ idling\r\n");
                said(&mut c, b"\r\n");
            }
            "while idling"
        }
        7 => {
            let _ = write!(c, "{t} AUTHENTICATE PLAIN\r\n");
            said(&mut s, b"\r\n");
            if rng.chance(60) {
                let _ = s.write_all(b"+ \r\n");
                said(&mut c, b"\r\n");
            }
            "during authentication"
        }
        8 => {
            let _ = c.write_all(b"\xff\xff\r\na NOOP\nb {1}\r\n");
            let _ = s.write_all(b"* nonsense\r\n+\n");
            "after nonsense"
        }
        _ => {
            for i in 0..20 {
                let _ = write!(c, "{t}{i} NOOP\r\n");
            }
            for i in 0..rng.below(20) {
                let _ = write!(s, "{t}{i} OK done {t}\r\n");
            }
            "with commands that are not answered"
        }
    };
    end(c, Some(s), open, rng);
    what
}

/// Everything of ours is closed: now the proxy must have as many open files as at its start.
pub fn rest(w: &mut World, files: usize, log: &str) -> Result<(), Mismatch> {
    let start = Instant::now();
    loop {
        w.discard_connections();
        let now = w.files();
        if now <= files {
            return Ok(());
        }
        if start.elapsed() > WAIT {
            return Err(mismatch!(["P10"], "all connections were closed {WAIT:?} ago, but the proxy still has {now} open files ({files} at its start); they ended {log}"));
        }
        std::thread::sleep(Duration::from_millis(if start.elapsed() < Duration::from_secs(1) { 2 } else { 50 }));
    }
}

/// … and it does nothing.
pub fn idle(w: &World) -> Result<(), Mismatch> {
    // (What is due within a moment may still happen.)
    for attempt in 0..4 {
        let (a, t) = (w.ticks(), Instant::now());
        std::thread::sleep(Duration::from_millis(400));
        let used = w.ticks() - a;
        if used as f64 <= t.elapsed().as_secs_f64() * 10.0 {
            return Ok(());
        }
        if attempt == 3 {
            return Err(mismatch!(["P10"], "the proxy keeps computing although there is no connection ({used} ticks of 10 ms in {:?})", t.elapsed()));
        }
    }
    Ok(())
}

pub fn case(w: &mut World, files: usize, rng: &mut Rng) -> Outcome {
    let mut o = Outcome::of(&[], Ok(()));
    let mut log: Vec<String> = vec![];
    let mut open = Open::new();
    let n = rng.range(1, 12);
    for _ in 0..n {
        match rng.weighted(&[30, 12, 20, 6, 6, 6]) {
            0 => {
                let size = *rng.pick(&[10, 1000, 100_000, 300_000]);
                let how = raw(w, size, &mut open, rng);
                o.counts.push((format!("connections that ended {how}"), 1));
                log.push(how.into());
            }
            1 => {
                // (Another monitor's business how it went.)
                let x = crate::proper("P01", w, rng);
                o.counts.push(("proper sessions".into(), 1));
                log.push(format!("properly ({} bytes of log)", x.log.len()));
            }
            2 => {
                let x = closing::case(w, rng);
                let how = x.counts.iter().find(|c| c.0.contains("closed (")).map(|c| c.0.clone()).unwrap_or_default();
                o.counts.push(("sessions closed by one side".into(), 1));
                log.push(how);
            }
            3 => {
                let x = hostile::case(w, rng);
                o.counts.push(("rounds with hostile peers".into(), 1));
                log.push(format!("hostile ({} bytes of log)", x.log.len()));
            }
            4 => {
                let _ = secure::bad_server(w, rng, &mut Default::default(), &mut vec![]);
                o.counts.push(("servers without proper TLS".into(), 1));
                log.push("server without proper TLS".into());
            }
            _ => {
                let _ = secure::bad_client(w, rng, &mut Default::default(), &mut vec![], &mut vec![]);
                o.counts.push(("clients without proper TLS".into(), 1));
                log.push("client without proper TLS".into());
            }
        }
        while open.len() > 10 {
            open.remove(rng.below(open.len()));
        }
    }
    drop(open);
    let how = log.join(", ");
    o.result = rest(w, files, &how);
    if o.result.is_ok() && rng.chance(10) {
        o.result = idle(w);
        o.counts.push(("times the proxy was seen at rest".into(), 1));
    }
    o.counts.push(("times all files were closed".into(), 1));
    o.signature = hash_of(&how);
    o.nontrivial = n > 1;
    o.log = how;
    o
}

fn memory(w: &World) -> f64 {
    let s = std::fs::read_to_string(format!("/proc/{}/statm", w.child.id())).unwrap_or_default();
    s.split_whitespace().nth(1).and_then(|p| p.parse::<f64>().ok()).unwrap_or(0.0) * 4096.0 / 1e6
}

/// Rounds of many connections: memory must not grow with each of them.
pub fn many(w: &mut World, files: usize, rounds: usize, rng: &mut Rng) -> Outcome {
    let mut o = Outcome::of(&[], Ok(()));
    let mut after = vec![];
    let mut n = 0;
    for _ in 0..rounds {
        let mut open = Open::new();
        for i in 0..CONNECTIONS {
            let size = if i % 50 == 0 { 3_000_000 } else { 20_000 };
            raw(w, size, &mut open, rng);
            n += 1;
            while open.len() > 8 {
                open.remove(rng.below(open.len()));
            }
        }
        // Also very many that are short
        for _ in 0..BRIEF {
            let Ok(c) = ep::dial(w.services[0].addr, rng) else { break };
            let start = Instant::now();
            while start.elapsed() < Duration::from_millis(2) {
                if let Some(s) = w.accept(0) {
                    let _ = (&s).write_all(b"* OK hi\r\n");
                    break;
                }
            }
            ep::reset(c);
            n += 1;
        }
        drop(open);
        if let Err(m) = rest(w, files, "in many ways") {
            o.result = Err(m);
            break;
        }
        let least = (0..10).map(|_| {
            std::thread::sleep(Duration::from_millis(5));
            memory(w)
        });
        after.push(least.fold(f64::INFINITY, f64::min));
    }
    o.log = format!("resident memory after each round of {CONNECTIONS}+{BRIEF} connections (MB): {after:.1?}");
    o.counts.push(("connections of rounds after which the memory was measured".into(), n));
    o.counts.push(("largest growth of the memory in a later round (KB)".into(), after.windows(2).skip(1).map(|x| ((x[1] - x[0]) * 1000.0).max(0.0) as u64).max().unwrap_or(0)));
    // (Buffers that are kept for later use are filled in the first round. Tables grow in leaps.)
    if o.result.is_ok() && after.len() > 9 {
        let third = (after.len() - 1) / 3;
        let part = |i: usize| {
            let mut p = after[1 + i * third..][..third].to_vec();
            p.sort_by(f64::total_cmp);
            (p[0], p[third / 2], p[third - 1])
        };
        let (first, middle, last) = (part(0), part(1), part(2));
        let grows = 0.13 * third as f64;
        if middle.1 - first.1 > grows && last.1 - middle.1 > grows && last.0 - first.2 > 2.0 * grows {
            o.result = Err(mismatch!(["P10"], "the memory of the proxy grows with every round of {CONNECTIONS}+{BRIEF} connections although all of them are over: {after:.1?} MB"));
        }
    }
    o.nontrivial = true;
    o.signature = rng.u64();
    let _: Option<Session> = None;
    o
}
