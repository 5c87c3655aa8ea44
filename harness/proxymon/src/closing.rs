//! P06: one side sends and closes; everything must still arrive at the other side, which is then
//! closed as well.
use std::time::{Duration, Instant};

use mon_common::{mismatch, Mismatch, Rng};

use crate::{
    ep::{Close, Ended},
    session::{Profile, Session},
    world::{World, WAIT},
    Outcome,
};

pub fn case(w: &World, rng: &mut Rng) -> Outcome {
    let by_client = rng.chance(50);
    let service = rng.below(w.services.len());
    let kind = *rng.pick(&[Close::Fin, Close::Fin, Close::NotifyFin, Close::NotifyOnly, Close::Full, Close::Garbage, Close::Garbage, Close::Reset]);
    let kind = match kind {
        // (Only TLS can be broken.)
        Close::Garbage if !(if by_client { w.services[service].bind_tls.is_some() } else { w.services[service].connect_tls }) => Close::Fin,
        kind => kind,
    };
    let mut p = Profile { count: (0, 5), reject: 0, chop: 20, ..Profile::default() };
    if kind == Close::Full {
        p.items = [1, 0, 0, 0];
    } else {
        p.items = [70, 15, 15, 0];
    }
    // A socket that is closed as a whole answers any further byte with a reset, which destroys what
    // the proxy has not read yet. So nothing may be said to it.
    if rng.chance(30) || kind == Close::Full {
        p.nonsync = 100;
    }
    if rng.chance(20) {
        p.max_literal = *rng.pick(&[3000, 100_000, 400_000]);
    }
    let ident = format!("id{:x}", rng.u64());
    let mut s = match Session::open(w, service, ident, p, rng) {
        Ok(s) => s,
        Err(m) => return Outcome::of(&[], Err(m)),
    };
    let mut extra = vec![];
    let result = if by_client { client_closes(w, &mut s, kind, rng, &mut extra) } else { server_closes(w, &mut s, kind, rng, &mut extra) };
    let mut o = Outcome::of(&[&s], result);
    o.counts.extend(extra);
    o.counts.push((format!("{} closed ({kind:?})", if by_client { "client" } else { "server" }), 1));
    o
}

/// How long nothing has happened
struct Patience(Instant, Instant);

impl Patience {
    fn new() -> Self {
        Self(Instant::now(), Instant::now())
    }
    /// True if nothing happened for `WAIT` (or if it does not come to an end at all).
    fn gone(&mut self, progress: bool) -> bool {
        nap(progress);
        if progress {
            self.1 = Instant::now();
        }
        self.1.elapsed() > WAIT || self.0.elapsed() > WAIT * 10
    }
}

fn nap(progress: bool) {
    if !progress {
        std::thread::sleep(Duration::from_micros(60));
    }
}

fn server_closes(w: &World, s: &mut Session, kind: Close, rng: &mut Rng, extra: &mut Vec<(String, u64)>) -> Result<(), Mismatch> {
    // Some session first, up to a random moment
    // (Invalid TLS data may be part of the handshake as long as there was no greeting.)
    match if kind == Close::Garbage { 0 } else { rng.below(3) } {
        0 => s.run(w)?,
        1 => {
            // Nothing at all: the greeting, and then the end
            let mut patience = Patience::new();
            while !s.adopt(w) {
                if patience.gone(s.cli.pump()) {
                    return Err(mismatch!(["P01", "P04"], "the proxy did not connect to the server"));
                }
            }
        }
        _ => {
            let n = rng.below(120);
            for _ in 0..n {
                let p = s.step(w)?;
                nap(p);
                if s.at_rest() {
                    break;
                }
                s.check_alive()?;
            }
            // Let everything on its way arrive; the client says no more.
            s.calm(w)?;
        }
    }
    if s.srv.is_none() {
        s.calm(w)?;
    }
    let n = match rng.below(5) {
        0 => 1,
        1 => 2,
        2 => rng.range(20, 60),
        _ => rng.range(1, 8),
    };
    if rng.chance(15) {
        s.p.big = 40;
    }
    s.p.continuations = false;
    for _ in 0..n {
        let r = s.chatter();
        s.respond(r);
    }
    // The client may say something in the meantime that means nothing (and goes nowhere).
    let mut says = s.client_free() && s.cli.all_sent() && rng.chance(50);
    let srv = s.srv.as_mut().unwrap();
    if rng.chance(15) {
        // The beginning of a message that never ends
        srv.send(b"* 5 FETCH (BODY {100}\r\nabc");
    }
    srv.close(kind);
    s.log.push(format!("the server closes ({kind:?}) after {n} responses"));
    extra.push(("clients that said something while the server closed".into(), says as u64));
    let deaf_for = Duration::from_micros(if rng.chance(30) { rng.range(0, 250_000) as u64 } else { 0 });
    let start = Instant::now();
    let mut patience = Patience::new();
    loop {
        s.cli.deaf = start.elapsed() < deaf_for;
        if says && s.cli.all_sent() {
            s.cli.send(if rng.chance(20) { b"z\r\n" } else { b"z" });
            says = start.elapsed() < Duration::from_millis(50);
        }
        let srv = s.srv.as_mut().unwrap();
        let mut p = srv.pump() | s.cli.pump();
        while s.client_parse()? {
            p = true;
        }
        if s.cli.ended.is_some() {
            break;
        }
        if patience.gone(p) {
            return Err(mismatch!(["P06"], "the server closed ({kind:?}), but the proxy has not closed the client's side after {WAIT:?}; {}", s.state()));
        }
    }
    extra.push(("responses that arrived after their sender had closed".into(), n as u64));
    if kind == Close::Reset {
        // (which may destroy what is on its way)
        return Ok(());
    }
    if let Some(x) = s.expected_by_client() {
        return Err(mismatch!(
            ["P06"],
            "the server sent {n} responses and closed ({kind:?}); {} of them did not reach the client before the proxy closed it ({:?}), the first is {x}",
            s.open_responses(),
            s.cli.ended
        ));
    }
    if let Some(Ended::Tls(e)) = &s.cli.ended {
        return Err(mismatch!(["P06"], "the proxy ended its connection with a TLS error: {e}"));
    }
    Ok(())
}

fn client_closes(w: &World, s: &mut Session, kind: Close, rng: &mut Rng, extra: &mut Vec<(String, u64)>) -> Result<(), Mismatch> {
    if rng.chance(50) {
        s.run(w)?;
        s.add_items();
    }
    // The server may say something that nobody waits for.
    let talkative = kind != Close::Full && rng.chance(30);
    s.mute = !talkative;
    s.p.nonsense = if rng.chance(40) { 60 } else { 0 };
    // Send everything; the server may be slow.
    let quiet = rng.chance(50) || kind == Close::Full;
    let mut patience = Patience::new();
    while !s.client_sent_all() || (matches!(kind, Close::Full | Close::Reset | Close::Garbage) && !s.is_greeted()) {
        let mut p = s.cli.pump();
        if s.srv.is_none() && s.adopt(w) {
            p = true;
        }
        while s.client_parse()? {
            p = true;
        }
        p |= s.client_act();
        let hold = quiet && s.client_free();
        if let Some(srv) = &mut s.srv {
            if !hold {
                p |= srv.pump();
                while s.server_parse()? {
                    p = true;
                    if s.server_waits() {
                        break;
                    }
                }
                p |= s.server_act(true)?;
            } else {
                // (at least the greeting)
                srv.deaf = !srv.handshaking();
                p |= srv.pump();
                srv.deaf = false;
            }
        }
        if p {
            s.touch();
        }
        s.check_alive()?;
        if patience.gone(p) {
            return Err(mismatch!(["P01"], "the session does not get on; {}", s.state()));
        }
    }
    let n = s.to_server.len();
    if rng.chance(15) {
        s.cli.send(b"zz NOO");
    }
    s.log.push(format!("the client closes ({kind:?}) with {n} messages on their way"));
    s.cli.close(kind);
    let slow = rng.chance(20);
    let mut patience = Patience::new();
    loop {
        let mut p = s.cli.pump();
        if s.srv.is_none() && s.adopt(w) {
            p = true;
        }
        if let Some(srv) = &mut s.srv {
            p |= srv.pump();
            while s.server_parse()? {
                p = true;
                if s.server_waits() {
                    break;
                }
            }
            if !slow || rng.chance(5) {
                p |= s.server_act(true)?;
            }
            if s.srv.as_ref().unwrap().ended.is_some() {
                break;
            }
        }
        if patience.gone(p) {
            if s.srv.is_none() {
                return Err(mismatch!(["P06"], "the client closed ({kind:?}), but the proxy has not connected to the server after {WAIT:?}; {}", s.state()));
            }
            return Err(mismatch!(["P06"], "the client closed ({kind:?}), but the proxy has not closed the server's side after {WAIT:?}; {}", s.state()));
        }
    }
    extra.push(("messages that arrived after their sender had closed".into(), (n - s.to_server.len()) as u64));
    if kind == Close::Reset {
        return Ok(());
    }
    extra.push(("servers that said something while the client closed".into(), talkative as u64));
    if let Some(x) = s.to_server.front() {
        return Err(mismatch!(
            ["P06"],
            "the client sent {n} messages and closed ({kind:?}); {} of them did not reach the server before the proxy closed it ({:?}), the first is {x:?}",
            s.to_server.len(),
            s.srv.as_ref().unwrap().ended
        ));
    }
    if let Some(Ended::Tls(e)) = &s.srv.as_ref().unwrap().ended {
        return Err(mismatch!(["P06"], "the proxy ended its connection with a TLS error: {e}"));
    }
    Ok(())
}
