//! C01: the same stream under every way of cutting it gives the same trace.
use bounded_static::IntoBoundedStatic;
use imap_next::{client, server, Interrupt, Io, State};
use imap_types::{
    auth::AuthenticateData,
    command::{Command, CommandBody},
    core::Tag,
    response::{Greeting, StatusKind},
};
use mon_common::{guard, hash_of, mismatch, show, Mismatch, Rng};

use crate::{
    client_mon,
    drive::{CliDriver, CliProfile, SrvDriver, SrvProfile},
    gen::Gen,
    server_mon::{self, panic_mismatch, SrvOpts},
    Seen,
};

/// A trace: events and errors in order, and all output bytes. Output is also positioned relative to events.
#[derive(PartialEq, Clone, Default, Debug)]
struct Trace {
    steps: Vec<String>,
    out: Vec<u8>,
    events: usize,
}

impl Trace {
    fn output(&mut self, b: &[u8]) {
        self.out.extend_from_slice(b);
        match self.steps.last_mut() {
            Some(s) if s.starts_with("> ") => {
                // Adjacent output is one step: how it is portioned does not matter
                let n = self.out.len();
                *s = format!("> output up to byte {n}");
            }
            _ => self.steps.push(format!("> output up to byte {}", self.out.len())),
        }
    }
    fn event(&mut self, e: String) {
        self.events += 1;
        self.steps.push(e);
    }
}

const STEP_LIMIT: usize = 100_000;

fn server_trace(opts: &SrvOpts, greeting: &Greeting<'static>, seed: u64, stream: &[u8], cuts: &[usize]) -> Result<Trace, Mismatch> {
    let mut g = Gen::new(Rng::new(seed));
    let (o, gr) = (opts.to_options(), greeting.clone());
    let mut s = guard(|| server::Server::new(o, gr)).map_err(|p| panic_mismatch("Server::new", p))?;
    let mut t = Trace::default();
    let mut at = 0;
    let mut pieces: Vec<&[u8]> = vec![&[]];
    for c in cuts {
        pieces.push(&stream[at..at + c]);
        at += c;
    }
    let mut steps = 0;
    for piece in pieces {
        guard(|| s.enqueue_input(piece)).map_err(|p| panic_mismatch("enqueue_input", p))?;
        loop {
            steps += 1;
            if steps > STEP_LIMIT {
                return Err(mismatch!(["C03", "C15"], "server never comes to rest"));
            }
            let r = guard(|| s.next()).map_err(|p| panic_mismatch("next", p))?;
            match r {
                Err(Interrupt::Io(Io::NeedMoreInput)) => break,
                Err(Interrupt::Io(Io::Output(b))) => t.output(&b),
                r => {
                    t.event(server_mon::show_result_full(&r));
                    // The user reacts to each event at once
                    match r {
                        Ok(server::Event::CommandReceived { command }) => {
                            if g.rng.chance(40) {
                                s.enqueue_data(g.data());
                            }
                            s.enqueue_status(g.status(Some(command.tag)));
                        }
                        Ok(server::Event::CommandAuthenticateReceived { .. }) => {
                            if g.rng.chance(85) {
                                let c = g.continuation();
                                let _ = s.authenticate_continue(c);
                            } else {
                                let x = g.status(None);
                                let _ = s.authenticate_finish(x);
                            }
                        }
                        Ok(server::Event::AuthenticateDataReceived { .. }) => {
                            if g.rng.chance(50) {
                                let c = g.continuation();
                                let _ = s.authenticate_continue(c);
                            } else {
                                let x = g.status(None);
                                let _ = s.authenticate_finish(x);
                            }
                        }
                        Ok(server::Event::IdleCommandReceived { .. }) => {
                            if g.rng.chance(70) {
                                let c = g.continuation();
                                let _ = s.idle_accept(c);
                            } else {
                                let x = g.status(None);
                                let _ = s.idle_reject(x);
                            }
                        }
                        Ok(server::Event::IdleDoneReceived) => {
                            s.enqueue_status(g.status(None));
                        }
                        Err(Interrupt::Error(_)) => {
                            if g.rng.chance(40) {
                                s.enqueue_status(g.status(None));
                            }
                            if g.rng.chance(30) {
                                let x = g.status(None);
                                let _ = s.authenticate_finish(x);
                            }
                        }
                        _ => {}
                    }
                }
            }
        }
    }
    Ok(t)
}

fn client_trace(
    relaxed: bool,
    commands: &[Command<'static>],
    upfront: bool,
    seed: u64,
    stream: &[u8],
    cuts: &[usize],
) -> Result<Trace, Mismatch> {
    let mut g = Gen::new(Rng::new(seed));
    let mut o = client::Options::default();
    o.crlf_relaxed = relaxed;
    let mut c = guard(|| client::Client::new(o)).map_err(|p| panic_mismatch("Client::new", p))?;
    let mut t = Trace::default();
    let mut left = commands.iter();
    if upfront {
        for x in left.by_ref() {
            c.enqueue_command(x.clone());
        }
    }
    let mut at = 0;
    let mut pieces: Vec<&[u8]> = vec![&[]];
    for n in cuts {
        pieces.push(&stream[at..at + n]);
        at += n;
    }
    let mut steps = 0;
    for piece in pieces {
        guard(|| c.enqueue_input(piece)).map_err(|p| panic_mismatch("enqueue_input", p))?;
        loop {
            steps += 1;
            if steps > STEP_LIMIT {
                return Err(mismatch!(["C03", "C15"], "client never comes to rest"));
            }
            let r = guard(|| c.next()).map_err(|p| panic_mismatch("next", p))?;
            match r {
                Err(Interrupt::Io(Io::NeedMoreInput)) => break,
                Err(Interrupt::Io(Io::Output(b))) => t.output(&b),
                r => {
                    t.event(client_mon::show_result_full(&r));
                    match r {
                        Ok(client::Event::AuthenticateContinuationRequestReceived { .. }) => {
                            if g.rng.chance(80) {
                                let d = g.auth_data();
                                let _ = c.set_authenticate_data(d);
                            }
                        }
                        Ok(client::Event::IdleAccepted { .. }) => {
                            if g.rng.chance(60) {
                                let _ = c.set_idle_done();
                            }
                        }
                        Ok(client::Event::DataReceived { .. } | client::Event::StatusReceived { .. }) => {
                            // Late reactions
                            match g.rng.below(4) {
                                0 => {
                                    let _ = c.set_idle_done();
                                }
                                1 => {
                                    let _ = c.set_authenticate_data(AuthenticateData::r#continue(b"late".to_vec()));
                                }
                                _ => {
                                    if let Some(x) = left.next() {
                                        c.enqueue_command(x.clone());
                                    }
                                }
                            }
                        }
                        Ok(client::Event::GreetingReceived { .. } | client::Event::CommandSent { .. } | client::Event::CommandRejected { .. }) => {
                            if let Some(x) = left.next() {
                                c.enqueue_command(x.clone());
                            }
                        }
                        _ => {}
                    }
                }
            }
        }
    }
    Ok(t)
}

fn compare(reference: &Trace, got: &Trace, cuts: &[usize], stream: &[u8]) -> Result<(), Mismatch> {
    if reference == got {
        return Ok(());
    }
    let i = reference.steps.iter().zip(&got.steps).take_while(|(a, b)| a == b).count();
    let none = "(nothing)".to_owned();
    let (a, b) = (reference.steps.get(i).unwrap_or(&none), got.steps.get(i).unwrap_or(&none));
    let d = reference.out.iter().zip(&got.out).take_while(|(a, b)| a == b).count();
    Err(mismatch!(
        ["C01"],
        "different chunking, different behaviour.\nstream: {}\nchunk sizes: {:?}\nwhole stream at once: step {i} is {a}\nthis chunking: step {i} is {b}\noutputs agree for {d} bytes: {} | {}",
        show(stream), if cuts.len() > 40 { &cuts[..40] } else { cuts },
        show(&reference.out[d..]), show(&got.out[d..])
    ))
}

fn all_cuts(rng: &mut Rng, len: usize, mut f: impl FnMut(&[usize]) -> Result<(), Mismatch>) -> Result<u64, Mismatch> {
    let mut n = 0;
    let mut go = |c: &[usize]| {
        n += 1;
        f(c)
    };
    if len > 3000 {
        // Big messages: a few coarse ways only
        for size in [1000, 4096, 65536] {
            let v: Vec<usize> = (0..len).step_by(size).map(|a| size.min(len - a)).collect();
            go(&v)?;
        }
        for _ in 0..4 {
            let a = rng.range(1, len - 1);
            go(&[a, len - a])?;
        }
        return Ok(n);
    }
    go(&vec![1; len])?;
    for a in 1..len {
        go(&[a, len - a])?;
    }
    for size in 2..6 {
        let v: Vec<usize> = (0..len).step_by(size).map(|a| size.min(len - a)).collect();
        go(&v)?;
    }
    for _ in 0..20 {
        let mut v = vec![];
        let mut left = len;
        let max = *rng.pick(&[2, 4, 12, 50]);
        while left > 0 {
            let k = rng.range(1, max).min(left);
            v.push(k);
            left -= k;
        }
        go(&v)?;
    }
    // Two cuts close to each other
    for _ in 0..20 {
        if len > 6 {
            let a = rng.range(1, len - 5);
            let b = rng.range(1, 4);
            go(&[a, b, len - a - b])?;
        }
    }
    Ok(n)
}

pub fn case(rng: &mut Rng, case: u64) -> Seen {
    let mut compared = 0;
    let mut events = 0;
    let mut signature = 0;
    let mut log = String::new();
    let side;
    let result = if case % 2 == 0 {
        side = "server";
        let mut p = SrvProfile::default();
        if rng.chance(2) {
            p.max_literal_gen = 70_000;
            p.small_limits = false;
        }
        let mut d = SrvDriver::new(Rng::new(rng.u64()), p);
        let opts = d.options();
        let greeting = d.g.greeting();
        for _ in 0..rng.range(1, 7) {
            d.extend();
        }
        let stream = d.take_stream();
        let seed = rng.u64();
        log = format!("server, relaxed {} max_literal {} max_command {}\nstream {}", opts.relaxed, opts.max_literal, opts.max_command, show(&stream));
        (|| {
            let reference = server_trace(&opts, &greeting, seed, &stream, &[stream.len()])?;
            events = reference.events;
            signature = hash_of(&reference.steps);
            log += &format!("\ntrace of the whole stream:\n{}", reference.steps.join("\n"));
            compared = all_cuts(rng, stream.len(), |cuts| {
                compare(&reference, &server_trace(&opts, &greeting, seed, &stream, cuts)?, cuts, &stream)
            })?;
            Ok(())
        })()
    } else {
        side = "client";
        // A monitored run produces a stream that fits the client's state
        let mut p = CliProfile { late_greeting: 0, steps: 30, ..Default::default() };
        if rng.chance(2) {
            p.max_literal_gen = 70_000;
        }
        let mut d = CliDriver::new(Rng::new(rng.u64()), p);
        let mut m = None;
        let pre = d.run(&mut m);
        let m = m.unwrap();
        let (stream, commands, relaxed) = (m.fed.clone(), m.enqueued.clone(), !m.is_strict());
        let upfront = rng.chance(60);
        let seed = rng.u64();
        log = format!("client, relaxed {relaxed}, commands upfront {upfront}\nstream {}\ncommands {commands:?}", show(&stream));
        match pre {
            // The run that made the stream went wrong, but its stream is still good enough
            _ if stream.is_empty() => Ok(()),
            _ => (|| {
                let reference = client_trace(relaxed, &commands, upfront, seed, &stream, &[stream.len()])?;
                events = reference.events;
                signature = hash_of(&reference.steps);
                log += &format!("\ntrace of the whole stream:\n{}", reference.steps.join("\n"));
                compared = all_cuts(rng, stream.len(), |cuts| {
                    compare(&reference, &client_trace(relaxed, &commands, upfront, seed, &stream, cuts)?, cuts, &stream)
                })?;
                Ok(())
            })(),
        }
    };
    Seen {
        signature,
        nontrivial: events >= 2 && compared > 0,
        counts: vec![
            (format!("{side} chunkings compared"), compared),
            (format!("{side} events and errors per stream (sum)"), events as u64),
        ],
        log,
        result,
    }
}

#[allow(unused)]
fn keep(c: CommandBody<'static>, t: Tag<'static>, k: StatusKind) {
    let _ = c.into_static();
}
