//! Connections that are left alone for as long as the run takes, at all stages of a conversation,
//! and must go on afterwards as if nothing had happened.
use std::time::{Duration, Instant};

use mon_common::{Mismatch, Rng};

use crate::{
    close_kind,
    session::{Profile, Session},
    world::{World, WAIT},
    Outcome,
};

pub struct Quiet {
    s: Session,
    since: Instant,
}

pub fn open(w: &World, untouched: bool, rng: &mut Rng) -> Result<Vec<Quiet>, Mismatch> {
    let mut v = vec![];
    for i in 0..10 {
        let tls: Vec<usize> = (0..w.services.len()).filter(|s| w.services[*s].bind_tls.is_some()).collect();
        let asleep = untouched && i == 0;
        let service = if asleep { *rng.pick(&tls) } else { rng.below(w.services.len()) };
        let p = Profile { count: (1, 6), items: [40, 25, 25, 10], ..Profile::default() };
        let mut s = Session::open(w, service, format!("quiet{:x}", rng.u64()), p, rng)?;
        if asleep {
            // Not even the handshake
            v.push(Quiet { s, since: Instant::now() });
            continue;
        }
        s.greet = rng.chance(85);
        let stop = rng.range(0, 80);
        let mut steps = 0;
        let mut last = Instant::now();
        loop {
            if s.step(w)? {
                steps += 1;
                last = Instant::now();
            } else {
                std::thread::sleep(Duration::from_micros(60));
            }
            let adopted = s.srv.is_some();
            if adopted && (steps >= stop || s.at_rest() || last.elapsed() > Duration::from_millis(50)) {
                break;
            }
            if last.elapsed() > WAIT {
                s.check_alive()?;
            }
        }
        v.push(Quiet { s, since: Instant::now() });
    }
    Ok(v)
}

pub fn resume(w: &World, mut q: Quiet, rng: &mut Rng) -> Outcome {
    let quiet = q.since.elapsed().as_secs_f64();
    let s = &mut q.s;
    let stage = s.state();
    if !s.greet && s.srv.is_some() {
        s.send_greeting();
    }
    s.greet = true;
    let mut result = s.run(w);
    if result.is_ok() {
        s.add_items();
        result = s.run(w);
    }
    if result.is_ok() {
        result = s.finish(rng.chance(50), close_kind(rng));
    }
    let result = result.map_err(|m| Mismatch {
        what: format!("after {quiet:.1} s without any traffic: {}\n(state before: {stage})", m.what),
        ..m
    });
    let mut o = Outcome::of(&[&q.s], result);
    o.counts.push(("connections that went on after being left alone".into(), 1));
    o.counts.push(("seconds for which connections were left alone".into(), quiet as u64));
    o
}
