//! More connections than the process may hold: when they are gone, everything works again, and what
//! worked before goes on all the time.
use std::time::{Duration, Instant};

use mon_common::{mismatch, Mismatch, Rng};

use crate::{
    ep,
    hostile::Control,
    world::{World, WAIT},
    Outcome,
};

/// The number of this scenario (it is not one of many cases)
pub const CASE: u64 = 1_000_000_000;

fn limit(w: &World, n: Option<u64>) -> u64 {
    unsafe {
        let mut old = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        let pid = w.child.id() as libc::pid_t;
        libc::prlimit(pid, libc::RLIMIT_NOFILE, std::ptr::null(), &mut old);
        if let Some(n) = n {
            let new = libc::rlimit { rlim_cur: n, rlim_max: old.rlim_max };
            libc::prlimit(pid, libc::RLIMIT_NOFILE, &new, std::ptr::null_mut());
        }
        old.rlim_cur
    }
}

/// Of the open files of this process
fn own_limit() -> usize {
    unsafe {
        let mut l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::getrlimit(libc::RLIMIT_NOFILE, &mut l);
        l.rlim_cur = l.rlim_max;
        libc::setrlimit(libc::RLIMIT_NOFILE, &l);
        libc::getrlimit(libc::RLIMIT_NOFILE, &mut l);
        l.rlim_cur as usize
    }
}

/// The limit with which exactly `free` more files can be opened
fn room_for(w: &World, free: usize) -> u64 {
    let used: Vec<u64> = std::fs::read_dir(format!("/proc/{}/fd", w.child.id()))
        .map(|d| d.filter_map(|e| e.ok()?.file_name().to_str()?.parse().ok()).collect())
        .unwrap_or_default();
    let mut left = free;
    let mut n = 0;
    loop {
        if !used.contains(&n) {
            if left == 0 {
                return n;
            }
            left -= 1;
        }
        n += 1;
    }
}

/// Wait until the number of open files does not change any more.
fn settled(w: &World, c: &mut Control) -> Result<usize, Mismatch> {
    let start = Instant::now();
    let mut n = w.files();
    let mut since = Instant::now();
    while since.elapsed() < Duration::from_millis(30) && start.elapsed() < Duration::from_secs(5) {
        go_on(w, c, 3)?;
        if w.files() != n {
            n = w.files();
            since = Instant::now();
        }
    }
    Ok(n)
}

fn alone(w: &World, service: usize, rng: &mut Rng) -> Result<(), Mismatch> {
    Control::open(w, service, rng)?.run(w, rng)
}

/// Let an established session go on for a while.
fn go_on(w: &World, c: &mut Control, ms: u64) -> Result<(), Mismatch> {
    let start = Instant::now();
    while start.elapsed() < Duration::from_millis(ms) {
        if c.s.at_rest() {
            c.s.add_items();
        }
        if !c.s.step(w)? {
            c.s.check_alive()?;
            std::thread::sleep(Duration::from_micros(100));
        }
    }
    Ok(())
}

pub fn case(w: &mut World, rng: &mut Rng) -> Outcome {
    let mut o = Outcome::of(&[], Ok(()));
    let old = limit(w, None);
    o.result = run(w, rng, &mut o.counts, &mut o.log);
    limit(w, Some(old));
    o.nontrivial = true;
    o.signature = rng.u64();
    for p in w.new_panics() {
        let before = match &o.result {
            Err(m) => format!(" ({})", m.what),
            Ok(()) => String::new(),
        };
        o.result = Err(mismatch!(["P04"], "the proxy panicked when there were too many connections: {p}{before}"));
    }
    o
}

fn run(w: &mut World, rng: &mut Rng, counts: &mut Vec<(String, u64)>, log: &mut String) -> Result<(), Mismatch> {
    let plain = |e: std::io::Error| mismatch!(["P04"], "cannot connect to the proxy: {e}");
    // Somebody who is there already
    let mut c = Control::open(w, 0, rng)?;
    while !c.s.is_greeted() {
        while let Some(sock) = w.accept(0) {
            if c.s.srv.is_none() {
                c.candidate(w, sock, rng);
            }
        }
        c.step(w, rng)?;
    }
    c.s.chatter_left += 1000;
    go_on(w, &mut c, 20)?;
    let handshakes: Vec<usize> = (0..w.services.len()).filter(|s| w.services[*s].bind_tls.is_some()).collect();
    let mut upstream: Vec<usize> = (0..w.services.len()).filter(|s| w.services[*s].connect_tls && w.services[*s].bind_tls.is_none()).collect();
    // There is room for no more files, for one, for two, …
    let unlimited = limit(w, None);
    let mut crowd = vec![];
    // (In any order: what the proxy does only once may be hit by each of them.)
    let mut rooms: Vec<usize> = (0..=6).collect();
    if rng.chance(70) {
        rooms.swap(0, 2);
    } else {
        let i = rng.below(7);
        rooms.rotate_left(i);
    }
    for free in rooms {
        for _ in 0..rng.below(3) {
            crowd.push(ep::dial(w.services[*rng.pick(&handshakes)].addr, rng).map_err(plain)?);
        }
        let n = settled(w, &mut c)?;
        limit(w, Some(room_for(w, free)));
        if rng.chance(30) {
            upstream.reverse();
        }
        let s = if rng.chance(90) { upstream[0] } else { rng.below(w.services.len()) };
        let sock = ep::dial(w.services[s].addr, rng).map_err(plain)?;
        go_on(w, &mut c, 40)?;
        *log += &format!("{n} open files and room for {free}: a client of service {s}, then {} files\n", w.files());
        counts.push(("clients while the proxy could open few files".into(), 1));
        drop(sock);
        w.discard_connections();
        go_on(w, &mut c, 10)?;
        limit(w, Some(unlimited));
        go_on(w, &mut c, 10)?;
    }
    // Clients that never say a word, and more of them than there is room for
    settled(w, &mut c)?;
    let room = rng.range(6, 40);
    limit(w, Some(room_for(w, room)));
    for _ in 0..rng.range(room, 2 * room + 20) {
        let s = if rng.chance(50) { *rng.pick(&handshakes) } else { rng.below(w.services.len()) };
        crowd.push(ep::dial(w.services[s].addr, rng).map_err(plain)?);
        if rng.chance(10) {
            go_on(w, &mut c, 3)?;
        }
    }
    let start = Instant::now();
    let wait = Duration::from_millis(rng.range(20, 300) as u64);
    while start.elapsed() < wait {
        go_on(w, &mut c, 3)?;
    }
    *log += &format!("{} clients when there was room for {room}: {} files\n", crowd.len(), w.files());
    counts.push(("clients of a crowd".into(), crowd.len() as u64));
    // There is room for all of them, and for new clients.
    limit(w, Some(unlimited));
    let most = (unlimited as usize).min(own_limit()).saturating_sub(200) / 3;
    let n = *rng.pick(&[20, 70, 140, 300, 600, 1100]);
    let mut servers = vec![];
    for i in 0..n.min(most).saturating_sub(crowd.len()) {
        crowd.push(ep::dial(w.services[rng.below(w.services.len())].addr, rng).map_err(plain)?);
        if i % 20 == 0 {
            go_on(w, &mut c, 2)?;
            for s in 0..w.services.len() {
                while let Some(x) = w.accept(s) {
                    servers.push(x);
                }
            }
        }
    }
    settled(w, &mut c)?;
    counts.push(("most clients at a time (over all proxies)".into(), crowd.len() as u64));
    for s in 0..w.services.len() {
        while let Some(x) = w.accept(s) {
            servers.push(x);
        }
    }
    for s in 0..w.services.len() {
        alone(w, s, rng).map_err(|m| mismatch!(["P04"], "while there are {} other clients, service {s} is not served: {}", crowd.len(), m.what))?;
    }
    drop(servers);
    settled(w, &mut c)?;
    limit(w, Some(room_for(w, rng.below(3))));
    go_on(w, &mut c, 20)?;
    // They leave.
    drop(crowd);
    w.discard_connections();
    go_on(w, &mut c, 20)?;
    if rng.chance(50) {
        limit(w, Some(unlimited));
    }
    let start = Instant::now();
    for s in 0..w.services.len() {
        loop {
            match alone(w, s, rng) {
                Ok(()) => break,
                Err(m) if start.elapsed() > WAIT => {
                    return Err(mismatch!(["P04"], "a crowd of clients left {:?} ago, but service {s} is still not served: {}", start.elapsed(), m.what))
                }
                Err(_) => std::thread::sleep(Duration::from_millis(20)),
            }
            w.discard_connections();
        }
        counts.push(("services that worked after a crowd was gone".into(), 1));
    }
    go_on(w, &mut c, 20)?;
    while !c.s.at_rest() {
        if !c.s.step(w)? {
            c.s.check_alive()?;
            std::thread::sleep(Duration::from_micros(100));
        }
    }
    counts.push(("messages of a connection next to a crowd".into(), c.s.stats.commands + c.s.stats.responses));
    Ok(())
}
