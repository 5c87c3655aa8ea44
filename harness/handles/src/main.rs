//! C17, generator part: the handle generators themselves, driven past every power of two up to
//! 2^32 (and, in the thorough tier, beyond 2^35), and hammered from many threads.
//!
//! Nothing here depends on how handles are numbered. The monitor keeps a membership set of the
//! first handles, of windows around powers of two and of random windows; a handle whose pair of
//! numbers is larger than the pair before needs no look-up, everything else is looked up.
#[allow(dead_code)]
#[path = "/repo/src/handle.rs"]
mod handle;

use std::{
    collections::HashSet,
    sync::atomic::{AtomicBool, AtomicU64, Ordering},
};

use handle::{Handle, HandleGeneratorGenerator, RawHandle};
use mon_common::{hash_of, Args, Report, Rng};

#[derive(Clone, Copy)]
struct H(RawHandle);

impl Handle for H {
    fn from_raw(raw: RawHandle) -> Self {
        Self(raw)
    }
}

fn key(h: &H) -> (u64, u64) {
    (h.0.generator_id(), h.0.handle_id())
}

/// Sees a sequence of keys and says whether any was seen twice, as far as it can tell.
struct Ledger {
    set: HashSet<(u64, u64)>,
    last_key: (u64, u64),
    quiet_until: u64,
    seen: u64,
    monotone: bool,
    windows: Vec<(u64, u64)>,
    next_window: usize,
    /// While positive, look up and store everything
    full: u64,
    full_budget: u64,
}

impl Ledger {
    fn new(rng: &mut Rng, total: u64) -> Self {
        let mut windows = vec![(0, 200_000)];
        for b in if total < 1000 { 3..4 } else { 17..40 } {
            let p = 1u64 << b;
            windows.push((p.saturating_sub(64), p + 64));
        }
        for _ in 0..(total / 10).min(200) {
            let a = rng.u64() % total;
            windows.push((a, a + 32));
        }
        windows.sort();
        Ledger { set: HashSet::new(), last_key: (0, 0), quiet_until: 0, seen: 0, monotone: true, windows, next_window: 0, full: 0, full_budget: 4_000_000 }
    }
    #[inline]
    fn see(&mut self, k: (u64, u64)) -> Result<(), (u64, u64)> {
        if self.seen < self.quiet_until && k > self.last_key {
            self.seen += 1;
            self.last_key = k;
            return Ok(());
        }
        self.see_slow(k)
    }
    #[inline(never)]
    fn see_slow(&mut self, k: (u64, u64)) -> Result<(), (u64, u64)> {
        let i = self.seen;
        self.seen += 1;
        let grew = i == 0 || k > self.last_key;
        self.last_key = k;
        while self.next_window < self.windows.len() && i >= self.windows[self.next_window].1 {
            self.next_window += 1;
        }
        let inside = self.next_window < self.windows.len() && i >= self.windows[self.next_window].0;
        // Before the next window, growing keys need nothing.
        self.quiet_until = match self.windows.get(self.next_window) {
            _ if !self.monotone || !grew || inside => 0,
            Some(w) => w.0,
            None => u64::MAX,
        };
        if grew && self.monotone && !inside {
            return Ok(());
        }
        if !grew {
            // The order broke: from now on everything is looked up (as long as memory allows).
            self.monotone = false;
            self.full = 1_000_000;
        }
        if inside || (self.full > 0 && self.full_budget > 0) {
            if self.full > 0 {
                self.full -= 1;
                self.full_budget = self.full_budget.saturating_sub(1);
            }
            if !self.set.insert(k) {
                return Err(k);
            }
        } else if self.set.contains(&k) {
            return Err(k);
        }
        Ok(())
    }
}

fn many_handles(seed: u64, total: u64) -> Result<u64, String> {
    let gg = HandleGeneratorGenerator::<H>::new();
    let mut g = gg.generate();
    let mut l = Ledger::new(&mut Rng::new(seed), total);
    for i in 0..total {
        if let Err(k) = l.see(key(&g.generate())) {
            return Err(format!("handle {i} of one generator is {k:?}, which an earlier handle of it was"));
        }
    }
    Ok(l.seen)
}

/// Generators of one generator: the handles of different generators differ.
fn many_generators(seed: u64, total: u64) -> Result<u64, String> {
    let gg = HandleGeneratorGenerator::<H>::new();
    let mut l = Ledger::new(&mut Rng::new(seed), total);
    for i in 0..total {
        let mut g = gg.generate();
        if let Err(k) = l.see(key(&g.generate())) {
            return Err(format!("the first handle of generator {i} is {k:?}, which the one of an earlier generator was"));
        }
    }
    Ok(l.seen)
}

/// Threads share one generator of generators, as all clients of a process do.
fn threads(rng: &mut Rng, rounds: u64, small: bool) -> Result<(u64, u64, Vec<u64>), String> {
    let mut handles = 0;
    let mut switches = 0;
    let mut signatures = vec![];
    for _ in 0..rounds {
        let gg = HandleGeneratorGenerator::<H>::new();
        let n = if small { 3 } else { rng.range(2, 8) };
        let gens = if small { 6 } else { rng.range(100, 30_000) };
        let per = rng.range(1, 4);
        let go = AtomicBool::new(false);
        let stamp = AtomicU64::new(0);
        let all: Vec<Vec<(u64, H)>> = std::thread::scope(|s| {
            let js: Vec<_> = (0..n)
                .map(|t| {
                    let (gg, go, stamp) = (&gg, &go, &stamp);
                    s.spawn(move || {
                        let mut v = Vec::with_capacity(gens * per);
                        while !go.load(Ordering::Acquire) {
                            std::hint::spin_loop();
                        }
                        for i in 0..gens {
                            let mut g = gg.generate();
                            if small || i % 64 == 0 {
                                stamp.fetch_add(1, Ordering::Relaxed);
                                if (i + t) % 7 == 0 {
                                    std::thread::yield_now();
                                }
                            }
                            for _ in 0..per {
                                v.push((t as u64, g.generate()));
                            }
                        }
                        v
                    })
                })
                .collect();
            go.store(true, Ordering::Release);
            js.into_iter().map(|j| j.join().unwrap()).collect()
        });
        let mut set = HashSet::with_capacity(n * gens * per);
        let mut order: Vec<(u64, (u64, u64))> = vec![];
        for v in &all {
            for (t, h) in v {
                handles += 1;
                if !set.insert(h.0) {
                    return Err(format!("handle {:?} was created twice ({n} threads)", key(h)));
                }
                order.push((*t, key(h)));
            }
        }
        // How interleaved was it: changes of thread in generator order.
        order.sort_by_key(|x| x.1);
        let s = order.windows(2).filter(|w| w[0].0 != w[1].0).count() as u64;
        switches += s;
        signatures.push(hash_of(&order.iter().map(|x| x.0).collect::<Vec<_>>()));
        // identity
        for v in &all {
            for (_, h) in v.iter().take(20) {
                let copy = h.0;
                if copy != h.0 || !set.contains(&copy) || hash_of(&copy) != hash_of(&h.0) {
                    return Err(format!("a copy of handle {:?} differs from it", key(h)));
                }
                for (_, o) in all.iter().flat_map(|v| v.iter().take(20)) {
                    let same = std::ptr::eq(h, o);
                    if (h.0 == o.0) != same {
                        return Err(format!("handles {:?} and {:?} compare wrongly", key(h), key(o)));
                    }
                }
            }
        }
    }
    Ok((handles, switches, signatures))
}

fn main() {
    mon_common::install_panic_hook();
    let args = Args::parse();
    let thorough = args.thorough;
    let seed = args.seed;
    let small = args.extra.iter().any(|x| x == "--small");
    let mut report = Report::new(args, "");
    let total: u64 = if small { 100 } else if thorough { (1 << 34) + 1000 } else { (1 << 32) + 1000 };
    let rounds = if small { 2 } else if thorough { 400 } else { 12 };
    let guarded = |f: &(dyn Fn() -> Result<u64, String> + Sync)| match mon_common::guard(f) {
        Ok(r) => r,
        Err(p) => Err(format!("panic: {p}")),
    };
    let (a, b) = std::thread::scope(|s| {
        let a = s.spawn(|| guarded(&|| many_handles(seed, total)));
        let b = s.spawn(|| guarded(&|| many_generators(seed + 7, total)));
        (a.join().unwrap(), b.join().unwrap())
    });
    let mut rng = Rng::new(seed);
    let t = match mon_common::guard(|| threads(&mut rng, rounds, small)) {
        Ok(r) => r,
        Err(p) => Err(format!("panic: {p}")),
    };
    for (what, r) in [("handles of one generator", a), ("generators of one process", b)] {
        report.case(hash_of(what), true);
        match r {
            Ok(n) => report.count(what, n),
            Err(e) => report.violation(&e, 0, &e),
        }
    }
    match t {
        Ok((h, s, sig)) => {
            report.count("handles made by racing threads", h);
            report.count("thread switches in generator order", s);
            for x in sig {
                report.case(x, true);
            }
        }
        Err(e) => report.violation(&e, 0, &e),
    }
    report.finish()
}
