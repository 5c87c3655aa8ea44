//! Things every monitor needs: seeded randomness, verdicts, evidence files, and a guard around
//! calls into the code under test.
use std::{
    collections::{BTreeMap, HashSet},
    hash::{Hash, Hasher},
    io::Write,
    panic::{catch_unwind, AssertUnwindSafe},
    path::PathBuf,
    sync::{
        atomic::{AtomicU64, Ordering},
        Mutex,
    },
    time::{Duration, Instant},
};

// ------------------------------------------------------------------------------------------ rng

/// xoshiro256** seeded by splitmix64.
#[derive(Clone)]
pub struct Rng([u64; 4]);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        let mut next = || {
            x = x.wrapping_add(0x9e3779b97f4a7c15);
            let mut z = x;
            z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
            z ^ (z >> 31)
        };
        Self([next(), next(), next(), next()])
    }
    pub fn for_case(seed: u64, property: &str, case: u64) -> Self {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        (seed, property, case).hash(&mut h);
        Self::new(h.finish())
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: usize) -> usize {
        (self.u64() % n as u64) as usize
    }
    /// Uniform in lo..=hi.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, percent: u32) -> bool {
        self.below(100) < percent as usize
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.below(items.len())]
    }
    /// Index chosen by weight.
    pub fn weighted(&mut self, weights: &[u32]) -> usize {
        let total: u32 = weights.iter().sum();
        let mut x = self.below(total as usize) as u32;
        for (i, w) in weights.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        unreachable!()
    }
}

// ------------------------------------------------------------------------------------- verdicts

/// An observation that contradicts the listed properties.
#[derive(Debug, Clone)]
pub struct Mismatch {
    pub props: Vec<&'static str>,
    pub what: String,
}

#[macro_export]
macro_rules! mismatch {
    ([$($p:expr),* $(,)?], $($fmt:tt)*) => {
        $crate::Mismatch { props: vec![$($p),*], what: format!($($fmt)*) }
    };
}

/// Escaped bytes for logs, shortened.
pub fn show(bytes: &[u8]) -> String {
    let mut s = String::new();
    let cut = if bytes.len() > 400 { 200 } else { bytes.len() };
    let esc = |s: &mut String, b: &[u8]| {
        for c in b {
            for e in std::ascii::escape_default(*c) {
                s.push(e as char);
            }
        }
    };
    esc(&mut s, &bytes[..cut]);
    if cut < bytes.len() {
        s += &format!("...[{} bytes]...", bytes.len() - 2 * cut.min(100));
        esc(&mut s, &bytes[bytes.len() - 100..]);
    }
    s
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

// --------------------------------------------------------------- guard around the code under test

static IN_CALL: AtomicU64 = AtomicU64::new(0);
static CALLS: AtomicU64 = AtomicU64::new(0);
static LAST_PANIC: Mutex<String> = Mutex::new(String::new());
static CURRENT: Mutex<String> = Mutex::new(String::new());
static WATCH_PROPS: Mutex<Option<(String, PathBuf, Vec<String>)>> = Mutex::new(None);

pub const WEDGE_CPU_SECS: f64 = 20.0;

thread_local! {
    static GUARDED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Call into the code under test. A panic becomes `Err(description)`.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let n = CALLS.fetch_add(1, Ordering::Relaxed) + 1;
    IN_CALL.store(n, Ordering::SeqCst);
    GUARDED.with(|g| g.set(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(false));
    IN_CALL.store(0, Ordering::SeqCst);
    r.map_err(|_| LAST_PANIC.lock().unwrap().clone())
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let text = info.to_string();
        if GUARDED.with(|g| g.get()) {
            *LAST_PANIC.lock().unwrap() = text;
        } else {
            eprintln!("harness panic: {text}");
            eprintln!("{}", std::backtrace::Backtrace::force_capture());
        }
    }));
}

/// Remember which case is running (used by the wedge watchdog).
pub fn set_current(description: String) {
    *CURRENT.lock().unwrap() = description;
}

fn process_cpu() -> f64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    // utime and stime are fields 14 and 15; `rest` starts at field 3
    let t: f64 = f.get(11).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0)
        + f.get(12).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    t / 100.0
}

/// Single-threaded monitors only: if one guarded call burns `WEDGE_CPU_SECS` of CPU time without
/// returning, that is a wedge. Reported when the running property is in `props`.
pub fn start_wedge_watchdog(property: &str, dir: PathBuf, props: &[&str]) {
    *WATCH_PROPS.lock().unwrap() = Some((
        property.to_owned(),
        dir,
        props.iter().map(|s| s.to_string()).collect(),
    ));
    std::thread::spawn(|| {
        let mut seen = 0;
        let mut cpu_at = 0.0;
        loop {
            std::thread::sleep(Duration::from_millis(100));
            if process_rss() > RUNAWAY_BYTES {
                complain(format!("the process holds more than {RUNAWAY_BYTES} bytes of memory"));
            }
            let now = IN_CALL.load(Ordering::SeqCst);
            let cpu = process_cpu();
            if now == 0 || now != seen {
                seen = now;
                cpu_at = cpu;
                continue;
            }
            if cpu - cpu_at > WEDGE_CPU_SECS {
                complain(format!("one call into the code under test used {WEDGE_CPU_SECS} s of CPU without returning"));
            }
        }
    });
}

/// Ends the process: a violation if the running property is about this.
fn complain(what: String) -> ! {
    let (property, dir, props) = WATCH_PROPS.lock().unwrap().clone().unwrap();
    let cur = CURRENT.lock().unwrap().clone();
    let what = format!("{what}\n{cur}");
    if props.iter().any(|p| *p == property) {
        let path = dir.join("replay").join(format!("{property}-wedge.txt"));
        let _ = std::fs::create_dir_all(path.parent().unwrap());
        let _ = std::fs::write(&path, &what);
        println!("{what}");
        println!("VIOLATION property={property} replay={}", path.display());
        let _ = std::io::stdout().flush();
        std::process::exit(1);
    }
    eprintln!("inconclusive: {what}");
    std::process::exit(3);
}

/// No workload makes the code under test hold as much as this.
const RUNAWAY_BYTES: u64 = 3_000_000_000;

fn process_rss() -> u64 {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    s.split_whitespace().nth(1).and_then(|p| p.parse::<u64>().ok()).unwrap_or(0) * 4096
}

// -------------------------------------------------------------------------------------- evidence

pub struct Args {
    pub property: String,
    pub thorough: bool,
    pub seed: u64,
    pub case: Option<u64>,
    /// /verif
    pub dir: PathBuf,
    pub budget: Option<f64>,
    pub extra: Vec<String>,
}

impl Args {
    pub fn parse() -> Self {
        let mut a = Args {
            property: String::new(),
            thorough: std::env::var("VERIF_TIER").as_deref() == Ok("thorough"),
            seed: std::env::var("VERIF_SEED")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(1),
            case: None,
            dir: std::env::var("VERIF_DIR").unwrap_or("/verif".into()).into(),
            budget: std::env::var("VERIF_BUDGET").ok().and_then(|s| s.parse().ok()),
            extra: vec![],
        };
        let mut it = std::env::args().skip(1);
        while let Some(x) = it.next() {
            match x.as_str() {
                "--case" => a.case = it.next().and_then(|s| s.parse().ok()),
                // (A shard's seed comes from its parent.)
                "--seed" => {
                    let s = it.next().and_then(|s| s.parse().ok()).unwrap_or(1);
                    if std::env::var("MON_SHARD").is_err() {
                        a.seed = s;
                    }
                }
                "--thorough" => a.thorough = true,
                "--budget" => a.budget = it.next().and_then(|s| s.parse().ok()),
                _ if a.property.is_empty() => a.property = x,
                _ => a.extra.push(x),
            }
        }
        a
    }
}

pub struct Report {
    pub args: Args,
    start: Instant,
    pub evaluations: u64,
    distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub counters: BTreeMap<String, u64>,
    pub violations: u64,
    first_violation: Option<PathBuf>,
    pub foreign: BTreeMap<String, u64>,
    pub rule: String,
    pub assumptions: Vec<String>,
    pub inconclusive: Option<String>,
    other_wall: f64,
}

impl Report {
    pub fn new(args: Args, rule: &str) -> Self {
        Self {
            args,
            start: Instant::now(),
            evaluations: 0,
            distinct: HashSet::new(),
            samples: vec![],
            counters: BTreeMap::new(),
            violations: 0,
            first_violation: None,
            foreign: BTreeMap::new(),
            rule: rule.to_owned(),
            assumptions: vec![],
            inconclusive: None,
            other_wall: 0.0,
        }
    }
    pub fn count(&mut self, key: &str, n: u64) {
        *self.counters.entry(key.to_owned()).or_default() += n;
    }
    /// One case was evaluated; `signature` identifies it, `nontrivial` says whether it counts.
    pub fn case(&mut self, signature: u64, nontrivial: bool) {
        self.evaluations += 1;
        if nontrivial {
            self.distinct.insert(signature);
        }
    }
    pub fn distinct(&self) -> usize {
        self.distinct.len()
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let mut s = s();
            if s.len() > 3000 {
                let mut cut = 3000;
                while !s.is_char_boundary(cut) {
                    cut -= 1;
                }
                s.truncate(cut);
                s += " ...";
            }
            self.samples.push(s);
        }
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }
    /// Record a mismatch. True if it violates the property being checked.
    pub fn mismatch(&mut self, m: &Mismatch, case: u64, log: &str) -> bool {
        if m.props.iter().any(|p| *p == self.args.property) {
            self.violation(&m.what, case, log);
            true
        } else {
            *self.foreign.entry(m.props.join("+")).or_default() += 1;
            if self.foreign.len() < 3 && std::env::var("VERIF_VERBOSE").is_ok() {
                eprintln!("foreign mismatch {:?}: {}\n{log}", m.props, m.what);
            }
            false
        }
    }
    pub fn violation(&mut self, what: &str, case: u64, log: &str) {
        self.violations += 1;
        if self.first_violation.is_none() {
            let p = &self.args.property;
            let path = self
                .args
                .dir
                .join("replay")
                .join(format!("{p}-seed{}-case{case}.txt", self.args.seed));
            let _ = std::fs::create_dir_all(path.parent().unwrap());
            let text = format!(
                "property {p}\nviolation: {what}\nreplay: VERIF_SEED={} ./check.sh {p} --case {case}\n\nlog of the case:\n{log}\n",
                self.args.seed
            );
            let _ = std::fs::write(&path, &text);
            println!("{p}: {what}");
            self.first_violation = Some(path);
        }
    }
    /// What a shard tells its parent.
    fn dump(&self, path: &str) {
        let mut o = String::new();
        o += &format!("evaluations\t{}\n", self.evaluations);
        o += &format!("violations\t{}\n", self.violations);
        o += &format!("wall\t{}\n", (self.elapsed() * 1000.0) as u64);
        for h in &self.distinct {
            o += &format!("hash\t{h}\n");
        }
        for (k, v) in &self.counters {
            o += &format!("count\t{v}\t{k}\n");
        }
        for (k, v) in &self.foreign {
            o += &format!("foreign\t{v}\t{k}\n");
        }
        for s in &self.samples {
            o += &format!("sample\t{}\n", s.replace('\\', "\\\\").replace('\n', "\\n"));
        }
        if let Some(p) = &self.first_violation {
            o += &format!("replay\t{}\n", p.display());
        }
        if let Some(w) = &self.inconclusive {
            o += &format!("inconclusive\t{}\n", w.replace('\n', " "));
        }
        std::fs::write(path, o).unwrap();
    }
    fn absorb(&mut self, text: &str) {
        for line in text.lines() {
            let mut f = line.splitn(3, '\t');
            let (k, a, b) = (f.next().unwrap_or(""), f.next().unwrap_or(""), f.next().unwrap_or(""));
            let n: u64 = a.parse().unwrap_or(0);
            match k {
                "evaluations" => self.evaluations += n,
                "violations" => self.violations += n,
                "wall" => self.other_wall = self.other_wall.max(n as f64 / 1000.0),
                "hash" => {
                    self.distinct.insert(n);
                }
                "count" => self.count(b, n),
                "foreign" => *self.foreign.entry(b.to_owned()).or_default() += n,
                "sample" => {
                    let mut t = String::new();
                    let mut it = a.chars();
                    while let Some(c) = it.next() {
                        match c {
                            '\\' => t.push(if it.next() == Some('n') { '\n' } else { '\\' }),
                            c => t.push(c),
                        }
                    }
                    self.sample(|| t);
                }
                "replay" if self.first_violation.is_none() => self.first_violation = Some(a.into()),
                "inconclusive" => self.inconclusive = Some(a.to_owned()),
                _ => {}
            }
        }
    }
    /// Run the same program in several processes with different seeds and merge what they saw.
    /// Returns only in a shard (or when a single case is replayed).
    pub fn shard(mut self, shards: u64) -> Self {
        if self.args.case.is_some() || std::env::var("MON_SHARD").is_ok() || shards < 2 {
            return self;
        }
        let dir = self.args.dir.join("build").join("shards").join(format!("{}-{}", self.args.property, std::process::id()));
        std::fs::create_dir_all(&dir).unwrap();
        let exe = std::env::current_exe().unwrap();
        let children: Vec<_> = (0..shards)
            .map(|i| {
                let out = dir.join(format!("{i}"));
                let c = std::process::Command::new(&exe)
                    .args(std::env::args().skip(1))
                    .env("MON_SHARD", &out)
                    .env("VERIF_SEED", (self.args.seed + i * 1_000_000).to_string())
                    .stdout(std::process::Stdio::piped())
                    .spawn()
                    .unwrap();
                (out, c)
            })
            .collect();
        for (out, c) in children {
            let o = c.wait_with_output().unwrap();
            let said = String::from_utf8_lossy(&o.stdout).into_owned();
            let text = std::fs::read_to_string(&out).unwrap_or_default();
            self.absorb(&text);
            let code = o.status.code();
            if code == Some(1) {
                if self.violations == 0 || text.is_empty() {
                    self.violations += 1;
                }
                if let Some(l) = said.lines().find(|l| l.starts_with("VIOLATION ")) {
                    if self.first_violation.is_none() || text.is_empty() {
                        if let Some(p) = l.split("replay=").nth(1) {
                            self.first_violation = Some(p.into());
                        }
                    }
                }
                for l in said.lines().filter(|l| !l.starts_with("VIOLATION ")).take(12) {
                    println!("{l}");
                }
            } else if code != Some(0) {
                let why = format!("a shard ended with {:?}: {}", o.status, said.lines().last().unwrap_or(""));
                self.inconclusive = Some(why);
            }
        }
        let _ = std::fs::remove_dir_all(&dir);
        self.finish()
    }
    /// Write evidence, print the verdict, and exit.
    pub fn finish(mut self) -> ! {
        if let Ok(path) = std::env::var("MON_SHARD") {
            self.dump(&path);
            for (k, v) in &self.foreign {
                println!("{}: note: {v} case(s) ended by a mismatch belonging to {k}", self.args.property);
            }
            if let Some(path) = &self.first_violation {
                println!("VIOLATION property={} replay={}", self.args.property, path.display());
                std::process::exit(1);
            }
            std::process::exit(0);
        }
        // This is one part of a check: the last part writes the evidence.
        if let Ok(path) = std::env::var("MON_PART") {
            self.dump(&path);
            println!(
                "{}: part: {} cases, {} distinct non-trivial, {} violations",
                self.args.property,
                self.evaluations,
                self.distinct.len(),
                self.violations
            );
            std::process::exit(match (&self.first_violation, &self.inconclusive) {
                (Some(path), _) => {
                    println!("VIOLATION property={} replay={}", self.args.property, path.display());
                    1
                }
                (None, Some(why)) => {
                    println!("{}: inconclusive: {why}", self.args.property);
                    3
                }
                _ => 0,
            });
        }
        // What other monitors of the same property saw before.
        for path in std::env::var("MON_ABSORB").unwrap_or_default().split(':').filter(|p| !p.is_empty()) {
            match std::fs::read_to_string(path) {
                Ok(text) => self.absorb(&text),
                Err(_) => self.assumptions.push(format!("part {path} did not run")),
            }
        }
        let mut j = String::new();
        let a = &self.args;
        j += "{\n";
        j += &format!(" \"property\": {},\n", js(&a.property));
        j += &format!(
            " \"tier\": \"{}\",\n",
            if a.thorough { "thorough" } else { "quick" }
        );
        j += &format!(" \"seed\": {},\n \"level\": \"exploration\",\n", a.seed);
        j += " \"coverage\": {\n";
        j += &format!("  \"evaluations\": {},\n", self.evaluations);
        j += &format!("  \"distinct_nontrivial\": {},\n", self.distinct.len());
        j += &format!("  \"rule\": {},\n", js(&self.rule));
        for (k, v) in &self.counters {
            j += &format!("  {}: {v},\n", js(&format!("observed: {k}")));
        }
        if !self.foreign.is_empty() {
            for (k, v) in &self.foreign {
                j += &format!(
                    "  {}: {v},\n",
                    js(&format!("cases ended early by a mismatch of other properties: {k}"))
                );
            }
        }
        j += &format!(
            "  \"samples\": [{}]\n }},\n",
            self.samples
                .iter()
                .map(|s| js(s))
                .collect::<Vec<_>>()
                .join(", ")
        );
        j += &format!(
            " \"assumptions\": [{}],\n",
            self.assumptions
                .iter()
                .map(|s| js(s))
                .collect::<Vec<_>>()
                .join(", ")
        );
        j += &format!(
            " \"violations\": {},\n \"wall_s\": {:.2}\n}}\n",
            self.violations,
            self.elapsed().max(self.other_wall)
        );
        if a.case.is_none() {
            let dir = a.dir.join("evidence");
            let _ = std::fs::create_dir_all(&dir);
            if let Err(e) = std::fs::write(dir.join(format!("{}.json", a.property)), j) {
                eprintln!("cannot write evidence: {e}");
                std::process::exit(2);
            }
        }
        println!(
            "{}: {} cases, {} distinct non-trivial, {} violations, {:.1} s",
            a.property,
            self.evaluations,
            self.distinct.len(),
            self.violations,
            self.elapsed()
        );
        for (k, v) in &self.foreign {
            println!("{}: note: {v} case(s) ended by a mismatch belonging to {k}", a.property);
        }
        if let Some(path) = &self.first_violation {
            println!("VIOLATION property={} replay={}", a.property, path.display());
            std::process::exit(1);
        }
        if let Some(why) = &self.inconclusive {
            println!("{}: inconclusive: {why}", a.property);
            std::process::exit(3);
        }
        // A run that observed nothing proves nothing.
        if a.case.is_none() && self.distinct.len() < 2 && self.foreign.is_empty() {
            println!("{}: inconclusive: nothing observed", a.property);
            std::process::exit(3);
        }
        std::process::exit(0);
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\r' => o += "\\r",
            '\t' => o += "\\t",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
