//! C18: tags are valid, unique in the process and, in release builds, unguessable.
//!
//! The program is built twice. Nothing depends on how a tag is composed: the random part is found
//! by comparing the tags of many runs of one deterministic program.
use std::{
    collections::{BTreeMap, BTreeSet, HashMap, HashSet},
    process::Command,
    sync::atomic::{AtomicBool, Ordering},
};

use imap_types::core::Tag;
use mon_common::{guard, hash_of, Args, Report, Rng};
use tag_generator::TagGenerator;

const RELEASE: bool = !cfg!(debug_assertions);

fn valid(t: &str) -> Result<(), String> {
    let ok = !t.is_empty()
        && t.bytes().all(|c| c > 0x20 && c < 0x7f && !b"(){%*\"\\+".contains(&c));
    if !ok {
        return Err(format!("tag {t:?} is not a valid IMAP tag"));
    }
    if Tag::try_from(t.to_owned()).is_err() {
        return Err(format!("tag {t:?} is refused by Tag::try_from"));
    }
    Ok(())
}

fn text(t: &Tag<'_>) -> String {
    t.as_ref().to_owned()
}

/// What `emit` prints: a deterministic use of several generators.
fn emit() -> Vec<String> {
    let mut v = vec![];
    let mut a = TagGenerator::new();
    let mut b = TagGenerator::new();
    for _ in 0..20 {
        v.push(text(&a.generate()));
    }
    for _ in 0..20 {
        v.push(text(&b.generate()));
        v.push(text(&a.generate()));
    }
    for _ in 0..20 {
        v.push(text(&TagGenerator::new().generate()));
    }
    v
}

/// Tags of every size of process: every tag in a window is kept, the rest is only made.
struct Seen(HashMap<Box<str>, u64>);

impl Seen {
    fn add(&mut self, t: &str, n: u64) -> Result<(), String> {
        valid(t)?;
        if let Some(m) = self.0.insert(t.into(), n) {
            return Err(format!("tag {t:?} was generated twice (as number {m} and {n})"));
        }
        Ok(())
    }
}

fn racing(rng: &mut Rng, rounds: u64, all: &mut HashSet<Box<str>>) -> Result<(u64, Vec<u64>), String> {
    let (mut count, mut sig) = (0, vec![]);
    for _ in 0..rounds {
        let n = rng.range(2, 8);
        let gens = rng.range(20, 3000);
        let per = rng.range(1, 5);
        let go = AtomicBool::new(false);
        let tags: Vec<Result<Vec<String>, String>> = std::thread::scope(|s| {
            let js: Vec<_> = (0..n)
                .map(|_| {
                    let go = &go;
                    s.spawn(move || {
                        while !go.load(Ordering::Acquire) {
                            std::hint::spin_loop();
                        }
                        guard(|| {
                            let mut v = vec![];
                            for _ in 0..gens {
                                let mut g = TagGenerator::new();
                                for _ in 0..per {
                                    v.push(text(&g.generate()));
                                }
                            }
                            v
                        })
                    })
                })
                .collect();
            go.store(true, Ordering::Release);
            js.into_iter().map(|j| j.join().unwrap()).collect()
        });
        for (i, v) in tags.into_iter().enumerate() {
            let v = v.map_err(|p| format!("panic while generating tags: {p}"))?;
            sig.push(hash_of(&(i, &v[..v.len().min(40)])));
            for t in v {
                valid(&t)?;
                count += 1;
                if all.contains(t.as_str()) {
                    return Err(format!("tag {t:?} was generated twice ({n} threads)"));
                }
                all.insert(t.into());
            }
        }
    }
    Ok((count, sig))
}

/// The random part: positions (from the end) that differ between runs of the same program.
fn unguessable(runs: usize) -> Result<(u64, f64, u64), String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut all: Vec<Vec<Vec<u8>>> = vec![];
    for _ in 0..runs {
        let o = Command::new(&exe).arg("emit").output().map_err(|e| e.to_string())?;
        let v: Vec<Vec<u8>> = String::from_utf8_lossy(&o.stdout).lines().map(|l| l.bytes().rev().collect()).collect();
        if v.is_empty() || !o.status.success() {
            return Err(format!("a process that generates tags ended with {:?}: {}", o.status, String::from_utf8_lossy(&o.stderr)));
        }
        all.push(v);
    }
    let count = all[0].len();
    let mut pooled: BTreeMap<usize, BTreeSet<u8>> = BTreeMap::new();
    let mut tokens: Vec<Vec<Vec<u8>>> = vec![vec![]; runs];
    let mut spread = 0.0;
    // What is left of the tags of one run without the random part
    let mut rests: HashMap<Vec<u8>, usize> = HashMap::new();
    let mut same_rest = None;
    for i in 0..count {
        let longest = all.iter().map(|r| r[i].len()).max().unwrap();
        let mut positions = vec![];
        for p in 0..longest {
            let values: BTreeSet<Option<u8>> = all.iter().map(|r| r[i].get(p).copied()).collect();
            let letters = values.iter().flatten().filter(|c| c.is_ascii_alphanumeric()).count();
            if letters >= 8 {
                positions.push(p);
                pooled.entry(p).or_default().extend(values.into_iter().flatten());
            }
        }
        if positions.len() < 8 {
            let a = String::from_utf8(all[0][i].iter().rev().copied().collect()).unwrap();
            let b = String::from_utf8(all[1][i].iter().rev().copied().collect()).unwrap();
            return Err(format!(
                "in a release build, tag {i} of {runs} runs has {} characters that differ from run to run (at least 8 must): {a:?}, {b:?}",
                positions.len()
            ));
        }
        let rest: Vec<u8> = all[0][i].iter().enumerate().filter(|(p, _)| !positions.contains(p)).map(|x| *x.1).rev().collect();
        if let Some(j) = rests.insert(rest, i) {
            same_rest = Some((j, i));
        }
        for (r, t) in tokens.iter_mut().enumerate() {
            let token: Vec<u8> = positions.iter().filter_map(|p| all[r][i].get(*p).copied()).collect();
            let mut d = token.clone();
            d.sort();
            d.dedup();
            spread += d.len() as f64 / token.len() as f64;
            t.push(token);
        }
    }
    // Bits per position, as far as `runs * count` samples show them
    let bits: f64 = pooled.values().map(|v| (v.iter().filter(|c| c.is_ascii_alphanumeric()).count() as f64).log2()).sum();
    if bits < 42.0 {
        return Err(format!("in a release build, the random part of tags takes at most 2^{bits:.1} values (8 alphanumeric characters take 2^47.6)"));
    }
    if let (Some((i, j)), true) = (same_rest, bits < 100.0) {
        let t = |i: usize| String::from_utf8(all[0][i].iter().rev().copied().collect()).unwrap();
        return Err(format!(
            "in a release build, only {bits:.0} random bits distinguish tag {:?} from tag {:?} of one process: among some ten million tags equal ones are likely",
            t(i), t(j)
        ));
    }
    spread /= (runs * count) as f64;
    if spread < 0.75 {
        return Err(format!("in a release build, the characters of the random part repeat ({spread:.2} distinct per character)"));
    }
    let mut seen: HashMap<Vec<u8>, (usize, usize)> = HashMap::new();
    for (r, ts) in tokens.iter().enumerate() {
        for (i, t) in ts.iter().enumerate() {
            if let Some((r2, i2)) = seen.insert(t[..8].to_vec(), (r, i)) {
                return Err(format!(
                    "in a release build, the random parts of tag {i} of run {r} and of tag {i2} of run {r2} are equal: {:?}",
                    String::from_utf8_lossy(t)
                ));
            }
        }
    }
    Ok(((runs * count) as u64, bits, seen.len() as u64))
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("emit") {
        for t in emit() {
            println!("{t}");
        }
        return;
    }
    mon_common::install_panic_hook();
    let args = Args::parse();
    let thorough = args.thorough;
    let seed = args.seed;
    let mut report = Report::new(
        args,
        "a case counts when it generated tags that were compared with all others of the process (distinct groups), or is one run of the deterministic program in a release build",
    );
    if std::env::var("MON_MERGE").is_ok() {
        report.finish();
    }
    let build = if RELEASE { "release" } else { "debug" };
    // One process-wide set; the first tags come from deterministic use.
    let mut all: HashSet<Box<str>> = HashSet::new();
    let mut rng = Rng::new(seed);
    let r = (|| {
        for t in guard(emit).map_err(|p| format!("panic while generating tags: {p}"))? {
            valid(&t)?;
            if !all.insert(t.clone().into()) {
                return Err(format!("tag {t:?} was generated twice"));
            }
        }
        let (n, sig) = racing(&mut rng, if thorough { 300 } else { 20 }, &mut all)?;
        report.count(&format!("{build} build: tags of racing threads"), n);
        for s in sig {
            report.case(s, true);
        }
        // One long-lived generator
        let total: u64 = if thorough && !RELEASE { (1 << 32) + 100_000 } else { 1 << 24 };
        let kept = guard(|| {
            let mut g = TagGenerator::new();
            let mut seen = Seen(HashMap::new());
            for i in 0..total {
                let t = g.generate();
                let b = 63 - (i + 64).leading_zeros() as u64;
                let near = i < 100_000 || i.abs_diff(1 << b) < 64 || i.abs_diff(2 << b) < 64 || i >= total - 100_000 || i % (1 << 16) == 77;
                if near {
                    seen.add(t.as_ref(), i)?;
                    if all.contains(t.as_ref()) {
                        return Err(format!("tag {t:?} was generated twice"));
                    }
                }
            }
            Ok(seen)
        })
        .map_err(|p| format!("panic while generating tags: {p}"))??;
        report.count(&format!("{build} build: tags of one generator"), total);
        report.case(hash_of(&("one", kept.0.len())), true);
        all.extend(kept.0.into_keys());
        // Very many generators. Only some of them generate tags.
        let total: u64 = if RELEASE { 1 << 20 } else { (1 << 32) + 200_000 };
        let mut made = 0;
        guard(|| {
            for i in 0..total {
                let mut g = TagGenerator::new();
                if i >= total - 190_000 || i % (1 << 16) < 16 || i < 100_000 {
                    for _ in 0..2 {
                        let t = text(&g.generate());
                        made += 1;
                        valid(&t)?;
                        if !all.insert(t.clone().into()) {
                            return Err(format!("tag {t:?} of generator number {i} was generated before"));
                        }
                    }
                }
            }
            Ok(())
        })
        .map_err(|p| format!("panic while generating tags: {p}"))??;
        report.count(&format!("{build} build: generators"), total);
        report.count(&format!("{build} build: tags of very many generators"), made);
        report.case(hash_of(&("many", made)), true);
        if RELEASE {
            let runs = if thorough { 400 } else { 60 };
            let (n, bits, tokens) = unguessable(runs)?;
            report.count("release build: tags compared across runs", n);
            report.count("release build: bits of the random part seen", bits as u64);
            for i in 0..runs {
                report.case(hash_of(&("run", i)), true);
            }
            report.count("release build: distinct random parts", tokens);
        }
        report.sample(|| format!("{build} build: {:?}", &emit()[15..30]));
        Ok::<(), String>(())
    })();
    if let Err(e) = r {
        report.violation(&e, 0, &format!("{e}\n(the whole run is deterministic apart from thread timing and the random part)"));
    }
    report.finish()
}
