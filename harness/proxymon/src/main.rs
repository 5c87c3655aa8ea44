//! Monitors for the proxy: mock clients and mock servers around the real proxy process.
mod closing;
mod crowd;
mod ep;
mod hostile;
mod leftovers;
#[path = "../../common/marker.rs"]
mod marker;
mod quiet;
mod secrets;
mod secure;
mod session;
mod slow;
mod startup;
mod world;
#[allow(dead_code)]
#[path = "../../core/src/gen.rs"]
mod gen;
#[allow(dead_code)]
#[path = "../../core/src/scan.rs"]
mod scan;

use std::sync::Arc;

use ep::Close;
use mon_common::{mismatch, Args, Mismatch, Report, Rng};
use session::{Profile, Session, Stats};
use world::World;

/// What one case saw.
pub struct Outcome {
    pub result: Result<(), Mismatch>,
    pub log: String,
    pub signature: u64,
    pub nontrivial: bool,
    pub counts: Vec<(String, u64)>,
}

impl Outcome {
    pub fn of(sessions: &[&Session], result: Result<(), Mismatch>) -> Self {
        let mut counts: Vec<(String, u64)> = vec![];
        let mut log = String::new();
        let mut n = 0;
        for s in sessions {
            for (k, v) in s.stats.fields() {
                counts.push((k.to_owned(), v));
            }
            n += s.stats.commands + s.stats.responses;
            log += &s.log.join("\n");
            log += "\n--\n";
        }
        counts.push(("sessions".into(), sessions.len() as u64));
        Self { result, signature: mon_common::hash_of(&log), log, nontrivial: n >= 3, counts }
    }
}

fn close_kind(rng: &mut Rng) -> Close {
    *rng.pick(&[Close::Fin, Close::NotifyFin, Close::NotifyOnly, Close::Full])
}

fn plain_profile(property: &str, rng: &mut Rng) -> Profile {
    let mut p = Profile::default();
    match property {
        "P02" => {
            p.caps = 80;
            p.items = [50, 25, 25, 0];
            p.chatter = 40;
            p.count = (1, 8);
            if rng.chance(20) {
                p.continuations = true;
            }
        }
        "P03" => {
            p.literals = 80;
            p.nonsync = 15;
            p.reject = *rng.pick(&[0, 30, 60, 100]);
            p.items = [74, 6, 6, 14];
            p.count = (1, 10);
        }
        _ => {
            if rng.chance(8) {
                p.continuations = true;
            }
        }
    }
    if rng.chance(5) {
        p.max_literal = *rng.pick(&[4096, 20_000, 200_000]);
    }
    if p.continuations {
        // An unsolicited continuation request means something to a client that waits for one.
        p.items = [1, 0, 0, 0];
        p.nonsync = 100;
    }
    p
}

/// One proper session.
fn proper(property: &str, w: &World, rng: &mut Rng) -> Outcome {
    let service = rng.below(w.services.len());
    let p = plain_profile(property, rng);
    let ident = format!("id{:x}", rng.u64());
    let mut s = match Session::open(w, service, ident, p, rng) {
        Ok(s) => s,
        Err(m) => return Outcome::of(&[], Err(m)),
    };
    let mut result = s.run(w);
    // A second round, so that something follows on whatever happened before.
    if result.is_ok() && rng.chance(40) {
        s.add_items();
        result = s.run(w);
    }
    if result.is_ok() {
        result = s.finish(rng.chance(50), close_kind(rng));
    }
    Outcome::of(&[&s], result)
}

fn leaked(leaks: &[String]) -> Mismatch {
    mismatch!(["P08"], "the output of the proxy shows a secret or discarded bytes ({} lines), {}", leaks.len(), leaks[0])
}

fn main() {
    mon_common::install_panic_hook();
    let args = Args::parse();
    let property = args.property.clone();
    let thorough = args.thorough;
    let rule = match property.as_str() {
        "P01" | "P02" | "P03" => "a proper session in which at least three messages passed the proxy",
        "P09" => "a start of the proxy with at least one service; distinct plans",
        "P08" => "a case in which at least one secret went to the proxy; distinct logs",
        "P04" => "a case in which at least one proper session ran next to hostile peers that sent something; distinct logs",
        "P10" => "a batch of at least two connections that all ended; distinct = different sequences of endings",
        "P06" => "a case in which at least three messages passed the proxy before one side closed; distinct logs",
        _ => "a case with at least one connection to an endpoint that is configured for TLS; distinct scenarios and logs",
    };
    // (P01 leaves some connections alone for longer than usual timeouts.)
    let budget = args.budget.unwrap_or(match (thorough, property.as_str()) {
        (true, _) => 300.0,
        (_, "P01") => 34.0,
        _ => 14.0,
    });
    let mut report = Report::new(args, rule);
    report.assumptions.push("messages are well-formed when the stand-in codec decodes their encoding back to them".into());
    let mut report = report.shard(8);
    let only = report.args.case;
    let mut setup = Rng::for_case(report.args.seed, "world", std::process::id() as u64);
    if property == "P09" {
        let mut case = only.unwrap_or(0);
        loop {
            let mut rng = Rng::for_case(report.args.seed, "P09", case);
            let o = startup::case(&mut rng);
            for (k, v) in &o.counts {
                report.count(k, *v);
            }
            report.case(o.signature, o.nontrivial);
            report.sample(|| o.log.clone());
            if let Err(m) = &o.result {
                report.mismatch(m, case, &o.log);
                if report.violations >= 3 {
                    break;
                }
            }
            case += 1;
            if only.is_some() || report.elapsed() > budget {
                break;
            }
        }
        report.count("proxy processes", case);
        report.finish();
    }
    let secret = (property == "P08").then(|| Arc::new(marker::Marker::new(&mut setup)));
    let log = (report.args.seed / 1_000_000) % 2 == 1;
    if property == "P10" {
        // (The proxy inherits this. Freed memory is given back early so that its size says something.)
        std::env::set_var("MALLOC_ARENA_MAX", "1");
        std::env::set_var("MALLOC_MMAP_THRESHOLD_", "65536");
        std::env::set_var("MALLOC_TRIM_THRESHOLD_", "65536");
    }
    let mut w = match World::start(&mut setup, log, matches!(property.as_str(), "P07" | "P10"), secret.clone()) {
        Ok(w) => w,
        Err(e) => {
            report.inconclusive = Some(e);
            report.finish();
        }
    };
    let mut case = only.unwrap_or(0);
    let files = w.files();
    if property == "P04" && only.map_or(true, |c| c == crowd::CASE) {
        let mut rng = Rng::for_case(report.args.seed, "crowd", 0);
        let o = crowd::case(&mut w, &mut rng);
        for (k, v) in &o.counts {
            report.count(k, *v);
        }
        report.case(o.signature, o.nontrivial);
        if let Err(m) = &o.result {
            std::thread::sleep(std::time::Duration::from_millis(200));
            report.mismatch(m, crowd::CASE, &format!("{}\nlast output of the proxy:\n{}", o.log, w.log()));
        }
        if only.is_some() || report.violations > 0 {
            report.count("proxy processes", 1);
            drop(w);
            report.finish();
        }
    }
    let some = thorough || report.args.seed / 1_000_000 % 8 < 4;
    if property == "P10" && only.map_or(some, |c| c == leftovers::CASE) {
        let mut rng = Rng::for_case(report.args.seed, "many", 0);
        let o = leftovers::many(&mut w, files, if thorough { 60 } else { 10 }, &mut rng);
        for (k, v) in &o.counts {
            report.count(k, *v);
        }
        report.case(o.signature, o.nontrivial);
        report.sample(|| o.log.clone());
        if let Err(m) = &o.result {
            report.mismatch(m, leftovers::CASE, &format!("{}\nlast output of the proxy:\n{}", o.log, w.log()));
        }
    }
    let mut slow = None;
    let shard = report.args.seed / 1_000_000 % 8;
    if property == "P06" && shard < 2 && only.map_or(true, |c| c == slow::CASE) {
        match slow::open(&w, shard == 1, &mut setup) {
            Ok(s) => slow = s,
            Err(m) => {
                report.mismatch(&m, slow::CASE, "before a slow reader");
            }
        }
    }
    if property == "P03" && shard == 0 && only.map_or(true, |c| c == slow::CASE) {
        report.count("literals of exactly the largest size", 1);
        if let Err(m) = slow::largest(&w, &mut setup) {
            report.mismatch(&m, slow::CASE, &w.log());
        }
    }
    let mut quiet = vec![];
    if only.is_none() && matches!(property.as_str(), "P01" | "P04") {
        match quiet::open(&w, property == "P01", &mut setup) {
            Ok(q) => quiet = q,
            Err(m) => {
                report.mismatch(&m, 0, "while connections were opened");
            }
        }
    }
    while !matches!(case, slow::CASE | leftovers::CASE) {
        let mut rng = Rng::for_case(report.args.seed, &property, case);
        let mut o = match property.as_str() {
            "P06" => closing::case(&w, &mut rng),
            "P04" => hostile::case(&w, &mut rng),
            "P07" => secure::case(&w, &mut rng),
            "P10" => leftovers::case(&mut w, files, &mut rng),
            "P08" => secrets::case(&w, &secret.as_ref().unwrap().text, &mut rng),
            _ => proper(&property, &w, &mut rng),
        };
        // The process as a whole
        for p in w.new_panics() {
            let before = match &o.result {
                Err(m) => format!(" ({})", m.what),
                Ok(()) => String::new(),
            };
            let mut props = vec!["P04"];
            if let Err(m) = &o.result {
                props.extend(m.props.iter().filter(|x| **x != "P04"));
            }
            o.result = Err(Mismatch { props, what: format!("the proxy panicked: {p}{before}") });
        }
        let leaks = w.new_leaks();
        if !leaks.is_empty() {
            o.log += &format!("\noutput:\n{}", leaks.join("\n"));
            o.result = Err(leaked(&leaks));
        }
        if let Some(x) = w.exited() {
            o.result = Err(mismatch!(["P01", "P02", "P03", "P04", "P06", "P07", "P08"], "the proxy process ended: {x}\n{}", w.log()));
        }
        for (k, v) in &o.counts {
            report.count(k, *v);
        }
        report.case(o.signature, o.nontrivial);
        if o.nontrivial {
            report.sample(|| o.log.clone());
        }
        if let Err(m) = &o.result {
            // (Its last words may still be on their way.)
            std::thread::sleep(std::time::Duration::from_millis(200));
            let log = format!("{}\nlast output of the proxy:\n{}", o.log, w.log());
            report.mismatch(m, case, &log);
            let dead = w.exited().is_some();
            if report.violations >= 3 || dead {
                break;
            }
            w.discard_connections();
        }
        case += 1;
        if only.is_some() || report.elapsed() > budget {
            break;
        }
    }
    if let Some(s) = slow.filter(|_| report.violations == 0) {
        report.count("readers that were slow for more than half a minute", 1);
        if let Err(m) = slow::done(s) {
            report.mismatch(&m, slow::CASE, &w.log());
        }
    }
    if report.violations == 0 && w.exited().is_none() {
        for q in quiet {
            let o = quiet::resume(&w, q, &mut setup);
            for (k, v) in &o.counts {
                report.count(k, *v);
            }
            report.case(o.signature, o.nontrivial);
            if let Err(m) = &o.result {
                report.mismatch(m, case, &format!("{}\nlast output of the proxy:\n{}", o.log, w.log()));
                break;
            }
        }
        for p in w.new_panics() {
            report.mismatch(&mismatch!(["P04"], "the proxy panicked: {p}"), case, &w.log());
        }
    }
    if property == "P08" {
        // (The last connections may still write something.)
        std::thread::sleep(std::time::Duration::from_millis(500));
        let leaks = w.new_leaks();
        if !leaks.is_empty() && report.violations == 0 {
            report.mismatch(&leaked(&leaks), case.saturating_sub(1), &leaks.join("\n"));
        }
        let s = w.said.lock().unwrap();
        report.count("lines of output searched for the secret", s.searched);
        report.count("lines of output with something redacted", s.redacted);
    }
    if property == "P04" && report.violations == 0 && w.exited().is_none() {
        match hostile::aftermath(&mut w, files) {
            Ok(_) => report.count("proxies without open connections and at rest at the end", 1),
            Err(m) => {
                report.mismatch(&m, case, &w.log());
            }
        }
    }
    report.count("log records of the proxy", w.said.lock().unwrap().lines);
    report.count("proxy processes", 1);
    drop(w);
    let _ = Stats::default();
    report.finish();
}
