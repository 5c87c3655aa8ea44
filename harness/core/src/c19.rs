//! C19: secrets and discarded bytes never appear in representations or log records.
use mon_common::{hash_of, mismatch, show, Mismatch, Rng};

use crate::{
    capture::{Capture, Marker, RECORDS},
    drive::{CliDriver, CliProfile, SrvDriver, SrvProfile},
    Seen,
};

fn search(m: &Marker, texts: &[String], what: &str) -> Result<(), Mismatch> {
    for t in texts {
        if let Some(form) = m.find(t) {
            return Err(mismatch!(["C19"], "a secret ({:?}) shows up as {form} in this {what}: {}", m.text, show(t.as_bytes())));
        }
    }
    Ok(())
}

pub fn case(rng: &mut Rng) -> Seen {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        let _ = tracing::subscriber::set_global_default(Capture);
    });
    RECORDS.lock().unwrap().clear();
    let marker = Marker::new(rng);
    let mut counts;
    let (texts, log, result, trace, secrets);
    if rng.chance(50) {
        let mut p = SrvProfile { wild: 25, lf: 10, break_replies: 0, small_limits: rng.chance(50), ..Default::default() };
        p.segments = [40, 25, 12, 15, 0, 0, 0];
        let mut d = SrvDriver::new(Rng::new(rng.u64()), p);
        d.g.marker = Some(marker.text.clone());
        let mut m = None;
        d.keep_texts = true;
        let r = d.run(&mut m);
        let Some(m) = m else { return Seen { signature: 0, nontrivial: false, counts: vec![], log: String::new(), result: r } };
        let c = |k: &str| m.counts.get(k).copied().unwrap_or(0);
        secrets = c("input: AUTHENTICATE") + c("input: authenticate data") + c("input: malformed error") + c("input: bare-LF error")
            + c("input: command") + c("input: command-too-long error");
        log = m.log_text();
        trace = hash_of(&m.trace);
        texts = m.texts.unwrap_or_default();
        result = r;
        counts = vec![("server representations searched".to_owned(), texts.len() as u64)];
    } else {
        let mut p = CliProfile { wild: 30, lf: 8, ..Default::default() };
        p.commands = [50, 40, 10];
        p.peer = [50, 10, 8, 10, 6, 6, 10, 0];
        let mut d = CliDriver::new(Rng::new(rng.u64()), p);
        d.g.marker = Some(marker.text.clone());
        let mut m = None;
        d.keep_texts = true;
        let r = d.run(&mut m);
        let Some(m) = m else { return Seen { signature: 0, nontrivial: false, counts: vec![], log: String::new(), result: r } };
        let c = |k: &str| m.counts.get(k).copied().unwrap_or(0);
        secrets = c("final report: sent") + c("malformed error") + c("bare-LF error") + c("report: authenticate started");
        log = m.log_text();
        trace = hash_of(&m.trace);
        texts = m.texts.unwrap_or_default();
        result = r;
        counts = vec![("client representations searched".to_owned(), texts.len() as u64)];
    }
    let records = std::mem::take(&mut *RECORDS.lock().unwrap());
    counts.push(("log records searched".into(), records.len() as u64));
    counts.push(("secrets and discards in play".into(), secrets));
    let result = search(&marker, &texts, "representation").and_then(|_| search(&marker, &records, "log record")).and(result);
    Seen { signature: trace, nontrivial: secrets > 0 && !texts.is_empty(), counts, log, result }
}
