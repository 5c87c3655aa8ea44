//! core-mon: runtime monitors for the sans-I/O client and server.
#![allow(dead_code, unused_assignments, mismatched_lifetime_syntaxes)]
mod c01;
mod c16;
mod c16_users;
mod c17;
mod c19;
#[path = "../../common/capture.rs"]
mod capture;
mod c20;
mod c21;
mod heap;
mod client_mon;
mod drive;
mod gen;
mod scan;
mod server_mon;

#[global_allocator]
static HEAP: heap::Counting = heap::Counting;

use client_mon::CliMon;
use drive::{CliDriver, CliProfile, SrvDriver, SrvProfile};
use mon_common::{hash_of, install_panic_hook, set_current, start_wedge_watchdog, Args, Mismatch, Report, Rng};
use server_mon::SrvMon;

/// What one case observed.
pub struct Seen {
    pub signature: u64,
    pub nontrivial: bool,
    pub counts: Vec<(String, u64)>,
    pub log: String,
    pub result: Result<(), Mismatch>,
}

fn srv_profile(property: &str, rng: &mut Rng) -> SrvProfile {
    let mut p = SrvProfile::default();
    match property {
        "C02" => p.segments = [35, 16, 16, 10, 8, 6, 10],
        "C03" => {
            p.segments = [18, 10, 10, 30, 20, 6, 6];
            p.wild = 60;
            p.break_replies = 40;
            p.lf = 10;
        }
        "C04" => {
            p.lf = 35;
            p.relaxed = 50;
            p.segments = [45, 14, 14, 10, 4, 3, 10];
            p.small_limits = rng.chance(30);
        }
        "C05" => {
            p.segments = [15, 12, 12, 14, 3, 50, 14];
            p.lf = 1;
            p.break_replies = 30;
        }
        "C06" => {
            p.segments = [40, 4, 4, 3, 2, 10, 40];
            p.literals = 85;
            p.nonsync = 35;
            p.lf = 1;
            p.actions = [35, 40, 25];
        }
        "C12" => {
            p.actions = [20, 35, 45];
            p.segments = [40, 10, 10, 4, 3, 3, 30];
        }
        "C13" => {
            p.segments = [12, 70, 6, 6, 3, 3, 3];
            p.wild = 40;
            p.break_replies = 20;
        }
        "C14" => {
            p.segments = [12, 6, 70, 6, 3, 3, 3];
            p.wild = 40;
            p.break_replies = 20;
        }
        "C15" => {
            p.actions = [35, 35, 30];
            p.segments = [40, 10, 10, 5, 4, 5, 30];
        }
        _ => {}
    }
    // Now and then everything is big
    if rng.chance(1) {
        p.small_limits = false;
        p.max_literal_gen = *rng.pick(&[4_000, 9_999, 70_000, 150_000]);
        p.steps = 25;
    }
    p
}

fn cli_profile(property: &str, rng: &mut Rng) -> CliProfile {
    let mut p = CliProfile::default();
    match property {
        "C03" => {
            p.peer = [25, 8, 6, 8, 8, 8, 20, 20];
            p.wild = 60;
            p.lf = 10;
        }
        "C04" => {
            p.lf = 35;
            p.peer = [40, 25, 10, 6, 4, 4, 6, 4];
        }
        "C07" => {
            p.commands = [92, 4, 4];
            p.literals = 85;
            p.peer = [50, 8, 6, 12, 10, 10, 2, 2];
        }
        "C08" => {
            p.commands = [60, 20, 20];
            p.actions = [25, 35, 30, 10];
        }
        "C09" => {
            p.commands = [15, 80, 5];
            p.actions = [12, 35, 28, 25];
            p.peer = [50, 8, 6, 14, 8, 10, 2, 3];
        }
        "C10" => {
            p.commands = [15, 5, 80];
            p.actions = [12, 35, 28, 25];
            p.peer = [50, 8, 6, 14, 8, 10, 2, 3];
        }
        "C11" => p.peer = [30, 26, 14, 14, 10, 8, 2, 3],
        _ => {}
    }
    if rng.chance(1) {
        p.max_literal_gen = *rng.pick(&[4_000, 70_000, 150_000]);
        p.steps = 30;
    }
    p
}

fn run_server(property: &str, rng: &mut Rng) -> Seen {
    let p = srv_profile(property, rng);
    let mut d = SrvDriver::new(Rng::new(rng.u64()), p);
    let mut m: Option<SrvMon> = None;
    let result = d.run(&mut m);
    match m {
        None => Seen { signature: 0, nontrivial: false, counts: vec![], log: String::new(), result },
        Some(m) => {
            let c = |k: &str| m.counts.get(k).copied().unwrap_or(0);
            let inputs: u64 = m.counts.iter().filter(|(k, _)| k.starts_with("input: ")).map(|(_, v)| *v).sum();
            let nontrivial = match property {
                "C02" => inputs >= 2,
                "C03" => c("input: malformed error") + c("input: bare-LF error") > 0,
                "C04" => c("input: bare-LF error") > 0 || (m.opts.relaxed && inputs > 0),
                "C05" => c("input: command-too-long error") > 0,
                "C06" => c("synchronizing literal announced") + c("output: literal reject") + c("input: literal-too-long error") > 0,
                "C12" => c("report: response sent") >= 2,
                "C13" => c("input: AUTHENTICATE") > 0,
                "C14" => c("input: IDLE") > 0,
                _ => inputs + c("report: response sent") > 0,
            };
            Seen {
                signature: hash_of(&(&m.trace, m.opts.relaxed, m.opts.max_command, m.opts.max_literal)),
                nontrivial,
                counts: m.counts.iter().map(|(k, v)| (format!("server {k}"), *v)).collect(),
                log: m.log_text(),
                result,
            }
        }
    }
}

fn run_client(property: &str, rng: &mut Rng) -> Seen {
    let p = cli_profile(property, rng);
    let mut d = CliDriver::new(Rng::new(rng.u64()), p);
    let mut m: Option<CliMon> = None;
    let result = d.run(&mut m);
    match m {
        None => Seen { signature: 1, nontrivial: false, counts: vec![], log: String::new(), result },
        Some(m) => {
            let c = |k: &str| m.counts.get(k).copied().unwrap_or(0);
            let responses: u64 = m.counts.iter().filter(|(k, _)| k.starts_with("response: ")).map(|(_, v)| *v).sum();
            let nontrivial = match property {
                "C03" => c("malformed error") + c("bare-LF error") > 0,
                "C04" => c("bare-LF error") > 0 || (!m.is_strict() && responses > 0),
                "C07" => c("literal announced") > 0,
                "C08" => m.finals >= 2,
                "C09" => c("report: authenticate started") > 0,
                "C10" => c("report: idle sent") > 0,
                _ => responses >= 2,
            };
            Seen {
                signature: hash_of(&(&m.trace, m.is_strict())),
                nontrivial,
                counts: m.counts.iter().map(|(k, v)| (format!("client {k}"), *v)).collect(),
                log: m.log_text(),
                result,
            }
        }
    }
}

fn main() {
    install_panic_hook();
    let args = Args::parse();
    let property = args.property.clone();
    if args.case.is_some() || std::env::var("MON_SHARD").is_ok() || property == "C17" {
    start_wedge_watchdog(
        &property,
        args.dir.clone(),
        &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16"],
    );
    }
    let (server, client, rule) = match property.as_str() {
        "C02" => (true, true, "a case counts when at least two messages/errors were received; distinct = different abstract traces (kinds and sizes of items, outputs, reports, call results)"),
        "C03" => (true, true, "a case counts when hostile bytes led to at least one error; distinct abstract traces"),
        "C04" => (true, true, "a case counts when a bare-LF error occurred or relaxed mode delivered input; distinct abstract traces"),
        "C05" => (true, false, "a case counts when the command size limit was hit; distinct abstract traces with limits"),
        "C06" => (true, false, "a case counts when a literal was announced; distinct abstract traces with limits"),
        "C07" => (false, true, "a case counts when the client announced a synchronizing literal; distinct abstract traces"),
        "C08" => (false, true, "a case counts when at least two commands got their final report; distinct abstract traces"),
        "C09" => (false, true, "a case counts when AUTHENTICATE was started; distinct abstract traces"),
        "C10" => (false, true, "a case counts when IDLE was sent; distinct abstract traces"),
        "C11" => (false, true, "a case counts when at least two responses were delivered; distinct abstract traces"),
        "C12" => (true, false, "a case counts when at least two responses were reported as sent; distinct abstract traces"),
        "C13" => (true, false, "a case counts when AUTHENTICATE was received; distinct abstract traces"),
        "C14" => (true, false, "a case counts when IDLE was received; distinct abstract traces"),
        "C15" => (true, true, "a case counts when messages were exchanged; distinct abstract traces"),
        "C01" => (false, false, "a case is one byte stream run under many cuts; it counts when it has at least two events and its cuts were compared; distinct event traces"),
        "C16" => (false, false, "a case counts when at least two messages crossed in each direction; distinct abstract traces of both sides"),
        "C17" => (false, false, "a case is a group of clients and servers on several threads; it counts when more than one thread and instance created handles; distinct sizes"),
        "C19" => (false, false, "a case counts when at least one secret or discard was in play and representations were searched; distinct abstract traces"),
        "C20" => (false, false, "a case counts when a text was set and used, or refused; distinct texts"),
        "C21" => (false, false, "a case is a client or a server that goes through many equal rounds and then gets something hostile; it counts when something happened in each round; distinct sizes"),
        other => {
            eprintln!("unknown property {other}");
            std::process::exit(2);
        }
    };
    let mut report = Report::new(args, rule);
    let shards = if property == "C17" { 1 } else { 8 };
    report.assumptions.push("codec is the stand-in of /verif/standins".into());
    let mut report = report.shard(shards);
    let budget = report.args.budget.unwrap_or(if report.args.thorough { 600.0 } else { 10.0 });
    let first = report.args.case.unwrap_or(0);
    let last = report.args.case.map_or(u64::MAX, |c| c + 1);
    let mut case = first;
    while case < last && (report.elapsed() < budget || case < first + 200 && report.elapsed() < 8.0 * budget) {
        set_current(format!("property {property} seed {} case {case}", report.args.seed));
        let mut rng = Rng::for_case(report.args.seed, &property, case);
        let seen = match property.as_str() {
            "C01" => c01::case(&mut rng, case),
            // (Half of them without the reference monitors, whose complaints would come first)
            "C16" if case % 2 == 1 => c16_users::case(&mut rng),
            "C16" => c16::case(&mut rng),
            "C17" => c17::case(&mut rng),
            "C19" => c19::case(&mut rng),
            "C20" => c20::case(&mut rng, case),
            "C21" => c21::case(&mut rng),
            _ => {
                if server && (!client || case % 2 == 0) {
                    // (Each of the special cases in one shard, they take time)
                    let special = if case < 40 && case % 8 == report.args.seed / 1_000_000 % 8 { special(&property, case) } else { None };
                    if let Some(s) = special {
                        s
                    } else {
                        run_server(&property, &mut rng)
                    }
                } else {
                    run_client(&property, &mut rng)
                }
            }
        };
        report.case(seen.signature, seen.nontrivial);
        for (k, v) in &seen.counts {
            report.count(k, *v);
        }
        if seen.nontrivial && case % 7 == 3 {
            report.sample(|| seen.log.clone());
        }
        if let Err(m) = &seen.result {
            if report.mismatch(m, case, &seen.log) {
                break;
            }
        }
        case += 1;
    }
    report.finish()
}

/// Fixed cases with the default options.
fn special(property: &str, case: u64) -> Option<Seen> {
    let result_of = |r: Result<(), Mismatch>, m: SrvMon| Seen {
        signature: case,
        nontrivial: true,
        counts: m.counts.iter().map(|(k, v)| (format!("server {k}"), *v)).collect(),
        log: m.log_text(),
        result: r,
    };
    match (property, case) {
        ("C04", 0) => {
            // The default is strict
            let strict = !imap_next::server::Options::default().crlf_relaxed
                && !imap_next::client::Options::default().crlf_relaxed;
            Some(Seen {
                signature: 0,
                nontrivial: true,
                counts: vec![("default options looked at".into(), 1)],
                log: String::new(),
                result: if strict { Ok(()) } else { Err(mon_common::mismatch!(["C04"], "the default line-ending policy is not strict")) },
            })
        }
        ("C05" | "C06", 0..=3) => {
            // Literals around the default limits
            let d = imap_next::server::Options::default();
            let n = d.max_literal_size as usize + [0, 1, 0, 1][case as usize];
            let plus = if case >= 2 { "+" } else { "" };
            let mut rng = Rng::new(case);
            let greeting = gen::Gen::new(Rng::new(1)).greeting();
            let opts = server_mon::SrvOpts {
                relaxed: false,
                max_literal: d.max_literal_size,
                max_command: d.max_command_size,
                accept: d.literal_accept_text().to_string(),
                reject: d.literal_reject_text().to_string(),
            };
            let mut m = match SrvMon::new(opts, greeting) {
                Ok(m) => m,
                Err(e) => return Some(Seen { signature: 0, nontrivial: false, counts: vec![], log: String::new(), result: Err(e) }),
            };
            let r = (|| {
                m.settle()?;
                m.feed(format!("a1 APPEND x {{{n}{plus}}}\r\n").as_bytes())?;
                m.settle()?;
                if n == d.max_literal_size as usize {
                    let mut left = n;
                    while left > 0 {
                        let k = rng.range(1, 8_000_000).min(left);
                        m.feed(&vec![b'm'; k])?;
                        m.settle()?;
                        left -= k;
                    }
                    m.feed(b"\r\n")?;
                    m.settle()?;
                }
                m.feed(b"a2 NOOP\r\n")?;
                m.settle()?;
                Ok(())
            })();
            Some(result_of(r, m))
        }
        ("C05", 4..=39) => {
            // Commands around large limits: all in one line, or with a literal
            let mut rng = Rng::new(case);
            let d = imap_next::server::Options::default();
            let k = (case - 4) as usize;
            let limit = match k % 6 {
                0 => 65_535,
                1 => 65_536,
                2 => 65_537,
                3 => rng.range(66_000, 131_071),
                4 => rng.range(131_072, 1 << 20),
                _ => d.max_command_size as usize,
            };
            let total = limit + [0, 1, 30][k / 6 % 3] - 1;
            let literal = k >= 18;
            let greeting = gen::Gen::new(Rng::new(1)).greeting();
            let opts = server_mon::SrvOpts {
                relaxed: false,
                max_literal: limit as u32,
                max_command: limit as u32,
                accept: d.literal_accept_text().to_string(),
                reject: d.literal_reject_text().to_string(),
            };
            let mut m = match SrvMon::new(opts, greeting) {
                Ok(m) => m,
                Err(e) => return Some(Seen { signature: 0, nontrivial: false, counts: vec![], log: String::new(), result: Err(e) }),
            };
            let r = (|| {
                m.settle()?;
                let mut bytes = b"a1 LOGIN ".to_vec();
                // The literal has to be smaller than the limit even if the command is not
                bytes.resize(if literal { 300 } else { 10 }, b'u');
                bytes.push(b' ');
                if literal {
                    // The announcement is part of the command
                    let digits = (total - 20).to_string().len();
                    let n = total - bytes.len() - digits - "{+}\r\n\r\n".len();
                    bytes.extend(format!("{{{n:0digits$}+}}\r\n").into_bytes());
                }
                bytes.resize(total - 2, b'x');
                bytes.extend(b"\r\n");
                let mut rest = bytes.as_slice();
                while !rest.is_empty() {
                    let k = match rng.below(3) {
                        0 => rng.range(1, 1 + limit),
                        1 => rest.len(),
                        _ => rest.len() - rest.len().min(40),
                    };
                    let (piece, tail) = rest.split_at(k.clamp(1, rest.len()));
                    m.feed(piece)?;
                    m.settle()?;
                    rest = tail;
                }
                m.feed(b"a2 NOOP\r\n")?;
                m.settle()?;
                Ok(())
            })();
            Some(result_of(r, m))
        }
        _ => None,
    }
}
