//! P05: what a proxy configuration means, against an independent writer of configurations.
#[allow(dead_code, unused_imports)]
#[path = "/repo/proxy/src/config.rs"]
mod config;
#[cfg(feature = "whole")]
#[allow(dead_code, unused_imports)]
#[path = "/repo/proxy/src/proxy.rs"]
mod proxy;
#[cfg(feature = "whole")]
#[allow(dead_code, unused_imports)]
#[path = "/repo/proxy/src/util.rs"]
mod util;

use config::{Bind, Config, Connect, Identity};
use mon_common::{guard, hash_of, mismatch, set_current, Args, Mismatch, Report, Rng};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct End {
    tls: bool,
    host: String,
    port: Option<u16>,
    identity: Option<(String, String)>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Svc {
    name: String,
    bind: End,
    connect: End,
}

impl End {
    fn port(&self) -> u16 {
        self.port.unwrap_or(if self.tls { 993 } else { 143 })
    }
}

fn string(rng: &mut Rng) -> String {
    match rng.below(9) {
        0 => String::new(),
        1 => "127.0.0.1".into(),
        2 => "::1".into(),
        3 => "imap.example.org".into(),
        4 => "Best \"Email\" Provider \\ # [x] = {}".into(),
        5 => "Größe ✉ 漢字".into(),
        6 => "two\nlines\tand tab".into(),
        7 => format!("h{}", rng.below(1000)),
        _ => (0..rng.range(1, 30)).map(|_| rng.range(32, 126) as u8 as char).collect(),
    }
}

fn end(rng: &mut Rng, bind: bool) -> End {
    let tls = rng.chance(50);
    End {
        tls,
        host: string(rng),
        port: match rng.below(8) {
            0..=2 => None,
            3 => Some(0),
            4 => Some(65535),
            5 => Some(143),
            6 => Some(993),
            _ => Some(rng.below(65536) as u16),
        },
        identity: (tls && bind).then(|| (string(rng), string(rng))),
    }
}

// ------------------------------------------------------------------- writing configuration files

fn quoted(rng: &mut Rng, s: &str) -> String {
    let literal = !s.contains('\'') && s.chars().all(|c| c >= ' ' && c != '\x7f');
    if literal && rng.chance(30) {
        return format!("'{s}'");
    }
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\t' => o += "\\t",
            c if c > '~' && rng.chance(20) => o += &format!("\\U{:08X}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn shuffle<T>(rng: &mut Rng, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        v.swap(i, rng.below(i + 1));
    }
}

/// key = value lines of an endpoint; identity as an inline table.
fn pairs(rng: &mut Rng, e: &End) -> Vec<(String, String)> {
    let mut v = vec![
        ("encryption".to_owned(), quoted(rng, if e.tls { "Tls" } else { "Insecure" })),
        ("host".to_owned(), quoted(rng, &e.host)),
    ];
    if let Some(p) = e.port {
        let digits = if rng.chance(10) && p > 999 { format!("{}_{:03}", p / 1000, p % 1000) } else if rng.chance(10) { format!("0x{p:x}") } else { p.to_string() };
        v.push(("port".to_owned(), digits));
    }
    if let Some((c, k)) = &e.identity {
        let mut f = vec![
            format!("type = {}", quoted(rng, "CertificateChainAndLeafKey")),
            format!("certificate_chain_path = {}", quoted(rng, c)),
            format!("leaf_key_path = {}", quoted(rng, k)),
        ];
        shuffle(rng, &mut f);
        v.push(("identity".to_owned(), format!("{{ {} }}", f.join(", "))));
    }
    shuffle(rng, &mut v);
    v
}

fn write(rng: &mut Rng, services: &[Svc]) -> String {
    if services.is_empty() {
        return "services = []\n".into();
    }
    let eol = if rng.chance(20) { "\r\n" } else { "\n" };
    let mut o = String::new();
    let all_inline = rng.chance(20);
    let mut inline = vec![];
    for s in services {
        let mut comment = |o: &mut String, rng: &mut Rng| {
            if rng.chance(20) {
                *o += &format!("# port = 1, host = \"x\"{eol}{eol}");
            }
        };
        comment(&mut o, rng);
        let name = quoted(rng, &s.name);
        let b = pairs(rng, &s.bind);
        let c = pairs(rng, &s.connect);
        let table = |v: &[(String, String)]| format!("{{ {} }}", v.iter().map(|(k, v)| format!("{k} = {v}")).collect::<Vec<_>>().join(", "));
        if all_inline {
            let mut f = [format!("name = {name}"), format!("bind = {}", table(&b)), format!("connect = {}", table(&c))];
            shuffle(rng, &mut f);
            inline.push(format!("{{ {} }}", f.join(", ")));
            continue;
        }
        o += &format!("[[services]]{eol}");
        let mut tables = vec![];
        let mut lines = vec![format!("name = {name}{eol}")];
        for (what, v) in [("bind", &b), ("connect", &c)] {
            match rng.below(3) {
                0 => lines.push(format!("{what} = {}{eol}", table(v))),
                1 => lines.extend(v.iter().map(|(k, v)| format!("{what}.{k} = {v}{eol}"))),
                _ => tables.push(format!("[services.{what}]{eol}{}", v.iter().map(|(k, v)| format!("{k} = {v}{eol}")).collect::<String>())),
            }
        }
        // Dotted keys of one table may be apart
        shuffle(rng, &mut lines);
        shuffle(rng, &mut tables);
        o += &lines.concat();
        for t in tables {
            comment(&mut o, rng);
            o += &t;
        }
    }
    if all_inline {
        o += &format!("services = [{eol}{}{eol}]{eol}", inline.join(&format!(",{eol}")));
    }
    o
}

/// A configuration that must be refused, and why.
fn damaged(rng: &mut Rng, services: &[Svc]) -> Option<(Vec<u8>, String)> {
    let mut s = services.to_vec();
    if s.is_empty() {
        return match rng.below(3) {
            0 => Some((b"".to_vec(), "no services key".into())),
            1 => Some((b"services = 3\n".to_vec(), "services is a number".into())),
            _ => Some((b"services = [1]\n".to_vec(), "a service is a number".into())),
        };
    }
    let i = rng.below(s.len());
    // Unusual marks let the damage be applied to the written text.
    let on_bind = rng.chance(50);
    let e = if on_bind { &mut s[i].bind } else { &mut s[i].connect };
    const MARK: &str = "ZQMARKQZ";
    let kind = rng.below(12);
    let why;
    let text = match kind {
        0..=3 => {
            // A required string is missing (or has another type)
            let what = match kind {
                0 => {
                    s[i].name = MARK.into();
                    "name"
                }
                1 => {
                    e.host = MARK.into();
                    "host"
                }
                k => {
                    s[i].bind = End { tls: true, host: "h".into(), port: None, identity: Some((if k == 2 { MARK } else { "c" }.into(), if k == 3 { MARK } else { "k" }.into())) };
                    if k == 2 { "certificate_chain_path" } else { "leaf_key_path" }
                }
            };
            let t = plain(&s);
            let with = *rng.pick(&["", "5", "true", "[]", "{}", "1979-05-27"]);
            why = format!("{what} is {}", if with.is_empty() { "missing" } else { with });
            let line = format!("{what} = \"{MARK}\"");
            if !t.contains(&line) {
                return None;
            }
            if with.is_empty() { t.replacen(&line, "", 1) } else { t.replacen(&line, &format!("{what} = {with}"), 1) }
        }
        4 => {
            e.port = Some(54321);
            let bad = *rng.pick(&["-1", "65536", "\"143\"", "14.3", "99999999999", "true", "70000", "-143", "131215"]);
            why = format!("port is {bad}");
            plain(&s).replacen("port = 54321", &format!("port = {bad}"), 1)
        }
        5 => {
            e.host = MARK.into();
            let t = plain(&s);
            let at = t.find(MARK)?;
            let start = t[..at].rfind("encryption = ")?;
            let stop = start + t[start..].find('\n')?;
            let bad = *rng.pick(&["encryption = \"tls\"", "encryption = \"None\"", "encryption = \"\"", "", "encryption = 1", "encryption = \"StartTls\"", "encryption = \"insecure\""]);
            why = format!("encryption line is {bad:?}");
            format!("{}{bad}{}", &t[..start], &t[stop..])
        }
        6 => {
            s[i].bind = End { tls: true, host: MARK.into(), port: None, identity: Some(("c".into(), "k".into())) };
            let t = plain(&s);
            let at = t.find(MARK)?;
            let start = at + t[at..].find("[services.bind.identity]")?;
            let stop = start + t[start..].find("[services.connect]")?;
            why = "a TLS bind has no identity".into();
            format!("{}{}", &t[..start], &t[stop..])
        }
        7 => {
            s[i].bind = End { tls: true, host: MARK.into(), port: None, identity: Some(("c".into(), "k".into())) };
            let bad = *rng.pick(&["type = \"Pkcs12\"", "", "type = 1", "type = \"certificatechainandleafkey\""]);
            why = format!("identity type line is {bad:?}");
            let t = plain(&s);
            let at = t.find(MARK)?;
            format!("{}{}", &t[..at], t[at..].replacen("type = \"CertificateChainAndLeafKey\"", bad, 1))
        }
        8 => {
            let which = if on_bind { "bind" } else { "connect" };
            s[i].name = MARK.into();
            let t = plain(&s);
            let at = t.find(MARK)?;
            let start = at + t[at..].find(&format!("[services.{which}]"))?;
            let rest = &t[start + 5..];
            let next = rest
                .match_indices("\n[")
                .map(|m| m.0 + 1)
                .find(|p| !rest[*p..].starts_with("[services.bind.identity]"))
                .unwrap_or(rest.len());
            why = format!("{which} is missing");
            format!("{}{}", &t[..start], &rest[next..])
        }
        9 => {
            // Syntax
            let t = plain(&s);
            let (a, b): (&str, &str) = *rng.pick(&[
                ("name = \"", "name = "),
                ("host = \"", "host \""),
                ("[[services]]", "[[services]"),
                ("[[services]]", "[services]]"),
                ("encryption = \"", "encryption = \"\\q"),
                ("[[services]]", "!\n[[services]]"),
                ("host = ", "host = \"x\"\nhost = "),
                ("encryption = ", "encryption == "),
            ]);
            why = format!("syntax: {a:?} became {b:?}");
            if a == "name = \"" && !s[0].name.bytes().all(|b| b.is_ascii_alphabetic()) {
                s[0].name = "abc".into();
                return Some((plain(&s).replacen("name = \"abc", "name = abc", 1).into_bytes(), why));
            }
            t.replacen(a, b, 1)
        }
        10 => {
            // Not text
            let mut t = plain(&s).into_bytes();
            let at = rng.below(t.len() + 1);
            t.splice(at..at, [0xff, 0xfe]);
            return Some((t, format!("not UTF-8 at {at}")));
        }
        _ => {
            // Cut within the last service, behind its header and before its end
            let t = plain(&s);
            let start = t.rfind("[[services]]")?;
            let stop = start + t[start..].rfind("host = ")?;
            let mut at = rng.range(start + 1, stop);
            while !t.is_char_boundary(at) {
                at -= 1;
            }
            why = format!("cut at {at}");
            t[..at].to_owned()
        }
    };
    Some((text.into_bytes(), why))
}

/// One fixed style, used for damage.
fn plain(services: &[Svc]) -> String {
    let mut o = String::new();
    let q = |s: &str| {
        let mut o = String::from("\"");
        for c in s.chars() {
            match c {
                '"' => o += "\\\"",
                '\\' => o += "\\\\",
                '\n' => o += "\\n",
                '\t' => o += "\\t",
                c => o.push(c),
            }
        }
        o + "\""
    };
    for s in services {
        o += &format!("[[services]]\nname = {}\n", q(&s.name));
        for (what, e) in [("bind", &s.bind), ("connect", &s.connect)] {
            o += &format!("[services.{what}]\nencryption = \"{}\"\nhost = {}\n", if e.tls { "Tls" } else { "Insecure" }, q(&e.host));
            if let Some(p) = e.port {
                o += &format!("port = {p}\n");
            }
            if let Some((c, k)) = &e.identity {
                o += &format!(
                    "[services.bind.identity]\ntype = \"CertificateChainAndLeafKey\"\ncertificate_chain_path = {}\nleaf_key_path = {}\n",
                    q(c),
                    q(k)
                );
            }
        }
    }
    o
}

// ----------------------------------------------------------------------------------- the oracle

fn view(c: &Config) -> Vec<Svc> {
    c.services
        .iter()
        .map(|s| Svc {
            name: s.name.clone(),
            bind: match &s.bind {
                Bind::Insecure { host, port } => End { tls: false, host: host.clone(), port: Some(*port), identity: None },
                Bind::Tls { host, port, identity } => End {
                    tls: true,
                    host: host.clone(),
                    port: Some(*port),
                    identity: match identity {
                        Identity::CertificateChainAndLeafKey { certificate_chain_path, leaf_key_path } => {
                            Some((certificate_chain_path.clone(), leaf_key_path.clone()))
                        }
                    },
                },
            },
            connect: match &s.connect {
                Connect::Insecure { host, port } => End { tls: false, host: host.clone(), port: Some(*port), identity: None },
                Connect::Tls { host, port } => End { tls: true, host: host.clone(), port: Some(*port), identity: None },
            },
        })
        .collect()
}

fn printed(e: &End, addr: &str, text: &str) -> Result<(), Mismatch> {
    let want = format!("{}:{}", e.host, e.port());
    if addr != want {
        return Err(mismatch!(["P05"], "the address of {e:?} is {addr:?} instead of {want:?}"));
    }
    let url = format!("{}://{want}", if e.tls { "imaps" } else { "imap" });
    let rest = text.replacen(&url, "", 1).to_lowercase();
    if !text.contains(&url) || rest.contains("tls") != e.tls || rest.contains("insecure") == e.tls {
        return Err(mismatch!(["P05"], "the printed form of {e:?} is {text:?}"));
    }
    Ok(())
}

fn good(rng: &mut Rng, path: &std::path::Path, services: &[Svc], text: &str) -> Result<(), Mismatch> {
    std::fs::write(path, text).unwrap();
    let config = guard(|| Config::load(path).map_err(|e| e.to_string()))
        .map_err(|p| mismatch!(["P05"], "loading panicked: {p}"))?
        .map_err(|e| mismatch!(["P05"], "a well-formed configuration was refused: {e}"))?;
    let want: Vec<Svc> = services
        .iter()
        .map(|s| {
            let mut s = s.clone();
            s.bind.port = Some(s.bind.port());
            s.connect.port = Some(s.connect.port());
            s
        })
        .collect();
    let got = view(&config);
    if got != want {
        return Err(mismatch!(["P05"], "loaded {got:?} instead of {want:?}"));
    }
    for (s, w) in config.services.iter().zip(&want) {
        printed(&w.bind, &s.bind.addr_port(), &s.bind.to_string())?;
        printed(&w.connect, &s.connect.addr_port(), &s.connect.to_string())?;
    }
    // Written out and loaded again
    let written = if rng.chance(50) { toml::to_string(&config) } else { toml::to_string_pretty(&config) };
    let written = written.map_err(|e| mismatch!(["P05"], "cannot write {config:?}: {e}"))?;
    std::fs::write(path, &written).unwrap();
    let again = Config::load(path).map_err(|e| mismatch!(["P05"], "a written configuration was refused: {e}\n{written}"))?;
    if again != config || view(&again) != want {
        return Err(mismatch!(["P05"], "written and loaded again, {config:?} became {again:?}"));
    }
    Ok(())
}

fn main() {
    mon_common::install_panic_hook();
    let args = Args::parse();
    let mut report = Report::new(
        args,
        "a case is one generated configuration: loaded, printed, written and loaded again, and damaged; distinct service lists and kinds of damage",
    )
    .shard(8);
    report.assumptions.push("toml and serde as in the offline cache".into());
    let dir = report.args.dir.join("build").join("scratch").join(format!("config-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let path = dir.join("config.toml");
    let budget = report.args.budget.unwrap_or(if report.args.thorough { 120.0 } else { 8.0 });
    let first = report.args.case.unwrap_or(0);
    let last = report.args.case.map_or(u64::MAX, |c| c + 1);
    let mut case = first;
    while case < last && (report.elapsed() < budget || case == first) {
        set_current(format!("case {case}"));
        let mut rng = Rng::for_case(report.args.seed, "P05", case);
        let services: Vec<Svc> = (0..rng.below(5))
            .map(|_| Svc { name: string(&mut rng), bind: end(&mut rng, true), connect: end(&mut rng, false) })
            .collect();
        let text = write(&mut rng, &services);
        report.case(hash_of(&services), true);
        report.count("configurations loaded", 1);
        report.count("services", services.len() as u64);
        report.count("defaulted ports", services.iter().flat_map(|s| [&s.bind, &s.connect]).filter(|e| e.port.is_none()).count() as u64);
        if case % 5 == 3 {
            report.sample(|| text.clone());
        }
        if let Err(m) = good(&mut rng, &path, &services, &text) {
            report.mismatch(&m, case, &text);
            break;
        }
        if case % 50 == 0 {
            let none = dir.join("none.toml");
            for p in [&none, &dir] {
                if let Ok(c) = Config::load(p) {
                    report.violation(&format!("{} cannot be read but was loaded as {c:?}", p.display()), case, "");
                }
            }
            report.count("unreadable configurations refused", 2);
        }
        let mut stop = false;
        for _ in 0..4 {
            let Some((bytes, why)) = damaged(&mut rng, &services) else { continue };
            std::fs::write(&path, &bytes).unwrap();
            report.case(hash_of(&why), true);
            report.count("damaged configurations", 1);
            let log = format!("{why}\n{}", String::from_utf8_lossy(&bytes));
            match guard(|| Config::load(&path).map_err(|e| e.to_string())) {
                Err(p) => {
                    report.violation(&format!("loading panicked: {p}"), case, &log);
                    stop = true;
                }
                Ok(Ok(c)) => {
                    report.violation(&format!("a damaged configuration ({why}) was loaded as {c:?}"), case, &log);
                    stop = true;
                }
                Ok(Err(e)) if e.trim().is_empty() => {
                    report.violation(&format!("a damaged configuration ({why}) was refused without a reason"), case, &log);
                    stop = true;
                }
                Ok(Err(_)) => {}
            }
        }
        if stop {
            break;
        }
        case += 1;
    }
    let _ = std::fs::remove_dir_all(&dir);
    report.finish()
}
