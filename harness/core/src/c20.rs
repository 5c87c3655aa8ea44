//! C20: literal accept and reject texts.
use imap_next::{
    server::{Options, Server},
    Interrupt, Io, State,
};
use imap_types::response::CommandContinuationRequestBasic;
use mon_common::{guard, hash_of, mismatch, show, Mismatch, Rng};

use crate::{gen::Gen, Seen};

fn text(rng: &mut Rng, case: u64) -> String {
    let fixed = [
        "", " ", "a", "ab", "abc", "abcd", "ab==", "abc=", "abcd====", "YQ==", "Zm9v", "Zm9vYmFy", "a b", "a\r\nb", "a\nb", "a\rb",
        "\r\n", "\n", "ok\n", "ok\r", "ä", "日本", "a\0b", "+", "+ x", "[ALERT] x", "[", "[x", "]", "x [y]", "=", "==", "====", "a=b",
        "...", "0", "00", "0000", "////", "++++", "a/b+", "ok then", "{5}", "\"", "\\", "tab\there", "\x7f", "\x01", "\u{80}",
        "Ready for literal", "AAAA ", " AAAA", "AAAA.", "-_-_", "a\u{0}",
    ];
    let mut s = match rng.below(6) {
        0 | 1 => fixed[case as usize % fixed.len()].to_owned(),
        2 => {
            let n = rng.below(16);
            (0..n).map(|_| *rng.pick(b"ABCabc0129+/=") as char).collect()
        }
        3 => {
            let n = rng.below(40);
            (0..n).map(|_| (rng.range(0x20, 0x7e) as u8) as char).collect()
        }
        4 => {
            let n = rng.range(1, 12);
            (0..n).map(|_| char::from_u32(rng.range(0, 0x17f) as u32).unwrap()).collect()
        }
        _ => {
            let n = *rng.pick(&[100, 1000, 9000]);
            (0..n).map(|_| *rng.pick(b"ABCabc .") as char).collect()
        }
    };
    if rng.chance(10) {
        s.push(*rng.pick(&['\r', '\n', '=', ' ', 'ß']));
    }
    s
}

pub fn case(rng: &mut Rng, case: u64) -> Seen {
    let mut counts = std::collections::BTreeMap::<String, u64>::new();
    let mut log = vec![];
    let mut set = 0;
    let result: Result<(), Mismatch> = guard(|| {
        let mut o = Options::default();
        let mut accept = o.literal_accept_text().to_string();
        let mut reject = o.literal_reject_text().to_string();
        for _ in 0..rng.range(1, 6) {
            let shift = rng.below(7) as u64;
            let t = text(rng, case + shift);
            let valid = CommandContinuationRequestBasic::new(None, t.as_str()).is_ok();
            let is_accept = rng.chance(50);
            let r = if is_accept { o.set_literal_accept_text(t.clone()) } else { o.set_literal_reject_text(t.clone()) };
            log.push(format!("set {} to {t:?}: {r:?}", if is_accept { "accept" } else { "reject" }));
            *counts.entry(if valid { "texts set" } else { "texts refused" }.into()).or_default() += 1;
            set += 1;
            match (&r, valid) {
                (Ok(()), true) => {
                    if is_accept {
                        accept = t
                    } else {
                        reject = t
                    }
                }
                (Err(back), false) if *back == t => {}
                _ => return Err(mismatch!(["C20"], "setting {t:?} gave {r:?}, can be sent: {valid}")),
            }
            if o.literal_accept_text().inner() != accept || o.literal_reject_text().inner() != reject {
                return Err(mismatch!(["C20"], "texts read back are {:?} and {:?} instead of {accept:?} and {reject:?}",
                    o.literal_accept_text().inner(), o.literal_reject_text().inner()));
            }
        }
        // Used as set, also through a clone of the options
        o.max_literal_size = 10;
        let o = if rng.chance(50) { o.clone() } else { o };
        let greeting = Gen::new(Rng::new(rng.u64())).greeting();
        let n = crate::gen::enc_greeting(&greeting).len();
        let mut s = Server::new(o, greeting);
        let mut out = vec![];
        let mut run = |s: &mut Server, input: &[u8]| {
            s.enqueue_input(input);
            for _ in 0..100_000 {
                match s.next() {
                    Err(Interrupt::Io(Io::NeedMoreInput)) => break,
                    Err(Interrupt::Io(Io::Output(b))) => out.extend(b),
                    _ => {}
                }
            }
        };
        run(&mut s, b"");
        let (mut expect, rounds) = (vec![], rng.range(1, 3));
        for i in 0..rounds {
            if rng.chance(60) {
                run(&mut s, format!("a{i} APPEND x {{10}}\r\n").as_bytes());
                run(&mut s, b"0123456789\r\n");
                expect.extend(format!("+ {accept}\r\n").bytes());
            } else {
                run(&mut s, format!("r{i} APPEND x {{11}}\r\n").as_bytes());
                expect.extend(format!("r{i} BAD {reject}\r\n").bytes());
            }
            *counts.entry("literal answers compared".into()).or_default() += 1;
        }
        log.push(format!("server sent {}", show(&out[n.min(out.len())..])));
        if out.len() < n || out[n..] != expect[..] {
            return Err(mismatch!(["C20"], "server sent {} instead of {}", show(&out[n.min(out.len())..]), show(&expect)));
        }
        Ok(())
    })
    .unwrap_or_else(|p| Err(mismatch!(["C20"], "panic: {p}")));
    Seen {
        signature: hash_of(&log),
        nontrivial: set > 0,
        counts: counts.into_iter().collect(),
        log: log.join("\n"),
        result,
    }
}
