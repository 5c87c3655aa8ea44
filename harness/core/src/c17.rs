//! C17, public API part: handles of many clients and servers on many threads.
use std::collections::HashSet;

use imap_next::{
    client::{self, Client, CommandHandle},
    server::{self, ResponseHandle, Server},
};
use imap_types::{
    command::{Command, CommandBody},
    core::Tag,
    response::{Data, Greeting},
};
use mon_common::{guard, mismatch, Mismatch, Rng};

use crate::Seen;

fn unique<H: std::hash::Hash + Eq + Copy + std::fmt::Debug>(groups: &[Vec<H>], what: &str) -> Result<(), Mismatch> {
    let mut all = HashSet::new();
    for (i, g) in groups.iter().enumerate() {
        for (j, h) in g.iter().enumerate() {
            #[allow(clippy::clone_on_copy)]
            let copy = h.clone();
            if copy != *h || !(copy == *h) {
                return Err(mismatch!(["C17"], "a copy of {what} {h:?} is not equal to it"));
            }
            if !all.insert(*h) {
                return Err(mismatch!(["C17"], "{what} {h:?} (instance {i}, handle {j}) was created twice"));
            }
            if !all.contains(&copy) {
                return Err(mismatch!(["C17"], "{what} {h:?} does not hash like its copy"));
            }
        }
    }
    // Equality without the help of hashes
    let some: Vec<H> = groups.iter().flat_map(|g| g.iter().take(4).copied()).take(80).collect();
    for (i, a) in some.iter().enumerate() {
        for (j, b) in some.iter().enumerate() {
            if (a == b) != (i == j) {
                return Err(mismatch!(["C17"], "{what}s {a:?} and {b:?} compare wrongly"));
            }
        }
    }
    Ok(())
}

pub fn case(rng: &mut Rng) -> Seen {
    let threads = rng.range(2, 8);
    let instances = rng.range(1, 12);
    let handles = rng.range(1, 40);
    let greeting: Greeting<'static> = crate::gen::Gen::new(Rng::new(1)).greeting();
    let joined: Vec<Result<(Vec<Vec<CommandHandle>>, Vec<Vec<ResponseHandle>>), String>> = std::thread::scope(|s| {
        let js: Vec<_> = (0..threads)
            .map(|_| {
                let greeting = greeting.clone();
                s.spawn(move || {
                    guard(|| {
                        let mut cs: Vec<_> = (0..instances).map(|_| (Client::new(client::Options::default()), vec![])).collect();
                        let mut ss: Vec<_> =
                            (0..instances).map(|_| (Server::new(server::Options::default(), greeting.clone()), vec![])).collect();
                        for k in 0..handles {
                            for (c, v) in &mut cs {
                                let tag = Tag::try_from("t1".to_owned()).unwrap();
                                v.push(c.enqueue_command(Command { tag, body: CommandBody::Noop }));
                            }
                            for (s, v) in &mut ss {
                                v.push(s.enqueue_data(Data::Exists(k as u32)));
                            }
                        }
                        (cs.into_iter().map(|c| c.1).collect(), ss.into_iter().map(|c| c.1).collect())
                    })
                })
            })
            .collect();
        js.into_iter().map(|j| j.join().unwrap()).collect()
    });
    let result = (|| {
        let (mut c, mut s) = (vec![], vec![]);
        for j in joined {
            let (a, b) = j.map_err(|p| mismatch!(["C17"], "panic: {p}"))?;
            c.extend(a);
            s.extend(b);
        }
        unique(&c, "command handle")?;
        unique(&s, "response handle")
    })();
    let total = (threads * instances * handles * 2) as u64;
    Seen {
        signature: mon_common::hash_of(&(threads, instances, handles)),
        nontrivial: instances > 1 && handles > 1,
        counts: vec![("handles compared".into(), total), ("clients and servers".into(), (threads * instances * 2) as u64)],
        log: format!("{threads} threads, {instances} clients and servers each, {handles} handles each"),
        result,
    }
}
