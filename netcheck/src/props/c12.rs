//! C12: a connection's name is its own.
use proptest::prelude::*;
use rvcommon::blob::{edge_blob, nasty_text, small_bytes};
use rvcommon::resp::Arg;
use rvcommon::resp::Val;
use rvcommon::{violation, Bad, Blob, Pass, Report, Res};
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;

use super::c03::Client;
use super::c26::Talk;
use crate::client::encode;

use crate::engine::*;
use crate::model::name_is_valid;
use crate::server::Opts;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Case {
    steps: Vec<Step>,
}

pub fn name() -> BoxedStrategy<Arg> {
    let t = |v: &[&str]| -> BoxedStrategy<Blob> {
        proptest::sample::select(
            v.iter().map(|s| s.to_string()).collect::<Vec<_>>(),
        )
        .prop_map(|s| Blob::s(&s))
        .boxed()
    };
    prop_oneof![
        6 => arg("[!-~]{1,20}".prop_map(|s: String| Blob::s(&s)).boxed()),
        3 => arg(t(&["a", "A", "b", "aa", "name", "OK", "-1", "null", "nil", "0",
            "é", "名前", "\u{1F600}", "a=b", "name=", "id=3", "'", "\"q\"", "+OK", "$3"])),
        3 => Just(Arg::bulk("")),
        3 => arg(t(&[" ", "a b", " a", "a ", "a\nb", "a\r\nb", "\n", "\r", "a\r",
            "\r\n", "x y z", "a\r\n+OK\r\n"])),
        1 => arg(nasty_text().prop_map(|s| Blob::s(&s)).boxed()),
        1 => arg(edge_blob(12_000, true).prop_filter("kind", |b|
            !matches!(b, Blob::Gen { kind: 2, .. })).boxed()),
        // not text, ends the connection
        1 => small_bytes().prop_map(Arg::Bulk),
    ]
    .boxed()
}

fn strat() -> BoxedStrategy<Case> {
    let c = |s: &'static str| cased(s).prop_map(Arg::bulk);
    let cmd = prop_oneof![
        6 => (c("CLIENT"), c("SETNAME"), name()).prop_map(|(a, b, n)| vec![a, b, n]),
        7 => (c("CLIENT"), c("GETNAME")).prop_map(|(a, b)| vec![a, b]),
        2 => (c("CLIENT"), c("INFO")).prop_map(|(a, b)| vec![a, b]),
        1 => (c("CLIENT"), c("LIST")).prop_map(|(a, b)| vec![a, b]),
        1 => (c("CLIENT"), c("SETINFO"), name()).prop_map(|(a, b, n)|
            vec![a, b, Arg::bulk("LIB-NAME"), n]),
        1 => super::c04::any_cmd(500),
        1 => Just(vec![Arg::bulk("CLIENT"), Arg::bulk("SETNAME")]),
    ];
    let step = prop_oneof![
        14 => (0u8..6, proptest::collection::vec(cmd, 1..8)).prop_map(|(conn, cmds)|
            Step::Batch { conn, cmds, send: Send::plain() }),
        1 => (0u8..6, proptest::sample::select(vec![
            Ending::Close, Ending::HalfClose, Ending::Reset]))
            .prop_map(|(conn, how)| Step::End { conn, how }),
    ];
    proptest::collection::vec(step, 2..25)
        .prop_map(|steps| Case { steps })
        .boxed()
}

fn check(b: &mut Bench, c: &Case) -> Res {
    b.run(|sv, n, facts| {
        let mut w = World::new(sv, facts);
        w.run(&own_keys(&c.steps, &format!("c{n}:")))?;
        // What each one says in the end, and what the others are told.
        let ids: Vec<u8> = w.live.keys().copied().collect();
        let ask = ["GETNAME", "INFO", "LIST"];
        for conn in ids.iter().copied() {
            let cmds = ask
                .iter()
                .map(|s| vec![Arg::bulk("CLIENT"), Arg::bulk(s)])
                .collect();
            w.step(&Step::Batch { conn, cmds, send: Send::plain() })?;
        }
        w.audit_list()?;
        w.barrier()?;
        let mut named = 0;
        let mut cleared = 0;
        let mut refused = 0;
        for s in &c.steps {
            let Step::Batch { cmds, .. } = s else { continue };
            for cmd in cmds {
                if cmd.len() == 3 {
                    if let (Arg::Bulk(s) | Arg::Simple(s), Arg::Bulk(n) | Arg::Simple(n)) =
                        (&cmd[1], &cmd[2])
                    {
                        if s.bytes().eq_ignore_ascii_case(b"setname") {
                            let n = n.bytes();
                            if n.is_empty() {
                                cleared += 1;
                            } else if name_is_valid(&n) {
                                named += 1;
                            } else {
                                refused += 1;
                            }
                        }
                    }
                }
            }
        }
        let mut tags = vec![];
        if refused > 0 {
            tags.push("refused names");
        }
        if cleared > 0 {
            tags.push("cleared names");
        }
        if ids.len() > 2 {
            tags.push("several connections");
        }
        Ok(Pass { nontrivial: named >= 2 && ids.len() >= 2, tags })
    })
}

/// Connections named at the same time as others look at the names
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Races {
    /// What each of them does, again and again
    namers: Vec<Vec<Name>>,
    listers: u8,
    /// Commands sent at once
    batch: u8,
    times: u16,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Name {
    Fresh(u16),
    Same,
    None,
    Refused,
    Ask,
}

fn races_strat() -> BoxedStrategy<Races> {
    let name = prop_oneof![
        3 => (4u16..40).prop_map(Name::Fresh),
        1 => (40u16..3000).prop_map(Name::Fresh),
        2 => Just(Name::Same),
        1 => Just(Name::None),
        1 => Just(Name::Refused),
        4 => Just(Name::Ask),
    ];
    (
        proptest::collection::vec(proptest::collection::vec(name, 1..6), 1..6),
        1u8..4,
        1u8..120,
        200u16..1500,
    )
        .prop_map(|(namers, listers, batch, times)| Races {
            namers,
            listers,
            batch,
            times,
        })
        .boxed()
}

fn races(b: &mut Bench, c: &Races) -> Res {
    b.run(|sv, _, _| {
        let to = sv.addr();
        let stop = AtomicBool::new(false);
        let trouble: Mutex<Option<Bad>> = Mutex::new(None);
        let go = |r: Result<(), Bad>| {
            if let Err(e) = r {
                trouble.lock().unwrap().get_or_insert(e);
                stop.store(true, Ordering::SeqCst);
            }
        };
        let listers: Result<Vec<_>, _> =
            (0..c.listers).map(|_| Talk::open(to)).collect();
        let namers: Result<Vec<_>, _> =
            c.namers.iter().map(|_| Client::open(to)).collect();
        let (listers, namers) = (listers?, namers?);
        std::thread::scope(|sc| {
            for (i, mut t) in listers.into_iter().enumerate() {
                let (stop, go) = (&stop, &go);
                sc.spawn(move || {
                    go((|| {
                        while !stop.load(Ordering::SeqCst) {
                            t.call(&[b"CLIENT", b"LIST"])?;
                            if i == 1 {
                                t.call(&[b"CLIENT", b"LIST", b"TYPE", b"normal"])?;
                            }
                        }
                        Ok(())
                    })())
                });
            }
            let all: Vec<_> = namers
                .into_iter()
                .zip(&c.namers)
                .enumerate()
                .map(|(me, (t, ops))| {
                    let (stop, go) = (&stop, &go);
                    sc.spawn(move || go(namer(c, me, t, ops, stop)))
                })
                .collect();
            for t in all {
                let _ = t.join();
            }
            stop.store(true, Ordering::SeqCst);
        });
        match trouble.into_inner().unwrap() {
            Some(e) => Err(e),
            None => Ok(Pass { nontrivial: c.namers.len() > 1, tags: vec!["races"] }),
        }
    })
}

fn namer(
    c: &Races,
    me: usize,
    mut t: Client,
    ops: &[Name],
    stop: &AtomicBool,
) -> Result<(), Bad> {
    let mut name: Option<String> = None;
    let mut nth = 0;
    let mut left = c.times as usize;
    while left > 0 && !stop.load(Ordering::SeqCst) {
        let mut bytes = vec![];
        let mut expected = vec![];
        for _ in 0..left.min(c.batch as usize) {
            left -= 1;
            let mut set = |n: &str| {
                bytes.extend(encode(&[b"CLIENT", b"SETNAME", n.as_bytes()]));
            };
            match ops[nth % ops.len()] {
                Name::Fresh(len) => {
                    let mut n = format!("n{me}-{nth}");
                    while n.len() < len as usize {
                        n.push('_');
                    }
                    set(&n);
                    name = Some(n);
                    expected.push(Some(Val::simple("OK")));
                }
                Name::Same => {
                    set(name.as_deref().unwrap_or(""));
                    expected.push(Some(Val::simple("OK")));
                }
                Name::None => {
                    set("");
                    name = None;
                    expected.push(Some(Val::simple("OK")));
                }
                Name::Refused => {
                    set(["a b", "x\n", "\r\n+OK"][nth % 3]);
                    expected.push(None);
                }
                Name::Ask => {
                    bytes.extend(encode(&[b"CLIENT", b"GETNAME"]));
                    expected.push(Some(match &name {
                        Some(n) => Val::Bulk(n.clone().into_bytes()),
                        None => Val::Null,
                    }));
                }
            }
            nth += 1;
        }
        t.send(&bytes)?;
        for e in expected {
            let got = t.reply()?;
            let ok = match &e {
                Some(e) => got == *e,
                None => matches!(got, Val::Err(_)),
            };
            if !ok {
                let got: String = format!("{got:?}").chars().take(200).collect();
                violation!(
                    "got {got} instead of {e:?} (None: an error) while other \
                     connections ask for CLIENT LIST"
                );
            }
        }
    }
    Ok(())
}

pub fn run(r: &mut Report) {
    r.rule(
        "names: SETNAME (ordinary, unicode, long, empty, with spaces or line \
         breaks, not text), GETNAME, INFO, LIST and other commands over up to 6 \
         connections which also end and come back, every reply compared to a \
         name per connection, and all of them in CLIENT LIST at the end; \
         non-trivial = 2 valid names or more over 2 connections or more. races: \
         connections name themselves and ask for their name, pipelined, at the \
         same time as others ask for CLIENT LIST all the time; each reply is \
         the one of a name per connection; non-trivial = 2 of them or more.",
    );
    let mut b = Bench::new(Opts::new);
    r.drive("names", strat(), r.n(6000, 90000), |c| check(&mut b, c));
    r.drive("races", races_strat(), r.n(60, 1000), |c| races(&mut b, c));
}
