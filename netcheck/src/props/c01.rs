//! C01: the database is a map, last write wins, whatever keys and values.
use proptest::prelude::*;
use rvcommon::blob::{edge_blob, edge_len, nasty_text, small_bytes};
use rvcommon::resp::{Arg, Val};
use rvcommon::{violation, Bad, Blob, Pass, Report, Res};
use serde::{Deserialize, Serialize};

use super::c03::Client;
use crate::client::encode;
use crate::engine::*;
use crate::server::{Opts, Server};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Op {
    conn: u8,
    key: u8,
    /// SET that, or GET
    set: Option<Blob>,
    simple: bool,
    /// go on with the previous batch
    piped: bool,
    ending: Option<Ending>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Case {
    /// A server of its own, keys as they are
    fresh: Option<u8>,
    keys: Vec<Blob>,
    ops: Vec<Op>,
}

/// Keys which are easily taken for one another.
pub fn keys() -> BoxedStrategy<Vec<Blob>> {
    let base = prop_oneof![
        3 => "[a-zA-Z0-9:_-]{1,12}".prop_map(String::from),
        2 => nasty_text(),
        1 => (edge_len(70_000), 1u32..99)
            .prop_map(|(n, s)| String::from_utf8(
                Blob::Gen { len: n, seed: s, kind: 1 }.bytes()).unwrap()),
    ];
    (base, proptest::collection::vec((0u8..22, any::<u16>()), 1..9))
        .prop_map(|(b, how)| {
            let mut v = vec![b.clone()];
            for (h, r) in how {
                let mid = b
                    .char_indices()
                    .map(|(i, _)| i)
                    .nth(r as usize % b.chars().count().max(1))
                    .unwrap_or(0);
                v.push(match h {
                    0 => format!("{b}\0"),
                    1 => format!("{b} "),
                    2 => format!(" {b}"),
                    3 => b.to_uppercase(),
                    4 => b.to_lowercase(),
                    5 => format!("{b}{b}"),
                    6 => b[..mid].to_string(),
                    7 => b[mid..].to_string(),
                    8 => format!("{b}\r\n"),
                    9 => format!("{{{b}}}1"),
                    10 => format!("{{{b}}}2"),
                    11 => String::new(),
                    12 => format!("e\u{301}{b}"),
                    13 => format!("é{b}"),
                    14 => b.chars().rev().collect(),
                    15 => format!("{}x{}", &b[..mid], &b[mid..]),
                    16 => format!("{b}{r}"),
                    17 => format!("{r}{b}"),
                    18 => format!("\"{b}\""),
                    19 => format!("{b}*"),
                    20 => {
                        // one bit apart
                        let mut w = b.clone().into_bytes();
                        let n = w.len().max(1);
                        if let Some(x) = w.get_mut(r as usize % n) {
                            *x ^= 1;
                        }
                        String::from_utf8(w).unwrap_or(format!("{b}!"))
                    }
                    _ => format!("{}", r % 10),
                });
            }
            v.into_iter().map(|s| Blob::Lit(s.into_bytes())).collect()
        })
        .boxed()
}

fn value() -> BoxedStrategy<Blob> {
    prop_oneof![
        5 => small_bytes(),
        2 => edge_blob(5_000, false),
        1 => edge_blob(140_000, false),
        1 => Just(Blob::Lit(vec![])),
        1 => proptest::sample::select(vec!["a", "b", "nil", "-1", "0", "$-1\r\n", "OK"])
            .prop_map(Blob::s),
    ]
    .boxed()
}

fn strat() -> BoxedStrategy<Case> {
    let op = (
        0u8..6,
        any::<u8>(),
        proptest::option::weighted(0.5, value()),
        proptest::bool::weighted(0.1),
        proptest::bool::weighted(0.5),
        proptest::option::weighted(
            0.04,
            proptest::sample::select(vec![
                Ending::Close,
                Ending::HalfClose,
                Ending::Reset,
            ]),
        ),
    )
        .prop_map(|(conn, key, set, simple, piped, ending)| Op {
            conn,
            key,
            set,
            simple,
            piped,
            ending,
        });
    (
        proptest::option::weighted(0.12, 0u8..8),
        keys(),
        proptest::collection::vec(op, 2..80),
    )
        .prop_map(|(fresh, keys, ops)| Case { fresh, keys, ops })
        .boxed()
}

fn arg_of(b: &Blob, simple: bool) -> Arg {
    let v = b.bytes();
    if simple
        && std::str::from_utf8(&v).is_ok()
        && !v.contains(&b'\r')
        && !v.contains(&b'\n')
    {
        Arg::Simple(b.clone())
    } else {
        Arg::Bulk(b.clone())
    }
}

pub fn steps(c: &Case) -> Vec<Step> {
    let mut out: Vec<Step> = vec![];
    let mut last = 0;
    for op in &c.ops {
        let key = arg_of(&c.keys[op.key as usize % c.keys.len()], op.simple);
        let cmd = match &op.set {
            Some(v) => vec![Arg::bulk("SET"), key, arg_of(v, op.simple)],
            None => vec![Arg::bulk("GET"), key],
        };
        match out.last_mut() {
            Some(Step::Batch { cmds, .. }) if op.piped => cmds.push(cmd),
            _ => {
                last = op.conn;
                out.push(Step::Batch {
                    conn: op.conn,
                    cmds: vec![cmd],
                    send: Send::plain(),
                })
            }
        }
        if let Some(how) = op.ending {
            out.push(Step::End { conn: last, how });
        }
    }
    out
}

fn history(b: &mut Bench, c: &Case) -> Res {
    if let Some(cpus) = c.fresh {
        let o = Opts { cpus, ..(b.opts)() };
        b.server = Some(Server::start(&o)?);
        b.facts = None;
    }
    let r = b.run(|sv, n, facts| {
        let mut w = World::new(sv, facts);
        let mut s = steps(c);
        if c.fresh.is_none() {
            s = own_keys(&s, &format!("c{n}:"));
        }
        w.run(&s)?;
        w.audit()?;
        w.barrier()?;
        let sets = c.ops.iter().filter(|o| o.set.is_some()).count();
        let mut tags = vec![];
        if w.model.db.len() < sets {
            tags.push("overwrites");
        }
        if w.live.len() > 2 {
            tags.push("several connections");
        }
        if c.fresh.is_some() {
            tags.push("raw keys on a fresh server");
        }
        if w.stats.largest_reply > 8192 {
            tags.push("values over 8 KiB");
        }
        Ok(Pass {
            nontrivial: w.model.db.len() >= 2 && w.model.db.len() < sets,
            tags,
        })
    });
    if c.fresh.is_some() {
        b.server = None;
    }
    r
}

/// Many keys at once.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Many {
    n: u32,
    shape: u8,
    seed: u32,
    conns: u8,
    /// every so many keys are written again
    again: u32,
}

impl Many {
    fn key(&self, i: u32) -> Vec<u8> {
        let x = (i as u64 + 1)
            .wrapping_mul(0x9E3779B97F4A7C15)
            .wrapping_add(self.seed as u64);
        match self.shape {
            0 => format!("{}", i).into_bytes(),
            1 => format!("user:{:08}:{}", i, self.seed).into_bytes(),
            2 => format!("{:016x}", x).into_bytes(),
            3 => format!("{}{}", "k".repeat((i % 40) as usize), i / 40)
                .into_bytes(),
            // same words in other places
            _ => format!("{:04x}{:04x}", i & 0xffff, i >> 16).into_bytes(),
        }
    }

    fn value(&self, i: u32, gen: u32) -> Vec<u8> {
        format!("v{i}/{gen}/{}", self.seed).into_bytes()
    }
}

fn many(c: &Many) -> Res {
    let mut sv = Server::start(&Opts::new())?;
    let nc = c.conns.max(1) as u32;
    // Each connection has a part of the keys, another one in the next phase.
    let pipe = |sv: &mut Server, idx: &[u32], set: Option<u32>, shift: u32| {
        let addr = sv.addr();
        let work = |k: u32| -> Result<(), Bad> {
            let mut cl = Client::open(addr)?;
            for ch in idx.chunks(500) {
                if (ch[0] / 500 + shift) % nc != k {
                    continue;
                }
                let mut b = vec![];
                for i in ch {
                    let key = c.key(*i);
                    b.extend(match set {
                        Some(g) => encode(&[b"SET", &key, &c.value(*i, g)]),
                        None => encode(&[b"GET", &key]),
                    });
                }
                cl.send(&b)?;
                for i in ch {
                    let want = match set {
                        Some(_) => Val::simple("OK"),
                        None => Val::Bulk(c.value(
                            *i,
                            if c.again > 0 && i % c.again == 0 { 2 } else { 1 },
                        )),
                    };
                    let got = cl.reply()?;
                    if got != want {
                        violation!(
                            "{} of key {:?} (number {i} of {}): {got:?} instead \
                             of {want:?}",
                            if set.is_some() { "SET" } else { "GET" },
                            c.key(*i).escape_ascii().to_string(),
                            c.n
                        );
                    }
                }
            }
            Ok(())
        };
        let r: Result<(), Bad> = std::thread::scope(|s| {
            let all: Vec<_> = (0..nc).map(|k| s.spawn(move || work(k))).collect();
            all.into_iter().map(|t| t.join().unwrap()).collect()
        });
        sv.check_alive().and(r)
    };
    let all: Vec<u32> = (0..c.n).collect();
    pipe(&mut sv, &all, Some(1), 0)?;
    if c.again > 0 {
        let again: Vec<u32> =
            all.iter().copied().filter(|i| i % c.again == 0).collect();
        pipe(&mut sv, &again, Some(2), 1)?;
    }
    pipe(&mut sv, &all, None, 1)?;
    let tag = if c.n > 1 << 20 { "more than 2^20 keys" } else { "large populations" };
    Ok(Pass { nontrivial: true, tags: vec![tag] })
}

pub fn run(r: &mut Report) {
    r.rule(
        "history: SET/GET over 2-9 look-alike keys on up to 6 connections \
         (of servers using 1 to all processors, pipelined, connections ending in between), every reply and a final \
         read of every key compared to a map; non-trivial = at least 2 keys \
         set and one overwritten. many: populations of keys written, partly \
         written \
         again, all read back from other connections (population: more than \
         2^20 of them); all non-trivial.",
    );
    let mut b = Bench::new(Opts::new);
    r.drive("history", strat(), r.n(1000, 16000), |c| history(&mut b, c));
    let many_of = |lo: u32, hi: u32| {
        (lo..hi, 0u8..5, any::<u16>(), 1u8..9, 0u32..5).prop_map(
            |(n, shape, seed, conns, again)| Many {
                n,
                shape,
                seed: seed as u32,
                conns,
                again,
            },
        )
    };
    r.drive("many", many_of(20_000, 100_000), r.n(3, 12), many);
    // More than the table has room for at first.
    let top = r.n(1_250_000, 4_000_000) as u32;
    let big = many_of(1_100_000, top).prop_map(|m| Many { conns: 8, ..m });
    r.drive("population", big, r.n(1, 4), many);
}
