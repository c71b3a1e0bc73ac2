//! C14: sizes.
use proptest::prelude::*;
use rvcommon::blob::edge_len;
use rvcommon::resp::Arg;
use rvcommon::{Blob, Pass, Report, Res};
use serde::{Deserialize, Serialize};

use crate::engine::*;
use crate::server::Opts;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Case {
    steps: Vec<Step>,
}

#[derive(Clone, Debug)]
enum What {
    Value(usize, u8),
    Key(usize),
    Ping(usize, u8),
    Get(u8),
    Small,
}

fn what(max: usize) -> BoxedStrategy<What> {
    prop_oneof![
        4 => (edge_len(max), 0u8..4).prop_map(|(n, k)| What::Value(n, k)),
        2 => edge_len(max).prop_map(What::Key),
        3 => (edge_len(max), 0u8..4).prop_map(|(n, k)| What::Ping(n, k)),
        4 => any::<u8>().prop_map(What::Get),
        2 => Just(What::Small),
    ]
    .boxed()
}

/// SET, GET and PING of generated sizes one after the other.
fn build(ops: Vec<(u8, Vec<What>, Send)>) -> Case {
    let mut keys: Vec<Blob> = vec![Blob::s("k")];
    let mut steps = vec![];
    let mut seed = 1u32;
    for (conn, ws, send) in ops {
        let mut cmds: Vec<Cmd> = vec![];
        for w in ws {
            seed += 1;
            match w {
                What::Value(n, kind) => {
                    let k = Blob::s(&format!("v{}", seed % 5));
                    keys.push(k.clone());
                    cmds.push(vec![
                        Arg::bulk("SET"),
                        Arg::Bulk(k),
                        Arg::Bulk(Blob::Gen { len: n, seed, kind }),
                    ]);
                }
                What::Key(n) => {
                    let k = Blob::Gen { len: n, seed: seed % 3, kind: 1 };
                    keys.push(k.clone());
                    cmds.push(vec![
                        Arg::bulk("SET"),
                        Arg::Bulk(k),
                        Arg::bulk(format!("of key {n}/{seed}")),
                    ]);
                }
                What::Ping(n, kind) => cmds.push(vec![
                    Arg::bulk("PING"),
                    Arg::Bulk(Blob::Gen { len: n, seed, kind }),
                ]),
                What::Get(i) => {
                    let k = keys[keys.len() - 1 - i as usize % keys.len().min(6)]
                        .clone();
                    cmds.push(vec![Arg::bulk("GET"), Arg::Bulk(k)]);
                }
                What::Small => cmds.push(vec![Arg::bulk("PING")]),
            }
        }
        steps.push(Step::Batch { conn, cmds, send });
    }
    Case { steps }
}

fn strat(max: usize, max_cmds: usize) -> BoxedStrategy<Case> {
    let step =
        (0u8..3, proptest::collection::vec(what(max), 1..max_cmds), send_plan(true));
    proptest::collection::vec(step, 1..4).prop_map(build).boxed()
}

/// Few commands, of sizes spread over the orders of magnitude.
fn huge(top: u32) -> BoxedStrategy<Case> {
    let size = || {
        prop_oneof![
            3 => (18u32..=top, 0usize..1 << 16)
                .prop_map(|(p, f)| (1usize << p) + ((1usize << p) >> 16) * f),
            1 => (20u32..=top, -3i64..4).prop_map(|(p, d)| ((1i64 << p) + d) as usize),
        ]
    };
    let what = prop_oneof![
        4 => (size(), 0u8..4).prop_map(|(n, k)| What::Value(n, k)),
        1 => size().prop_map(What::Key),
        2 => (size(), 0u8..4).prop_map(|(n, k)| What::Ping(n, k)),
        2 => any::<u8>().prop_map(What::Get),
        1 => Just(What::Small),
    ];
    let step = (0u8..2, proptest::collection::vec(what, 1..3), send_plan(true));
    proptest::collection::vec(step, 1..3).prop_map(build).boxed()
}

fn check(b: &mut Bench, c: &Case) -> Res {
    b.run(|sv, n, facts| {
        let mut w = World::new(sv, facts);
        w.rcvbuf = Some(4096);
        w.run(&own_keys(&c.steps, &format!("c{n}:")))?;
        w.audit()?;
        w.barrier()?;
        let s = w.stats.clone();
        let mut tags = vec![];
        if s.bytes_in > 8192 {
            tags.push("over 8 KiB sent");
        }
        if s.largest_reply > 8192 {
            tags.push("a reply over 8 KiB");
        }
        if s.largest_reply > 64 << 10 {
            tags.push("a reply over 64 KiB");
        }
        if s.largest_reply > 1 << 20 {
            tags.push("a reply over 1 MiB");
        }
        if s.largest_reply > 32 << 20 {
            tags.push("a reply over 32 MiB");
        }
        Ok(Pass { nontrivial: s.bytes_in > 512, tags })
    })
}

/// All the sizes of a range, in a row.
fn sweep(from: usize, to: usize, role: u8, conn: u8) -> Case {
    let mut cmds: Vec<Cmd> = vec![];
    for n in from..=to {
        let v = Blob::Gen { len: n, seed: n as u32, kind: 0 };
        let k = Blob::Gen { len: n, seed: 7, kind: 1 };
        match role {
            0 => cmds.push(vec![Arg::bulk("PING"), Arg::Bulk(v)]),
            1 => {
                cmds.push(vec![Arg::bulk("SET"), Arg::bulk("v"), Arg::Bulk(v)]);
                cmds.push(vec![Arg::bulk("GET"), Arg::bulk("v")]);
            }
            _ => {
                cmds.push(vec![
                    Arg::bulk("SET"),
                    Arg::Bulk(k.clone()),
                    Arg::bulk(n.to_string()),
                ]);
                cmds.push(vec![Arg::bulk("GET"), Arg::Bulk(k)]);
            }
        }
    }
    Case {
        steps: cmds
            .chunks(40)
            .map(|c| Step::Batch {
                conn,
                cmds: c.to_vec(),
                send: Send::plain(),
            })
            .collect(),
    }
}

pub fn run(r: &mut Report) {
    r.rule(
        "sizes: keys, values and messages of generated sizes (around powers of \
         two, buffer sizes and digit changes), in any succession, cut and \
         paced; each reply compared byte for byte and all keys read back at the \
         end; non-trivial = more than 512 bytes sent. sweep: every size of \
         ranges around the powers of two as message, value and key. large, huge: up to many \
         megabytes.",
    );
    let mut b = Bench::new(Opts::new);
    r.drive("sizes", strat(70_000, 12), r.n(500, 8000), |c| check(&mut b, c));
    let wide = if r.thorough { 64 } else { 10 };
    let top = if r.thorough { 20 } else { 16 };
    let mut n = 0;
    for p in 0..=top {
        for role in 0..3 {
            let mid = 1usize << p;
            if p < 5 && p > 0 {
                continue;
            }
            let (lo, hi) = if p == 0 {
                (0, 64)
            } else {
                // the whole command or reply may be what has that size
                (mid.saturating_sub(wide + 36), mid + wide / 2)
            };
            n += hi - lo + 1;
            r.one("sweep", sweep(lo, hi, role, 0), |c| check(&mut b, c));
        }
    }
    r.extra.insert("sizes_swept".into(), n.into());
    r.drive("large", strat(6 << 20, 4), r.n(20, 250), |c| check(&mut b, c));
    let top = if r.thorough { 28 } else { 25 };
    r.drive("huge", huge(top), r.n(40, 200), |c| check(&mut b, c));
}
