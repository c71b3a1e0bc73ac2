//! C23: the filters of CLIENT LIST.
use proptest::prelude::*;
use rvcommon::resp::{Arg, Val};
use rvcommon::{violation, Bad, Blob, Pass, Report, Res};
use serde::{Deserialize, Serialize};

use super::c11::{open, One};
use crate::client::{eventually, Reply};
use crate::engine::*;
use crate::model::{check_entry, parse_entry};
use crate::server::{Opts, Server};

/// A number given to the filter
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Pick {
    Open(u16),
    Ended(u16),
    /// That many after the newest
    Future(u32),
    Number(u64),
    /// The one of an open connection, and so much more
    Off(u16, u64),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Ask {
    who: u16,
    kind: Option<String>,
    ids: Vec<(Pick, u8)>,
    client: String,
    list: String,
    words: [String; 2],
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Op {
    Open(u8),
    Name(u16, Blob),
    End(u16, Ending),
    Ask(Ask),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Case {
    ops: Vec<Op>,
}

fn ask() -> BoxedStrategy<Ask> {
    let pick = prop_oneof![
        6 => any::<u16>().prop_map(Pick::Open),
        2 => any::<u16>().prop_map(Pick::Ended),
        1 => (1u32..2000).prop_map(Pick::Future),
        1 => (0u64..12).prop_map(Pick::Number),
        2 => (any::<u16>(), proptest::sample::select(vec![
            1, 10, 100, 1 << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 48, 1 << 53,
            1 << 63, u64::MAX,
        ])).prop_map(|(i, d)| Pick::Off(i, d)),
        1 => proptest::sample::select(vec![
            u64::MAX, u64::MAX - 1, 1 << 63, i64::MAX as u64, 1 << 32,
            (1 << 32) - 1, (1 << 32) + 1, 65536, 65535,
        ]).prop_map(Pick::Number),
    ];
    let kind = || {
        proptest::sample::select(vec!["normal", "replica", "master", "pubsub"])
            .prop_flat_map(cased)
    };
    let n = prop_oneof![4 => 1usize..6, 1 => 6usize..60];
    let ids = n.prop_flat_map(move |n| {
        proptest::collection::vec((pick.clone(), 0u8..3), n)
    });
    let what = prop_oneof![
        2 => kind().prop_map(|k| (Some(k), vec![])),
        5 => ids.clone().prop_map(|i| (None, i)),
        3 => (kind(), ids).prop_map(|(k, i)| (Some(k), i)),
        1 => Just((None, vec![])),
    ];
    (any::<u16>(), what, cased("client"), cased("list"), cased("type"), cased("id"))
        .prop_map(|(who, (kind, ids), client, list, t, i)| Ask {
            who,
            kind,
            ids,
            client,
            list,
            words: [t, i],
        })
        .boxed()
}

fn strat() -> BoxedStrategy<Case> {
    let name = prop_oneof![
        4 => "[!-~]{0,20}".prop_map(|s: String| Blob::s(&s)),
        1 => (0usize..5000, any::<u8>())
            .prop_map(|(len, s)| Blob::Gen { len, seed: s as u32, kind: 1 }),
    ];
    let op = prop_oneof![
        4 => (1u8..6).prop_map(Op::Open),
        1 => (any::<u16>(), name).prop_map(|(i, n)| Op::Name(i, n)),
        2 => (any::<u16>(), proptest::sample::select(vec![
            Ending::Close, Ending::HalfClose, Ending::Reset]))
            .prop_map(|(i, e)| Op::End(i, e)),
        6 => ask().prop_map(Op::Ask),
    ];
    proptest::collection::vec(op, 2..40).prop_map(|ops| Case { ops }).boxed()
}

fn query(
    sv: &mut Server,
    all: &mut [One],
    ended: &[i64],
    a: &Ask,
) -> Result<usize, Bad> {
    let newest = all.iter().filter_map(|o| o.st.id).chain(ended.iter().copied());
    let newest = newest.max().unwrap_or(0);
    let mut cmd = vec![Arg::bulk(&a.client), Arg::bulk(&a.list)];
    if let Some(k) = &a.kind {
        cmd.push(Arg::bulk(&a.words[0]));
        cmd.push(Arg::bulk(k));
    }
    let mut ids: Vec<u64> = vec![];
    if !a.ids.is_empty() {
        cmd.push(Arg::bulk(&a.words[1]));
    }
    for (p, form) in &a.ids {
        let n = match p {
            Pick::Open(i) => all[*i as usize % all.len()].st.id.unwrap() as u64,
            Pick::Ended(i) => match ended.len() {
                0 => newest as u64 + 1,
                l => ended[*i as usize % l] as u64,
            },
            Pick::Future(d) => newest as u64 + *d as u64,
            Pick::Number(n) => *n,
            Pick::Off(i, d) => (all[*i as usize % all.len()].st.id.unwrap() as u64)
                .wrapping_add(*d),
        };
        ids.push(n);
        cmd.push(match form {
            0 => Arg::Int(n),
            1 => Arg::Simple(Blob::s(&n.to_string())),
            _ => Arg::bulk(n.to_string()),
        });
    }
    let normal =
        a.kind.as_ref().map(|k| k.to_lowercase() == "normal").unwrap_or(true);
    let wanted: Vec<bool> = all
        .iter()
        .map(|o| {
            normal
                && (ids.is_empty() || ids.contains(&(o.st.id.unwrap() as u64)))
        })
        .collect();
    let mut bytes = vec![];
    encode_cmd(&cmd, &mut bytes);
    let who = a.who as usize % all.len();
    let shown = show_cmd(&cmd);
    eventually(sv, |sv| {
        all[who].conn.send(sv, &bytes, false)?;
        let v = match all[who].conn.reply(sv)? {
            Reply::Val(v) => v,
            Reply::Closed(e) => violation!("{shown}: closed ({e:?})"),
        };
        let Val::Arr(es) = &v else { violation!("{shown}: {v:?}") };
        let mut seen = vec![0usize; all.len()];
        let mut extra = vec![];
        for e in es {
            let e = parse_entry(e)?;
            match all.iter_mut().position(|o| o.st.id == Some(e.id)) {
                Some(i) => {
                    check_entry(&e, &mut all[i].st)?;
                    seen[i] += 1;
                }
                None if !normal
                    || !ids.is_empty() && !ids.contains(&(e.id as u64)) =>
                {
                    violation!("{shown}: it has {e:?}, which isn't asked for")
                }
                None => extra.push(e),
            }
        }
        for (i, n) in seen.iter().enumerate() {
            if *n != wanted[i] as usize {
                violation!(
                    "{shown}: {n} entries of connection {:?} instead of {}",
                    all[i].st.id,
                    wanted[i] as usize
                );
            }
        }
        // Those which have just ended go away.
        Ok(if extra.is_empty() {
            Ok(())
        } else {
            Err(format!("{shown}: entries of ended connections: {extra:?}"))
        })
    })?;
    Ok(wanted.iter().filter(|w| **w).count())
}

fn check(b: &mut Bench, c: &Case) -> Res {
    b.run(|sv, _, _| {
        let mut all: Vec<One> = vec![open(sv, 1, 1)?];
        let mut ended = vec![];
        let (mut some, mut none) = (0, 0);
        for op in &c.ops {
            let n = all.len();
            match op {
                Op::Open(a) => all.push(open(sv, *a, 1 + *a % 3)?),
                Op::Name(i, name) => {
                    let o = &mut all[*i as usize % n];
                    let b = name.bytes();
                    let v =
                        o.conn.call(sv, &[b"CLIENT", b"SETNAME", &b[..]])?;
                    if v != Val::simple("OK") {
                        violation!("SETNAME of a valid name: {v:?}");
                    }
                    o.st.name = Some(b).filter(|b| !b.is_empty());
                }
                Op::End(i, how) => {
                    if n > 1 {
                        let o = all.swap_remove(*i as usize % n);
                        ended.push(o.st.id.unwrap());
                        end(sv, o.conn, *how)?;
                    }
                }
                Op::Ask(a) => {
                    let n = query(sv, &mut all, &ended, a)?;
                    if n > 0 && n < all.len() {
                        some += 1;
                    } else if n == 0 {
                        none += 1;
                    }
                }
            }
        }
        let mut tags = vec![];
        if none > 0 {
            tags.push("nothing selected");
        }
        if some > 0 {
            tags.push("some selected");
        }
        Ok(Pass { nontrivial: some > 0, tags })
    })
}

pub fn run(r: &mut Report) {
    r.rule(
        "filters: connections open, get names and end; CLIENT LIST with a TYPE, \
         identifiers (of open, ended and no connections, repeated, as bulk, \
         simple and integer) or both must list exactly the open ones selected, \
         each once with its own entry; non-trivial = a query selected some of \
         the connections but not all. churn: the filters while other \
         connections are opened and ended: those which stay and are asked for \
         must be in every reply exactly once, and none which wasn't asked for; \
         non-trivial = all. aged: the same on servers whose identifiers are \
         already near the end of 8, 16, 31, 32, 53... bits (hook).",
    );
    r.assume(
        "left open: a TYPE or ID without anything behind, repeated TYPE, \
         unknown filters",
    );
    let mut b = Bench::new(Opts::wildcard);
    r.drive("filters", strat(), r.n(7000, 90000), |c| check(&mut b, c));
    b.server = None;
    let n = r.n(60, 1000);
    aged(r, strat(), n, Opts::wildcard, check);
    let s = super::c26::strat(300);
    r.drive("churn", s, r.n(25, 300), |c| super::c26::check(c, true));
}
