//! C19: HELLO.
use proptest::prelude::*;
use rvcommon::resp::Arg;
use rvcommon::{Pass, Report, Res};
use serde::{Deserialize, Serialize};

use crate::engine::*;
use crate::server::Opts;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Case {
    steps: Vec<Step>,
}

fn strat() -> BoxedStrategy<Case> {
    let cmd = prop_oneof![
        5 => word(cased("HELLO")).prop_map(|c| vec![c]),
        2 => Just(vec![Arg::bulk("CLIENT"), Arg::bulk("ID")]),
        1 => (word("[a-z]{1,9}".boxed())).prop_map(|n|
            vec![Arg::bulk("CLIENT"), Arg::bulk("SETNAME"), n]),
        1 => Just(vec![Arg::bulk("CLIENT"), Arg::bulk("GETNAME")]),
        4 => super::c04::any_cmd(2000),
        1 => (word(cased("HELLO")), proptest::collection::vec(
            proptest::sample::select(vec!["3", "2", "AUTH", "u", "p", "SETNAME", "evil"])
                .prop_map(Arg::bulk), 1..5))
            .prop_map(|(c, mut a)| { a.insert(0, c); a }),
    ];
    let step = prop_oneof![
        12 => (0u8..5, proptest::collection::vec(cmd, 1..8), seg()).prop_map(|(conn, cmds, seg)|
            Step::Batch { conn, cmds, send: Send { seg, ..Send::plain() } }),
        1 => (0u8..5, proptest::sample::select(vec![
            Ending::Close, Ending::HalfClose, Ending::Reset]))
            .prop_map(|(conn, how)| Step::End { conn, how }),
    ];
    proptest::collection::vec(step, 2..20)
        .prop_map(|steps| Case { steps })
        .boxed()
}

fn check(b: &mut Bench, c: &Case) -> Res {
    b.run(|sv, n, facts| {
        let mut w = World::new(sv, facts);
        w.run(&own_keys(&c.steps, &format!("c{n}:")))?;
        // On each connection both orders of asking.
        let ids: Vec<u8> = w.live.keys().copied().collect();
        for conn in ids.iter().copied() {
            let cmds = vec![
                vec![Arg::bulk("CLIENT"), Arg::bulk("ID")],
                vec![Arg::bulk("HELLO")],
                vec![Arg::bulk("CLIENT"), Arg::bulk("INFO")],
                vec![Arg::bulk("CLIENT"), Arg::bulk("GETNAME")],
            ];
            w.step(&Step::Batch { conn, cmds, send: Send::plain() })?;
        }
        let mut seen: Vec<i64> =
            w.live.values().filter_map(|l| l.st.id).collect();
        seen.sort();
        seen.dedup();
        if seen.len() != w.live.len() {
            rvcommon::violation!("connections share their identifier: {seen:?}");
        }
        w.audit()?;
        w.audit_list()?;
        w.barrier()?;
        Ok(Pass {
            nontrivial: ids.len() >= 2,
            tags: if ids.len() > 3 { vec!["4 connections or more"] } else { vec![] },
        })
    })
}

pub fn run(r: &mut Report) {
    r.rule(
        "hello: HELLO (in any case, also with arguments) amid any commands on \
         up to 5 connections which end and come back; keys, protocol, \
         identifier and facts of each reply checked against the other replies \
         of the run and of the connection, data and names audited; non-trivial \
         = 2 connections or more at the end. aged: the same on servers whose \
         identifiers are already near the end of 8, 16, 31, 32, 53... bits \
         (hook).",
    );
    let mut b = Bench::new(Opts::wildcard);
    r.drive("hello", strat(), r.n(6000, 80000), |c| check(&mut b, c));
    b.server = None;
    let n = r.n(80, 1200);
    aged(r, strat(), n, Opts::wildcard, check);
}
