//! C20: malformed commands.
use proptest::prelude::*;
use rvcommon::resp::Arg;
use rvcommon::{Blob, Pass, Report, Res};
use serde::{Deserialize, Serialize};
use std::time::Duration;

use crate::engine::*;
use crate::model::{ConnState, Expect};
use crate::server::Opts;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Case {
    /// commands run before by the other connections
    setup: Vec<(u8, Cmd)>,
    before: Vec<Cmd>,
    bad: Cmd,
    after: Vec<Cmd>,
    seg: Seg,
    us: u64,
}

/// An argument which is no text, no bytes and no number.
fn odd() -> BoxedStrategy<Arg> {
    prop_oneof![
        2 => Just(Arg::Null),
        2 => Just(Arg::Arr(vec![])),
        1 => Just(Arg::Arr(vec![Arg::bulk("a"), Arg::bulk("b")])),
        2 => Just(Arg::Map(vec![(Arg::bulk("a"), Arg::bulk("b"))])),
        1 => Just(Arg::Map(vec![])),
        2 => Just(Arg::Err(Blob::s("a"))),
        1 => Just(Arg::Err(Blob::s("10"))),
    ]
    .boxed()
}

fn number() -> BoxedStrategy<Arg> {
    (0u64..100).prop_map(Arg::Int).boxed()
}

fn not_text() -> BoxedStrategy<Arg> {
    proptest::sample::select(vec![
        b"\xff".to_vec(),
        b"a\x80".to_vec(),
        b"\xc3".to_vec(),
        b"\xed\xa0\x80".to_vec(),
        b"\xf4\x90\x80\x80".to_vec(),
    ])
    .prop_map(|v| Arg::Bulk(Blob::Lit(v)))
    .boxed()
}

/// What isn't a number of seconds.
fn bad_number() -> BoxedStrategy<Arg> {
    let texts = vec![
        "", "-1", "-10", "1.5", "abc", "10s", " 10", "10 ", "0x10", "1e3",
        "18446744073709551616", "99999999999999999999999999", "9e99", "ten",
        "10,0", "1 0", "\0", "10\0", "nan", "EX", "--1", "1-", "１",
        "+1", "+10", "+0", "+", "+18446744073709551615", "1_000", "10.", ".5",
    ];
    let texts: Vec<String> = texts.into_iter().map(String::from).collect();
    // A number with something in it which doesn't belong there.
    let c = prop_oneof![
        proptest::sample::select("+-.,_ \t\r\n\0eExXoOsm'\"".chars().collect::<Vec<_>>()),
        any::<char>(),
    ];
    let spoiled = (0u64..200_000, c, 0usize..8).prop_map(|(n, c, at)| {
        let mut s = n.to_string();
        let at = at % (s.len() + 1);
        // "-0" may be taken for zero.
        let fine = c.is_ascii_digit() || (c == '-' && at == 0 && n == 0);
        s.insert(at, if fine { 'x' } else { c });
        s
    });
    prop_oneof![
        5 => word(proptest::sample::select(texts).boxed()),
        3 => word(spoiled.boxed()),
        2 => odd(),
        1 => not_text(),
    ]
    .boxed()
}

fn w(s: &'static str) -> BoxedStrategy<Arg> {
    cased(s).prop_map(Arg::bulk).boxed()
}

fn key() -> BoxedStrategy<Arg> {
    proptest::sample::select(vec!["a", "b", "c", "d"])
        .prop_map(Arg::bulk)
        .boxed()
}

fn val() -> BoxedStrategy<Arg> {
    "[a-z0-9]{0,6}".prop_map(Arg::bulk).boxed()
}

fn any_arg() -> BoxedStrategy<Arg> {
    prop_oneof![3 => val(), 1 => key(), 1 => odd(), 1 => number(), 1 => not_text()]
        .boxed()
}

fn bad() -> BoxedStrategy<Cmd> {
    let secs = || {
        prop_oneof![
            (1u64..100).prop_map(|n| Arg::bulk(n.to_string())),
            (1u64..100).prop_map(Arg::Int)
        ]
        .boxed()
    };
    let opt = || prop_oneof![w("EX"), w("PX")].boxed();
    let more = || proptest::collection::vec(any_arg(), 1..4);
    let nokey = || prop_oneof![odd(), number(), not_text()].boxed();
    let noval = || prop_oneof![odd(), number()].boxed();
    let other = || {
        prop_oneof![
            w("NX"), w("XX"), w("GET"), w("KEEPTTL"), w("EXAT"), w("PXAT"),
            w("EXX"), w("E"), w("PXX"), w("EX "), w("FOREVER"), w(""), odd(), number(), not_text(),
        ]
        .boxed()
    };
    let join = |mut a: Cmd, mut b: Cmd| {
        a.append(&mut b);
        a
    };
    let set = prop_oneof![
        1 => w("SET").prop_map(|s| vec![s]),
        1 => (w("SET"), key()).prop_map(|(s, k)| vec![s, k]),
        3 => (w("SET"), nokey(), val()).prop_map(|(s, k, v)| vec![s, k, v]),
        3 => (w("SET"), key(), noval()).prop_map(|(s, k, v)| vec![s, k, v]),
        3 => (w("SET"), key(), val(), other()).prop_map(|(s, k, v, o)| vec![s, k, v, o]),
        3 => (w("SET"), key(), val(), other(), secs()).prop_map(|(s, k, v, o, n)| vec![s, k, v, o, n]),
        3 => (w("SET"), key(), val(), opt()).prop_map(|(s, k, v, o)| vec![s, k, v, o]),
        5 => (w("SET"), key(), val(), opt(), bad_number()).prop_map(|(s, k, v, o, n)| vec![s, k, v, o, n]),
        3 => (w("SET"), key(), val(), opt(), secs(), more()).prop_map(move |(s, k, v, o, n, m)|
            join(vec![s, k, v, o, n], m)),
        2 => (w("SET"), key(), val(), opt(), secs(), opt(), secs()).prop_map(|(s, k, v, o, n, p, q)|
            vec![s, k, v, o, n, p, q]),
        1 => (w("SET"), key(), val(), val(), more()).prop_map(move |(s, k, v, x, m)|
            join(vec![s, k, v, x], m)),
    ];
    let get = prop_oneof![
        1 => w("GET").prop_map(|s| vec![s]),
        2 => (w("GET"), nokey()).prop_map(|(s, k)| vec![s, k]),
        2 => (w("GET"), key(), more()).prop_map(move |(s, k, m)| join(vec![s, k], m)),
    ];
    let client = prop_oneof![
        4 => (w("CLIENT"), w("SETNAME"), val(), more()).prop_map(move |(c, s, n, m)| join(vec![c, s, n], m)),
        1 => (w("CLIENT"), w("SETNAME")).prop_map(|(c, s)| vec![c, s]),
        3 => (w("CLIENT"), w("SETNAME"), nokey()).prop_map(|(c, s, n)| vec![c, s, n]),
        2 => (w("CLIENT"), prop_oneof![w("GETNAME"), w("ID"), w("INFO"), w("HELP")], more())
            .prop_map(move |(c, s, m)| join(vec![c, s], m)),
        1 => (w("CLIENT"), nokey()).prop_map(|(c, s)| vec![c, s]),
        1 => (w("CLIENT"), w("SETINFO"), val(), val(), more()).prop_map(move |(c, s, a, b, m)|
            join(vec![c, s, a, b], m)),
    ];
    let rest = prop_oneof![
        2 => (w("PING"), val(), more()).prop_map(move |(c, a, m)| join(vec![c, a], m)),
        1 => (w("PING"), noval()).prop_map(|(c, a)| vec![c, a]),
        2 => (w("HELLO"), more()).prop_map(move |(c, m)| join(vec![c], m)),
        1 => w("ACL").prop_map(|c| vec![c]),
        1 => (w("ACL"), w("CAT"), val(), more()).prop_map(move |(a, c, x, m)| join(vec![a, c, x], m)),
        1 => (w("ACL"), nokey()).prop_map(|(c, a)| vec![c, a]),
        1 => Just(vec![]),
        2 => (nokey(), key(), val()).prop_map(|(n, k, v)| vec![n, k, v]),
        1 => (key(), val()).prop_map(|(k, v)|
            vec![Arg::Arr(vec![Arg::bulk("SET"), k.clone(), v.clone()]), k, v]),
    ];
    prop_oneof![6 => set, 1 => get, 3 => client, 3 => rest].boxed()
}

fn good() -> BoxedStrategy<Cmd> {
    prop_oneof![
        4 => (w("SET"), key(), val()).prop_map(|(s, k, v)| vec![s, k, v]),
        2 => (w("GET"), key()).prop_map(|(s, k)| vec![s, k]),
        1 => w("PING").prop_map(|s| vec![s]),
        2 => (w("CLIENT"), w("SETNAME"), "[a-z]{0,5}".prop_map(Arg::bulk))
            .prop_map(|(c, s, n)| vec![c, s, n]),
        1 => (w("CLIENT"), w("GETNAME")).prop_map(|(c, s)| vec![c, s]),
        1 => (w("NOSUCH"), key(), val()).prop_map(|(s, k, v)| vec![s, k, v]),
    ]
    .boxed()
}

fn strat() -> BoxedStrategy<Case> {
    (
        proptest::collection::vec((0u8..3, good()), 0..8),
        proptest::collection::vec(good(), 0..5),
        bad(),
        proptest::collection::vec(good(), 0..5),
        seg(),
        proptest::sample::select(vec![0u64, 0, 200]),
    )
        .prop_map(|(setup, before, bad, after, seg, us)| Case {
            setup,
            before,
            bad,
            after,
            seg,
            us,
        })
        .boxed()
}

fn check(b: &mut Bench, c: &Case) -> Res {
    b.run(|sv, n, facts| {
        let mut w = World::new(sv, facts);
        let mut steps: Vec<Step> = c
            .setup
            .iter()
            .map(|(conn, cmd)| Step::Batch {
                conn: *conn,
                cmds: vec![cmd.clone()],
                send: Send::plain(),
            })
            .collect();
        let mut cmds = c.before.clone();
        cmds.push(c.bad.clone());
        cmds.extend(c.after.iter().cloned());
        steps.push(Step::Batch {
            conn: 1,
            cmds,
            send: Send { seg: c.seg.clone(), us: c.us, ..Send::plain() },
        });
        let p = format!("c{n}:");
        let steps = own_keys(&steps, &p);
        // All the keys are looked at in the end, also those which must not
        // have come up.
        let mut look: Vec<Cmd> = vec![];
        for k in ["a", "b", "c", "d", ""] {
            look.push(vec![Arg::bulk("GET"), Arg::bulk(format!("{p}{k}"))]);
        }
        w.run(&steps)?;
        let closed = w.stats.closed > 0;
        for pause in [0, if closed { 4 } else { 0 }] {
            std::thread::sleep(Duration::from_millis(pause));
            w.step(&Step::Batch {
                conn: 9,
                cmds: look.clone(),
                send: Send::plain(),
            })?;
        }
        w.audit()?;
        w.audit_list()?;
        let ids: Vec<u8> = w.live.keys().copied().collect();
        for conn in ids {
            w.step(&Step::Batch {
                conn,
                cmds: vec![vec![Arg::bulk("CLIENT"), Arg::bulk("GETNAME")]],
                send: Send::plain(),
            })?;
        }
        w.barrier()?;
        let a = "127.0.0.1:1".parse().unwrap();
        let is_bad = matches!(
            crate::model::Model::default()
                .exec(&mut ConnState::new(a, a), &c.bad),
            Expect::ErrorOrClose
        );
        let mut tags = vec![];
        if is_bad {
            tags.push("malformed");
        }
        if closed {
            tags.push("connection closed");
        } else if is_bad {
            tags.push("error reply");
        }
        if !c.before.is_empty() && !c.after.is_empty() {
            tags.push("amid other commands");
        }
        Ok(Pass { nontrivial: is_bad, tags })
    })
}

pub fn run(r: &mut Report) {
    r.rule(
        "malformed: one command with missing, surplus, mistyped or unsupported \
         arguments amid valid pipelined commands, with other connections and \
         keys in a known state; replies before it, its error or the close, and \
         afterwards every key and every name are compared to the model where \
         it has no effect and nothing after a close is executed; non-trivial = \
         the command is malformed.",
    );
    r.assume("a SET with EX 0 or PX 0 isn't taken as malformed nor as valid: not generated");
    let mut b = Bench::new(Opts::new);
    r.drive("malformed", strat(), r.n(5500, 80000), |c| check(&mut b, c));
}
