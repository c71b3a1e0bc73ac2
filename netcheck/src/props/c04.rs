//! C04: one reply per command, in order, however the bytes arrive.
use proptest::prelude::*;
use rvcommon::blob::{edge_blob, nasty_text, small_bytes};
use rvcommon::resp::{Arg, Val};
use rvcommon::{violation, Blob, Pass, Report, Res};
use serde::{Deserialize, Serialize};

use crate::client::{encode, Conn, Reply};
use crate::engine::*;
use crate::server::Opts;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Case {
    steps: Vec<Step>,
}

pub fn key() -> BoxedStrategy<Arg> {
    word(prop_oneof![
        4 => proptest::sample::select(vec!["a", "b", "cc", "k1", "k2", ""])
            .prop_map(String::from),
        1 => nasty_text(),
    ]
    .boxed())
}

/// A valid command of any kind, or an unknown one.
pub fn any_cmd(max_value: usize) -> BoxedStrategy<Cmd> {
    let b = |s: &'static str| Arg::bulk(s);
    let value = prop_oneof![
        5 => small_bytes(),
        2 => edge_blob(2_000, false),
        1 => edge_blob(max_value, false),
    ]
    .boxed();
    let name = proptest::string::string_regex("[a-zA-Z0-9_.:-]{0,20}")
        .unwrap()
        .boxed();
    prop_oneof![
        3 => Just(vec![b("PING")]),
        2 => arg(value.clone()).prop_map(move |m| vec![b("ping"), m]),
        6 => (key(), arg(value.clone())).prop_map(move |(k, v)| vec![b("SET"), k, v]),
        1 => (key(), arg(value), 100_000u64..1_000_000, any::<bool>()).prop_map(
            move |(k, v, n, t)| vec![b("set"), k, v, b("eX"),
                if t { Arg::Int(n) } else { Arg::bulk(n.to_string()) }]),
        6 => key().prop_map(move |k| vec![b("GET"), k]),
        1 => Just(vec![b("HELLO")]),
        1 => Just(vec![b("client"), b("id")]),
        1 => Just(vec![b("client"), b("info")]),
        1 => Just(vec![b("client"), b("list")]),
        1 => Just(vec![b("client"), b("help")]),
        1 => Just(vec![b("client"), b("getname")]),
        1 => word(name.clone()).prop_map(move |n| vec![b("client"), b("setname"), n]),
        1 => word(name.clone()).prop_map(move |n| vec![b("client"), b("setinfo"), b("LIB-NAME"), n]),
        1 => (word(name.clone()), proptest::collection::vec(arg(small_bytes()), 0..4))
            .prop_map(|(n, mut a)| {
                let n = match n { Arg::Simple(x) | Arg::Bulk(x) => x, _ => unreachable!() };
                let mut v = vec![Arg::bulk([b"zz", &n.bytes()[..]].concat())];
                v.append(&mut a);
                v
            }),
        1 => Just(vec![b("acl"), b("cat")]),
        1 => Just(vec![b("client"), b("nosuch"), b("x")]),
    ]
    .boxed()
}

fn strat(slow: bool, max_value: usize, max_cmds: usize) -> BoxedStrategy<Case> {
    let many = prop_oneof![
        6 => proptest::collection::vec(any_cmd(max_value), 1..30),
        2 => proptest::collection::vec(any_cmd(300), 1..max_cmds),
        // the same command many times, as benchmarks do
        1 => (any_cmd(200), 1..max_cmds * 3).prop_map(|(c, n)| vec![c; n]),
    ];
    let step = (0u8..3, many, send_plan(slow))
        .prop_map(|(conn, cmds, send)| Step::Batch { conn, cmds, send });
    proptest::collection::vec(step, 1..4)
        .prop_map(|steps| Case { steps })
        .boxed()
}

fn check(b: &mut Bench, c: &Case) -> Res {
    b.run(|sv, n, facts| {
        let mut w = World::new(sv, facts);
        w.rcvbuf = Some(4096);
        w.run(&own_keys(&c.steps, &format!("c{n}:")))?;
        w.barrier()?;
        let s = &w.stats;
        let mut tags = vec![];
        if s.chunks > c.steps.len() {
            tags.push("segmented");
        }
        if s.max_batch > 100 {
            tags.push("more than 100 commands pipelined");
        }
        if s.max_batch > 1000 {
            tags.push("more than 1000 commands pipelined");
        }
        if c.steps.iter().any(|s| match s {
            Step::Batch { send, .. } => send.hold || send.pace.is_some(),
            _ => false,
        }) {
            tags.push("slow reader");
        }
        if s.largest_reply > 64 * 1024 {
            tags.push("replies over 64 KiB");
        }
        Ok(Pass {
            nontrivial: s.cmds >= 2
                && (s.chunks > c.steps.len() || s.max_batch >= 2),
            tags,
        })
    })
}

/// Bulky replies that nobody reads for a while.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Bulky {
    value: Blob,
    gets: u16,
    hold_ms: u64,
    pace: Option<(usize, u64)>,
}

fn bulky(b: &mut Bench, c: &Bulky) -> Res {
    let mut steps = vec![Step::Batch {
        conn: 0,
        cmds: vec![vec![Arg::bulk("SET"), Arg::bulk("v"), Arg::Bulk(c.value.clone())]],
        send: Send { hold: true, ..Send::plain() },
    }];
    let mut cmds = vec![];
    for i in 0..c.gets {
        cmds.push(vec![Arg::bulk("GET"), Arg::bulk("v")]);
        cmds.push(vec![Arg::bulk("PING"), Arg::bulk(i.to_string())]);
    }
    steps.push(Step::Batch {
        conn: 0,
        cmds,
        send: Send {
            hold: true,
            hold_ms: c.hold_ms,
            pace: c.pace,
            ..Send::plain()
        },
    });
    check(b, &Case { steps })
}

/// Everything is sent before anything is read, more than the kernel holds.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Deep {
    seed: u32,
    /// Small commands
    small: u32,
    /// Ones with large arguments
    large_in: u16,
    /// Ones with large replies
    large_out: u16,
    size_in: u32,
    size_out: u32,
    rcvbuf: Option<u32>,
}

fn deep(b: &mut Bench, c: &Deep) -> Res {
    b.run(|sv, n, _| {
        let mut conn =
            Conn::open_with(sv.addr(), None, c.rcvbuf.map(|n| n as usize))?;
        let key = format!("c{n}:deep");
        let big = vec![b'o'; c.size_out as usize];
        let mut x = (c.seed as u64).wrapping_mul(0x9E3779B97F4A7C15) | 1;
        let mut next = |n: u64| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            x % n
        };
        let mut left = [c.small as u64, c.large_in as u64, c.large_out as u64];
        let mut input = encode(&[b"SET", key.as_bytes(), &big]);
        let mut want: Vec<(u8, u64)> = vec![(0, 0)];
        while left.iter().sum::<u64>() > 0 {
            let mut at = next(left.iter().sum());
            let mut kind = 0;
            while at >= left[kind] {
                at -= left[kind];
                kind += 1;
            }
            left[kind] -= 1;
            let i = want.len() as u64;
            match kind {
                0 => {
                    input.extend(encode(&[b"PING", i.to_string().as_bytes()]));
                    want.push((1, i));
                }
                1 => {
                    let mut v = i.to_string().into_bytes();
                    v.resize(c.size_in as usize + 20, b'i');
                    let k = format!("c{n}:in{}", i % 3);
                    input.extend(encode(&[b"SET", k.as_bytes(), &v]));
                    want.push((0, 0));
                }
                _ => {
                    input.extend(encode(&[b"GET", key.as_bytes()]));
                    want.push((2, 0));
                }
            }
        }
        conn.send(sv, &input, true)?;
        for (i, (kind, arg)) in want.iter().enumerate() {
            let right = match (conn.reply(sv)?, kind) {
                (Reply::Val(v), 0) => v == Val::simple("OK"),
                (Reply::Val(v), 1) => v == Val::bulk(arg.to_string()),
                (Reply::Val(Val::Bulk(v)), _) => v == big,
                _ => false,
            };
            if !right {
                violation!(
                    "the reply to command {i} of {}, sent before any was read, \
                     is wrong or missing",
                    want.len()
                );
            }
        }
        let mut tags = vec![];
        if input.len() > 12 << 20 {
            tags.push("more than 12 MB sent before reading");
        }
        Ok(Pass { nontrivial: want.len() > 100, tags })
    })
}

/// Connections left alone in the middle of something
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Left {
    /// Commands answered before
    before: u8,
    /// Replies of 50 kB left unread
    unread: u8,
    /// Where (of 65536) the next command is cut
    cut: u16,
    size: u32,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Patience {
    left: Vec<Left>,
    waits: Vec<Wait>,
}

fn patience(b: &mut Bench, c: &Patience) -> Res {
    b.run(|sv, n, _| {
        let big = vec![b'b'; 50_000];
        let key = format!("c{n}:big");
        let mut one = Conn::open(sv.addr())?;
        let v = one.call(sv, &[b"SET", key.as_bytes(), &big])?;
        if v != Val::simple("OK") {
            violation!("SET answers {v:?}");
        }
        let mut conns = vec![];
        for (i, l) in c.left.iter().enumerate() {
            let mut conn = Conn::open(sv.addr())?;
            for k in 0..l.before {
                let m = format!("p{i}.{k}");
                let v = conn.call(sv, &[b"PING", m.as_bytes()])?;
                if v != Val::bulk(&m) {
                    violation!("PING {m} is answered {v:?}");
                }
            }
            let mut b = vec![];
            for _ in 0..l.unread {
                b.extend(encode(&[b"GET", key.as_bytes()]));
            }
            let at = b.len();
            let own = format!("c{n}:{i}");
            let value = vec![b'0' + i as u8; l.size as usize];
            b.extend(encode(&[b"SET", own.as_bytes(), &value]));
            let cut = at + (b.len() - at) * l.cut as usize / 65536;
            let rest = b.split_off(cut);
            conn.send(sv, &b, true)?;
            conns.push((conn, l, rest, own, value));
        }
        for w in &c.waits {
            w.pass(sv);
            wake(sv)?;
        }
        let v = one.call(sv, &[b"PING", b"still here"])?;
        if v != Val::bulk("still here") {
            violation!("PING on a connection left alone is answered {v:?}");
        }
        for (conn, l, rest, own, value) in &mut conns {
            let mut b = std::mem::take(rest);
            b.extend(encode(&[b"GET", own.as_bytes()]));
            b.extend(encode(&[b"PING", b"end"]));
            conn.send(sv, &b, true)?;
            let mut want = vec![Val::bulk(&big); l.unread as usize];
            want.push(Val::simple("OK"));
            want.push(Val::bulk(&value));
            want.push(Val::bulk("end"));
            for (k, want) in want.iter().enumerate() {
                let right = match conn.reply(sv)? {
                    Reply::Val(v) => v == *want,
                    _ => false,
                };
                if !right {
                    violation!(
                        "reply {k} after {} commands and a long time ({:?}) is \
                         wrong or missing",
                        l.before,
                        c.waits
                    );
                }
            }
        }
        let long = c.waits.iter().any(|w| w.clock_ms > 3_600_000);
        Ok(Pass {
            nontrivial: c.left.iter().any(|l| l.unread > 0 || l.cut > 0),
            tags: if long && sv.clock.is_some() { vec!["hours passed"] } else { vec![] },
        })
    })
}

pub fn run(r: &mut Report) {
    r.rule(
        "pipeline: batches of commands of every kind on up to 3 connections, \
         the request bytes cut at generated places (inside lengths, CR|LF, \
         payloads, around buffer sizes) with pauses, replies read as they \
         come, late or slowly; each reply compared to the model and a unique \
         PING ends each connection; non-trivial = at least 2 commands, cut or \
         pipelined. bulky: large replies unread for a while. \
         deep: thousands of commands in tens of MB, all sent before any reply \
         is read. patience: connections are left alone for anything from \
         seconds to weeks (the clock of the server jumps) at rest, inside a \
         command, or with replies unread, and go on as if nothing had been.",
    );
    let mut b = Bench::new(Opts::new);
    r.drive(
        "pipeline",
        strat(true, 40_000, 400),
        r.n(900, 16000),
        |c| check(&mut b, c),
    );
    let s = (edge_blob(300_000, false), 1u16..120, 0u64..60,
        proptest::option::of((1000usize..60_000, 0u64..500)))
        .prop_map(|(value, gets, hold_ms, pace)| Bulky { value, gets, hold_ms, pace });
    r.drive("bulky", s, r.n(25, 300), |c| bulky(&mut b, c));
    let d = (
        any::<u16>(),
        0u32..20_000,
        0u16..4000,
        0u16..3000,
        prop_oneof![3 => 0u32..20_000, 2 => 300_000u32..5_000_000],
        0u32..20_000,
        proptest::option::of(2000u32..100_000),
    )
        .prop_map(|(seed, small, large_in, large_out, size_in, size_out, rcvbuf)| {
            // At most 40 MB each way
            let cap = |n: u16, size: u32| n.min((40_000_000 / (size + 1)).min(60_000) as u16);
            Deep {
                seed: seed as u32,
                small,
                large_in: cap(large_in, size_in),
                large_out: cap(large_out, size_out),
                size_in,
                size_out,
                rcvbuf,
            }
        });
    r.drive("deep", d, r.n(16, 200), |c| deep(&mut b, c));
    b.server = None;
    let left = (
        0u8..4,
        prop_oneof![2 => Just(0u8), 1 => 1u8..120],
        prop_oneof![1 => Just(0u16), 3 => any::<u16>()],
        prop_oneof![3 => 0u32..100, 1 => 0u32..200_000],
    )
        .prop_map(|(before, unread, cut, size)| Left { before, unread, cut, size });
    let p = (
        proptest::collection::vec(left, 1..8),
        proptest::collection::vec(Wait::any(), 1..4),
    )
        .prop_map(|(left, waits)| Patience { left, waits });
    let mut b = Bench::new(|| Opts { clock: true, ..Opts::new() });
    r.drive("patience", p, r.n(60, 1500), |c| patience(&mut b, c));
}
