//! C18: at most max_connection connections are served.
use proptest::prelude::*;
use rvcommon::resp::Val;
use rvcommon::{violation, Bad, Pass, Report, Res};
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::time::Duration;

use crate::client::{encode, eventually, Conn};
use crate::engine::{Ending, Wait};
use crate::server::{Opts, Server};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum How {
    Nice(Ending),
    /// Bytes which aren't the protocol; the client stays
    Protocol,
    /// A command which ends the connection; the client stays
    Rejected,
    /// In the middle of a command
    Truncated,
    /// Asks for much and leaves without reading
    Unread,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Op {
    Open(u8),
    /// Connections which leave at once, whether they were served or not
    Flap { n: u16, talk: bool, reset: bool },
    EndServed(u8, How),
    EndWaiting(u8, bool),
    /// End many served ones at the same time
    EndMany(u8, How),
    /// The served ones work
    Talk,
    /// Nobody more gets served
    Watch,
    /// Nor after a longer time
    Wait(Wait),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Case {
    max: u16,
    ops: Vec<Op>,
}

struct One {
    conn: Conn,
    served: bool,
    n: u64,
}

#[derive(Default)]
struct Seen {
    waited: bool,
    freed: bool,
    many: u64,
    waits: bool,
}

/// What the waiting ones have got.
fn look(open: &mut [One], max: usize) -> Result<usize, Bad> {
    for o in open.iter_mut().filter(|o| !o.served) {
        o.conn.drain(usize::MAX);
        if let Some(v) = o.conn.buffered()? {
            if v != Val::bulk(format!("w{}", o.n)) {
                violation!("a connection which waited got {v:?} for its PING");
            }
            o.served = true;
        }
        if let Some(e) = o.conn.end {
            violation!("a connection is ended by the server ({e:?})");
        }
    }
    let n = open.iter().filter(|o| o.served).count();
    if n > max {
        violation!("{n} connections are served at the same time, of {max} at most");
    }
    Ok(n)
}

fn settle(
    sv: &mut Server,
    open: &mut Vec<One>,
    max: usize,
    seen: &mut Seen,
) -> Result<(), Bad> {
    let total = open.len();
    let want = total.min(max);
    seen.waited |= total > max;
    eventually(sv, |_| {
        let n = look(open, max)?;
        Ok(if n == want {
            Ok(())
        } else {
            Err(format!(
                "{n} of {total} open connections are served, the limit is {max}"
            ))
        })
    })
}

fn end_one(
    sv: &mut Server,
    mut o: One,
    how: How,
    gone: &mut Vec<Conn>,
) -> Result<(), Bad> {
    match how {
        How::Nice(e) => return crate::engine::end(sv, o.conn, e),
        How::Protocol => o.conn.send(sv, b"\x01what\r\n", false)?,
        How::Rejected => {
            let b = encode(&[b"PING", b"a", b"b"]);
            o.conn.send(sv, &b, false)?
        }
        How::Truncated => {
            o.conn.send(sv, b"*2\r\n$3\r\nGET\r\n$10\r\nab", false)?;
            return Ok(());
        }
        How::Unread => {
            let b = encode(&[b"PING", &[b'x'; 30_000]]);
            for _ in 0..4 {
                o.conn.send(sv, &b, true)?;
            }
            return Ok(());
        }
    }
    gone.push(o.conn);
    Ok(())
}

fn check(pool: &mut HashMap<u16, Server>, c: &Case, clock: bool) -> Res {
    if !pool.contains_key(&c.max) {
        let mut o = Opts { clock, ..Opts::new() };
        o.max_connection = c.max as u32;
        pool.insert(c.max, Server::start(&o)?);
    }
    let sv = pool.get_mut(&c.max).unwrap();
    let r = steps(sv, c).and_then(|p| sv.check_alive().map(|_| p));
    if r.is_err() {
        pool.remove(&c.max);
    }
    r
}

fn steps(sv: &mut Server, c: &Case) -> Res {
    let max = c.max as usize;
    let mut open: Vec<One> = vec![];
    // Held by the client after the server has to end them
    let mut gone: Vec<Conn> = vec![];
    let mut seen = Seen::default();
    let mut n = 0;
    let mut open_more =
        |sv: &mut Server, open: &mut Vec<One>, k: usize| -> Result<(), Bad> {
            for _ in 0..k {
                n += 1;
                let mut conn = Conn::open(sv.addr())?;
                conn.send(sv, &encode(&[b"PING", format!("w{n}").as_bytes()]), false)?;
                open.push(One { conn, served: false, n });
            }
            Ok(())
        };
    for op in &c.ops {
        match op {
            Op::Open(k) => open_more(sv, &mut open, *k as usize)?,
            Op::Flap { n, talk, reset } => {
                seen.many += *n as u64;
                for _ in 0..*n {
                    let mut conn = Conn::open(sv.addr())?;
                    if *talk {
                        conn.send(sv, &encode(&[b"PING"]), false)?;
                    }
                    if *reset {
                        conn.reset();
                    }
                }
            }
            Op::EndServed(i, how) => {
                let s: Vec<usize> =
                    (0..open.len()).filter(|i| open[*i].served).collect();
                if let Some(i) = s.get(*i as usize % s.len().max(1)) {
                    let o = open.swap_remove(*i);
                    seen.freed |= open.len() >= max;
                    end_one(sv, o, *how, &mut gone)?;
                }
            }
            Op::EndWaiting(i, reset) => {
                let s: Vec<usize> =
                    (0..open.len()).filter(|i| !open[*i].served).collect();
                if let Some(i) = s.get(*i as usize % s.len().max(1)) {
                    let o = open.swap_remove(*i);
                    if *reset {
                        o.conn.reset();
                    }
                }
            }
            Op::EndMany(k, how) => {
                for _ in 0..*k {
                    let Some(i) = open.iter().position(|o| o.served) else {
                        break;
                    };
                    let o = open.swap_remove(i);
                    seen.freed |= open.len() >= max;
                    end_one(sv, o, *how, &mut gone)?;
                }
            }
            Op::Talk => {
                for o in open.iter_mut().filter(|o| o.served) {
                    let m = format!("t{}", o.n);
                    let v = o.conn.call(sv, &[b"PING", m.as_bytes()])?;
                    if v != Val::bulk(&m) {
                        violation!("a served connection answers {v:?} to PING {m}");
                    }
                }
            }
            Op::Watch => {
                std::thread::sleep(Duration::from_millis(20));
                look(&mut open, max)?;
            }
            Op::Wait(w) => {
                seen.waits |= open.len() > max;
                w.pass(sv);
                look(&mut open, max)?;
            }
        }
        settle(sv, &mut open, max, &mut seen)?;
    }
    // In the end the limit is reached, and not passed.
    let k = (max + 3).saturating_sub(open.len());
    open_more(sv, &mut open, k)?;
    settle(sv, &mut open, max, &mut seen)?;
    std::thread::sleep(Duration::from_millis(25));
    look(&mut open, max)?;
    for c in &mut gone {
        c.until_closed(sv, "which ended by what it sent")?;
    }
    let mut tags = vec![];
    if seen.many > 100 {
        tags.push("more than 100 connections came and left");
    }
    if c.max == 0 {
        tags.push("none allowed");
    }
    if seen.waits {
        tags.push("some waited for long");
    }
    Ok(Pass { nontrivial: seen.freed, tags })
}

fn how() -> BoxedStrategy<How> {
    proptest::sample::select(vec![
        How::Nice(Ending::Close),
        How::Nice(Ending::HalfClose),
        How::Nice(Ending::Reset),
        How::Protocol,
        How::Rejected,
        How::Truncated,
        How::Unread,
    ])
    .boxed()
}

pub fn run(r: &mut Report) {
    r.rule(
        "limit: histories of opening, ending (in every way) and using \
         connections on servers with small limits; after every step the number \
         of served connections (answered and not ended by the client) becomes \
         the smaller of the open ones and the limit, and is never seen above \
         the limit; non-trivial = a served connection ended while others were \
         waiting. patience: with long times while some wait (the clock of the \
         server jumps). real: some wait for 12 s. life: the same after thousands of connections on a server.",
    );
    let mut pool = HashMap::new();
    let max = || proptest::sample::select(vec![0u16, 1, 1, 2, 2, 3, 4, 7, 20]);
    let op = |flap: u16| {
        prop_oneof![
            4 => (1u8..6).prop_map(Op::Open),
            1 => (1u8..30).prop_map(Op::Open),
            2 => (1..flap, any::<bool>(), any::<bool>())
                .prop_map(|(n, talk, reset)| Op::Flap { n, talk, reset }),
            5 => (any::<u8>(), how()).prop_map(|(i, h)| Op::EndServed(i, h)),
            2 => (any::<u8>(), any::<bool>()).prop_map(|(i, r)| Op::EndWaiting(i, r)),
            2 => (1u8..6, how()).prop_map(|(n, h)| Op::EndMany(n, h)),
            1 => Just(Op::Talk),
            1 => Just(Op::Watch),
        ]
    };
    let s = (max(), proptest::collection::vec(op(8), 1..20))
        .prop_map(|(max, ops)| Case { max, ops });
    r.drive("limit", s, r.n(550, 8000), |c| check(&mut pool, c, false));
    // The count of a server which lived long doesn't drift.
    let s = (
        proptest::sample::select(vec![1u16, 2, 5]),
        proptest::collection::vec(op(400), 10..30),
    )
        .prop_map(|(max, ops)| Case { max, ops });
    r.drive("life", s, r.n(6, 150), |c| check(&mut pool, c, false));
    pool.clear();
    let with = move |wait: BoxedStrategy<Wait>| {
        (max(), proptest::collection::vec(prop_oneof![
            3 => op(8),
            1 => wait.prop_map(Op::Wait),
        ], 2..14), 1u8..30)
            .prop_map(|(max, mut ops, n)| {
                ops.insert(ops.len() / 2, Op::Open(n));
                Case { max, ops }
            })
    };
    r.drive("patience", with(Wait::any()), r.n(60, 1500), |c| {
        check(&mut pool, c, true)
    });
    pool.clear();
    // Real time
    let ms = r.n(12_000, 60_000) as u16;
    let real = (proptest::sample::select(vec![1u16, 2, 5]), 1u8..9)
        .prop_map(move |(max, n)| Case {
            max,
            ops: vec![
                Op::Open(max as u8 + n),
                Op::Wait(Wait { clock_ms: 0, ms }),
                Op::EndServed(0, How::Nice(Ending::Close)),
            ],
        });
    r.drive("real", real, r.n(2, 8), |c| check(&mut pool, c, false));
}
