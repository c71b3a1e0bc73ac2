//! C21: no file descriptor left.
use proptest::prelude::*;
use rvcommon::resp::Val;
use rvcommon::{violation, Bad, Pass, Report, Res};
use serde::{Deserialize, Serialize};
use std::time::Duration;

use crate::client::{encode, eventually, Conn};
use crate::engine::{Ending, Wait};
use crate::server::{Opts, Server};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Op {
    Open(u8),
    /// End so many of the served ones
    EndServed(u8, Ending),
    /// End so many of those which aren't
    EndWaiting(u8, bool),
    /// The served ones are used
    Use(u8),
    Pause(u8),
    Wait(Wait),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Case {
    /// descriptors over those the server has at the start
    spare: u8,
    ops: Vec<Op>,
}

struct One {
    conn: Conn,
    served: bool,
    n: u64,
    val: Option<String>,
}

/// Each of the 8 threads may keep a descriptor for itself for a moment.
const MARGIN: usize = 12;

fn look(open: &mut [One]) -> Result<usize, Bad> {
    for o in open.iter_mut().filter(|o| !o.served) {
        o.conn.drain(usize::MAX);
        if let Some(v) = o.conn.buffered()? {
            if v != Val::bulk(format!("w{}", o.n)) {
                violation!("PING of a new connection is answered {v:?}");
            }
            o.served = true;
        }
        if let Some(e) = o.conn.end {
            violation!("a new connection is ended by the server ({e:?})");
        }
    }
    Ok(open.iter().filter(|o| o.served).count())
}

/// The first `many` served ones have all their replies.
fn work(
    sv: &mut Server,
    open: &mut [One],
    many: usize,
    round: &mut u64,
) -> Result<(), Bad> {
    for o in open.iter_mut().filter(|o| o.served).take(many) {
        *round += 1;
        let key = format!("k{}", o.n);
        let want = o.val.clone().map(Val::bulk).unwrap_or(Val::Null);
        let v = o.conn.call(sv, &[b"GET", key.as_bytes()])?;
        if v != want {
            violation!("GET answers {v:?} instead of {want:?}");
        }
        let val = format!("v{round}");
        let v = o.conn.call(sv, &[b"SET", key.as_bytes(), val.as_bytes()])?;
        if v != Val::simple("OK") {
            violation!("SET answers {v:?}");
        }
        o.val = Some(val);
    }
    Ok(())
}

fn check(c: &Case, clock: bool) -> Res {
    // How many a server needs for itself.
    let own = {
        let mut sv = Server::start(&Opts::new())?;
        Conn::open(sv.addr())?.call(&mut sv, &[b"PING"])?;
        sv.fds()
    };
    let limit = own + c.spare as usize + MARGIN;
    let mut o = Opts { clock, ..Opts::new() };
    o.nofile = Some(limit as u64);
    let mut sv = Server::start(&o)?;
    let sv = &mut sv;
    let capacity = limit - own - MARGIN;
    let mut open: Vec<One> = vec![];
    let mut n = 0;
    let mut round = 0;
    let mut exhausted = false;
    let mut recovered = false;
    for op in &c.ops {
        match op {
            Op::Open(k) => {
                for _ in 0..*k {
                    n += 1;
                    let mut conn = Conn::open(sv.addr())?;
                    let b = encode(&[b"PING", format!("w{n}").as_bytes()]);
                    conn.send(sv, &b, false)?;
                    open.push(One { conn, served: false, n, val: None });
                }
            }
            Op::EndServed(k, how) => {
                for _ in 0..*k {
                    let Some(i) = open.iter().position(|o| o.served) else {
                        break;
                    };
                    let o = open.swap_remove(i);
                    crate::engine::end(sv, o.conn, *how)?;
                }
            }
            Op::EndWaiting(k, reset) => {
                for _ in 0..*k {
                    let Some(i) = open.iter().position(|o| !o.served) else {
                        break;
                    };
                    let o = open.swap_remove(i);
                    if *reset {
                        o.conn.reset();
                    }
                }
            }
            Op::Use(k) => {
                work(sv, &mut open, *k as usize, &mut round)?;
            }
            Op::Pause(ms) => {
                std::thread::sleep(Duration::from_millis(*ms as u64))
            }
            Op::Wait(w) => w.pass(sv),
        }
        // With descriptors enough, all are served; else the served ones work.
        if open.len() <= capacity {
            let total = open.len();
            eventually(sv, |_| {
                let n = look(&mut open)?;
                Ok(if n == total {
                    Ok(())
                } else {
                    Err(format!(
                        "{n} of {total} connections are served with \
                         descriptors for {capacity}"
                    ))
                })
            })?;
            recovered |= exhausted && total > 0;
        } else {
            let total = open.len();
            if total > limit {
                exhausted = true;
            }
            // At least as many as there are descriptors for.
            eventually(sv, |_| {
                let n = look(&mut open)?;
                Ok(if n >= capacity.min(total) {
                    Ok(())
                } else {
                    Err(format!(
                        "{n} of {total} connections are served with \
                         descriptors for {capacity}"
                    ))
                })
            })?;
        }
    }
    let served = look(&mut open)?;
    work(sv, &mut open, usize::MAX, &mut round)?;
    // All of them leave, new ones are served.
    let was = open.len();
    drop(open);
    let mut open: Vec<One> = vec![];
    for _ in 0..capacity {
        n += 1;
        let mut conn = Conn::open(sv.addr())?;
        let b = encode(&[b"PING", format!("w{n}").as_bytes()]);
        conn.send(sv, &b, false)?;
        open.push(One { conn, served: false, n, val: None });
    }
    eventually(sv, |_| {
        let n = look(&mut open)?;
        Ok(if n == capacity {
            Ok(())
        } else {
            Err(format!(
                "{n} of {capacity} new connections are served, after {was} \
                 ({served} served) have left"
            ))
        })
    })?;
    work(sv, &mut open, usize::MAX, &mut round)?;
    sv.check_alive()?;
    let mut tags = vec![];
    if recovered {
        tags.push("served all again within the history");
    }
    Ok(Pass { nontrivial: exhausted, tags })
}

pub fn run(r: &mut Report) {
    r.rule(
        "descriptors: histories of opening, ending and using connections on \
         servers with few file descriptors, passing their number; those served \
         keep working with the right data, as many as there are descriptors \
         for are served, and all again after the others left; non-trivial = \
         more connections than the process may have descriptors. patience: with \
         long times in between (the clock of the server jumps). real: none is \
         left for 12 s.",
    );
    r.assume(
        "the server may keep a dozen descriptors for itself beside those it \
         has at rest",
    );
    let ending = proptest::sample::select(vec![
        Ending::Close,
        Ending::HalfClose,
        Ending::Reset,
    ]);
    let op = prop_oneof![
        3 => (1u8..20).prop_map(Op::Open),
        3 => (40u8..100).prop_map(Op::Open),
        2 => (1u8..20, ending.clone()).prop_map(|(k, e)| Op::EndServed(k, e)),
        2 => (20u8..100, ending).prop_map(|(k, e)| Op::EndServed(k, e)),
        2 => (1u8..100, any::<bool>()).prop_map(|(k, r)| Op::EndWaiting(k, r)),
        2 => (1u8..20).prop_map(Op::Use),
        1 => (1u8..60).prop_map(Op::Pause),
    ];
    let s = (1u8..40, proptest::collection::vec(op, 2..14))
        .prop_map(|(spare, mut ops)| {
            // Rarely useful without.
            ops.insert(ops.len() / 2, Op::Open(90));
            Case { spare, ops }
        })
        .boxed();
    r.drive("descriptors", s.clone(), r.n(90, 1500), |c| check(c, false));
    let long = (s.clone(), proptest::collection::vec((any::<u8>(), Wait::any()), 1..4))
        .prop_map(|(mut c, waits)| {
            for (at, w) in waits {
                c.ops.insert(at as usize % (c.ops.len() + 1), Op::Wait(w));
            }
            c
        });
    r.drive("patience", long, r.n(20, 500), |c| check(c, true));
    let ms = r.n(12_000, 60_000) as u16;
    let real = (1u8..40, 1u8..30).prop_map(move |(spare, k)| Case {
        spare,
        ops: vec![
            Op::Open(110),
            Op::Wait(Wait { clock_ms: 0, ms }),
            Op::Use(k),
            Op::EndServed(k, Ending::Close),
        ],
    });
    r.drive("real", real, r.n(2, 8), |c| check(c, false));
}
