//! C22: streams cut anywhere.
use proptest::prelude::*;
use rvcommon::resp::{Arg, Val};
use rvcommon::{violation, Bad, Blob, Pass, Report, Res};
use serde::{Deserialize, Serialize};
use std::time::Duration;

use crate::client::{Conn, End, Reply};
use crate::engine::*;
use crate::model::{ConnState, Model};
use crate::server::{Opts, Server};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Leave {
    HalfClose,
    /// Half-close, reading nothing for a while
    HalfCloseLate,
    Close,
    Reset,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Case {
    cmds: Vec<Cmd>,
    /// Where the stream ends, of 65536, none for all the byte positions
    at: Option<u16>,
    leave: Leave,
    seg: Seg,
    us: u64,
    /// Receive buffer of the client
    rcvbuf: Option<u32>,
}

/// The server is far behind with its replies when the stream ends.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Behind {
    n: u16,
    /// Of the replies to most of the commands
    size: u32,
    /// Other commands between them
    every: u8,
    at: u16,
    leave: Leave,
    rcvbuf: Option<u32>,
}

impl Behind {
    fn case(&self) -> Case {
        let big = Blob::Gen { len: self.size as usize, seed: 7, kind: 0 };
        let mut cmds =
            vec![vec![Arg::bulk("SET"), Arg::bulk("big"), Arg::Bulk(big.clone())]];
        let n = (self.n as usize).min(30_000_000 / (self.size as usize + 1));
        for i in 0..n {
            cmds.push(if i % self.every as usize == 0 {
                vec![Arg::bulk("SET"), Arg::bulk(format!("k{i}")), Arg::bulk("v")]
            } else if i % 7 == 3 {
                vec![Arg::bulk("PING"), Arg::bulk(i.to_string())]
            } else {
                vec![Arg::bulk("GET"), Arg::bulk("big")]
            });
        }
        Case {
            cmds,
            at: Some(self.at),
            leave: self.leave,
            seg: Seg::Whole,
            us: 0,
            rcvbuf: self.rcvbuf,
        }
    }
}

fn behind() -> BoxedStrategy<Behind> {
    let leave = prop_oneof![
        4 => Just(Leave::HalfClose),
        3 => Just(Leave::HalfCloseLate),
        1 => Just(Leave::Close),
        1 => Just(Leave::Reset),
    ];
    (
        prop_oneof![100u16..1000, 1000u16..4000],
        prop_oneof![100u32..3000, 3000u32..60_000],
        2u8..60,
        // mostly late
        prop_oneof![any::<u16>(), 50_000u16..=u16::MAX],
        leave,
        proptest::option::of(2000u32..100_000),
    )
        .prop_map(|(n, size, every, at, leave, rcvbuf)| Behind {
            n,
            size,
            every,
            at,
            leave,
            rcvbuf,
        })
        .boxed()
}

fn value() -> BoxedStrategy<Blob> {
    prop_oneof![
        5 => "[a-z0-9\r\n]{0,20}".prop_map(|s: String| Blob::s(&s)),
        1 => (0usize..9000, any::<u16>(), 0u8..3).prop_map(|(len, s, kind)|
            Blob::Gen { len, seed: s as u32, kind }),
    ]
    .boxed()
}

fn cmds(max: usize, small: bool) -> BoxedStrategy<Vec<Cmd>> {
    let value = if small {
        "[a-z0-9]{0,5}".prop_map(|s: String| Blob::s(&s)).boxed()
    } else {
        value()
    };
    let kind = prop_oneof![
        5 => (0u8..4, value.clone()).prop_map(|(k, v)| Some((k, Some(v)))),
        2 => (0u8..4).prop_map(|k| Some((k, None))),
        1 => Just(None),
    ];
    proptest::collection::vec(kind, 1..max)
        .prop_map(|v| {
            v.into_iter()
                .enumerate()
                .map(|(i, k)| match k {
                    // Some keys are written once, some again and again.
                    Some((0, Some(v))) => {
                        vec![Arg::bulk("SET"), Arg::bulk("last"), Arg::Bulk(v)]
                    }
                    Some((_, Some(v))) => vec![
                        Arg::bulk("SET"),
                        Arg::bulk(format!("k{i}")),
                        Arg::Bulk(v),
                    ],
                    Some((k, None)) => {
                        let b = i.saturating_sub(k as usize);
                        vec![Arg::bulk("GET"), Arg::bulk(format!("k{b}"))]
                    }
                    None => vec![Arg::bulk("PING"), Arg::bulk(i.to_string())],
                })
                .collect()
        })
        .boxed()
}

fn strat() -> BoxedStrategy<Case> {
    let leave = || {
        prop_oneof![
            5 => Just(Leave::HalfClose),
            1 => Just(Leave::HalfCloseLate),
            3 => Just(Leave::Close),
            1 => Just(Leave::Reset),
        ]
    };
    let one = (
        cmds(25, false),
        any::<u16>(),
        leave(),
        seg(),
        proptest::sample::select(vec![0u64, 0, 100]),
    )
        .prop_map(|(cmds, at, leave, seg, us)| Case {
            cmds,
            at: Some(at),
            leave,
            seg,
            us,
            rcvbuf: None,
        });
    let many = (cmds(400, true), any::<u16>(), leave()).prop_map(
        |(cmds, at, leave)| Case {
            cmds,
            at: Some(at),
            leave,
            seg: Seg::Whole,
            us: 0,
            rcvbuf: None,
        },
    );
    prop_oneof![6 => one, 1 => many].boxed()
}

/// Give how many commands are complete.
fn run_one(
    sv: &mut Server,
    c: &Case,
    cmds: &[Cmd],
    at: usize,
) -> Result<usize, Bad> {
    let mut bytes = vec![];
    let mut ends = vec![];
    for cmd in cmds {
        encode_cmd(cmd, &mut bytes);
        ends.push(bytes.len());
    }
    let complete = ends.iter().filter(|e| **e <= at).count();
    let part = &bytes[..at];
    let mut conn =
        Conn::open_with(sv.addr(), None, c.rcvbuf.map(|n| n as usize))?;
    let mut st = ConnState::new(conn.local, conn.peer);
    let mut model = Model::default();
    let mut pos = 0;
    let starts: Vec<usize> =
        std::iter::once(0).chain(ends.iter().copied()).collect();
    let mut cut = cuts(&c.seg, part, &starts[..complete.max(1)]);
    cut.push(at);
    for e in cut {
        conn.send(sv, &part[pos..e], true)?;
        pos = e;
        if c.us > 0 && e < at {
            std::thread::sleep(Duration::from_micros(c.us));
        }
    }
    let mut other = Conn::open(sv.addr())?;
    match c.leave {
        Leave::HalfClose | Leave::HalfCloseLate => {
            conn.half_close();
            if c.leave == Leave::HalfCloseLate {
                std::thread::sleep(Duration::from_millis(8));
            }
            for (i, cmd) in cmds[..complete].iter().enumerate() {
                let exp = model.exec(&mut st, cmd);
                match conn.reply(sv)? {
                    Reply::Val(v) => crate::model::check(&exp, &v, &mut st)
                        .map_err(|e| match e {
                            Bad::Violation(m) => Bad::Violation(format!(
                                "command {} of {complete} before the end at \
                                 byte {at}: {m}",
                                i + 1
                            )),
                            e => e,
                        })?,
                    Reply::Closed(e) => violation!(
                        "the stream ended at byte {at} after {complete} \
                         complete commands, the connection is closed ({e:?}) \
                         without the reply of command {} {}",
                        i + 1,
                        show_cmd(cmd)
                    ),
                }
            }
            conn.until_closed(sv, "after the end of the stream")?;
            if conn.inbuf.len() > conn.pos {
                violation!(
                    "the stream ended at byte {at} after {complete} complete \
                     commands, there are more replies: {:?}",
                    conn.inbuf[conn.pos..].escape_ascii().to_string()
                );
            }
            if let (Some(End::Reset), true) = (conn.end, at == bytes.len()) {
                violation!("a clean end of the stream is answered by a reset");
            }
            // All of them, and only them, were executed.
            for cmd in cmds.iter().rev() {
                let Some(k) = key_of(cmd) else { continue };
                let got = other.call(sv, &[b"GET", &k])?;
                let want = match model.db.get(&k) {
                    Some(v) => Val::Bulk(v.clone()),
                    None => Val::Null,
                };
                if got != want {
                    violation!(
                        "the stream ended at byte {at} after {complete} \
                         complete commands, key {:?} holds {got:?} instead of \
                         {want:?}",
                        k.escape_ascii().to_string()
                    );
                }
            }
        }
        Leave::Close | Leave::Reset => {
            if c.leave == Leave::Reset {
                conn.linger0();
            }
            drop(conn);
            for pause in [0u64, 3] {
                std::thread::sleep(Duration::from_millis(pause));
                executed(sv, &mut other, cmds, complete)?;
            }
            // The first command can't fail to be executed by an orderly
            // close.
            if c.leave == Leave::Close && complete > 0 {
                if let (Some(k), true) = (key_of(&cmds[0]), is_set(&cmds[0])) {
                    crate::client::eventually(sv, |sv| {
                        Ok(match other.call(sv, &[b"GET", &k])? {
                            Val::Null => Err(format!(
                                "the first of {complete} complete commands \
                                 sent before closing is never executed: {}",
                                show_cmd(&cmds[0])
                            )),
                            _ => Ok(()),
                        })
                    })?;
                }
            }
        }
    }
    Ok(complete)
}

fn is_set(c: &Cmd) -> bool {
    matches!(&c[0], Arg::Bulk(b) if b.bytes() == b"SET")
}

fn key_of(c: &Cmd) -> Option<Vec<u8>> {
    match (&c[0], &c[1]) {
        (Arg::Bulk(a), Arg::Bulk(k)) if a.bytes() != b"PING" => Some(k.bytes()),
        _ => None,
    }
}

/// What was executed is a beginning of the complete commands. The last ones
/// are looked at first, as the server may still be executing some.
fn executed(
    sv: &mut Server,
    other: &mut Conn,
    cmds: &[Cmd],
    complete: usize,
) -> Result<(), Bad> {
    let mut later: Option<usize> = None;
    for (i, cmd) in cmds.iter().enumerate().rev() {
        if !is_set(cmd) {
            continue;
        }
        let k = key_of(cmd).unwrap();
        if k.ends_with(b":last") {
            continue;
        }
        let Arg::Bulk(v) = &cmd[2] else { unreachable!() };
        match other.call(sv, &[b"GET", &k])? {
            Val::Null => {
                if let Some(j) = later {
                    violation!(
                        "command {} isn't executed although command {} is",
                        i + 1,
                        j + 1
                    );
                }
            }
            Val::Bulk(x) if x == v.bytes() => {
                if i >= complete {
                    violation!(
                        "command {} is executed, only {complete} arrived \
                         completely",
                        i + 1
                    );
                }
                later = later.or(Some(i));
            }
            x => violation!("command {}: its key holds {x:?}", i + 1),
        }
    }
    Ok(())
}

fn check(b: &mut Bench, c: &Case) -> Res {
    let mut inside = 0;
    let mut done = 0;
    let mut len = 0;
    for cmd in &c.cmds {
        let mut v = vec![];
        encode_cmd(cmd, &mut v);
        len += v.len();
    }
    let all: Vec<Option<usize>> = match c.at {
        Some(_) => vec![None],
        None => (0..=len).map(Some).collect(),
    };
    for at in all {
        b.run(|sv, n, _| {
            let steps = own_keys(
                &[Step::Batch {
                    conn: 0,
                    cmds: c.cmds.clone(),
                    send: Send::plain(),
                }],
                &format!("c{n}:"),
            );
            let Step::Batch { cmds, .. } = &steps[0] else { unreachable!() };
            let mut ends = vec![];
            let mut v = vec![];
            for cmd in cmds {
                encode_cmd(cmd, &mut v);
                ends.push(v.len());
            }
            let at = match (at, c.at) {
                (Some(at), _) => at.min(v.len()),
                (None, Some(f)) => {
                    // Often the very end of a command.
                    let p = v.len() * f as usize / 65536;
                    match f % 5 {
                        0 => *ends
                            .iter()
                            .rev()
                            .find(|e| **e <= p)
                            .unwrap_or(&p),
                        1 => v.len(),
                        _ => p,
                    }
                }
                _ => unreachable!(),
            };
            let complete = run_one(sv, c, cmds, at)?;
            if !ends.contains(&at) && at > 0 {
                inside += 1;
            }
            done += complete;
            Ok(())
        })?;
    }
    let mut tags = vec![];
    if inside > 0 {
        tags.push("cut inside a command");
    }
    tags.push(match c.leave {
        Leave::HalfClose | Leave::HalfCloseLate => "half-close",
        Leave::Close => "close",
        Leave::Reset => "reset",
    });
    Ok(Pass { nontrivial: done > 0, tags })
}

pub fn run(r: &mut Report) {
    r.rule(
        "cut: 1-400 pipelined SET/GET/PING cut at a generated byte, then \
         half-closed (every complete command must be answered and executed, \
         nothing else), closed or reset (what was executed must be a beginning \
         of the complete commands; at least the first one after an orderly \
         close); non-trivial = a command or more arrived. everywhere: short \
         streams cut at every byte position. behind: up to 4000 commands \
         with up to 30 MB of replies, read only when the stream has ended.",
    );
    let mut b = Bench::new(Opts::new);
    r.drive("cut", strat(), r.n(4500, 60000), |c| check(&mut b, c));
    let every = (
        cmds(4, true),
        proptest::sample::select(vec![Leave::HalfClose, Leave::Close]),
    )
        .prop_map(|(cmds, leave)| Case {
            cmds,
            at: None,
            leave,
            seg: Seg::Whole,
            us: 0,
            rcvbuf: None,
        });
    r.drive("everywhere", every, r.n(45, 600), |c| check(&mut b, c));
    r.drive("behind", behind(), r.n(60, 900), |c| check(&mut b, &c.case()));
}
