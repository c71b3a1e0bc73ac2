//! C09: nothing stays of an ended connection.
use proptest::prelude::*;
use rvcommon::resp::{Arg, Val};
use rvcommon::{violation, Bad, Blob, Pass, Report, Res};
use serde::{Deserialize, Serialize};
use std::io::Write;
use std::time::Duration;

use super::c08::{junk, Junk};
use crate::client::{eventually, Conn, End};
use crate::engine::*;
use crate::model::parse_entry;
use crate::server::{Opts, Server};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Way {
    Close,
    HalfClose,
    Reset,
    /// In the middle of a command, then closed, half-closed or reset
    Truncated(u16, u8),
    /// Bytes which aren't the protocol, the client stays
    Protocol(Blob),
    /// A command which is refused with the end of the connection, the client
    /// stays
    Rejected(Cmd),
    /// The same with more commands behind
    RejectedAmid(Cmd, u8),
    /// Asks for much, reads nothing, leaves (closing or resetting)
    Unread { kb: u16, n: u8, reset: bool },
    /// Closes right after sending commands
    Fire(Vec<Cmd>, bool),
    /// Closes right after connecting
    Nothing,
    /// Anything, then leaves
    Any(Vec<Cmd>, u8),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct One {
    used: Vec<Cmd>,
    way: Way,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Case {
    ends: Vec<One>,
    /// ended all at once or one after the other
    at_once: bool,
}

fn rejected() -> BoxedStrategy<Cmd> {
    let b = |s: &'static str| Arg::bulk(s);
    proptest::sample::select(vec![
        vec![b("GET")],
        vec![b("SET"), b("a")],
        vec![b("SET"), b("a"), b("b"), b("NX")],
        vec![b("SET"), b("a"), b("b"), b("EX"), b("zz")],
        vec![b("PING"), b("a"), b("b")],
        vec![b("HELLO"), b("3")],
        vec![b("CLIENT"), b("ID"), b("x")],
        vec![b("CLIENT"), b("SETNAME")],
        vec![b("ACL")],
        vec![Arg::Int(3)],
        vec![],
        vec![b("GET"), Arg::Null],
    ])
    .boxed()
}

fn way() -> BoxedStrategy<Way> {
    let good = || proptest::collection::vec(super::c04::any_cmd(5000), 1..8);
    prop_oneof![
        2 => Just(Way::Close),
        2 => Just(Way::HalfClose),
        2 => Just(Way::Reset),
        2 => (any::<u16>(), 0u8..3).prop_map(|(n, h)| Way::Truncated(n, h)),
        3 => proptest::sample::select(vec!["x", "GET / HTTP/1.0\r\n\r\n", "*a\r\n", "$z\r\n",
            "*1\r\n$4\r\nPING\r\n?", "!", "*1\r\n!", ":-\r\n", "\r\n"])
            .prop_map(|s| Way::Protocol(Blob::s(s))),
        3 => rejected().prop_map(Way::Rejected),
        2 => (rejected(), 1u8..40).prop_map(|(c, n)| Way::RejectedAmid(c, n)),
        2 => (1u16..400, 1u8..40, any::<bool>())
            .prop_map(|(kb, n, reset)| Way::Unread { kb, n, reset }),
        2 => (good(), any::<bool>()).prop_map(|(c, r)| Way::Fire(c, r)),
        1 => Just(Way::Nothing),
        2 => (proptest::collection::vec(super::c08::wild_cmd(), 1..4), 0u8..3)
            .prop_map(|(j, h)| Way::Any(j, h)),
    ]
    .boxed()
}

fn strat() -> BoxedStrategy<Case> {
    let used = proptest::collection::vec(super::c04::any_cmd(500), 0..4);
    let one = (used, way()).prop_map(|(used, way)| One { used, way });
    (proptest::collection::vec(one, 1..16), any::<bool>())
        .prop_map(|(ends, at_once)| Case { ends, at_once })
        .boxed()
}

fn wire(cmds: &[Cmd]) -> Vec<u8> {
    let mut v = vec![];
    for c in cmds {
        encode_cmd(c, &mut v);
    }
    v
}

/// The connection, if the client holds it after having ended it.
fn leave(
    sv: &mut Server,
    mut c: Conn,
    o: &One,
) -> Result<Option<Conn>, Bad> {
    let go = |c: Conn, how: u8| -> Option<Conn> {
        match how {
            0 => {
                drop(c);
                None
            }
            1 => {
                c.half_close();
                Some(c)
            }
            _ => {
                c.reset();
                None
            }
        }
    };
    Ok(match &o.way {
        Way::Nothing | Way::Close => go(c, 0),
        Way::HalfClose => go(c, 1),
        Way::Reset => go(c, 2),
        Way::Truncated(n, h) => {
            let b = wire(&[vec![
                Arg::bulk("SET"),
                Arg::bulk("truncated"),
                Arg::Bulk(Blob::Gen { len: 5000, seed: 1, kind: 0 }),
            ]]);
            let n = 1 + *n as usize * (b.len() - 2) / 65536;
            c.send(sv, &b[..n], false)?;
            go(c, *h)
        }
        Way::Protocol(b) => {
            c.send(sv, &b.bytes(), false)?;
            Some(c)
        }
        Way::Rejected(cmd) => {
            c.send(sv, &wire(std::slice::from_ref(cmd)), false)?;
            Some(c)
        }
        Way::RejectedAmid(cmd, n) => {
            let mut v = wire(&[vec![Arg::bulk("PING")]]);
            v.extend(wire(std::slice::from_ref(cmd)));
            for i in 0..*n {
                v.extend(wire(&[vec![
                    Arg::bulk("PING"),
                    Arg::bulk(i.to_string()),
                ]]));
            }
            c.send(sv, &v, false)?;
            Some(c)
        }
        Way::Unread { kb, n, reset } => {
            let big = vec![
                Arg::bulk("PING"),
                Arg::Bulk(Blob::Gen {
                    len: *kb as usize * 1024,
                    seed: 3,
                    kind: 0,
                }),
            ];
            let v = wire(&vec![big; *n as usize]);
            // As much as goes.
            let mut at = 0;
            let mut tries = 0;
            while at < v.len() && tries < 20 {
                match c.s.write(&v[at..]) {
                    Ok(k) => at += k,
                    Err(_) => {
                        tries += 1;
                        std::thread::sleep(Duration::from_micros(300));
                    }
                }
            }
            go(c, if *reset { 2 } else { 0 })
        }
        Way::Fire(cmds, reset) => {
            let _ = c.s.write(&wire(cmds));
            go(c, if *reset { 2 } else { 0 })
        }
        Way::Any(cmds, h) => {
            let _ = c.s.write(&wire(cmds));
            go(c, *h)
        }
    })
}

/// The survivors, asked what is open.
fn only(
    sv: &mut Server,
    alive: &mut [Conn],
    base: usize,
) -> Result<(), Bad> {
    eventually(sv, |sv| {
        let mut addrs: Vec<String> =
            alive.iter().map(|c| c.local.to_string()).collect();
        addrs.sort();
        let v = alive[0].call(sv, &[b"CLIENT", b"LIST"])?;
        let Val::Arr(es) = &v else { violation!("CLIENT LIST: {v:?}") };
        let mut listed = vec![];
        for e in es {
            listed.push(parse_entry(e)?.addr);
        }
        listed.sort();
        let fds = sv.fds();
        Ok(if listed != addrs {
            Err(format!(
                "open connections are {addrs:?}, listed are {listed:?}"
            ))
        } else if fds != base + alive.len() {
            Err(format!(
                "{} descriptors too many are kept",
                fds as i64 - (base + alive.len()) as i64
            ))
        } else {
            Ok(())
        })
    })
}

fn survivors(sv: &mut Server) -> Result<(Vec<Conn>, usize), Bad> {
    let mut alive = vec![];
    for _ in 0..3 {
        let mut c = Conn::open(sv.addr())?;
        c.id(sv)?;
        alive.push(c);
    }
    Ok((alive, 0))
}

fn check(b: &mut Bench, base: &mut Option<(u32, usize)>, c: &Case) -> Res {
    b.run(|sv, n, _| {
        let (mut alive, _) = survivors(sv)?;
        // What the server itself needs, measured before anything else.
        let base = match base {
            Some((pid, x)) if *pid == sv.pid() => *x,
            _ => {
                let x = settle(sv)? - alive.len();
                *base = Some((sv.pid(), x));
                x
            }
        };
        let mut held = vec![];
        let mut open = vec![];
        for o in &c.ends {
            let mut conn = Conn::open(sv.addr())?;
            let steps = own_keys(
                &[Step::Batch {
                    conn: 0,
                    cmds: o.used.clone(),
                    send: Send::plain(),
                }],
                &format!("c{n}:"),
            );
            let Step::Batch { cmds, .. } = &steps[0] else { unreachable!() };
            conn.send(sv, &wire(cmds), false)?;
            for cmd in cmds {
                if let crate::client::Reply::Closed(e) = conn.reply(sv)? {
                    violation!("closed ({e:?}) by {}", show_cmd(cmd));
                }
            }
            if c.at_once {
                open.push((conn, o));
            } else {
                held.extend(leave(sv, conn, o)?.map(|c| (c, o)));
            }
        }
        for (conn, o) in open {
            held.extend(leave(sv, conn, o)?.map(|c| (c, o)));
        }
        // Those which the server has to end are seen ended by their client.
        for (conn, o) in &mut held {
            conn.until_closed(sv, &format!("ended by {:?}", o.way))?;
            let _: Option<End> = conn.end;
        }
        only(sv, &mut alive, base)?;
        drop(held);
        only(sv, &mut alive, base)?;
        let tags = c
            .ends
            .iter()
            .map(|o| match o.way {
                Way::Close | Way::Nothing => "closes",
                Way::HalfClose => "half-closes",
                Way::Reset => "resets",
                Way::Truncated(..) => "truncated commands",
                Way::Protocol(_) => "protocol errors",
                Way::Rejected(_) | Way::RejectedAmid(..) => "rejected commands",
                Way::Unread { .. } => "unread replies",
                Way::Fire(..) => "closes with commands in flight",
                Way::Any(..) => "any commands",
            })
            .collect();
        Ok(Pass { nontrivial: true, tags })
    })
}

/// Descriptors once they don't change any more.
fn settle(sv: &mut Server) -> Result<usize, Bad> {
    let mut last = sv.fds();
    let mut same = 0;
    while same < 20 {
        std::thread::sleep(Duration::from_millis(5));
        sv.check_alive()?;
        let n = sv.fds();
        if n == last {
            same += 1;
        } else {
            same = 0;
            last = n;
        }
    }
    Ok(last)
}

/// A long life: waves of connections, far more than descriptors.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Life {
    waves: u16,
    wave: u16,
    ways: Vec<Junk>,
    hows: Vec<u8>,
}

fn life(c: &Life) -> Res {
    let mut o = Opts::new();
    o.nofile = Some(600);
    let mut sv = Server::start(&o)?;
    let sv = &mut sv;
    let (mut alive, _) = survivors(sv)?;
    let base = settle(sv)? - alive.len();
    let mut total = 0;
    for wave in 0..c.waves {
        let mut open = vec![];
        for i in 0..c.wave {
            let mut x = Conn::open(sv.addr())?;
            if i % 3 == 0 {
                x.id(sv)?;
            }
            let j = &c.ways[(wave as usize + i as usize) % c.ways.len()];
            let _ = x.s.write(&j.bytes("bad"));
            open.push(x);
            total += 1;
        }
        for (i, x) in open.into_iter().enumerate() {
            match c.hows[(i + wave as usize) % c.hows.len()] {
                0 => drop(x),
                1 => {
                    x.half_close();
                    drop(x)
                }
                _ => x.reset(),
            }
        }
        if wave % 8 == 7 || wave + 1 == c.waves {
            only(sv, &mut alive, base)?;
        }
    }
    let tags =
        if total > 600 { vec!["more connections than descriptors"] } else { vec![] };
    Ok(Pass { nontrivial: total > 600, tags })
}

pub fn run(r: &mut Report) {
    r.rule(
        "ends: up to 15 connections used and then ended in generated ways \
         (close, half-close, reset, truncated command, protocol error, rejected \
         command, unread replies, commands in flight), one by one or all at \
         once; those the server has to end are seen closed, CLIENT LIST on \
         survivors shows exactly them and the descriptor count of the process \
         returns to what it was; non-trivial: all. life: thousands of \
         connections under a limit of 600 descriptors.",
    );
    let mut b = Bench::new(Opts::new);
    let mut base = None;
    r.drive("ends", strat(), r.n(2000, 30000), |c| check(&mut b, &mut base, c));
    let w = r.n(40, 400) as u16;
    let s = (
        w / 2..w,
        20u16..120,
        proptest::collection::vec(junk(), 1..8),
        proptest::collection::vec(0u8..3, 1..7),
    )
        .prop_map(|(waves, wave, ways, hows)| Life { waves, wave, ways, hows });
    r.drive("life", s, r.n(6, 30), life);
}
