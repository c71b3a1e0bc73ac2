//! C11: CLIENT LIST and CLIENT INFO.
use proptest::prelude::*;
use rvcommon::resp::{Arg, Val};
use rvcommon::{violation, Bad, Blob, Pass, Report, Res};
use serde::{Deserialize, Serialize};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};

use crate::client::{eventually, Conn, Reply};
use crate::engine::*;
use crate::model::{check_entry, parse_entry, ConnState};
use crate::server::{Opts, Server};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Op {
    /// From 127.0.0.`a`, to 127.0.0.`b`
    Open(u8, u8),
    Name(u16, Blob),
    End(u16, Ending),
    /// Someone else gives a look
    List(u16),
    Info(u16),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Case {
    many: u16,
    ops: Vec<Op>,
}

pub struct One {
    pub conn: Conn,
    pub st: ConnState,
}

fn strat(many: BoxedStrategy<u16>, name: usize) -> BoxedStrategy<Case> {
    let names = prop_oneof![
        4 => "[!-~]{0,20}".prop_map(|s: String| Blob::s(&s)),
        1 => proptest::sample::select(vec!["", "é", "id=1", "name=", "=", "名", "addr=1.2.3.4:5"])
            .prop_map(Blob::s),
        1 => (0..name, any::<u8>()).prop_map(|(len, s)| Blob::Gen { len, seed: s as u32, kind: 1 }),
    ];
    let op = prop_oneof![
        5 => (1u8..6, 1u8..6).prop_map(|(a, b)| Op::Open(a, b)),
        4 => (any::<u16>(), names).prop_map(|(i, n)| Op::Name(i, n)),
        3 => (any::<u16>(), proptest::sample::select(vec![
            Ending::Close, Ending::HalfClose, Ending::Reset]))
            .prop_map(|(i, e)| Op::End(i, e)),
        2 => any::<u16>().prop_map(Op::List),
        2 => any::<u16>().prop_map(Op::Info),
    ];
    (many, proptest::collection::vec(op, 1..40))
        .prop_map(|(many, ops)| Case { many, ops })
        .boxed()
}

pub fn open(sv: &mut Server, a: u8, b: u8) -> Result<One, Bad> {
    // Half of them come by IPv6, where there is.
    let six = match sv.bind {
        SocketAddr::V4(_) => false,
        SocketAddr::V6(s) => s.ip().is_loopback() || a % 2 == 0,
    };
    let ip = |x: u8| match six {
        false => IpAddr::V4(Ipv4Addr::new(127, 0, 0, x)),
        true => IpAddr::V6(Ipv6Addr::LOCALHOST),
    };
    let to = SocketAddr::new(ip(b), sv.bind.port());
    let from = SocketAddr::new(ip(a), 0);
    let mut conn = Conn::open_with(to, Some(from), None)?;
    // The server's socket is one of IPv6 even if the client's isn't.
    let seen = |s: SocketAddr| match (sv.bind, s.ip()) {
        (SocketAddr::V6(_), IpAddr::V4(ip)) => {
            SocketAddr::new(ip.to_ipv6_mapped().into(), s.port())
        }
        _ => s,
    };
    let mut st = ConnState::new(seen(conn.local), seen(conn.peer));
    st.id = Some(conn.id(sv)?);
    Ok(One { conn, st })
}

/// The listing seen by one of them is exactly all of them.
fn list(sv: &mut Server, all: &mut [One], who: usize) -> Result<(), Bad> {
    eventually(sv, |sv| {
        let v = all[who].conn.call(sv, &[b"CLIENT", b"LIST"])?;
        let Val::Arr(es) = &v else { violation!("CLIENT LIST: {v:?}") };
        let mut seen = vec![0; all.len()];
        let mut extra = vec![];
        for e in es {
            let e = parse_entry(e)?;
            match all.iter_mut().position(|o| o.st.id == Some(e.id)) {
                Some(i) => {
                    check_entry(&e, &mut all[i].st)?;
                    seen[i] += 1;
                }
                None => extra.push(e),
            }
        }
        for (i, n) in seen.iter().enumerate() {
            if *n != 1 {
                violation!(
                    "CLIENT LIST has {n} entries of connection {:?} ({} open)",
                    all[i].st.id,
                    all.len()
                );
            }
        }
        let mut fds: Vec<_> = all.iter().map(|o| o.st.fd).collect();
        fds.sort();
        fds.dedup();
        if fds.len() != all.len() {
            violation!("entries of CLIENT LIST share their descriptor");
        }
        Ok(if extra.is_empty() {
            Ok(())
        } else {
            let n = extra.len();
            extra.truncate(3);
            Err(format!(
                "CLIENT LIST has {n} entries of connections which aren't open: \
                 {extra:?}"
            ))
        })
    })
}

fn info(sv: &mut Server, o: &mut One) -> Result<(), Bad> {
    let v = o.conn.call(sv, &[b"CLIENT", b"INFO"])?;
    check_entry(&parse_entry(&v)?, &mut o.st)
}

fn check(b: &mut Bench, c: &Case) -> Res {
    b.run(|sv, _, _| {
        let mut all: Vec<One> = vec![];
        for i in 0..c.many {
            all.push(open(sv, 1 + (i % 9) as u8, 1 + (i % 5) as u8)?);
        }
        let mut named = 0;
        let mut ended = 0;
        for op in &c.ops {
            let n = all.len().max(1);
            match op {
                Op::Open(a, b) => all.push(open(sv, *a, *b)?),
                Op::Name(i, name) => {
                    let Some(o) = all.get_mut(*i as usize % n) else { continue };
                    let b = name.bytes();
                    let mut w = vec![];
                    encode_cmd(
                        &vec![
                            Arg::bulk("CLIENT"),
                            Arg::bulk("SETNAME"),
                            Arg::bulk(&b),
                        ],
                        &mut w,
                    );
                    o.conn.send(sv, &w, false)?;
                    match o.conn.reply(sv)? {
                        Reply::Val(v) if v == Val::simple("OK") => {}
                        v => violation!("SETNAME of a valid name: {v:?}"),
                    }
                    o.st.name = Some(b).filter(|b| !b.is_empty());
                    named += 1;
                }
                Op::End(i, how) => {
                    if !all.is_empty() {
                        let o = all.swap_remove(*i as usize % n);
                        end(sv, o.conn, *how)?;
                        ended += 1;
                    }
                }
                Op::List(i) => {
                    if !all.is_empty() {
                        list(sv, &mut all, *i as usize % n)?;
                    }
                }
                Op::Info(i) => {
                    if let Some(o) = all.get_mut(*i as usize % n) {
                        info(sv, o)?;
                    }
                }
            }
        }
        if all.is_empty() {
            all.push(open(sv, 1, 1)?);
        }
        let n = all.len();
        for who in [0, n / 2, n - 1] {
            list(sv, &mut all, who)?;
        }
        for o in all.iter_mut() {
            info(sv, o)?;
        }
        let mut tags = vec![];
        if n > 100 {
            tags.push("more than 100 connections");
        }
        Ok(Pass { nontrivial: n >= 2 && named > 0 && ended > 0, tags })
    })
}

pub fn run(r: &mut Report) {
    r.rule(
        "history: connecting from and to several addresses, naming, ending, \
         listing; at quiet points CLIENT LIST from several connections must be \
         exactly the open ones with their own addresses, identifier and name, \
         and CLIENT INFO the asking one's entry; non-trivial = 2 connections \
         or more left, some named, some ended. crowd: hundreds of connections \
         and long names. aged: \
         servers whose identifiers are already near the end of 8, 16, 31, 32, \
         53... bits (hook). v6, dual: the same history on IPv6, and on IPv6 with \
         clients of IPv4.",
    );
    let mut b = Bench::new(Opts::wildcard);
    r.drive("history", strat(Just(0).boxed(), 3000), r.n(2500, 30000), |c| {
        check(&mut b, c)
    });
    let six: [(&str, bool, fn() -> Opts); 2] = [
        ("v6", false, || Opts::v6(false).unwrap()),
        ("dual", true, || Opts::v6(true).unwrap()),
    ];
    for (part, any, opts) in six {
        match Opts::v6(any) {
            Some(_) => {
                let mut b = Bench::new(opts);
                r.drive(part, strat(Just(0).boxed(), 3000), r.n(800, 10000), |c| {
                    check(&mut b, c)
                });
            }
            None => r.assume("no IPv6 here: such addresses weren't seen"),
        }
    }
    let n = r.n(60, 1000);
    let few = strat((0u16..12).boxed(), 200);
    aged(r, few, n, Opts::wildcard, check);
    let m = r.n(400, 3000) as u16;
    r.drive("crowd", strat((20..m).boxed(), 30_000), r.n(60, 500), |c| {
        check(&mut b, c)
    });
}
