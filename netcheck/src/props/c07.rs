//! C07: text chosen by clients can't break the reply stream.
use proptest::prelude::*;
use rvcommon::blob::{nasty_text, small_bytes};
use rvcommon::resp::{Arg, Val};
use rvcommon::{violation, Pass, Report, Res};
use serde::{Deserialize, Serialize};

use crate::client::Reply;
use crate::engine::*;
use crate::model::{parse_entry, Expect};
use crate::server::Opts;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Case {
    steps: Vec<(u8, Cmd)>,
}

fn nasty() -> BoxedStrategy<Arg> {
    let text = prop_oneof![
        4 => nasty_text(),
        2 => nasty_text().prop_map(|t| format!("a\r\n+OK\r\n{t}")),
        1 => (nasty_text(), 1usize..3000).prop_map(|(t, n)| t.repeat(n).chars().take(9000).collect()),
        1 => nasty_text().prop_map(|t| format!("{t} id=7 addr=1.2.3.4:5 name=x")),
        1 => nasty_text().prop_map(|t| t.replace('\r', "").replace('\n', "")),
    ];
    prop_oneof![
        5 => word(text.boxed()),
        1 => arg(small_bytes()),
    ]
    .boxed()
}

fn strat() -> BoxedStrategy<Case> {
    let b = |s: &'static str| Arg::bulk(s);
    let rest = || proptest::collection::vec(nasty(), 0..4);
    let cmd = prop_oneof![
        4 => (nasty(), rest()).prop_map(|(n, mut r)| { r.insert(0, n); r }),
        3 => (nasty(), rest()).prop_map(move |(n, mut r)| {
            r.insert(0, n); r.insert(0, b("CLIENT")); r }),
        2 => (nasty(), rest()).prop_map(move |(n, mut r)| {
            r.insert(0, n); r.insert(0, b("ACL")); r }),
        1 => nasty().prop_map(move |n| vec![b("ACL"), b("CAT"), n]),
        5 => nasty().prop_map(move |n| vec![b("CLIENT"), b("SETNAME"), n]),
        1 => (nasty(), nasty()).prop_map(move |(n, m)| vec![b("CLIENT"), b("SETINFO"), n, m]),
        2 => nasty().prop_map(move |n| vec![b("PING"), n]),
        2 => (nasty(), nasty()).prop_map(move |(n, m)| vec![b("SET"), n, m]),
        1 => nasty().prop_map(move |n| vec![b("GET"), n]),
        1 => rest().prop_map(move |mut r| { r.insert(0, b("HELLO")); r }),
        1 => (nasty(), nasty()).prop_map(move |(n, m)| vec![b("CLIENT"), b("LIST"), n, m]),
        1 => rest().prop_map(move |mut r| { r.insert(0, b("SET")); r }),
        2 => Just(vec![b("CLIENT"), b("INFO")]),
        2 => Just(vec![b("CLIENT"), b("GETNAME")]),
        2 => Just(vec![b("CLIENT"), b("LIST")]),
    ];
    proptest::collection::vec((0u8..3, cmd), 1..25)
        .prop_map(|steps| Case { steps })
        .boxed()
}

/// Every reply is one well-formed value and nothing else comes: each command
/// is followed by a PING with a unique text. The values themselves are checked
/// as far as text goes: entries keep their fields, values come back unchanged.
fn check(b: &mut Bench, c: &Case) -> Res {
    b.run(|sv, n, facts| {
        let mut w = World::new(sv, facts);
        let mut echoed = 0;
        for (i, (conn, cmd)) in c.steps.iter().enumerate() {
            let fixed = own_keys(
                &[Step::Batch {
                    conn: *conn,
                    cmds: vec![cmd.clone()],
                    send: Send::plain(),
                }],
                &format!("c{n}:"),
            );
            let Step::Batch { cmds, .. } = &fixed[0] else { unreachable!() };
            let cmd = &cmds[0];
            w.open(*conn)?;
            let mut l = w.live.remove(conn).unwrap();
            let tok = format!("token-{n}-{i}");
            let mut bytes = vec![];
            encode_cmd(cmd, &mut bytes);
            bytes.extend(crate::client::encode(&[b"PING", tok.as_bytes()]));
            l.conn.send(w.sv, &bytes, false)?;
            let exp = w.model.exec(&mut l.st, cmd);
            let what = show_cmd(cmd);
            let first = l.conn.reply(w.sv);
            let first = match first {
                Err(rvcommon::Bad::Violation(m)) => {
                    violation!("step {} {what}: {m}", i + 1)
                }
                x => x?,
            };
            match first {
                Reply::Closed(e) => match exp {
                    Expect::ErrorOrClose | Expect::Any => continue,
                    _ => violation!("step {} {what}: closed {e:?}", i + 1),
                },
                Reply::Val(v) => {
                    if v == Val::bulk(&tok)
                        && !matches!(&exp, Expect::Exact(x) if *x == v)
                    {
                        violation!("step {} {what}: no reply at all", i + 1);
                    }
                    if let Val::Err(e) = &v {
                        echoed += (e.len() > 40) as usize;
                    }
                    if let (Expect::List, Val::Arr(es)) = (&exp, &v) {
                        for e in es {
                            parse_entry(e)?;
                        }
                    }
                    // An input which may end the connection may also get
                    // some reply.
                    if !matches!(exp, Expect::ErrorOrClose) {
                        crate::model::check(&exp, &v, &mut l.st).map_err(
                            |e| match e {
                                rvcommon::Bad::Violation(m) => {
                                    rvcommon::Bad::Violation(format!(
                                        "step {} {what}: {m}",
                                        i + 1
                                    ))
                                }
                                e => e,
                            },
                        )?;
                    }
                }
            }
            match l.conn.reply(w.sv)? {
                Reply::Val(v) if v == Val::bulk(&tok) => {}
                Reply::Closed(_)
                    if matches!(exp, Expect::ErrorOrClose) =>
                {
                    continue
                }
                got => violation!(
                    "step {} {what}: instead of the reply of the next \
                     command comes {got:?}",
                    i + 1
                ),
            }
            w.stats.cmds += 1;
            w.live.insert(*conn, l);
        }
        // What the others are told about these connections.
        w.open(100)?;
        let mut l = w.live.remove(&100).unwrap();
        let v = l.conn.call(w.sv, &[b"CLIENT", b"LIST"])?;
        let Val::Arr(es) = &v else { violation!("CLIENT LIST: {v:?}") };
        let mut seen = 0;
        for e in es {
            let e = parse_entry(e)?;
            if let Some(x) =
                w.live.values_mut().find(|x| x.conn.local.to_string() == e.addr)
            {
                crate::model::check_entry(&e, &mut x.st)?;
                seen += 1;
            }
        }
        if seen != w.live.len() {
            violation!(
                "CLIENT LIST shows {seen} of the {} connections",
                w.live.len()
            );
        }
        w.live.insert(100, l);
        w.barrier()?;
        Ok(Pass {
            nontrivial: c.steps.len() >= 2,
            tags: if echoed > 0 { vec!["long text echoed in errors"] } else { vec![] },
        })
    })
}

pub fn run(r: &mut Report) {
    r.rule(
        "text: commands whose names, subcommands, arguments and connection \
         names hold line breaks, RESP fragments, field separators, control and \
         case-changing characters, on up to 3 connections; each is followed by \
         a PING with a unique text, the stream is decoded strictly, names seen \
         by another connection in CLIENT LIST; non-trivial = 2 commands or \
         more.",
    );
    let mut b = Bench::new(Opts::new);
    r.drive("text", strat(), r.n(6000, 80000), |c| check(&mut b, c));
}
