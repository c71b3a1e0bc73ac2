//! C10: identifiers.
use proptest::prelude::*;
use rvcommon::history::ordered;
use rvcommon::{violation, Bad, Pass, Report, Res};
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::sync::Mutex;
use std::time::Instant;

use crate::client::{encode, Conn};
use crate::engine::*;
use crate::server::{Opts, Server};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Op {
    /// Open these connections, all before any of them is asked
    Open(u8),
    /// Ask one of the open ones
    Ask(u16),
    End(u16, Ending),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Case {
    ops: Vec<Op>,
}

struct One {
    conn: Conn,
    id: Option<i64>,
    /// Greatest identifier known to be assigned before it was opened
    above: i64,
}

fn check(
    b: &mut Bench,
    used: &mut (u32, HashMap<i64, u64>, i64),
    c: &Case,
) -> Res {
    b.run(|sv, _, _| {
        if used.0 != sv.pid() {
            *used = (sv.pid(), HashMap::new(), -1);
        }
        let mut open: Vec<One> = vec![];
        let mut serial = used.1.len() as u64;
        let mut asked = 0;
        let ask = |sv: &mut Server,
                       o: &mut One,
                       used: &mut (u32, HashMap<i64, u64>, i64),
                       serial: &mut u64|
         -> Result<(), Bad> {
            let id = o.conn.id(sv)?;
            match o.id {
                Some(x) if x != id => {
                    violation!("the id of a connection was {x}, is {id}")
                }
                Some(_) => {}
                None => {
                    *serial += 1;
                    if used.1.insert(id, *serial).is_some() {
                        violation!("id {id} is given to two connections");
                    }
                    if id <= o.above {
                        violation!(
                            "a connection opened after connection {} was \
                             answered has id {id}",
                            o.above
                        );
                    }
                    o.id = Some(id);
                    used.2 = used.2.max(id);
                }
            }
            Ok(())
        };
        for op in &c.ops {
            match op {
                Op::Open(n) => {
                    let above = used.2;
                    for _ in 0..*n {
                        open.push(One {
                            conn: Conn::open(sv.addr())?,
                            id: None,
                            above,
                        });
                    }
                }
                Op::Ask(i) => {
                    if !open.is_empty() {
                        let i = *i as usize % open.len();
                        asked += 1;
                        ask(sv, &mut open[i], used, &mut serial)?;
                    }
                }
                Op::End(i, how) => {
                    if !open.is_empty() {
                        let o = open.swap_remove(*i as usize % open.len());
                        end(sv, o.conn, *how)?;
                    }
                }
            }
        }
        for _ in 0..2 {
            for o in &mut open {
                ask(sv, o, used, &mut serial)?;
            }
        }
        Ok(Pass { nontrivial: open.len() > 1 && asked > 0, tags: vec![] })
    })
}

fn strat() -> BoxedStrategy<Case> {
    let op = prop_oneof![
        3 => (1u8..12).prop_map(Op::Open),
        6 => any::<u16>().prop_map(Op::Ask),
        3 => (any::<u16>(), proptest::sample::select(vec![
            Ending::Close, Ending::HalfClose, Ending::Reset]))
            .prop_map(|(i, e)| Op::End(i, e)),
    ];
    proptest::collection::vec(op, 3..60)
        .prop_map(|ops| Case { ops })
        .boxed()
}

/// Threads opening connections at the same time, so many that identifiers
/// leave 16 bits.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Storm {
    threads: u8,
    each: u32,
    /// how many connections each thread keeps, and asks again when it ends them
    keep: u8,
}

fn storm(c: &Storm) -> Res {
    use std::io::{Read, Write};
    let mut sv = Server::start(&Opts::new())?;
    let addr = sv.addr();
    let t0 = Instant::now();
    let all: Mutex<Vec<(u64, u64, i64)>> = Mutex::new(vec![]);
    let trouble: Mutex<Option<Bad>> = Mutex::new(None);
    let req = encode(&[b"CLIENT", b"ID"]);
    // Blocking with a timeout, the verdict on silence comes from a slower look.
    let ask = |s: &mut std::net::TcpStream| -> Result<i64, String> {
        s.write_all(&req).map_err(|e| e.to_string())?;
        let mut got = vec![];
        let mut buf = [0u8; 64];
        while !got.ends_with(b"\r\n") {
            match s.read(&mut buf) {
                Ok(0) => return Err("closed".into()),
                Ok(n) => got.extend_from_slice(&buf[..n]),
                Err(e) => return Err(e.to_string()),
            }
        }
        std::str::from_utf8(&got)
            .ok()
            .and_then(|s| s.strip_prefix(':'))
            .and_then(|s| s.trim_end().parse().ok())
            .ok_or(format!("{:?}", got.escape_ascii().to_string()))
    };
    std::thread::scope(|sc| {
        for _ in 0..c.threads {
            sc.spawn(|| {
                let mut kept: Vec<(std::net::TcpStream, i64)> = vec![];
                let mut mine = vec![];
                let r = (|| -> Result<(), Bad> {
                    for _ in 0..c.each {
                        let from = t0.elapsed().as_nanos() as u64;
                        let mut s = std::net::TcpStream::connect(addr)?;
                        s.set_nodelay(true)?;
                        s.set_read_timeout(Some(
                            std::time::Duration::from_secs(60),
                        ))?;
                        let id = ask(&mut s).map_err(|e| {
                            Bad::Violation(format!("CLIENT ID: {e}"))
                        })?;
                        let to = t0.elapsed().as_nanos() as u64;
                        mine.push((from, to, id));
                        kept.push((s, id));
                        if kept.len() > c.keep as usize {
                            let (mut s, id) = kept.remove(0);
                            let again = ask(&mut s).map_err(|e| {
                                Bad::Violation(format!("CLIENT ID: {e}"))
                            })?;
                            if again != id {
                                violation!(
                                    "the id of a connection was {id}, is \
                                     {again}"
                                );
                            }
                            // No port is left waiting.
                            let l = libc::linger { l_onoff: 1, l_linger: 0 };
                            unsafe {
                                use std::os::fd::AsRawFd;
                                libc::setsockopt(
                                    s.as_raw_fd(),
                                    libc::SOL_SOCKET,
                                    libc::SO_LINGER,
                                    &l as *const _ as *const _,
                                    std::mem::size_of::<libc::linger>() as u32,
                                );
                            }
                        }
                    }
                    Ok(())
                })();
                all.lock().unwrap().append(&mut mine);
                if let Err(e) = r {
                    trouble.lock().unwrap().get_or_insert(e);
                }
            });
        }
    });
    sv.check_alive()?;
    if let Some(e) = trouble.into_inner().unwrap() {
        return Err(e);
    }
    ordered(all.into_inner().unwrap())?;
    Ok(Pass {
        nontrivial: true,
        tags: if c.each * c.threads as u32 > 65536 {
            vec!["more than 65536 connections"]
        } else {
            vec![]
        },
    })
}

pub fn run(r: &mut Report) {
    r.rule(
        "history: opening (several before any is asked), asking and ending \
         connections in generated orders on one server: identifiers are stable, \
         never reused over the whole run and greater than any known before the \
         connection was opened; non-trivial = asked with 2 connections or more \
         open. aged: the same on servers whose identifiers are already near the end of \
         8, 16, 31, 32, 53... bits (hook). storm: threads opening connections at once, more than 65536 in \
         all.",
    );
    let mut b = Bench::new(Opts::new);
    let mut used = (0, HashMap::new(), -1);
    r.drive("history", strat(), r.n(1800, 25000), |c| {
        check(&mut b, &mut used, c)
    });
    b.server = None;
    let mut used = (0, HashMap::new(), -1);
    let n = r.n(60, 1000);
    aged(r, strat(), n, Opts::new, |b, c| check(b, &mut used, c));
    let each = r.n(11_000, 60_000);
    let s = (6u8..8, each - 500..each, 0u8..6).prop_map(|(threads, each, keep)| Storm {
        threads,
        each,
        keep,
    });
    r.drive("storm", s, r.n(1, 6), storm);
}
