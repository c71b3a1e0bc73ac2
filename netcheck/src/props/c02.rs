//! C02: time to live, seen from outside.
use proptest::prelude::*;
use rvcommon::resp::Val;
use rvcommon::{violation, Pass, Report, Res};
use serde::{Deserialize, Serialize};
use std::time::{Duration, Instant};

use crate::client::{Conn, Reply};
use crate::engine::Bench;
use crate::server::{Opts, Server};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Ttl {
    No,
    Ms(u64),
    Secs(u64),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Op {
    /// letters of the option, and its number as an integer frame
    /// same: the value it's always set to by these
    Set { ttl: Ttl, letters: u8, int: bool, conn: u8, same: bool },
    Get { conn: u8 },
    /// A malformed SET with a time to live, on a connection of its own
    Bad(u8),
}

/// Operations on one key, each so many ms after the previous one.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Line(Vec<(u16, Op)>);

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Case {
    lines: Vec<Line>,
}

/// The clock of the server advances by steps of some ms.
const SLACK: f64 = 30.0;

fn spelled(w: &str, letters: u8) -> String {
    w.chars()
        .enumerate()
        .map(|(i, c)| {
            if letters >> i & 1 == 1 {
                c.to_ascii_lowercase()
            } else {
                c
            }
        })
        .collect()
}

#[derive(Clone, Debug)]
struct Last {
    val: String,
    from: f64,
    to: f64,
    /// ms
    ttl: Option<f64>,
}

/// A SET, and the ms its key lives
fn set_req(
    key: &str,
    val: &str,
    ttl: Ttl,
    letters: u8,
    int: bool,
) -> (Vec<u8>, Option<f64>) {
    let mut req = vec![];
    let n = if ttl == Ttl::No { 3 } else { 5 };
    req.extend(
        format!("*{n}\r\n$3\r\n{}\r\n", spelled("SET", letters)).bytes(),
    );
    for w in [key, val] {
        req.extend(format!("${}\r\n{w}\r\n", w.len()).bytes());
    }
    let (w, n, ms) = match ttl {
        Ttl::No => ("", 0, None),
        Ttl::Ms(n) => ("PX", n, Some(n as f64)),
        Ttl::Secs(n) => ("EX", n, Some(n as f64 * 1000.)),
    };
    if ttl != Ttl::No {
        let w = spelled(w, letters / 8);
        req.extend(format!("$2\r\n{w}\r\n").bytes());
        if int {
            req.extend(format!(":{n}\r\n").bytes());
        } else {
            let n = n.to_string();
            req.extend(format!("${}\r\n{n}\r\n", n.len()).bytes());
        }
    }
    (req, ms)
}

fn check(b: &mut Bench, c: &Case) -> Res {
    b.run(|sv, case, _| steps(sv, case, c))
}

fn steps(sv: &mut Server, case: u64, c: &Case) -> Res {
    let mut conns: Vec<Conn> = vec![];
    for _ in 0..3 {
        conns.push(Conn::open(sv.addr())?);
    }
    let mut agenda: Vec<(u64, usize, usize)> = vec![];
    for (k, l) in c.lines.iter().enumerate() {
        let mut at = 0;
        for (i, (gap, _)) in l.0.iter().enumerate() {
            at += *gap as u64;
            agenda.push((at, i, k));
        }
    }
    agenda.sort();
    let mut last: Vec<Option<Last>> = vec![None; c.lines.len()];
    let t0 = Instant::now();
    let now = || t0.elapsed().as_secs_f64() * 1000.;
    let (mut before, mut after, mut refreshed, mut again, mut forever) =
        (0, 0, 0, 0, 0);
    for (at, i, k) in agenda {
        let ahead = at as f64 - now();
        if ahead > 0. {
            std::thread::sleep(Duration::from_secs_f64(ahead / 1000.));
        }
        let key = format!("{case}:{k}");
        match &c.lines[k].0[i].1 {
            Op::Set { ttl, letters, int, conn, same } => {
                let val = if *same { "v".into() } else { format!("v{i}") };
                let (req, ms) = set_req(&key, &val, *ttl, *letters, *int);
                let conn = &mut conns[*conn as usize % 3];
                let from = now();
                conn.send(sv, &req, false)?;
                let v = conn.reply(sv)?;
                let to = now();
                match v {
                    Reply::Val(v) if v == Val::simple("OK") => {}
                    v => violation!("SET with {ttl:?} is answered {v:?}"),
                }
                if let Some(Last { to: t, ttl: Some(d), .. }) = &last[k] {
                    if from < t + d {
                        refreshed += 1;
                    } else {
                        again += 1;
                    }
                }
                last[k] = Some(Last { val, from, to, ttl: ms });
            }
            Op::Get { conn } => {
                let conn = &mut conns[*conn as usize % 3];
                let from = now();
                let v = conn.call(sv, &[b"GET", key.as_bytes()])?;
                let to = now();
                match &last[k] {
                    None => {
                        if v != Val::Null {
                            violation!("a key which was never set is {v:?}")
                        }
                    }
                    Some(l) => {
                        let value = Val::bulk(&l.val);
                        if v != value && v != Val::Null {
                            violation!("GET gives {v:?}, last set: {l:?}");
                        }
                        let d = l.ttl.unwrap_or(f64::INFINITY);
                        if to < l.from + d - SLACK {
                            if v == Val::Null {
                                violation!(
                                    "a key is gone between {from:.1} and \
                                     {to:.1} ms, it was set to live {d} ms \
                                     between {:.1} and {:.1} ms",
                                    l.from,
                                    l.to
                                );
                            }
                            before += l.ttl.is_some() as u32;
                            forever += (d > 1e9) as u32;
                        } else if from > l.to + d + SLACK {
                            if v != Val::Null {
                                violation!(
                                    "a key is still there between {from:.1} \
                                     and {to:.1} ms, it was set to live {d} ms \
                                     between {:.1} and {:.1} ms",
                                    l.from,
                                    l.to
                                );
                            }
                            after += 1;
                        }
                    }
                }
            }
            Op::Bad(how) => {
                let mut c = Conn::open(sv.addr())?;
                let mut args: Vec<&[u8]> = vec![b"SET", key.as_bytes(), b"bad"];
                let more: &[&[u8]] = match how % 7 {
                    0 => &[b"PX"],
                    1 => &[b"PX", b"soon"],
                    2 => &[b"EX", b"-1"],
                    3 => &[b"PX", b"5", b"PX"],
                    4 => &[b"KX", b"5"],
                    5 => &[b"EX", b"18446744073709551616"],
                    _ => &[b"PX", b"1.5"],
                };
                args.extend(more);
                c.send(sv, &crate::client::encode(&args), false)?;
                match c.reply(sv)? {
                    Reply::Closed(_) | Reply::Val(Val::Err(_)) => {}
                    v => violation!("a malformed SET is answered {v:?}"),
                }
            }
        }
    }
    // Everything once more, which is surely there or gone.
    for (k, l) in last.iter().enumerate() {
        let Some(l) = l else { continue };
        let key = format!("{case}:{k}");
        let from = now();
        let v = conns[k % 3].call(sv, &[b"GET", key.as_bytes()])?;
        let d = l.ttl.unwrap_or(f64::INFINITY);
        let want = if now() < l.from + d - SLACK {
            Val::bulk(&l.val)
        } else if from > l.to + d + SLACK {
            Val::Null
        } else {
            continue;
        };
        if v != want {
            violation!(
                "at {from:.1} ms a key is {v:?}, it was set to live {d} ms \
                 between {:.1} and {:.1} ms",
                l.from,
                l.to
            );
        }
    }
    let mut tags = vec![];
    if refreshed > 0 {
        tags.push("time to live replaced");
    }
    if again > 0 {
        tags.push("set again after its end");
    }
    if forever > 0 {
        tags.push("lives for weeks or more");
    }
    Ok(Pass { nontrivial: before > 0 && after > 0, tags })
}

/// With the clock of the server in our hands
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Moved {
    Set { key: u8, ttl: Ttl, letters: u8, int: bool, conn: u8, same: bool },
    Get { key: u8, conn: u8 },
    /// So many ms pass.
    Pass(u64),
    /// It becomes that many ms before or after the end of a key, which is read.
    Before { key: u8, ms: u64, conn: u8 },
    After { key: u8, ms: u64, conn: u8 },
    /// Somebody sets the wall clock, to so many s from the right time.
    Wall(i64),
}

const YEAR: u64 = 365 * 86_400_000;
const KEYS: usize = 3;

fn moved(b: &mut Bench, c: &Vec<Moved>) -> Res {
    // The server's clock holds 136 years.
    let old = b.server.as_ref().and_then(|s| s.clock.as_ref());
    if old.is_some_and(|c| c.ahead / 1_000_000 > 30 * YEAR) {
        b.server = None;
    }
    b.run(|sv, case, _| moving(sv, case, c))
}

fn moving(sv: &mut Server, case: u64, c: &Vec<Moved>) -> Res {
    let mut conns: Vec<Conn> = vec![];
    for _ in 0..4 {
        conns.push(Conn::open(sv.addr())?);
    }
    let t0 = Instant::now();
    let now = |sv: &Server| {
        t0.elapsed().as_secs_f64() * 1000.
            + sv.clock.as_ref().map(|c| c.ahead as f64 / 1e6).unwrap_or(0.)
    };
    let pass = |sv: &mut Server, ms: u64| match &mut sv.clock {
        Some(c) if c.ahead / 1_000_000 + ms < 110 * YEAR => {
            c.advance(ms * 1_000_000);
            true
        }
        _ => false,
    };
    if let Some(c) = &mut sv.clock {
        c.set_wall(0);
    }
    // Does it follow the clock we move?
    let probe = format!("{case}:probe");
    let set = [&b"SET"[..], probe.as_bytes(), b"v", b"PX", b"100"];
    conns[0].call(sv, &set)?;
    pass(sv, 10_000);
    for x in &mut conns {
        let v = x.call(sv, &[b"GET", probe.as_bytes()])?;
        if v != Val::Null {
            return Ok(Pass { nontrivial: false, tags: vec!["can't move its clock"] });
        }
    }
    let mut last: Vec<Option<Last>> = vec![None; KEYS];
    let (mut before, mut after, mut years, mut walls) = (0, 0, 0, 0);
    for (i, op) in c.iter().enumerate() {
        let (key, conn) = match op {
            Moved::Pass(ms) => {
                pass(sv, *ms);
                continue;
            }
            Moved::Wall(s) => {
                if let Some(c) = &mut sv.clock {
                    c.set_wall(*s);
                    walls += 1;
                }
                continue;
            }
            Moved::Set { key, ttl, letters, int, conn, same } => {
                let k = *key as usize % KEYS;
                let val = if *same { "v".into() } else { format!("v{i}") };
                let name = format!("{case}:{k}");
                let (req, ttl) = set_req(&name, &val, *ttl, *letters, *int);
                let conn = &mut conns[*conn as usize % 4];
                let from = now(sv);
                conn.send(sv, &req, false)?;
                let v = conn.reply(sv)?;
                let to = now(sv);
                match v {
                    Reply::Val(v) if v == Val::simple("OK") => {}
                    v => violation!("SET with {ttl:?} is answered {v:?}"),
                }
                last[k] = Some(Last { val, from, to, ttl });
                continue;
            }
            Moved::Get { key, conn } => (*key as usize % KEYS, *conn),
            Moved::Before { key, ms, conn } | Moved::After { key, ms, conn } => {
                let key = *key as usize % KEYS;
                if let Some(Last { from, to, ttl: Some(d), .. }) = last[key] {
                    let t = if matches!(op, Moved::Before { .. }) {
                        from + d - SLACK - *ms as f64
                    } else {
                        to + d + SLACK + *ms as f64
                    };
                    let by = t - now(sv);
                    if by > 0. && by < (120 * YEAR) as f64 {
                        let done = pass(sv, by as u64);
                        years += (done && by > YEAR as f64) as u32;
                    }
                }
                (key, *conn)
            }
        };
        let name = format!("{case}:{key}");
        // by the clocks of several threads
        for x in 0..2 {
            let conn = &mut conns[(conn as usize + x) % 4];
            let from = now(sv);
            let v = conn.call(sv, &[b"GET", name.as_bytes()])?;
            let to = now(sv);
            let Some(l) = &last[key] else {
                if v != Val::Null {
                    violation!("a key which was never set is {v:?}")
                }
                continue;
            };
            let value = Val::bulk(&l.val);
            if v != value && v != Val::Null {
                violation!("GET gives {v:?}, last set: {l:?}");
            }
            let d = l.ttl.unwrap_or(f64::INFINITY);
            if to < l.from + d - SLACK {
                before += l.ttl.is_some() as u32;
                if v == Val::Null {
                    violation!(
                        "a key set to live {d} ms is gone {:.1} ms later \
                         (its server's clock was moved)",
                        to - l.from
                    );
                }
            } else if from > l.to + d + SLACK {
                after += 1;
                if v != Val::Null {
                    violation!(
                        "a key set to live {d} ms is still there {:.1} ms \
                         later (its server's clock was moved)",
                        from - l.to
                    );
                }
            }
        }
    }
    let mut tags = vec![];
    if years > 0 {
        tags.push("years passed");
    }
    if walls > 0 {
        tags.push("wall clock set");
    }
    Ok(Pass { nontrivial: before > 0 && after > 0, tags })
}

fn moves() -> BoxedStrategy<Vec<Moved>> {
    let secs = prop_oneof![
        3 => 1u64..100_000,
        2 => 100_000u64..10_000_000,
        1 => 10_000_000u64..3_300_000_000,
        1 => (4u32..32, 0u64..4).prop_map(|(s, d)| (1u64 << s) + d - 2),
    ];
    let ms = prop_oneof![
        2 => 1u64..100_000,
        3 => (secs.clone(), 0u64..1000).prop_map(|(s, m)| s * 1000 + m),
        1 => (4u32..42, 0u64..4).prop_map(|(s, d)| (1u64 << s) + d - 2),
    ];
    let ttl = prop_oneof![
        2 => Just(Ttl::No),
        5 => secs.clone().prop_map(Ttl::Secs),
        5 => ms.prop_map(Ttl::Ms),
        1 => far(),
    ];
    let by = prop_oneof![
        3 => 0u64..1000,
        2 => 1000u64..100_000,
        2 => (secs, 0u64..1000).prop_map(|(s, m)| s * 1000 + m),
    ];
    let at = || (any::<u8>(), by.clone(), any::<u8>());
    let op = prop_oneof![
        6 => (any::<u8>(), ttl, any::<u8>(), any::<bool>(), any::<u8>(), any::<bool>())
            .prop_map(|(key, ttl, letters, int, conn, same)| Moved::Set {
                key, ttl, letters, int, conn, same,
            }),
        4 => (any::<u8>(), any::<u8>()).prop_map(|(key, conn)| Moved::Get { key, conn }),
        2 => by.clone().prop_map(Moved::Pass),
        2 => prop_oneof![
            2 => -100i64..100,
            2 => -1_000_000i64..1_000_000,
            1 => -1_600_000_000i64..3_000_000_000,
        ].prop_map(Moved::Wall),
        6 => at().prop_map(|(key, ms, conn)| Moved::Before { key, ms, conn }),
        4 => at().prop_map(|(key, ms, conn)| Moved::After { key, ms, conn }),
    ];
    proptest::collection::vec(op, 4..40).boxed()
}

/// Far: none of these ends during a check.
fn far() -> BoxedStrategy<Ttl> {
    let ms = prop_oneof![
        2 => 100_000u64..10_000_000_000,
        2 => (17u32..64, 0u64..2000).prop_map(|(s, d)| (1u64 << s) + d),
        1 => (0u64..3000).prop_map(|d| u64::MAX - d),
        1 => (0u64..3000, 1u64..4).prop_map(|(d, k)| (u32::MAX as u64) * 1000 * k + d),
    ];
    let s = prop_oneof![
        2 => 100u64..10_000_000_000,
        2 => (7u32..64, 0u64..30).prop_map(|(s, d)| (1u64 << s) + d),
        1 => (0u64..30).prop_map(|d| u64::MAX - d),
        2 => (0u64..60).prop_map(|d| u32::MAX as u64 - 30 + d),
        1 => (0u64..60).prop_map(|d| u64::MAX / 1000 - 30 + d),
        1 => (0u64..60).prop_map(|d| u64::MAX / 1_000_000_000 - 30 + d),
    ];
    prop_oneof![
        2 => ms.prop_map(Ttl::Ms),
        2 => s.prop_map(Ttl::Secs),
        3 => wrapping(),
    ]
    .boxed()
}

/// Durations which are short in a smaller type or a finer unit.
fn wrapping() -> BoxedStrategy<Ttl> {
    let scales = [1u128, 1_000, 1_000_000, 1_000_000_000];
    (any::<bool>(), 0usize..4, 0usize..6, 1u128..200, 1u128..250)
        .prop_filter_map("it fits", move |(secs, scale, bits, k, ms)| {
            // the scale of the units: per second, or per millisecond
            let scale = scales[scale];
            let m = [1u128 << 16, 1 << 31, 1 << 32, 1 << 53, 1 << 63, 1 << 64][bits];
            let small = if secs { ms * scale / 1000 } else { ms * scale };
            // The one which is the closest to a multiple.
            let n = (k..k + 1500)
                .map(|k| (m * k + small).div_ceil(scale))
                .filter(|n| *n < 1 << 64)
                .min_by_key(|n| n * scale % m)?;
            let far = if secs { n } else { n / 1000 };
            (n < 1 << 64 && far > 60).then_some(if secs {
                Ttl::Secs(n as u64)
            } else {
                Ttl::Ms(n as u64)
            })
        })
        .boxed()
}

fn line(long: bool) -> BoxedStrategy<Line> {
    let near = if long { 60u64..1800 } else { 40u64..350 };
    let ttl = prop_oneof![
        2 => Just(Ttl::No),
        8 => near.prop_map(Ttl::Ms),
        if long { 3 } else { 1 } => (1u64..3).prop_map(Ttl::Secs),
        1 => (1u64..5).prop_map(Ttl::Ms),
        4 => far(),
    ];
    let set = (ttl, any::<u8>(), any::<bool>(), any::<u8>(), any::<bool>())
        .prop_map(|(ttl, letters, int, conn, same)| Op::Set {
            ttl,
            letters,
            int,
            conn,
            same,
        });
    let get = any::<u8>().prop_map(|conn| Op::Get { conn });
    let gap = if long { 0u16..500 } else { 0u16..110 };
    let op = prop_oneof![
        4 => set,
        8 => get,
        1 => any::<u8>().prop_map(Op::Bad),
    ];
    proptest::collection::vec((gap, op), 4..14).prop_map(Line).boxed()
}

pub fn run(r: &mut Report) {
    r.rule(
        "timelines: sets (with and without times to live, from a millisecond to \
         more than can be represented), reads and malformed sets of many keys \
         at generated times; what is read is checked with the times the client \
         sent and received; non-trivial = a read surely before an end and one \
         surely after. long: the same over seconds. moved: the clock of the \
         server is moved (a preloaded clock_gettime), so that times to live of \
         up to a century are read right before and right after their end; \
         its wall clock is set to and fro meanwhile.",
    );
    r.assume(
        "within 30 ms of the end of a time to live both answers are accepted \
         (the server's clock advances by steps); zero durations are left out",
    );
    let mut b = Bench::new(Opts::new);
    let s = |long: bool, n: usize| {
        proptest::collection::vec(line(long), 1..n)
            .prop_map(|lines| Case { lines })
    };
    r.drive("timelines", s(false, 150), r.n(45, 900), |c| check(&mut b, c));
    let mut m = Bench::new(|| Opts { clock: true, ..Opts::new() });
    r.drive("moved", moves(), r.n(650, 20000), |c| moved(&mut m, c));
    r.drive("long", s(true, 250), r.n(4, 100), |c| check(&mut b, c));
}

