//! C24: memory follows the live data.
use proptest::prelude::*;
use rvcommon::{violation, Bad, Pass, Report, Res};
use serde::{Deserialize, Serialize};
use std::io::{Read, Write};
use std::net::{Shutdown, TcpStream};
use std::time::Duration;

use crate::client::{encode, Conn, Reply};
use crate::engine::Bench;
use crate::server::{memory, Opts, Server};

/// What is done again and again; nothing of it adds live data.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Op {
    /// Overwrite a few keys
    Set { size: u32 },
    /// Values which expire and are read afterwards
    Expire { size: u32 },
    Get { size: u32 },
    /// Keys nobody ever set
    Miss { size: u32 },
    Ping { size: u32 },
    Unknown { size: u32 },
    /// Connections which take a name
    Names { size: u32, leave: Leave },
    /// Connections which leave within a command
    Half { size: u32, leave: Leave },
    /// Commands which end the connection
    Rejected { size: u32 },
    Garbage { size: u32 },
    Rename { size: u32 },
    SetInfo { size: u32 },
    /// Connections which leave without reading
    Unread { size: u32 },
    /// Small commands
    Small { which: u8 },
    /// Connections, and nothing else
    Flap { leave: Leave },
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Leave {
    Close,
    HalfClose,
    Reset,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Case {
    ops: Vec<Op>,
    conns: u8,
}

fn strat() -> BoxedStrategy<Case> {
    let size = || {
        prop_oneof![
            1 => 500u32..4000,
            2 => 4000u32..70_000,
            1 => 70_000u32..600_000,
        ]
    };
    let big = || prop_oneof![2 => 8000u32..70_000, 1 => 70_000u32..600_000];
    let leave =
        || proptest::sample::select(vec![Leave::Close, Leave::HalfClose, Leave::Reset]);
    let op = prop_oneof![
        3 => size().prop_map(|size| Op::Set { size }),
        2 => big().prop_map(|size| Op::Expire { size }),
        1 => size().prop_map(|size| Op::Get { size }),
        2 => size().prop_map(|size| Op::Miss { size }),
        1 => size().prop_map(|size| Op::Ping { size }),
        1 => size().prop_map(|size| Op::Unknown { size }),
        2 => (big(), leave()).prop_map(|(size, leave)| Op::Names { size, leave }),
        2 => (big(), leave()).prop_map(|(size, leave)| Op::Half { size, leave }),
        1 => big().prop_map(|size| Op::Rejected { size }),
        1 => big().prop_map(|size| Op::Garbage { size }),
        1 => size().prop_map(|size| Op::Rename { size }),
        1 => size().prop_map(|size| Op::SetInfo { size }),
        1 => big().prop_map(|size| Op::Unread { size }),
        3 => any::<u8>().prop_map(|which| Op::Small { which }),
        1 => leave().prop_map(|leave| Op::Flap { leave }),
    ];
    (proptest::collection::vec(op, 1..3), 1u8..5)
        .prop_map(|(ops, conns)| Case { ops, conns })
        .boxed()
}

fn dial(sv: &Server) -> Result<TcpStream, Bad> {
    let s = TcpStream::connect(sv.addr())?;
    s.set_nodelay(true)?;
    s.set_read_timeout(Some(Duration::from_secs(100)))?;
    s.set_write_timeout(Some(Duration::from_secs(100)))?;
    Ok(s)
}

/// So many bytes of replies come.
fn take(s: &mut TcpStream, mut n: usize) -> Result<(), Bad> {
    let mut b = [0u8; 1 << 16];
    while n > 0 {
        let k = n.min(b.len());
        match s.read(&mut b[..k]) {
            Ok(0) => violation!("closed instead of a reply"),
            Ok(k) => n -= k,
            Err(e) => return Err(Bad::Harness(format!("no reply: {e}"))),
        }
    }
    Ok(())
}

fn leave(s: TcpStream, how: Leave) {
    match how {
        Leave::Close => {}
        Leave::HalfClose => {
            let _ = s.shutdown(Shutdown::Write);
            let _ = (&s).read_to_end(&mut vec![]);
        }
        Leave::Reset => {
            let l = libc::linger { l_onoff: 1, l_linger: 0 };
            unsafe {
                libc::setsockopt(
                    std::os::fd::AsRawFd::as_raw_fd(&s),
                    libc::SOL_SOCKET,
                    libc::SO_LINGER,
                    &l as *const _ as *const _,
                    std::mem::size_of::<libc::linger>() as u32,
                );
            }
        }
    }
}

/// One round; gives how many bytes of memory it went through, at least.
fn round(
    sv: &mut Server,
    conns: &mut Vec<TcpStream>,
    op: &Op,
    turn: u64,
) -> Result<u64, Bad> {
    let many = conns.len();
    const VOLUME: u64 = 6 << 20;
    // No two are the same.
    let mut nth = 0u64;
    let mut text = |n: u32| {
        nth += 1;
        let c = b'a' + (turn % 26) as u8;
        let mut t = vec![c; n as usize];
        t[..17].copy_from_slice(format!("{turn:08}x{nth:08}").as_bytes());
        t
    };
    let bulk = |n: usize| n + 5 + n.to_string().len();
    let mut done = 0u64;
    let mut call = |reqs: &[u8], replies: usize| -> Result<(), Bad> {
        let c = &mut conns[turn as usize % many];
        c.write_all(reqs)
            .map_err(|e| Bad::Harness(format!("can't write: {e}")))?;
        take(c, replies)
    };
    match op {
        Op::Set { size } => {
            for i in 0..VOLUME / *size as u64 {
                let t = text(*size);
                let k = format!("set{}", i % 5);
                call(&encode(&[b"SET", k.as_bytes(), &t]), 5)?;
                done += *size as u64;
            }
        }
        Op::Expire { size } => {
            // The keys are new ones each time, and half of it.
            let n = (VOLUME / *size as u64).min(400);
            let mut keys = vec![];
            for _ in 0..n {
                let (k, t) = (text(*size / 2), text(*size / 2));
                call(&encode(&[b"SET", &k, &t, b"PX", b"1"]), 5)?;
                done += *size as u64;
                keys.push(k);
            }
            std::thread::sleep(Duration::from_millis(40));
            for k in keys {
                call(&encode(&[b"GET", &k]), 5)?;
            }
        }
        Op::Get { size } => {
            call(&encode(&[b"SET", b"get", &text(*size)]), 5)?;
            for _ in 0..VOLUME / *size as u64 {
                call(&encode(&[b"GET", b"get"]), bulk(*size as usize))?;
                done += *size as u64;
            }
        }
        Op::Miss { size } => {
            for _ in 0..VOLUME / *size as u64 {
                call(&encode(&[b"GET", &text(*size)]), 5)?;
                done += *size as u64;
            }
        }
        Op::Ping { size } => {
            for _ in 0..VOLUME / *size as u64 {
                let t = text(*size);
                call(&encode(&[b"PING", &t]), bulk(*size as usize))?;
                done += *size as u64;
            }
        }
        Op::Unknown { size } => {
            for _ in 0..VOLUME / *size as u64 {
                let t = text(*size);
                // -ERR unknown command '...'
                call(&encode(&[&t, &t]), *size as usize + 25)?;
                done += 2 * *size as u64;
            }
        }
        Op::Rename { size } => {
            for _ in 0..VOLUME / *size as u64 {
                let t = text(*size);
                call(&encode(&[b"CLIENT", b"SETNAME", &t]), 5)?;
                done += *size as u64;
            }
            call(&encode(&[b"CLIENT", b"SETNAME", b""]), 5)?;
        }
        Op::SetInfo { size } => {
            for _ in 0..VOLUME / *size as u64 {
                let t = text(*size);
                call(&encode(&[b"CLIENT", b"SETINFO", b"LIB-NAME", &t]), 5)?;
                done += *size as u64;
            }
        }
        Op::Small { which } => {
            let (c, reply): (Vec<&[u8]>, usize) = match which % 6 {
                0 => (vec![b"PING"], 7),
                1 => (vec![b"SET", b"small", b"v"], 5),
                2 => (vec![b"GET", b"never"], 5),
                3 => (vec![b"SET", b"small", b"v", b"EX", b"1000"], 5),
                4 => (vec![b"CLIENT", b"GETNAME"], 5),
                _ => (vec![b"FOO"], 28),
            };
            let reqs = encode(&c).repeat(1000);
            for _ in 0..25 {
                call(&reqs, reply * 1000)?;
                done += 1000 * 300;
            }
        }
        Op::Names { .. }
        | Op::Half { .. }
        | Op::Rejected { .. }
        | Op::Garbage { .. }
        | Op::Unread { .. }
        | Op::Flap { .. } => {
            let size = match op {
                Op::Names { size, .. }
                | Op::Half { size, .. }
                | Op::Rejected { size }
                | Op::Garbage { size }
                | Op::Unread { size } => *size,
                _ => 4000,
            };
            for _ in 0..(VOLUME / size as u64).min(400) {
                let t = text(size);
                let mut s = dial(sv)?;
                done += size as u64;
                let how = match op {
                    Op::Names { leave, .. } => {
                        s.write_all(&encode(&[b"CLIENT", b"SETNAME", &t]))?;
                        take(&mut s, 5)?;
                        *leave
                    }
                    Op::Half { leave, .. } => {
                        let b = encode(&[b"SET", b"half", &t]);
                        s.write_all(&b[..b.len() - 1])?;
                        *leave
                    }
                    Op::Rejected { .. } => {
                        let b = encode(&[b"SET", b"rejected", &t, b"NOPE"]);
                        // it may be closed before everything is written
                        let _ = s.write_all(&b);
                        let _ = s.read_to_end(&mut vec![]);
                        Leave::Close
                    }
                    Op::Garbage { .. } => {
                        let b = encode(&[b"PING", &t]);
                        let _ = s.write_all(&b);
                        let _ = s.write_all(b"nonsense\r\n");
                        let _ = s.read_to_end(&mut vec![]);
                        Leave::Close
                    }
                    Op::Unread { .. } => {
                        s.write_all(&encode(&[b"PING", &t]))?;
                        Leave::Reset
                    }
                    Op::Flap { leave } => {
                        s.write_all(&encode(&[b"PING"]))?;
                        take(&mut s, 7)?;
                        *leave
                    }
                    _ => unreachable!(),
                };
                leave(s, how);
            }
        }
    }
    sv.check_alive()?;
    Ok(done)
}

fn check(b: &mut Bench, c: &Case) -> Res {
    b.run(|sv, _, _| {
        let mut conns = vec![];
        for _ in 0..c.conns {
            conns.push(dial(sv)?);
        }
        let mut turn = 0;
        let mut rounds = |sv: &mut Server, volume: u64| -> Result<u64, Bad> {
            let mut done = 0;
            while done < volume {
                for op in &c.ops {
                    turn += 1;
                    done += round(sv, &mut conns, op, turn)?;
                }
            }
            // what ended is released
            std::thread::sleep(Duration::from_millis(30));
            Ok(done)
        };
        const MB: u64 = 1 << 20;
        // Whatever is kept for later use is there after that.
        rounds(sv, 8 * MB)?;
        let first = memory(sv.pid());
        let mut done = rounds(sv, 20 * MB)?;
        let mut grown = memory(sv.pid()).saturating_sub(first);
        let suspect = grown > 6 * MB;
        let mut tries = 0;
        // Only growth which goes on as long as the work does is a leak.
        while grown > done / 3 {
            tries += 1;
            if tries > 6 {
                violation!(
                    "the memory grew by {} MB while {} MB came and went ({:?})",
                    grown / MB,
                    done / MB,
                    c.ops
                );
            }
            done += rounds(sv, 64 * MB)?;
            grown = memory(sv.pid()).saturating_sub(first);
        }
        let mut tags = vec![];
        if suspect {
            tags.push("grew at first");
        }
        Ok(Pass { nontrivial: true, tags })
    })
}

/// Small commands; nothing of them stays.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Small {
    Set,
    /// A new key which expires, and is read afterwards
    SetTtl,
    Overwrite,
    Get,
    Miss,
    Ping,
    PingMsg,
    Unknown,
    UnknownSub,
    Hello,
    Acl,
    Info,
    List,
    ListId,
    ListType,
    Id,
    GetName,
    SetName,
    NoName,
    BadName,
    SetInfo,
}

/// What a connection does last
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Last {
    Nothing,
    Half,
    Garbage,
    Rejected,
    Unread,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Unit {
    Cmds { cmds: Vec<Small>, len: u8 },
    Conn { cmds: Vec<Small>, len: u8, last: Last, leave: Leave, at_once: u8 },
    /// A new key, whose value was large and now is small, among other things
    Key { len: u8, large: Option<u32>, beside: u32 },
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct HeapCase {
    unit: Unit,
    conns: u8,
}

fn heap_strat() -> BoxedStrategy<HeapCase> {
    use Small::*;
    let small = || {
        proptest::sample::select(vec![
            Set, SetTtl, SetTtl, Overwrite, Get, Miss, Ping, PingMsg, Unknown,
            UnknownSub, Hello, Acl, Info, List, ListId, ListType, Id, GetName,
            SetName, NoName, BadName, SetInfo,
        ])
    };
    let last = proptest::sample::select(vec![
        Last::Nothing,
        Last::Half,
        Last::Garbage,
        Last::Rejected,
        Last::Unread,
    ]);
    let leave =
        proptest::sample::select(vec![Leave::Close, Leave::HalfClose, Leave::Reset]);
    let unit = prop_oneof![
        2 => (proptest::collection::vec(small(), 1..5), any::<u8>())
            .prop_map(|(cmds, len)| Unit::Cmds { cmds, len }),
        1 => (any::<u8>(), proptest::option::of(3000u32..100_000), 0u32..20_000)
            .prop_map(|(len, large, beside)| Unit::Key { len, large, beside }),
        2 => (
            proptest::collection::vec(small(), 0..4),
            any::<u8>(),
            last,
            leave,
            prop_oneof![2 => Just(1u8), 1 => 2u8..40]
        )
            .prop_map(|(cmds, len, last, leave, at_once)| Unit::Conn {
                cmds,
                len,
                last,
                leave,
                at_once
            }),
    ];
    (unit, 1u8..6).prop_map(|(unit, conns)| HeapCase { unit, conns }).boxed()
}

/// The bytes of a command, and the keys to be read when they have expired
fn small(cmd: Small, len: u8, nth: u64, out: &mut Vec<u8>, old: &mut Vec<String>) {
    let mut t = format!("{nth:x}-");
    while t.len() < len as usize {
        t.push('x');
    }
    let key = format!("heap{}", nth % 5);
    let args: Vec<&[u8]> = match cmd {
        Small::Set => vec![b"SET", key.as_bytes(), t.as_bytes()],
        Small::SetTtl => {
            out.extend(encode(&[b"SET", t.as_bytes(), t.as_bytes(), b"PX", b"1"]));
            old.push(t);
            return;
        }
        Small::Overwrite => {
            vec![b"SET", key.as_bytes(), t.as_bytes(), b"EX", b"1000"]
        }
        Small::Get => vec![b"GET", key.as_bytes()],
        Small::Miss => vec![b"GET", t.as_bytes()],
        Small::Ping => vec![b"PING"],
        Small::PingMsg => vec![b"PING", t.as_bytes()],
        Small::Unknown => vec![t.as_bytes(), b"argument"],
        Small::UnknownSub => vec![b"CLIENT", t.as_bytes()],
        Small::Hello => vec![b"HELLO"],
        Small::Acl => vec![b"ACL", b"CAT"],
        Small::Info => vec![b"CLIENT", b"INFO"],
        Small::List => vec![b"CLIENT", b"LIST"],
        Small::ListId => vec![b"CLIENT", b"LIST", b"ID", b"1", b"2", b"3"],
        Small::ListType => vec![b"CLIENT", b"LIST", b"TYPE", b"normal"],
        Small::Id => vec![b"CLIENT", b"ID"],
        Small::GetName => vec![b"CLIENT", b"GETNAME"],
        Small::SetName => vec![b"CLIENT", b"SETNAME", t.as_bytes()],
        Small::NoName => vec![b"CLIENT", b"SETNAME", b""],
        Small::BadName => vec![b"CLIENT", b"SETNAME", b"a b"],
        Small::SetInfo => vec![b"CLIENT", b"SETINFO", b"LIB-NAME", t.as_bytes()],
    };
    out.extend(encode(&args));
}

fn replies(sv: &mut Server, c: &mut Conn, n: usize) -> Result<(), Bad> {
    for _ in 0..n {
        match c.reply(sv)? {
            Reply::Val(_) => {}
            Reply::Closed(e) => violation!("closed ({e:?}) instead of a reply"),
        }
    }
    Ok(())
}

fn units(
    sv: &mut Server,
    conns: &mut [Conn],
    unit: &Unit,
    n: u64,
    nth: &mut u64,
) -> Result<(), Bad> {
    let mut left = n;
    let addr = sv.addr();
    while left > 0 {
        let mut old = vec![];
        match unit {
            Unit::Cmds { cmds, len } => {
                let k = left.min(250);
                left -= k;
                let mut b = vec![];
                for _ in 0..k {
                    *nth += 1;
                    for c in cmds {
                        small(*c, *len, *nth, &mut b, &mut old);
                    }
                }
                let c = *nth as usize / 250 % conns.len();
                conns[c].send(sv, &b, false)?;
                replies(sv, &mut conns[c], k as usize * cmds.len())?;
            }
            Unit::Key { len, large, beside } => {
                let k = left.min(30);
                left -= k;
                let (mut b, mut n) = (vec![], 0);
                for _ in 0..k {
                    *nth += 1;
                    let key = format!("key{nth}");
                    let mut set = |len: u32| {
                        let t = vec![b'z'; len as usize];
                        b.extend(encode(&[b"SET", key.as_bytes(), &t]));
                        n += 1;
                    };
                    if let Some(large) = large {
                        set(*large);
                    }
                    set(*len as u32);
                    if *beside > 0 {
                        b.extend(encode(&[b"PING", &vec![b'p'; *beside as usize]]));
                        n += 1;
                    }
                }
                let c = *nth as usize / 30 % conns.len();
                let mut sent = 0;
                // not more than what fits between us
                for piece in b.chunks(60_000) {
                    conns[c].send(sv, piece, false)?;
                    sent += piece.len();
                }
                assert!(sent == b.len());
                replies(sv, &mut conns[c], n)?;
            }
            Unit::Conn { cmds, len, last, leave: how, at_once } => {
                for _ in 0..(200 / *at_once as usize).max(1) {
                    let k = left.min(*at_once as u64);
                    left -= k;
                    let mut open = vec![];
                    for _ in 0..k {
                        *nth += 1;
                        let mut b = vec![];
                        for c in cmds {
                            small(*c, *len, *nth, &mut b, &mut old);
                        }
                        let mut c = Conn::open(addr)?;
                        if !b.is_empty() {
                            c.send(sv, &b, false)?;
                        }
                        open.push(c);
                    }
                    for mut c in open {
                        replies(sv, &mut c, cmds.len())?;
                        let t = vec![b'y'; *len as usize];
                        let mut more: Vec<u8> = match last {
                            Last::Nothing => vec![],
                            Last::Half => encode(&[b"SET", b"half", &t]),
                            Last::Garbage => b"nonsense\r\n".to_vec(),
                            Last::Rejected => encode(&[b"SET", b"r", &t, b"NOPE"]),
                            Last::Unread => encode(&[b"PING", &t]),
                        };
                        if *last == Last::Half {
                            more.truncate(more.len() - 1);
                        }
                        let _ = (&c.s).write_all(&more);
                        leave(c.s, *how);
                    }
                }
            }
        }
        if !old.is_empty() {
            std::thread::sleep(Duration::from_millis(40));
            let mut b = vec![];
            for k in &old {
                b.extend(encode(&[b"GET", k.as_bytes()]));
            }
            let c = *nth as usize % conns.len();
            conns[c].send(sv, &b, false)?;
            replies(sv, &mut conns[c], old.len())?;
        }
    }
    sv.check_alive()
}

/// The least it has allocated while nothing happens
fn at_rest(sv: &mut Server, enough: i64) -> i64 {
    let mut least = i64::MAX;
    for _ in 0..60 {
        std::thread::sleep(Duration::from_millis(5));
        least = least.min(sv.heap.as_ref().unwrap().bytes());
        if least <= enough {
            break;
        }
    }
    least
}

fn heap_check(b: &mut Bench, c: &HeapCase) -> Res {
    b.run(|sv, _, _| {
        if sv.heap.is_none() {
            return Ok(Pass { nontrivial: false, tags: vec!["allocations not counted"] });
        }
        let addr = sv.addr();
        let mut conns = vec![];
        for _ in 0..c.conns {
            conns.push(Conn::open(addr)?);
        }
        let (first, most) = match &c.unit {
            Unit::Cmds { cmds, .. } if cmds.contains(&Small::SetTtl) => (2000, 64_000),
            Unit::Cmds { .. } => (4000, 100_000),
            Unit::Key { .. } => (150, 4000),
            Unit::Conn { .. } => (500, 20_000),
        };
        // Bytes per unit which can't be told from nothing
        let nothing = match &c.unit {
            Unit::Key { len, .. } => 1000 + 2 * *len as i64,
            _ => 2,
        };
        let mut nth = 0;
        units(sv, &mut conns, &c.unit, first, &mut nth)?;
        let before = at_rest(sv, i64::MIN);
        if before < 100_000 {
            return Ok(Pass { nontrivial: false, tags: vec!["allocations not counted"] });
        }
        let mut done = 0;
        let mut step = first;
        let mut tags = vec![];
        loop {
            units(sv, &mut conns, &c.unit, step, &mut nth)?;
            done += step;
            step = done;
            let grown = at_rest(sv, before + nothing * done as i64) - before;
            if std::env::var("RV_TALK").is_ok() {
                eprintln!("{grown} after {done} {:?}", c.unit);
            }
            if grown <= nothing * done as i64 {
                break;
            }
            tags = vec!["grew at first"];
            if done >= most {
                violation!(
                    "{grown} bytes stay allocated after {done} times {:?}, which \
                     leaves nothing (or one small value) behind",
                    c.unit
                );
            }
        }
        tags.push(match c.unit {
            Unit::Cmds { .. } => "commands counted",
            Unit::Key { .. } => "keys counted",
            Unit::Conn { .. } => "connections counted",
        });
        Ok(Pass { nontrivial: true, tags })
    })
}

pub fn run(r: &mut Report) {
    r.rule(
        "memory: generated mixes of work which leaves nothing behind \
         (overwriting, expiring, reading, errors, renaming, connections ended \
         in every way with long names or half commands) repeated over tens of \
         MB; when the resident memory grows along, the work goes on for \
         hundreds of MB more, and growth by more than a third of it is a leak; \
         non-trivial = all.",
    );
    let mut b = Bench::new(Opts::new);
    r.drive("memory", strat(), r.n(45, 900), |c| check(&mut b, c));
    b.server = None;

    r.rule(
        "heap: the same small work (commands with distinct arguments, or whole \
         connections, or new keys with a small value which replaced a large one) \
         is repeated thousands of times on a server whose \
         allocations are counted byte by byte; growth by more than 2 bytes per \
         repetition which goes on over up to 100000 repetitions (a key: 1000 bytes plus its value) is a leak; \
         non-trivial = allocations were counted.",
    );
    let mut b = Bench::new(|| Opts { heap: true, ..Opts::new() });
    r.drive("heap", heap_strat(), r.n(60, 1200), |c| heap_check(&mut b, c));
}
