//! C08: nobody disturbs the others.
use proptest::prelude::*;
use rvcommon::blob::{nasty_text, small_bytes};
use rvcommon::resp::Arg;
use rvcommon::{Bad, Blob, Pass, Report, Res};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::{Duration, Instant};

use crate::client::Conn;
use crate::engine::*;
use crate::server::{Opts, Server};

/// What a bad client sends.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Junk {
    Bytes(Blob),
    /// `n` opening markers of nested frames
    Nest { open: Blob, n: u32, inner: Blob },
    /// A header of that length
    Len { kind: u8, len: Blob },
    /// A valid stream with some bytes changed, removed or doubled
    Mutated { cmds: Vec<Cmd>, edits: Vec<(u16, u8, u8)> },
    /// Valid or malformed commands
    Cmds(Vec<Cmd>),
    /// The beginning of a command
    Half { cmd: Cmd, keep: u16 },
    /// Many frames at once
    Flood { cmd: Cmd, n: u16 },
    /// An array of that many integers
    Wide { n: u32, map: bool },
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum After {
    Stay,
    Close,
    HalfClose,
    Reset,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Attack {
    /// which of the bad clients, a new one if it's gone
    who: u8,
    junk: Junk,
    seg: Seg,
    us: u64,
    /// read what comes
    read: bool,
    after: After,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Do {
    Attack(Attack),
    /// Commands of a well-behaved client
    Good { conn: u8, cmds: Vec<Cmd> },
    /// Connect and leave at once
    Flap { n: u8, reset: bool },
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Case {
    pub victims: u8,
    pub steps: Vec<Do>,
}

impl Junk {
    pub fn bytes(&self, prefix: &str) -> Vec<u8> {
        // A bad client also writes: only on keys of its own.
        let own = |cmds: &[Cmd]| -> Vec<Cmd> {
            let s = own_keys(
                &[Step::Batch {
                    conn: 0,
                    cmds: cmds.to_vec(),
                    send: Send::plain(),
                }],
                &format!("{prefix}bad:"),
            );
            match &s[0] {
                Step::Batch { cmds, .. } => cmds.clone(),
                _ => unreachable!(),
            }
        };
        let mut out = vec![];
        match self {
            Junk::Bytes(b) => out = b.bytes(),
            Junk::Nest { open, n, inner } => {
                let o = open.bytes();
                for _ in 0..*n {
                    out.extend_from_slice(&o);
                }
                out.extend(inner.bytes());
            }
            Junk::Len { kind, len } => {
                out.push(b"$*%:+-"[*kind as usize % 6]);
                out.extend(len.bytes());
                out.extend(b"\r\n");
            }
            Junk::Mutated { cmds, edits } => {
                for c in own(cmds) {
                    encode_cmd(&c, &mut out);
                }
                for (at, how, with) in edits {
                    if out.is_empty() {
                        break;
                    }
                    let at = *at as usize * out.len() / 65536;
                    match how % 6 {
                        0 => out[at] = *with,
                        1 => {
                            out.remove(at);
                        }
                        2 => out.insert(at, *with),
                        3 => {
                            let b = out[at..(at + 8).min(out.len())].to_vec();
                            out.splice(at..at, b);
                        }
                        4 => out.truncate(at),
                        _ => out[at] = b"$*%:+-0193\r\n"[*with as usize % 12],
                    }
                }
                // A mutation must not reach the keys of the others.
                let p = format!("{prefix}key");
                while let Some(i) =
                    out.windows(p.len()).position(|w| w == p.as_bytes())
                {
                    out[i + p.len() - 1] = b'#';
                }
            }
            Junk::Cmds(cmds) => {
                for c in own(cmds) {
                    encode_cmd(&c, &mut out);
                }
            }
            Junk::Half { cmd, keep } => {
                for c in own(std::slice::from_ref(cmd)) {
                    encode_cmd(&c, &mut out);
                }
                out.truncate(*keep as usize * out.len() / 65536);
            }
            Junk::Flood { cmd, n } => {
                let mut one = vec![];
                for c in own(std::slice::from_ref(cmd)) {
                    encode_cmd(&c, &mut one);
                }
                for _ in 0..*n {
                    out.extend_from_slice(&one);
                }
            }
            Junk::Wide { n, map } => {
                let n = *n / if *map { 2 } else { 1 };
                out.extend(
                    format!("{}{n}\r\n", if *map { '%' } else { '*' }).bytes(),
                );
                for i in 0..n {
                    out.extend(format!(":{i}\r\n").bytes());
                    if *map {
                        out.extend(b"$-1\r\n");
                    }
                }
            }
        }
        out
    }
}

fn any_arg() -> BoxedStrategy<Arg> {
    let leaf = prop_oneof![
        4 => small_bytes().prop_map(Arg::Bulk),
        2 => nasty_text().prop_map(|s| Arg::bulk(s)),
        1 => any::<u64>().prop_map(Arg::Int),
        1 => Just(Arg::Null),
        1 => "[a-z]{0,5}".prop_map(|s: String| Arg::Simple(Blob::s(&s))),
        1 => "[a-z]{0,5}".prop_map(|s: String| Arg::Err(Blob::s(&s))),
        1 => small_bytes().prop_map(Arg::Simple),
    ];
    leaf.prop_recursive(4, 16, 4, |inner| {
        prop_oneof![
            proptest::collection::vec(inner.clone(), 0..4).prop_map(Arg::Arr),
            proptest::collection::vec((inner.clone(), inner), 0..3)
                .prop_map(Arg::Map),
        ]
    })
    .boxed()
}

pub fn wild_cmd() -> BoxedStrategy<Cmd> {
    let names = vec![
        "SET", "GET", "PING", "HELLO", "CLIENT", "ACL", "NOPE", "client", "",
    ];
    let subs = vec![
        "ID", "INFO", "LIST", "SETNAME", "GETNAME", "SETINFO", "HELP", "CAT",
        "TYPE", "ID", "EX", "PX", "LIB-NAME", "LIB-VER", "normal", "zz",
    ];
    let first = prop_oneof![
        12 => proptest::sample::select(names).prop_map(Arg::bulk),
        1 => any_arg(),
    ];
    let next = prop_oneof![
        3 => proptest::sample::select(subs).prop_map(Arg::bulk),
        2 => any_arg(),
        1 => "[a-d]".prop_map(|s: String| Arg::bulk(s)),
        1 => proptest::sample::select(vec![
            "18446744073709551615", "4294967296", "4294967295", "9223372036854775807",
            "18446744073709551", "-1", "0", "1"]).prop_map(Arg::bulk),
        1 => Just(Arg::Int(u64::MAX)),
    ];
    (first, proptest::collection::vec(next, 0..6))
        .prop_map(|(f, mut r)| {
            r.insert(0, f);
            r
        })
        .boxed()
}

pub fn junk() -> BoxedStrategy<Junk> {
    let lens = vec![
        "18446744073709551615", "18446744073709551614", "18446744073709551616",
        "9223372036854775807", "9223372036854775808", "4294967296",
        "2147483648", "99999999999999999999999999999", "-1", "-2", "-10", "",
        "a", " 1", "1 ", "+1", "0x1", "1000000000", "0", "00", "1\r", "\n",
        "576460752303423488", "1152921504606846976", "100000000000",
    ];
    let opens = vec![
        "*1\r\n", "%1\r\n", "%1\r\n+a\r\n", "*2\r\n:1\r\n", "*1\n",
        "*1\r\n%1\r\n:1\r\n",
    ];
    let inner = vec!["", ":1\r\n", "*0\r\n", "$-1\r\n", "x", "$3\r\nabc\r\n"];
    prop_oneof![
        3 => small_bytes().prop_map(Junk::Bytes),
        1 => (0usize..40_000, any::<u16>(), 0u8..4).prop_map(|(len, s, kind)|
            Junk::Bytes(Blob::Gen { len, seed: s as u32, kind })),
        1 => proptest::sample::select(vec![
            "GET / HTTP/1.1\r\nHost: x\r\n\r\n", "PING\r\n", "\r\n", "*\r\n", "$\r\n",
            "*1\r\n$4\r\nPING", "*3\r\n$3\r\nSET\r\n$1\r\na\r\n$5\r\nab\r\n",
            "*-1\r\n", "$-1\r\n", "%0\r\n", ":5\r\n", "+PING\r\n", "-x\r\n", "*0\r\n",
            "!3\r\nabc\r\n", "#t\r\n", "_\r\n", ",1.5\r\n", "(12345\r\n", "=3\r\ntxt\r\n",
            "~1\r\n:1\r\n", ">1\r\n:1\r\n", "\x16\x03\x01\x02\x00"])
            .prop_map(|s| Junk::Bytes(Blob::s(s))),
        3 => (proptest::sample::select(opens), prop_oneof![
                2 => 1u32..300, 1 => 300u32..3000, 1 => 3000u32..50_000],
              proptest::sample::select(inner))
            .prop_map(|(o, n, i)| Junk::Nest { open: Blob::s(o), n, inner: Blob::s(i) }),
        2 => (0u8..6, proptest::sample::select(lens))
            .prop_map(|(kind, l)| Junk::Len { kind, len: Blob::s(l) }),
        5 => (proptest::collection::vec(prop_oneof![super::c04::any_cmd(300), wild_cmd()], 1..6),
              proptest::collection::vec((any::<u16>(), any::<u8>(), any::<u8>()), 1..5))
            .prop_map(|(cmds, edits)| Junk::Mutated { cmds, edits }),
        6 => proptest::collection::vec(wild_cmd(), 1..6).prop_map(Junk::Cmds),
        2 => (prop_oneof![super::c04::any_cmd(20_000), wild_cmd()], any::<u16>())
            .prop_map(|(cmd, keep)| Junk::Half { cmd, keep }),
        2 => (super::c04::any_cmd(2000), 1u16..600).prop_map(|(cmd, n)| Junk::Flood { cmd, n }),
        1 => (0u32..20_000, any::<bool>()).prop_map(|(n, map)| Junk::Wide { n, map }),
    ]
    .boxed()
}

pub fn attack_strat() -> BoxedStrategy<Attack> {
    (
        0u8..6,
        junk(),
        seg(),
        proptest::sample::select(vec![0u64, 0, 0, 100]),
        proptest::bool::weighted(0.7),
        proptest::sample::select(vec![
            After::Stay,
            After::Stay,
            After::Stay,
            After::Close,
            After::HalfClose,
            After::Reset,
        ]),
    )
        .prop_map(|(who, junk, seg, us, read, after)| {
            Attack { who, junk, seg, us, read, after }
        })
        .boxed()
}

pub fn strat() -> BoxedStrategy<Case> {
    let attack = attack_strat().prop_map(Do::Attack);
    let good =
        (0u8..12, proptest::collection::vec(super::c04::any_cmd(3000), 1..6))
            .prop_map(|(conn, cmds)| Do::Good { conn, cmds });
    let step = prop_oneof![
        6 => attack,
        4 => good,
        1 => (1u8..40, any::<bool>()).prop_map(|(n, reset)| Do::Flap { n, reset }),
    ];
    (1u8..13, proptest::collection::vec(step, 2..14))
        .prop_map(|(victims, steps)| Case { victims, steps })
        .boxed()
}

/// Send what can be sent; whatever the server does of that connection, even
/// not reading any more, is its business.
pub fn attack(
    sv: &mut Server,
    bad: &mut BTreeMap<u8, Conn>,
    a: &Attack,
    prefix: &str,
) -> Result<(), Bad> {
    use std::io::Write;
    let bytes = a.junk.bytes(prefix);
    if bad.get(&a.who).map(|c| c.broken || c.end.is_some()).unwrap_or(true) {
        bad.insert(a.who, Conn::open(sv.addr())?);
    }
    let c = bad.get_mut(&a.who).unwrap();
    let mut at = 0;
    let mut cut = cuts(&a.seg, &bytes, &[0]);
    cut.push(bytes.len());
    let mut stalls = 0;
    for e in cut {
        while at < e && !c.broken && stalls < 200 {
            match c.s.write(&bytes[at..e]) {
                Ok(n) => at += n,
                Err(x) if x.kind() == std::io::ErrorKind::WouldBlock => {
                    stalls += 1;
                    if a.read {
                        c.drain(usize::MAX);
                    }
                    std::thread::sleep(Duration::from_micros(200));
                }
                Err(_) => c.broken = true,
            }
        }
        if a.us > 0 {
            std::thread::sleep(Duration::from_micros(a.us));
        }
    }
    if a.read {
        c.poll(false, 1);
        c.drain(usize::MAX);
    }
    c.inbuf.clear();
    c.pos = 0;
    match a.after {
        After::Stay => {}
        After::Close => {
            bad.remove(&a.who);
        }
        After::HalfClose => c.half_close(),
        After::Reset => {
            if let Some(c) = bad.remove(&a.who) {
                c.reset()
            }
        }
    }
    Ok(())
}

fn check(b: &mut Bench, c: &Case) -> Res {
    b.run(|sv, n, facts| assault(sv, n, facts, c, |_, _| Ok(())))
}

/// `before` is called with the number of each step.
pub fn assault(
    sv: &mut Server,
    n: u64,
    facts: &mut Option<rvcommon::resp::Val>,
    c: &Case,
    mut before: impl FnMut(&mut Server, usize) -> Result<(), Bad>,
) -> Res {
    let prefix = format!("c{n}:");
    let mut w = World::new(sv, facts);
    let mut bad: BTreeMap<u8, Conn> = BTreeMap::new();
    // The well-behaved ones are there from the start, spread over the
    // threads of the server.
    for v in 0..c.victims {
        w.open(v)?;
    }
    w.barrier()?;
    let mut attacks = 0;
    for (i, s) in c.steps.iter().enumerate() {
        before(w.sv, i)?;
        let r = match s {
            Do::Attack(a) => {
                attacks += 1;
                attack(w.sv, &mut bad, a, &prefix)
            }
            Do::Good { conn, cmds } => {
                let conn = conn % c.victims;
                let mut s = own_keys(
                    &[Step::Batch {
                        conn,
                        cmds: cmds.clone(),
                        send: Send::plain(),
                    }],
                    &format!("{prefix}key:"),
                );
                w.step(&s.pop().unwrap())
            }
            Do::Flap { n, reset } => {
                for _ in 0..*n {
                    let c = Conn::open(w.sv.addr())?;
                    if *reset {
                        c.reset();
                    }
                }
                Ok(())
            }
        };
        r.and_then(|_| w.sv.check_alive()).map_err(|e| match e {
            Bad::Violation(m) => {
                Bad::Violation(format!("step {}: {m}", i + 1))
            }
            e => e,
        })?;
    }
    // Everyone is still served as before, newcomers as well.
    w.barrier()?;
    w.audit()?;
    for new in 0..4 {
        w.open(200 + new)?;
    }
    w.barrier()?;
    let mut gone = 0;
    for c in bad.values_mut() {
        c.drain(usize::MAX);
        gone += c.end.is_some() as u32;
    }
    drop(bad);
    w.barrier()?;
    let mut tags = vec![];
    if gone > 0 {
        tags.push("attackers cut off");
    }
    Ok(Pass { nontrivial: attacks > 0, tags })
}

/// One bad client which doesn't read, another which never ends its command,
/// on every thread of the server, next to traffic.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Siege {
    stalled: Vec<Junk>,
    flood: Flood,
    /// Length of the names and values of the flooding clients
    size: u32,
    good: Vec<Cmd>,
    /// The first commands of the well-behaved ones come that late.
    ms: u16,
}

/// What is sent again and again by clients which don't read.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Flood {
    Any(Cmd, u16),
    /// Enough of these to fill all the buffers with replies
    Ask(Vec<u8>),
}

impl Flood {
    fn bytes(&self, size: usize, key: &str, bytes: usize) -> Vec<u8> {
        let mut all = vec![];
        let text = "n".repeat(size);
        for c in [
            vec![Arg::bulk("CLIENT"), Arg::bulk("SETNAME"), Arg::bulk(&text)],
            vec![Arg::bulk("SET"), Arg::bulk(key), Arg::bulk(&text)],
        ] {
            encode_cmd(&c, &mut all);
        }
        match self {
            Flood::Any(cmd, n) => {
                let mut one = vec![];
                encode_cmd(cmd, &mut one);
                all.extend(one.repeat(*n as usize));
            }
            Flood::Ask(kinds) => {
                let (mut one, mut replies) = (vec![], 0);
                for k in kinds {
                    let (c, len): (Vec<&str>, usize) = match k % 7 {
                        0 => (vec!["CLIENT", "GETNAME"], size),
                        1 => (vec!["CLIENT", "INFO"], size + 60),
                        2 => (vec!["CLIENT", "LIST"], 20 * (size + 60)),
                        3 => (vec!["GET", key], size),
                        4 => (vec!["PING", &text[..size.min(2000)]], size.min(2000)),
                        5 => (vec!["HELLO"], 150),
                        _ => (vec!["CLIENT", "HELP"], 600),
                    };
                    replies += len + 4;
                    let c = c.into_iter().map(Arg::bulk).collect();
                    encode_cmd(&c, &mut one);
                }
                let n = bytes / replies + 1;
                all.extend(one.repeat(n.min((1 << 20) / one.len() + 1)));
            }
        }
        all
    }
}

fn siege(b: &mut Bench, c: &Siege) -> Res {
    use std::io::Write;
    b.run(|sv, n, facts| {
        let prefix = format!("c{n}:");
        let mut bad = vec![];
        for (i, j) in c.stalled.iter().cycle().take(40).enumerate() {
            let mut x = Conn::open(sv.addr())?;
            let bytes = j.bytes(&format!("{prefix}{i}"));
            let _ = x.s.write(&bytes);
            bad.push(x);
        }
        for i in 0..20 {
            let mut x = Conn::open_with(sv.addr(), None, Some(4096))?;
            let key = format!("{prefix}bad{i}");
            let all = c.flood.bytes(c.size as usize, &key, 6 << 20);
            // Only as much as is taken at once, or a bit later.
            let mut at = x.s.write(&all).unwrap_or(0);
            for _ in 0..3 {
                std::thread::sleep(Duration::from_micros(500));
                at += x.s.write(&all[at..]).unwrap_or(0);
            }
            bad.push(x);
        }
        std::thread::sleep(Duration::from_millis(c.ms as u64));
        let mut w = World::new(sv, facts);
        for v in 0..24 {
            w.open(v)?;
        }
        for v in 0..24 {
            let mut s = own_keys(
                &[Step::Batch {
                    conn: v,
                    cmds: c.good.clone(),
                    send: Send::plain(),
                }],
                &format!("{prefix}key:"),
            );
            w.step(&s.pop().unwrap())?;
        }
        // everything there is, beside them
        let b = |s: &str| Arg::bulk(s);
        let mut round: Vec<Cmd> = [
            "PING", "HELLO", "CLIENT ID", "CLIENT INFO", "CLIENT GETNAME",
            "CLIENT SETNAME good", "CLIENT GETNAME", "CLIENT HELP", "CLIENT LIST",
        ]
        .iter()
        .map(|t| t.split(' ').map(b).collect())
        .collect();
        let key = Arg::bulk(format!("{prefix}good"));
        round.push(vec![b("SET"), key.clone(), b("v")]);
        round.push(vec![b("GET"), key]);
        for v in [0, 8, 16] {
            w.step(&Step::Batch { conn: v, cmds: round.clone(), send: Send::plain() })?;
        }
        for x in bad.drain(..).enumerate() {
            if x.0 % 2 == 0 {
                x.1.reset();
            }
        }
        w.barrier()?;
        w.audit()?;
        w.barrier()?;
        Ok(Pass { nontrivial: true, tags: vec!["stalled and flooding clients"] })
    })
}

/// Clients which ask as fast as they are answered, next to others.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Torrent {
    floods: Vec<Flood>,
    /// So many connections
    conns: u8,
    size: u32,
    good: Vec<Cmd>,
    rounds: u8,
}

/// Send the commands over and over, with not more than two rounds of them
/// unanswered; counts the rounds which are, and the ends of the connection.
pub fn pour(
    to: std::net::SocketAddr,
    all: &[u8],
    mark: &str,
    stop: &AtomicBool,
    done: &AtomicU64,
) {
    use std::io::{ErrorKind, Read, Write};
    let mut round = all.to_vec();
    encode_cmd(&vec![Arg::bulk("PING"), Arg::bulk(mark)], &mut round);
    let mut buf = vec![0u8; 1 << 16];
    while !stop.load(Ordering::SeqCst) {
        let Ok(mut c) = Conn::open_with(to, None, None) else { continue };
        // what is left of the rounds which are sent, and the end of the last read
        let (mut todo, mut at, mut had) = (2u64, 0, Vec::new());
        while !stop.load(Ordering::SeqCst) {
            let mut idle = true;
            if todo > 0 {
                match c.s.write(&round[at..]) {
                    Ok(n) => {
                        idle = false;
                        at += n;
                        if at == round.len() {
                            at = 0;
                            todo -= 1;
                        }
                    }
                    Err(e) if e.kind() == ErrorKind::WouldBlock => {}
                    Err(_) => break,
                }
            }
            match c.s.read(&mut buf) {
                Ok(0) => break,
                Ok(n) => {
                    idle = false;
                    had.extend(&buf[..n]);
                    let m = mark.as_bytes();
                    let mut from = 0;
                    while let Some(i) = memmem(&had[from..], m) {
                        from += i + m.len();
                        todo += 1;
                        done.fetch_add(1, Ordering::SeqCst);
                    }
                    had.drain(..from.max(had.len().saturating_sub(m.len() - 1)));
                }
                Err(e) if e.kind() == ErrorKind::WouldBlock => {}
                Err(_) => break,
            }
            if idle {
                c.poll(todo > 0, 20);
            }
        }
        done.fetch_add(1, Ordering::SeqCst);
        c.reset();
    }
}

fn memmem(hay: &[u8], needle: &[u8]) -> Option<usize> {
    let p = unsafe {
        libc::memmem(
            hay.as_ptr().cast(),
            hay.len(),
            needle.as_ptr().cast(),
            needle.len(),
        )
    };
    (!p.is_null()).then(|| p as usize - hay.as_ptr() as usize)
}

fn torrent(b: &mut Bench, c: &Torrent) -> Res {
    b.run(|sv, n, facts| {
        let to = sv.addr();
        let (stop, done) = (AtomicBool::new(false), AtomicU64::new(0));
        let prefix = format!("c{n}:");
        let floods: Vec<Vec<u8>> = c
            .floods
            .iter()
            .map(|f| f.bytes(c.size as usize, &format!("{prefix}flood"), 1 << 20))
            .collect();
        let mark = format!("<mark of case {n}>");
        std::thread::scope(|s| {
            let flooding: Vec<_> = (0..c.conns.max(1) as usize)
                .map(|i| {
                    let all = &floods[i % floods.len()];
                    let (mark, stop, done) = (&mark, &stop, &done);
                    s.spawn(move || pour(to, all, mark, stop, done))
                })
                .collect();
            let t = Instant::now();
            while done.load(Ordering::SeqCst) == 0
                && t.elapsed() < Duration::from_millis(300)
            {
                std::thread::sleep(Duration::from_micros(500));
            }
            let rounds = done.load(Ordering::SeqCst);
            let r = beside(sv, c, facts, &prefix);
            stop.store(true, Ordering::SeqCst);
            for f in flooding {
                f.join().map_err(|_| Bad::Harness("a thread".into()))?;
            }
            r?;
            let tags = vec!["answered floods"];
            Ok(Pass { nontrivial: rounds > 0, tags })
        })
    })
}

fn beside(
    sv: &mut crate::server::Server,
    c: &Torrent,
    facts: &mut Option<rvcommon::resp::Val>,
    prefix: &str,
) -> Result<(), Bad> {
    let mut w = World::new(sv, facts);
    for round in 0..c.rounds.clamp(1, 8) {
        // Some stay, some are new.
        for v in (0..16).chain([100 + round]) {
            let mut s = own_keys(
                &[Step::Batch {
                    conn: v,
                    cmds: c.good.clone(),
                    send: Send::plain(),
                }],
                &format!("{prefix}key:"),
            );
            w.step(&s.pop().unwrap())?;
        }
    }
    w.audit()?;
    w.barrier()
}

pub fn run(r: &mut Report) {
    r.rule(
        "attacks: up to 6 bad clients (arbitrary and mutated bytes, nesting, \
         absurd lengths, any commands with any arguments, truncated commands, \
         floods, stalls, resets, connect storms) next to up to 12 well-behaved \
         ones whose every reply is compared to the model; the process must \
         live, and the old and some new connections work in the end; \
         non-trivial = an attack or more. siege: 40 stalled and 20 flooding \
         non-reading clients which ask for more than the buffers hold, \
         24 well-behaved ones. torrent: up to 32 clients which ask as fast as \
         they are answered, 17 well-behaved ones at a time beside them.",
    );
    r.assume("the resources of the machine are not exhausted: attacks are bounded to some MB");
    let mut b = Bench::new(Opts::new);
    r.drive("attacks", strat(), r.n(1200, 20000), |c| check(&mut b, c));
    let s = (
        proptest::collection::vec(junk(), 1..4),
        prop_oneof![
            2 => (super::c04::any_cmd(2000), 1u16..2000)
                .prop_map(|(c, n)| Flood::Any(c, n)),
            6 => (0u8..7).prop_map(|k| Flood::Ask(vec![k])),
            1 => proptest::collection::vec(0u8..7, 2..5).prop_map(Flood::Ask),
        ],
        prop_oneof![1 => 1u32..100, 2 => 5_000u32..60_000],
        proptest::collection::vec(super::c04::any_cmd(2000), 1..5),
        0u16..120,
    )
        .prop_map(|(stalled, flood, size, good, ms)| Siege {
            stalled,
            flood,
            size,
            good,
            ms,
        });
    r.drive("siege", s, r.n(90, 1000), |c| siege(&mut b, c));
    let flood = prop_oneof![
        2 => (super::c04::any_cmd(2000), 1u16..500)
            .prop_map(|(c, n)| Flood::Any(c, n)),
        4 => (0u8..7).prop_map(|k| Flood::Ask(vec![k])),
        1 => proptest::collection::vec(0u8..7, 2..5).prop_map(Flood::Ask),
    ];
    let s = (
        proptest::collection::vec(flood, 1..4),
        prop_oneof![1u8..4, 4u8..33],
        prop_oneof![3 => 1u32..100, 1 => 5_000u32..60_000],
        proptest::collection::vec(super::c04::any_cmd(2000), 1..5),
        1u8..5,
    )
        .prop_map(|(floods, conns, size, good, rounds)| Torrent {
            floods,
            conns,
            size,
            good,
            rounds,
        });
    r.drive("torrent", s, r.n(70, 1200), |c| torrent(&mut b, c));
}
