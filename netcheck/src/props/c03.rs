//! C03: linearizability, over the network.
use proptest::prelude::*;
use rvcommon::history::{linearizable, Op};
use rvcommon::resp::{decode, Dec, Val};
use rvcommon::{violation, Bad, Pass, Report, Res};
use serde::{Deserialize, Serialize};
use std::io::{Read, Write};
use std::net::{SocketAddr, TcpStream};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use crate::client::encode;
use crate::engine::Bench;
use crate::server::{Opts, Server};

/// A value which can't be mistaken for a part or a mix of others.
fn value(id: u64, len: usize) -> Vec<u8> {
    let w = format!("<{id}>");
    let n = (len / w.len()).max(1);
    let mut v = w.repeat(n).into_bytes();
    v.extend(format!("x{n}").into_bytes());
    v
}

fn read_value(b: &[u8]) -> Result<u64, Bad> {
    let s = String::from_utf8_lossy(b);
    let id = s
        .strip_prefix('<')
        .and_then(|s| s.split_once('>'))
        .and_then(|s| s.0.parse().ok());
    let n = s.rsplit_once('x').and_then(|x| x.1.parse::<usize>().ok());
    if let (Some(id), Some(n)) = (id, n) {
        let w = format!("<{id}>");
        if n > 0 && n * w.len() <= b.len() && value(id, n * w.len()) == b {
            return Ok(id);
        }
    }
    violation!("a value which was never written is read: {:.200}", s)
}

struct Rand(u64);
impl Rand {
    fn below(&mut self, n: u64) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        (self.0 >> 11) % n
    }
}

pub struct Client {
    s: TcpStream,
    buf: Vec<u8>,
    at: usize,
}

impl Client {
    pub fn open(to: SocketAddr) -> Result<Client, Bad> {
        let s = TcpStream::connect(to)?;
        s.set_nodelay(true)?;
        s.set_read_timeout(Some(Duration::from_secs(60)))?;
        Ok(Client { s, buf: vec![], at: 0 })
    }

    pub fn send(&mut self, b: &[u8]) -> Result<(), Bad> {
        self.s
            .write_all(b)
            .map_err(|e| Bad::Violation(format!("sending: {e}")))
    }

    pub fn reply(&mut self) -> Result<Val, Bad> {
        loop {
            match decode(&self.buf[self.at..]) {
                Dec::Ok(v, n) => {
                    self.at += n;
                    if self.at == self.buf.len() {
                        self.buf.clear();
                        self.at = 0;
                    }
                    return Ok(v);
                }
                Dec::Bad(e) => violation!("not a reply: {e}"),
                Dec::Incomplete => {}
            }
            let mut b = [0u8; 65536];
            match self.s.read(&mut b) {
                Ok(0) => violation!("closed instead of a reply"),
                Ok(n) => self.buf.extend_from_slice(&b[..n]),
                Err(e) => violation!("no reply: {e}"),
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Case {
    clients: u8,
    keys: u8,
    ops: u16,
    /// of 256
    writes: u8,
    size: u32,
    /// commands sent at once
    pipeline: u8,
    /// times to live far away on some writes
    ttl: bool,
    seed: u64,
}

fn collect(
    bad: Mutex<Option<Bad>>,
    sv: &mut Server,
) -> Result<(), Bad> {
    let r = bad.into_inner().unwrap();
    sv.check_alive()?;
    match r {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

fn stress(b: &mut Bench, c: &Case) -> Res {
    b.run(|sv, case, _| {
        let addr = sv.addr();
        let t0 = Instant::now();
        let clock = || t0.elapsed().as_nanos() as u64 + 1;
        let next = AtomicU64::new(1);
        let all: Mutex<Vec<Vec<Op>>> =
            Mutex::new(vec![vec![]; c.keys as usize]);
        let bad: Mutex<Option<Bad>> = Mutex::new(None);
        let gate = std::sync::Barrier::new(c.clients as usize);
        std::thread::scope(|s| {
            for t in 0..c.clients {
                let (all, bad, next, gate) = (&all, &bad, &next, &gate);
                s.spawn(move || {
                    let client = Client::open(addr);
                    gate.wait();
                    let r = client.and_then(|mut cl| {
                        let mut r = Rand(c.seed ^ (t as u64 + 1) << 40 | 1);
                        let mut mine = vec![];
                        let mut left = c.ops as u64;
                        while left > 0 {
                            let n = (1 + r.below(c.pipeline as u64)).min(left);
                            left -= n;
                            let mut req = vec![];
                            let mut what = vec![];
                            for _ in 0..n {
                                let k = r.below(c.keys as u64) as usize;
                                let key = format!("{case}:{k}");
                                if r.below(256) < c.writes as u64 {
                                    let val =
                                        next.fetch_add(1, Ordering::Relaxed);
                                    let v = value(
                                        val,
                                        r.below(c.size as u64 + 1) as usize,
                                    );
                                    let mut args: Vec<&[u8]> =
                                        vec![b"SET", key.as_bytes(), &v];
                                    if c.ttl && r.below(2) == 0 {
                                        args.extend([&b"EX"[..], b"100000"]);
                                    }
                                    req.extend(encode(&args));
                                    what.push((k, Some(val)));
                                } else {
                                    req.extend(encode(&[
                                        b"GET",
                                        key.as_bytes(),
                                    ]));
                                    what.push((k, None));
                                }
                            }
                            let start = clock();
                            cl.send(&req)?;
                            for (k, w) in what {
                                let v = cl.reply()?;
                                let end = clock();
                                let (write, val) = match (w, v) {
                                    (Some(val), Val::Simple(s))
                                        if s == b"OK" =>
                                    {
                                        (true, val)
                                    }
                                    (None, Val::Null) => (false, 0),
                                    (None, Val::Bulk(b)) => {
                                        (false, read_value(&b)?)
                                    }
                                    (w, v) => violation!(
                                        "{} is answered {v:?}",
                                        if w.is_some() { "SET" } else { "GET" }
                                    ),
                                };
                                mine.push((k, Op { start, end, write, val }));
                            }
                        }
                        let mut all = all.lock().unwrap();
                        for (k, o) in mine {
                            all[k].push(o);
                        }
                        Ok(())
                    });
                    if let Err(e) = r {
                        bad.lock().unwrap().get_or_insert(e);
                    }
                });
            }
        });
        collect(bad, sv)?;
        let mut overlaps = false;
        for (k, ops) in all.into_inner().unwrap().iter_mut().enumerate() {
            linearizable(&format!("{k}"), ops)?;
            ops.sort_by_key(|o| o.start);
            overlaps |= ops.windows(2).any(|w| {
                w[1].start < w[0].end && (w[0].write || w[1].write)
            });
        }
        let mut tags = vec![];
        if c.pipeline > 1 {
            tags.push("pipelined");
        }
        if c.size > 8192 {
            tags.push("values over 8 KiB");
        }
        Ok(Pass { nontrivial: overlaps, tags })
    })
}

/// Each writer has a key: it gives it a short time to live, then sets it again
/// around the end, while all the readers read.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Race {
    writers: u8,
    readers: u8,
    rounds: u8,
    /// ms
    ttl: u8,
    /// the second SET comes so many 0.1 ms after the end, about
    late: u8,
    seed: u64,
}

#[derive(Clone, Copy, Debug)]
struct Write1 {
    start: u64,
    end: u64,
    ttl: bool,
    val: u64,
}

#[derive(Clone, Copy, Debug)]
struct Read1 {
    start: u64,
    end: u64,
    /// None: null
    val: Option<u64>,
}

/// One writer, so the writes are in order.
fn judge(key: &str, writes: &[Write1], reads: &[Read1]) -> Result<u32, Bad> {
    // Without the nulls, a register like another.
    let mut ops: Vec<Op> = writes
        .iter()
        .map(|w| Op { start: w.start, end: w.end, write: true, val: w.val })
        .collect();
    ops.extend(reads.iter().filter_map(|r| {
        r.val.map(|val| Op { start: r.start, end: r.end, write: false, val })
    }));
    linearizable(key, &ops)?;
    let mut nulls = 0;
    for r in reads.iter().filter(|r| r.val.is_none()) {
        nulls += 1;
        // The last write which ended before it, those which overlap it.
        let last = writes.partition_point(|w| w.end < r.start);
        let after = writes.partition_point(|w| w.start < r.end);
        let from = last.saturating_sub(1);
        let may = last == 0 || writes[from..after].iter().any(|w| w.ttl);
        if !may {
            violation!(
                "key {key}: null is read from {} to {}, after {:?} which \
                 doesn't expire was acknowledged",
                r.start,
                r.end,
                writes[from]
            );
        }
        // What was seen gone doesn't come back.
        if last > 0 && after == last {
            let v = writes[last - 1].val;
            if let Some(x) = reads
                .iter()
                .find(|x| x.start > r.end && x.val == Some(v))
            {
                violation!(
                    "key {key}: {v} had expired at {}, and is read from {} to {}",
                    r.end,
                    x.start,
                    x.end
                );
            }
        }
    }
    Ok(nulls)
}

fn race(b: &mut Bench, c: &Race) -> Res {
    b.run(|sv, case, _| {
        let addr = sv.addr();
        let t0 = Instant::now();
        let clock = || t0.elapsed().as_nanos() as u64 + 1;
        let next = AtomicU64::new(1);
        let bad: Mutex<Option<Bad>> = Mutex::new(None);
        let stop = AtomicBool::new(false);
        let writes: Mutex<Vec<(u8, Vec<Write1>)>> = Mutex::new(vec![]);
        let reads: Mutex<Vec<Vec<Read1>>> =
            Mutex::new(vec![vec![]; c.writers as usize]);
        let left = AtomicU64::new(c.writers as u64);
        std::thread::scope(|s| {
            for w in 0..c.writers {
                let (bad, next, writes, stop, left) =
                    (&bad, &next, &writes, &stop, &left);
                s.spawn(move || {
                    let mut mine = vec![];
                    let r = Client::open(addr).and_then(|mut cl| {
                        let key = format!("{case}:{w}");
                        let mut r = Rand(c.seed ^ (w as u64 + 1) << 40 | 1);
                        let mut set =
                            |cl: &mut Client, ttl: bool| -> Result<u64, Bad> {
                                let val = next.fetch_add(1, Ordering::Relaxed);
                                let v = value(val, 1);
                                let px = c.ttl.to_string();
                                let mut args: Vec<&[u8]> =
                                    vec![b"SET", key.as_bytes(), &v];
                                if ttl {
                                    args.extend([&b"PX"[..], px.as_bytes()]);
                                }
                                let start = clock();
                                cl.send(&encode(&args))?;
                                let got = cl.reply()?;
                                let end = clock();
                                if got != Val::simple("OK") {
                                    violation!("SET is answered {got:?}");
                                }
                                mine.push(Write1 { start, end, ttl, val });
                                Ok(val)
                            };
                        for _ in 0..c.rounds {
                            set(&mut cl, true)?;
                            let us = c.ttl as u64 * 1000
                                + r.below(c.late as u64 * 100 + 4000);
                            std::thread::sleep(Duration::from_micros(us));
                            let val = set(&mut cl, false)?;
                            // Some time with the lasting value.
                            std::thread::sleep(Duration::from_micros(
                                r.below(1500),
                            ));
                            cl.send(&encode(&[b"GET", key.as_bytes()]))?;
                            match cl.reply()? {
                                Val::Bulk(b) if read_value(&b)? == val => {}
                                v => violation!(
                                    "key {key}: the client which had its SET \
                                     without expiry acknowledged reads {v:?}"
                                ),
                            }
                        }
                        Ok(())
                    });
                    if let Err(e) = r {
                        bad.lock().unwrap().get_or_insert(e);
                    }
                    writes.lock().unwrap().push((w, mine));
                    if left.fetch_sub(1, Ordering::AcqRel) == 1 {
                        stop.store(true, Ordering::Release);
                    }
                });
            }
            for t in 0..c.readers {
                let (bad, reads, stop) = (&bad, &reads, &stop);
                s.spawn(move || {
                    let mut mine = vec![];
                    let r = Client::open(addr).and_then(|mut cl| {
                        let mut r = Rand(c.seed ^ (t as u64 + 99) << 40 | 1);
                        while !stop.load(Ordering::Acquire) {
                            let w = r.below(c.writers as u64) as usize;
                            let key = format!("{case}:{w}");
                            let start = clock();
                            cl.send(&encode(&[b"GET", key.as_bytes()]))?;
                            let v = cl.reply()?;
                            let end = clock();
                            let val = match v {
                                Val::Null => None,
                                Val::Bulk(b) => Some(read_value(&b)?),
                                v => violation!("GET is answered {v:?}"),
                            };
                            mine.push((w, Read1 { start, end, val }));
                        }
                        Ok(())
                    });
                    if let Err(e) = r {
                        bad.lock().unwrap().get_or_insert(e);
                    }
                    let mut all = reads.lock().unwrap();
                    for (w, x) in mine {
                        all[w].push(x);
                    }
                });
            }
        });
        collect(bad, sv)?;
        let reads = reads.into_inner().unwrap();
        let mut nulls = 0;
        for (w, writes) in writes.into_inner().unwrap() {
            nulls += judge(&format!("{w}"), &writes, &reads[w as usize])?;
        }
        Ok(Pass { nontrivial: nulls > c.rounds as u32, tags: vec![] })
    })
}

fn times() -> u32 {
    if std::env::args().any(|a| a == "--replay") {
        20
    } else {
        1
    }
}

pub fn run(r: &mut Report) {
    r.rule(
        "stress: client threads writing (unique values) and reading a few keys \
         at once, pipelining or not; the history of each key is checked to be \
         linearizable; non-trivial = a write overlaps another operation. race: \
         writers give their key a short time to live and set it again without \
         one around its end, while readers read all of them all the time; \
         non-trivial = null was read more often than there are rounds.",
    );
    let mut b = Bench::new(Opts::new);
    let s = (
        2u8..13,
        1u8..4,
        30u16..400,
        20u8..220,
        prop_oneof![4 => 0u32..64, 2 => 0u32..4000, 1 => 0u32..100_000],
        prop_oneof![2 => Just(1u8), 1 => 2u8..9],
        any::<bool>(),
        any::<u64>(),
    )
        .prop_map(|(clients, keys, ops, writes, size, pipeline, ttl, seed)| Case {
            clients,
            keys,
            ops,
            writes,
            size,
            pipeline,
            ttl,
            seed,
        });
    r.drive("stress", s, r.n(150, 2500), |c| {
        (0..times()).try_fold(Pass::default(), |_, _| stress(&mut b, c))
    });
    let s = (1u8..6, 1u8..8, 3u8..20, 1u8..12, 0u8..80, any::<u64>()).prop_map(
        |(writers, readers, rounds, ttl, late, seed)| Race {
            writers,
            readers,
            rounds,
            ttl,
            late,
            seed,
        },
    );
    r.drive("race", s, r.n(120, 2500), |c| {
        (0..times()).try_fold(Pass::default(), |_, _| race(&mut b, c))
    });
}
