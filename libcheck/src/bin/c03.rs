//! C03: the storage shared by threads.
use coarsetime::{Duration, Instant};
use libcheck::*;
use proptest::prelude::*;
use roster::domain::dialer::Slot;
use roster::domain::storage::{SetOptions, Storage, StorageSegment};
use rvcommon::history::{linearizable, Op};
use rvcommon::{violation, Bad, Pass, Report, Res};
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;

/// A value which can't be mistaken for a part or a mix of others.
fn value(id: u64, len: usize) -> Vec<u8> {
    let w = format!("<{id}>");
    let n = (len / w.len()).max(1);
    let mut v = w.repeat(n).into_bytes();
    v.extend(format!("x{n}").into_bytes());
    v
}

fn read_value(b: &[u8]) -> Result<u64, Bad> {
    let s = String::from_utf8_lossy(b);
    let id = s
        .strip_prefix('<')
        .and_then(|s| s.split_once('>'))
        .and_then(|s| s.0.parse().ok());
    let n = s.rsplit_once('x').and_then(|x| x.1.parse::<usize>().ok());
    if let (Some(id), Some(n)) = (id, n) {
        let w = format!("<{id}>");
        if n > 0 && n * w.len() <= b.len() && value(id, n * w.len()) == b {
            return Ok(id);
        }
    }
    violation!("a value which was never written is read: {:.200}", s)
}

struct Rand(u64);
impl Rand {
    fn below(&mut self, n: u64) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        (self.0 >> 11) % n
    }
}

fn set(s: &StorageSegment, key: &str, v: Vec<u8>, expired: Option<Instant>) {
    let _ = s.set_async(key.to_string().into(), v.into(), SetOptions { expired });
}

fn get(s: &StorageSegment, key: &str, now: Instant) -> Option<Vec<u8>> {
    block_on(s.get_async(key.to_string().into(), now)).map(|b| b.to_vec())
}

/// All threads leave at once.
struct Gate(AtomicUsize, usize);
impl Gate {
    fn pass(&self) {
        self.0.fetch_add(1, Ordering::AcqRel);
        let mut n = 0u32;
        while self.0.load(Ordering::Acquire) % self.1 != 0
            && self.0.load(Ordering::Acquire) < self.1
        {
            n += 1;
            if n > 2000 {
                std::thread::yield_now();
            } else {
                std::hint::spin_loop();
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Case {
    threads: u8,
    keys: u8,
    ops: u16,
    /// of 256
    writes: u8,
    size: u16,
    /// times to live far away, on some writes
    ttl: bool,
    seed: u64,
}

fn stress(c: &Case) -> Res {
    let st = Storage::new(1, Slot::from(0..16384));
    let t0 = std::time::Instant::now();
    let clock = || t0.elapsed().as_nanos() as u64 + 1;
    let next = AtomicU64::new(1);
    let all: Mutex<Vec<Vec<Op>>> = Mutex::new(vec![vec![]; c.keys as usize]);
    let bad: Mutex<Option<Bad>> = Mutex::new(None);
    let gate = Gate(AtomicUsize::new(0), c.threads as usize);
    let far = Instant::now() + Duration::from_secs(100_000);
    std::thread::scope(|s| {
        for t in 0..c.threads {
            let (st, all, bad, next, gate) = (&st, &all, &bad, &next, &gate);
            s.spawn(move || {
                let r = guarded(|| {
                    let seg = st.part(t as u16).1;
                    let mut r = Rand(c.seed ^ (t as u64 + 1) << 40 | 1);
                    let mut mine = vec![];
                    gate.pass();
                    for _ in 0..c.ops {
                        let k = r.below(c.keys as u64) as usize;
                        let key = format!("key{k}");
                        if r.below(256) < c.writes as u64 {
                            let val = next.fetch_add(1, Ordering::Relaxed);
                            let v = value(val, r.below(c.size as u64 + 1) as usize);
                            let ttl = (c.ttl && r.below(2) == 0).then_some(far);
                            let start = clock();
                            set(&seg, &key, v, ttl);
                            let end = clock();
                            mine.push((k, Op { start, end, write: true, val }));
                        } else {
                            let now = Instant::now();
                            let start = clock();
                            let v = get(&seg, &key, now);
                            let end = clock();
                            let val = match v {
                                None => 0,
                                Some(b) => read_value(&b)?,
                            };
                            mine.push((k, Op { start, end, write: false, val }));
                        }
                    }
                    let mut all = all.lock().unwrap();
                    for (k, o) in mine {
                        all[k].push(o);
                    }
                    Ok::<(), Bad>(())
                });
                match r {
                    Ok(Ok(())) => {}
                    Ok(Err(e)) => {
                        bad.lock().unwrap().get_or_insert(e);
                    }
                    Err(e) => {
                        bad.lock()
                            .unwrap()
                            .get_or_insert(Bad::Violation(format!("panic: {e}")));
                    }
                }
            });
        }
    });
    if let Some(e) = bad.into_inner().unwrap() {
        return Err(e);
    }
    let mut overlaps = false;
    for (k, ops) in all.into_inner().unwrap().iter_mut().enumerate() {
        linearizable(&format!("key{k}"), ops)?;
        ops.sort_by_key(|o| o.start);
        overlaps |= ops
            .windows(2)
            .any(|w| w[1].start < w[0].end && (w[0].write || w[1].write));
    }
    Ok(Pass { nontrivial: overlaps, tags: vec![] })
}

/// A key has expired; it's set again while others read it.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Race {
    readers: u8,
    /// each reads that many times
    reads: u8,
    rounds: u16,
    /// how long the writer waits, and the readers
    delays: (u8, u8),
    /// the new value has a time to live far away
    ttl: bool,
    /// other keys expire at the same time
    others: u8,
}

fn race(c: &Race) -> Res {
    let st = Storage::new(1, Slot::from(0..16384));
    let now = Instant::now();
    let past = now - Duration::from_secs(1);
    let far = now + Duration::from_secs(100_000);
    let n = c.readers as usize + 1;
    // One gate for the beginning and one for the end of each round.
    let gates: Vec<Gate> = (0..2 * c.rounds as usize)
        .map(|_| Gate(AtomicUsize::new(0), n))
        .collect();
    // The writer has set the value of the round
    let done = AtomicU64::new(0);
    let bad: Mutex<Option<Bad>> = Mutex::new(None);
    let seen_none = AtomicU64::new(0);
    let seen_new = AtomicU64::new(0);
    let report = |e: Bad| {
        bad.lock().unwrap().get_or_insert(e);
    };
    std::thread::scope(|s| {
        for t in 0..n {
            let (st, gates, done, report) = (&st, &gates, &done, &report);
            let (seen_none, seen_new) = (&seen_none, &seen_new);
            s.spawn(move || {
                let seg = st.part(t as u16).1;
                let mut r = Rand(t as u64 * 77 + 1 + c.rounds as u64);
                for i in 0..c.rounds as u64 {
                    if t == 0 {
                        set(&seg, "key", value(2 * i + 1, 20), Some(past));
                        for o in 0..c.others {
                            set(&seg, &format!("o{o}"), vec![b'o'], Some(past));
                        }
                    }
                    gates[2 * i as usize].pass();
                    let d = if t == 0 { c.delays.0 } else { c.delays.1 };
                    for _ in 0..r.below(d as u64 * 8 + 1) {
                        std::hint::spin_loop();
                    }
                    if t == 0 {
                        let x = guarded(|| {
                            set(&seg, "key", value(2 * i + 2, 20), c.ttl.then_some(far))
                        });
                        done.store(i + 1, Ordering::SeqCst);
                        if let Err(e) = x {
                            report(Bad::Violation(format!("SET panics: {e}")));
                        }
                    } else {
                        for j in 0..c.reads {
                            let after = done.load(Ordering::SeqCst) == i + 1;
                            let x = guarded(|| get(&seg, "key", now));
                            match x {
                                Err(e) => report(Bad::Violation(format!("GET panics: {e}"))),
                                Ok(None) if after => report(Bad::Violation(
                                    "a key set again after it had expired is \
                                     lost for a reader"
                                        .into(),
                                )),
                                Ok(None) => {
                                    seen_none.fetch_add(1, Ordering::Relaxed);
                                }
                                Ok(Some(b)) => match read_value(&b) {
                                    Err(e) => report(e),
                                    Ok(v) if v == 2 * i + 2 => {
                                        seen_new.fetch_add(1, Ordering::Relaxed);
                                    }
                                    Ok(_) => report(Bad::Violation(
                                        "a value which had expired is read".into(),
                                    )),
                                },
                            }
                            if c.others > 0 {
                                let _ = guarded(|| {
                                    get(&seg, &format!("o{}", j % c.others), now)
                                });
                            }
                        }
                    }
                    gates[2 * i as usize + 1].pass();
                    if t == 0 {
                        match guarded(|| get(&seg, "key", now)) {
                            Ok(Some(b)) if b == value(2 * i + 2, 20) => {}
                            x => report(Bad::Violation(format!(
                                "round {i}: a key set again after it had \
                                 expired is then {x:?}"
                            ))),
                        }
                    }
                }
            });
        }
    });
    if let Some(e) = bad.into_inner().unwrap() {
        return Err(e);
    }
    let (a, b) = (seen_none.into_inner(), seen_new.into_inner());
    Ok(Pass { nontrivial: a > 0 && b > 0, tags: vec![] })
}

fn run(r: &mut Report) {
    r.rule(
        "storage stress: threads writing (unique values) and reading a few keys \
         of the storage at once, the history of each key is checked to be \
         linearizable; non-trivial = a write overlaps another operation. \
         storage race: in each of many rounds a key has expired, and is set \
         again while others read it: the new value is never lost; non-trivial = \
         readers saw both no value and the new one.",
    );
    let s = (
        2u8..9,
        1u8..4,
        50u16..600,
        20u8..220,
        prop_oneof![3 => 0u16..64, 1 => 0u16..4000],
        any::<bool>(),
        any::<u64>(),
    )
        .prop_map(|(threads, keys, ops, writes, size, ttl, seed)| Case {
            threads,
            keys,
            ops,
            writes,
            size,
            ttl,
            seed,
        });
    r.drive("storage stress", s, r.n(2500, 40_000), |c| {
        (0..r_times()).try_fold(Pass::default(), |_, _| stress(c))
    });
    let s = (1u8..6, 1u8..5, 200u16..2000, (0u8..60, 0u8..60), any::<bool>(), 0u8..3)
        .prop_map(|(readers, reads, rounds, delays, ttl, others)| Race {
            readers,
            reads,
            rounds,
            delays,
            ttl,
            others,
        });
    r.drive("storage race", s, r.n(500, 8000), |c| {
        (0..r_times()).try_fold(Pass::default(), |_, _| race(c))
    });
}

/// Schedules differ each time: a replay gets several chances.
fn r_times() -> u32 {
    if std::env::args().any(|a| a == "--replay") {
        50
    } else {
        1
    }
}

fn main() {
    libcheck::main("C03", run);
}
