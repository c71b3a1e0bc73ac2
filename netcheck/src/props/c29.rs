//! C29: stopped and started again, at any moment.
use proptest::prelude::*;
use rvcommon::resp::{Arg, Val};
use rvcommon::{violation, Bad, Pass, Report, Res};
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::{Duration, Instant};

use super::c08::{pour, Junk};
use crate::client::{eventually, Conn};
use crate::engine::*;
use crate::model::parse_entry;
use crate::server::{scratch, Opts, Server, Stuck, StuckWatch};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Sig {
    Term,
    Int,
    Kill,
}

/// One run of the server
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Run {
    /// Before it listens: so many ms after its start
    early: Option<u8>,
    steps: Vec<Step>,
    /// Connections which are just there, in which state
    stalled: Vec<Junk>,
    idle: u8,
    /// Clients which don't stop asking
    flood: u8,
    /// Suspended when the signal comes
    frozen: bool,
    sig: Sig,
    /// The clients leave before the next run, not after its start
    leave: bool,
    ms: u8,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Case {
    runs: Vec<Run>,
    max: u8,
}

fn stop(sv: &mut Server, sig: Sig) -> Result<(), Bad> {
    let no = match sig {
        Sig::Term => libc::SIGTERM,
        Sig::Int => libc::SIGINT,
        Sig::Kill => libc::SIGKILL,
    };
    unsafe { libc::kill(sv.pid() as i32, no) };
    let mut watch = StuckWatch::new(sv.pid());
    let t = Instant::now();
    while sv.dead().is_none() {
        if matches!(watch.poll(), Stuck::Idle | Stuck::Burning) {
            violation!("the server doesn't end after {sig:?}");
        }
        if t.elapsed() > Duration::from_secs(120) {
            return Err(Bad::Harness("not ended, no verdict".into()));
        }
        std::thread::sleep(Duration::from_micros(300));
    }
    Ok(())
}

fn check(c: &Case) -> Res {
    // All the runs are in one directory.
    let dir = scratch();
    let r = runs(c, &dir);
    let _ = std::fs::remove_dir_all(&dir);
    r
}

fn runs(c: &Case, dir: &std::path::Path) -> Res {
    let mut o = Opts::new();
    o.dir = Some(dir.into());
    o.max_connection = 60 + c.max as u32;
    // What earlier runs were given
    let mut keys: Vec<Vec<u8>> = vec![];
    let mut left: Vec<Conn> = vec![];
    let mut tags = vec![];
    for (i, run) in c.runs.iter().enumerate() {
        let r = one(&o, run, &mut keys, &mut left, i, &mut tags);
        r.map_err(|e| match e {
            Bad::Violation(m) => Bad::Violation(format!("run {}: {m}", i + 1)),
            e => e,
        })?;
        if run.leave {
            left.clear();
        }
        std::thread::sleep(Duration::from_millis(run.ms as u64));
    }
    let last = Run {
        early: None,
        steps: vec![],
        stalled: vec![],
        idle: 0,
        flood: 0,
        frozen: false,
        sig: Sig::Term,
        leave: true,
        ms: 0,
    };
    one(&o, &last, &mut keys, &mut left, c.runs.len(), &mut tags).map_err(|e| {
        match e {
            Bad::Violation(m) => Bad::Violation(format!("the last run: {m}")),
            e => e,
        }
    })?;
    let nontrivial = c.runs.iter().any(|r| {
        r.early.is_some() || r.idle > 0 || r.flood > 0 || !r.steps.is_empty()
    });
    Ok(Pass { nontrivial, tags })
}

fn one(
    o: &Opts,
    run: &Run,
    keys: &mut Vec<Vec<u8>>,
    left: &mut Vec<Conn>,
    i: usize,
    tags: &mut Vec<&'static str>,
) -> Result<(), Bad> {
    let mut sv = Server::begin(o)?;
    if let Some(ms) = run.early {
        std::thread::sleep(Duration::from_millis(ms as u64));
        sv.check_alive()?;
        tags.push("ended while starting");
        return stop(&mut sv, run.sig);
    }
    sv.wait_up(o)?;
    // The connections of the previous run have ended.
    for c in left.iter_mut() {
        let t = Instant::now();
        while c.end.is_none() {
            c.drain(usize::MAX);
            c.inbuf.clear();
            c.pos = 0;
            if t.elapsed() > Duration::from_secs(20) {
                violation!("a connection of an ended server is still open");
            }
        }
    }
    left.clear();
    let mut facts = None;
    let mut w = World::new(&mut sv, &mut facts);
    // Nothing of the previous runs is there.
    w.open(0)?;
    let mut l = w.live.remove(&0).unwrap();
    for k in keys.iter() {
        let v = l.conn.call(w.sv, &[b"GET", k])?;
        if v != Val::Null {
            violation!("a key of an earlier run is {v:?}");
        }
    }
    eventually(w.sv, |sv| {
        let v = l.conn.call(sv, &[b"CLIENT", b"LIST"])?;
        let Val::Arr(es) = &v else { violation!("CLIENT LIST: {v:?}") };
        let mut others = vec![];
        for e in es {
            let e = parse_entry(e)?;
            if e.addr != l.conn.local.to_string() {
                others.push(e);
            }
        }
        Ok(if others.is_empty() {
            Ok(())
        } else {
            Err(format!("CLIENT LIST of a new server shows others: {others:?}"))
        })
    })?;
    w.live.insert(0, l);
    // It serves as many as it may.
    if i > 0 {
        for v in 100..100 + o.max_connection.min(100) as u8 - 1 {
            w.open(v)?;
        }
        w.barrier()?;
        w.live.retain(|v, _| *v < 100);
    }
    let prefix = "c29:";
    for s in own_keys(&run.steps, prefix) {
        if let Step::Batch { cmds, .. } = &s {
            for c in cmds {
                if let [set, k, ..] = &c[..] {
                    let name = |a: &Arg| match a {
                        Arg::Bulk(b) | Arg::Simple(b) => Some(b.bytes()),
                        _ => None,
                    };
                    let is_set = name(set)
                        .is_some_and(|s| s.eq_ignore_ascii_case(b"SET"));
                    if let (true, Some(k)) = (is_set, name(k)) {
                        if std::str::from_utf8(&k).is_ok() && keys.len() < 60 {
                            keys.push(k);
                        }
                    }
                }
            }
        }
        w.step(&s)?;
    }
    w.barrier()?;
    left.extend(std::mem::take(&mut w.live).into_values().map(|l| l.conn));
    for _ in 0..run.idle {
        left.push(Conn::open(sv.addr())?);
    }
    for (i, j) in run.stalled.iter().enumerate() {
        use std::io::Write;
        let mut x = Conn::open_with(sv.addr(), None, Some(4096))?;
        let _ = x.s.write(&j.bytes(&format!("{prefix}{i}")));
        left.push(x);
    }
    let (to, stopped) = (sv.addr(), AtomicBool::new(false));
    let done = AtomicU64::new(0);
    let all: Vec<u8> = encoded(&["SET", "c29:flood", "v"]).repeat(50);
    if run.flood > 0 {
        keys.push(b"c29:flood".to_vec());
        tags.push("ended under load");
    }
    std::thread::scope(|s| {
        for _ in 0..run.flood {
            s.spawn(|| pour(to, &all, "<the end of c29>", &stopped, &done));
        }
        std::thread::sleep(Duration::from_millis(run.ms as u64));
        // Without SIGCONT only SIGKILL ends it.
        if run.frozen {
            unsafe { libc::kill(sv.pid() as i32, libc::SIGSTOP) };
            std::thread::sleep(Duration::from_millis(5));
            if run.sig != Sig::Kill {
                unsafe { libc::kill(sv.pid() as i32, libc::SIGCONT) };
            }
        }
        let r = sv.check_alive().and_then(|_| stop(&mut sv, run.sig));
        stopped.store(true, Ordering::SeqCst);
        r
    })
}

fn encoded(words: &[&str]) -> Vec<u8> {
    let mut b = vec![];
    encode_cmd(&words.iter().map(|w| Arg::bulk(*w)).collect(), &mut b);
    b
}

pub fn run(r: &mut Report) {
    r.rule(
        "restarts: up to 4 runs of a server on one address, in one directory, each ended by \
         SIGTERM, SIGINT or SIGKILL while it starts, rests, is suspended or \
         works, with connections open, stalled, not reading or asking all the \
         time; the process must end, and the next one start at once, listen on \
         the same address, hold no key and list no connection of before, and \
         serve as many connections as it may; non-trivial = there was something \
         to leave behind.",
    );
    let step = prop_oneof![
        6 => (0u8..6, proptest::collection::vec(super::c04::any_cmd(2000), 1..6))
            .prop_map(|(conn, cmds)| Step::Batch { conn, cmds, send: Send::plain() }),
        1 => (0u8..6, prop_oneof![
            Just(Ending::Close), Just(Ending::HalfClose), Just(Ending::Reset)
        ]).prop_map(|(conn, how)| Step::End { conn, how }),
    ];
    let run = (
        proptest::option::weighted(0.2, 0u8..250),
        proptest::collection::vec(step, 0..6),
        proptest::collection::vec(super::c08::junk(), 0..4),
        0u8..30,
        prop_oneof![Just(0u8), 1u8..6],
        proptest::bool::weighted(0.2),
        prop_oneof![
            2 => Just(Sig::Term), 1 => Just(Sig::Int), 2 => Just(Sig::Kill)
        ],
        any::<bool>(),
        prop_oneof![Just(0u8), 0u8..40],
    )
        .prop_map(
            |(early, steps, stalled, idle, flood, frozen, sig, leave, ms)| Run {
                early,
                steps,
                stalled,
                idle,
                flood,
                frozen,
                sig,
                leave,
                ms,
            },
        );
    let s = (proptest::collection::vec(run, 1..4), any::<u8>())
        .prop_map(|(runs, max)| Case { runs, max });
    r.drive("restarts", s, r.n(50, 1000), check);
}
