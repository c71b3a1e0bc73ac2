//! C27: what happens around the server doesn't stop it.
use proptest::prelude::*;
use rvcommon::{Bad, Pass, Report, Res};
use serde::{Deserialize, Serialize};
use std::time::Duration;

use super::c08::{self, assault, Do};
use crate::server::{Opts, Output, Server};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Case {
    outs: [Output; 2],
    cpus: u8,
    /// The pipes are closed before that step.
    close: u8,
    /// Before which step it's suspended, for how many ms, and how many more by
    /// its clocks
    suspend: Vec<(u8, u16, u64)>,
    /// Signals which a program doesn't have to notice
    signals: Vec<(u8, u8)>,
    work: c08::Case,
}

fn check(c: &Case) -> Res {
    let mut o = Opts::new();
    o.outs = c.outs;
    o.cpus = c.cpus;
    o.clock = true;
    let mut sv = Server::start(&o)?;
    let mut facts = None;
    let pid = sv.pid() as i32;
    let steps = c.work.steps.len().max(1);
    assault(&mut sv, 0, &mut facts, &c.work, |sv, i| {
        if c.close as usize % steps == i {
            sv.pipes.clear();
        }
        for (at, sig) in &c.signals {
            if *at as usize % steps == i {
                let sig = [libc::SIGCHLD, libc::SIGURG, libc::SIGWINCH]
                    [*sig as usize % 3];
                unsafe { libc::kill(pid, sig) };
            }
        }
        for (at, ms, clock) in &c.suspend {
            if *at as usize % steps == i {
                unsafe { libc::kill(pid, libc::SIGSTOP) };
                std::thread::sleep(Duration::from_millis(*ms as u64));
                if let Some(c) = &mut sv.clock {
                    c.advance(clock * 1_000_000);
                }
                unsafe { libc::kill(pid, libc::SIGCONT) };
            }
        }
        Ok(())
    })?;
    sv.check_alive()?;
    let bad = c.work.steps.iter().any(|s| matches!(s, Do::Attack(_)));
    let mut tags = vec![];
    for (o, tag) in [
        (Output::Full, "full disk"),
        (Output::Pipe, "pipe closed during the run"),
        (Output::Broken, "broken pipe"),
        (Output::Clogged, "clogged pipe"),
        (Output::Closed, "closed output"),
    ] {
        if c.outs.contains(&o) {
            tags.push(tag);
        }
    }
    let faulty = !tags.is_empty();
    if !c.suspend.is_empty() {
        tags.push("suspended");
    }
    Ok::<_, Bad>(Pass { nontrivial: bad && (faulty || !c.suspend.is_empty()), tags })
}

pub fn run(r: &mut Report) {
    r.rule(
        "surroundings: fresh servers whose standard output and error are files, \
         full disks, pipes closed before or during the run, clogged \
         non-blocking pipes or closed, which are suspended (for up to hours by \
         their clocks) and get harmless \
         signals while bad clients do their worst beside well-behaved ones \
         (as in C08), whose every reply is compared to the model; non-trivial \
         = bad clients, and a faulty output or a suspension.",
    );
    r.assume("left open: a blocking output which nobody reads");
    let out = || {
        prop_oneof![
            1 => Just(Output::File),
            2 => Just(Output::Full),
            2 => Just(Output::Pipe),
            1 => Just(Output::Broken),
            1 => Just(Output::Clogged),
            1 => Just(Output::Closed),
        ]
    };
    let s = (
        (out(), out()),
        prop_oneof![Just(0u8), 1u8..4],
        any::<u8>(),
        proptest::collection::vec(
            (any::<u8>(), 0u16..120, prop_oneof![
                2 => Just(0u64),
                2 => 0u64..100_000,
                1 => 100_000u64..10_000_000,
            ]),
            0..3,
        ),
        proptest::collection::vec((any::<u8>(), 0u8..4), 0..4),
        c08::strat(),
    )
        .prop_map(|((a, b), cpus, close, suspend, signals, work)| Case {
            outs: [a, b],
            cpus,
            close,
            suspend,
            signals,
            work,
        });
    r.drive("surroundings", s, r.n(150, 2500), check);
}
