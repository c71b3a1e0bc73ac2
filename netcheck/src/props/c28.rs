//! C28: it runs on the processors it is given.
use proptest::prelude::*;
use rvcommon::{Bad, Pass, Report, Res};
use serde::{Deserialize, Serialize};

use super::c08::{self, assault};
use crate::engine::wake;
use crate::server::{chosen, move_to, processors, Opts, Server};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Case {
    /// Which of the processors
    on: u64,
    /// and no others even if it wants
    confined: bool,
    /// Before which step, which thread (or all) is moved where
    moves: Vec<(u8, Option<u8>, u64)>,
    /// The limit of connections
    max: u16,
    work: c08::Case,
}

fn check(c: &Case) -> Res {
    let mut o = Opts::new();
    o.on = c.on.max(1);
    o.confined = c.confined;
    o.max_connection = c.max as u32;
    let mut sv = Server::start(&o)?;
    let mut facts = None;
    wake(&mut sv)?;
    let steps = c.work.steps.len().max(1);
    let pid = sv.pid();
    assault(&mut sv, 0, &mut facts, &c.work, |_, i| {
        for (at, thread, on) in &c.moves {
            if *at as usize % steps != i {
                continue;
            }
            // Only the ones it's confined to, if it is.
            let mut to = chosen(*on);
            if c.confined {
                let ours = chosen(o.on);
                to.retain(|p| ours.contains(p));
            }
            if to.is_empty() {
                continue;
            }
            let mut threads: Vec<i32> = std::fs::read_dir(format!("/proc/{pid}/task"))
                .map_err(Bad::from)?
                .flatten()
                .filter_map(|e| e.file_name().to_str()?.parse().ok())
                .collect();
            threads.sort();
            for (n, t) in threads.iter().enumerate() {
                if thread.is_none_or(|x| x as usize % threads.len() == n) {
                    move_to(*t, &to);
                }
            }
        }
        Ok(())
    })?;
    wake(&mut sv)?;
    sv.check_alive()?;
    let on = chosen(o.on);
    let all = processors();
    let mut tags = vec![];
    if on.len() == 1 {
        tags.push("a single processor");
    }
    if on.first() != all.first() {
        tags.push("not the first processor");
    }
    if c.confined {
        tags.push("as in a cpuset");
    }
    if !c.moves.is_empty() {
        tags.push("moved while it runs");
    }
    let nontrivial = on.len() < all.len() || !c.moves.is_empty();
    Ok::<_, Bad>(Pass { nontrivial, tags })
}

pub fn run(r: &mut Report) {
    r.rule(
        "processors: fresh servers on any of the processors of this machine \
         (some of which exclude the first ones), which can choose others or, by \
         a preloaded sched_setaffinity, can't, as in a cpuset; meanwhile some or \
         all of its threads are moved; 64 new connections in the beginning and \
         the end, and well-behaved and bad clients (as in C08) between, every \
         reply is compared to the model; non-trivial = not all of the \
         processors, or moves.",
    );
    r.assume("this machine has more than one processor, else less is exercised");
    let on = || {
        prop_oneof![
            2 => (0u32..8).prop_map(|b| 1u64 << b),
            2 => any::<u64>(),
            1 => (0u32..8).prop_map(|b| u64::MAX << b),
            1 => Just(u64::MAX),
        ]
    };
    let s = (
        on(),
        any::<bool>(),
        proptest::collection::vec((any::<u8>(), any::<Option<u8>>(), on()), 0..4),
        prop_oneof![200u16..60_000, Just(u16::MAX)],
        c08::strat(),
    )
        .prop_map(|(on, confined, moves, max, work)| Case {
            on,
            confined,
            moves,
            max,
            work,
        });
    r.drive("processors", s, r.n(120, 2500), check);
}
