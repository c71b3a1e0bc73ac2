//! C25: a server nobody talks to rests.
use proptest::prelude::*;
use rvcommon::{violation, Pass, Report, Res};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

use super::c08::{attack, attack_strat, Attack};
use crate::client::Conn;
use crate::engine::*;
use crate::server::{settles, Opts};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Do {
    Attack(Attack),
    Flap { n: u8, reset: bool },
    /// Connections which say nothing
    Sit { n: u8 },
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Case {
    steps: Vec<Do>,
    /// They are still there while the server is watched.
    stay: bool,
}

fn strat() -> BoxedStrategy<Case> {
    let step = prop_oneof![
        6 => attack_strat().prop_map(Do::Attack),
        1 => (1u8..60, any::<bool>()).prop_map(|(n, reset)| Do::Flap { n, reset }),
        1 => (1u8..30).prop_map(|n| Do::Sit { n }),
    ];
    (proptest::collection::vec(step, 1..14), proptest::bool::weighted(0.7))
        .prop_map(|(steps, stay)| Case { steps, stay })
        .boxed()
}

fn check(b: &mut Bench, c: &Case) -> Res {
    b.run(|sv, n, _| {
        let prefix = format!("c{n}:");
        let mut bad: BTreeMap<u8, Conn> = BTreeMap::new();
        let mut sitting = vec![];
        for s in &c.steps {
            match s {
                Do::Attack(a) => attack(sv, &mut bad, a, &prefix)?,
                Do::Flap { n, reset } => {
                    for _ in 0..*n {
                        let c = Conn::open(sv.addr())?;
                        if *reset {
                            c.reset();
                        }
                    }
                }
                Do::Sit { n } => {
                    for _ in 0..*n {
                        sitting.push(Conn::open(sv.addr())?);
                    }
                }
            }
            sv.check_alive()?;
        }
        if !c.stay {
            bad.clear();
            sitting.clear();
        }
        match settles(sv, 25)? {
            Ok(_) => {}
            Err(p) => violation!(
                "the server never rests: at least {p}% of a processor is used \
                 while no client does anything ({} connections open)",
                bad.len() + sitting.len()
            ),
        }
        let mut tags = vec![];
        let mut closed = 0;
        for c in bad.values_mut() {
            c.drain(usize::MAX);
            closed += c.end.is_some() as usize;
        }
        if bad.len() > closed {
            tags.push("with bad clients");
        }
        if closed > 0 {
            tags.push("with clients it closed");
        }
        Ok(Pass { nontrivial: true, tags })
    })
}

fn few() -> Opts {
    Opts { max_connection: 4, ..Opts::new() }
}

fn poor() -> Opts {
    Opts { nofile: Some(60), ..Opts::new() }
}

pub fn run(r: &mut Report) {
    r.rule(
        "rest: clients send arbitrary and mutated bytes, floods, halves of \
         commands, stop reading, half-close, reset, leave or stay; when they \
         do nothing any more the server has to come to rest: some window of \
         200 ms with less than a quarter of one processor used. limit, \
         descriptors: the same on servers which reach their connection limit \
         or their number of file descriptors; non-trivial = all.",
    );
    r.assume("a poll every few milliseconds isn't work");
    let mut b = Bench::new(Opts::new);
    r.drive("rest", strat(), r.n(90, 2000), |c| check(&mut b, c));
    let mut b = Bench::new(few);
    r.drive("limit", strat(), r.n(40, 600), |c| check(&mut b, c));
    let mut b = Bench::new(poor);
    r.drive("descriptors", strat(), r.n(40, 600), |c| check(&mut b, c));
}
