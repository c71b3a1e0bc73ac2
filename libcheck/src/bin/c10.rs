//! C10: identifiers given by the supervisor.
use libcheck::*;
use proptest::prelude::*;
use roster::application::server::verif::Supervisor;
use rvcommon::history::ordered;
use rvcommon::{violation, Bad, Pass, Report, Res};
use serde::{Deserialize, Serialize};
use std::sync::Mutex;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Case {
    first: u64,
    threads: u8,
    each: u16,
    /// each thread keeps that many connections
    keep: u8,
}

fn check(c: &Case) -> Res {
    let sup = Supervisor::new(c.first);
    let t0 = std::time::Instant::now();
    let clock = || t0.elapsed().as_nanos() as u64;
    let all: Mutex<Vec<(u64, u64, i64)>> = Mutex::new(vec![]);
    let bad: Mutex<Option<Bad>> = Mutex::new(None);
    std::thread::scope(|s| {
        for t in 0..c.threads {
            let (sup, all, bad) = (sup.clone(), &all, &bad);
            s.spawn(move || {
                let r = guarded(|| {
                    let mut mine = vec![];
                    let mut kept = std::collections::VecDeque::new();
                    let addr = |p: u16| {
                        std::net::SocketAddr::from(([127, 0, 0, t + 1], p))
                    };
                    for i in 0..c.each {
                        let from = clock();
                        let m = sup.assign_new_connection(
                            addr(i.max(1)),
                            addr(1),
                            i as i32,
                        );
                        let to = clock();
                        let id = m.id();
                        mine.push((from, to, id as i64));
                        kept.push_back((id, m));
                        if kept.len() > c.keep as usize {
                            let (id, m) = kept.pop_front().unwrap();
                            if m.id() != id {
                                violation!("identifier {id} became {}", m.id());
                            }
                            m.stop();
                            sup.remove_connection(&m);
                        }
                    }
                    for (id, m) in kept {
                        if m.id() != id {
                            violation!("identifier {id} became {}", m.id());
                        }
                    }
                    all.lock().unwrap().append(&mut mine);
                    Ok(())
                });
                match r {
                    Ok(Ok(())) => {}
                    Ok(Err(e)) => {
                        bad.lock().unwrap().get_or_insert(e);
                    }
                    Err(e) => {
                        bad.lock()
                            .unwrap()
                            .get_or_insert(Bad::Violation(format!("panic: {e}")));
                    }
                }
            });
        }
    });
    if let Some(e) = bad.into_inner().unwrap() {
        return Err(e);
    }
    ordered(all.into_inner().unwrap())?;
    // Those left are listed, once each.
    let mut ids: Vec<u64> = block_on(sup.get_normal_connection())
        .iter()
        .map(|m| m.id())
        .collect();
    ids.sort();
    let n = ids.len();
    ids.dedup();
    let want = c.threads as usize * c.each.min(c.keep as u16) as usize;
    if n != ids.len() || n != want {
        violation!("{n} connections ({} different) instead of {want}", ids.len());
    }
    let last = c.first + c.threads as u64 * c.each as u64;
    let mut tags = vec![];
    if c.first <= u32::MAX as u64 && last > u32::MAX as u64 {
        tags.push("identifiers leave 32 bits");
    }
    Ok(Pass { nontrivial: c.threads > 1, tags })
}

fn run(r: &mut Report) {
    r.rule(
        "supervisor: threads register and remove connections at once, from \
         generated first identifiers (16 and 32 bit limits); non-trivial = \
         several threads.",
    );
    let first = prop_oneof![
        2 => Just(0u64),
        1 => (0u64..1000).prop_map(|d| 65_536 - d.min(65_000)),
        2 => (0u64..1000).prop_map(|d| (1u64 << 31) - d),
        3 => (0u64..1000).prop_map(|d| (1u64 << 32) - d),
        1 => (0u64..1000).prop_map(|d| (1u64 << 53) - d),
    ];
    let s = (first, 1u8..9, 1u16..400, 0u8..40).prop_map(
        |(first, threads, each, keep)| Case { first, threads, each, keep },
    );
    r.drive("supervisor", s, r.n(12_000, 200_000), check);
}

fn main() {
    libcheck::main("C10", run);
}
