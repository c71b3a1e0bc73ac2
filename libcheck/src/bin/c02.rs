//! C02: time to live, in the storage, with a clock of our own.
use coarsetime::{Duration, Instant};
use libcheck::*;
use proptest::prelude::*;
use roster::domain::dialer::Slot;
use roster::domain::storage::{SetOptions, Storage};
use rvcommon::{violation, Pass, Report, Res};
use serde::{Deserialize, Serialize};
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Op {
    /// same: the value it's always set to by these
    Set { key: u8, ttl: Option<u64>, part: u8, same: bool },
    Get { key: u8, part: u8 },
    /// The clock goes on by that many milliseconds
    Wait(u64),
    /// to (that many ms around) the end of a key
    Until { key: u8, off: i8 },
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Case {
    parts: u8,
    ops: Vec<Op>,
}

fn check(c: &Case) -> Res {
    let st = Storage::new(c.parts.into(), Slot::from(0..16384));
    let t0 = Instant::now();
    let at = |ms: u64| t0 + Duration::from_millis(ms);
    let mut now = 0u64;
    let mut model: HashMap<(u8, u8), (String, Option<u64>)> = HashMap::new();
    let (mut alive, mut gone, mut again, mut replaced) = (0, 0, 0, 0);
    for (i, op) in c.ops.iter().enumerate() {
        match op {
            Op::Wait(ms) => now += ms,
            Op::Until { key, off } => {
                let end = (0..c.parts)
                    .filter_map(|p| model.get(&(p, *key)).and_then(|x| x.1))
                    .filter(|e| *e > now)
                    .min();
                if let Some(e) = end {
                    now = now.max(e.saturating_add_signed(*off as i64));
                }
            }
            Op::Set { key, ttl, part, same } => {
                let part = part % c.parts;
                let val = if *same { "v".into() } else { format!("v{i}") };
                let end = ttl.map(|t| now + t);
                let seg = st.part(part as u16).1;
                let r = guarded(|| {
                    seg.set_async(
                        format!("k{key}").into(),
                        val.clone().into_bytes().into(),
                        SetOptions { expired: end.map(at) },
                    )
                    .is_ok()
                });
                if r != Ok(true) {
                    violation!("setting k{key} at {now}: {r:?}");
                }
                if let Some((_, Some(e))) =
                    model.insert((part, *key), (val, end))
                {
                    replaced += (e > now) as u32;
                    again += (e < now) as u32;
                }
            }
            Op::Get { key, part } => {
                let part = part % c.parts;
                let seg = st.part(part as u16).1;
                let r = guarded(|| {
                    block_on(seg.get_async(format!("k{key}").into(), at(now)))
                        .map(|b| String::from_utf8_lossy(&b).into_owned())
                });
                let want = match model.get(&(part, *key)) {
                    None => None,
                    // at the very end: either
                    Some((_, Some(e))) if *e == now => continue,
                    Some((_, Some(e))) if *e < now => {
                        gone += 1;
                        None
                    }
                    Some((v, e)) => {
                        alive += e.is_some() as u32;
                        Some(v.clone())
                    }
                };
                if r != Ok(want.clone()) {
                    violation!(
                        "k{key} at {now} ms is {r:?} instead of {want:?}, it \
                         was last set to {:?}",
                        model.get(&(part, *key))
                    );
                }
            }
        }
    }
    let mut tags = vec![];
    if again > 0 {
        tags.push("set again after its end");
    }
    if replaced > 0 {
        tags.push("time to live replaced");
    }
    Ok(Pass { nontrivial: alive > 0 && gone > 0, tags })
}

fn run(r: &mut Report) {
    r.rule(
        "clock: generated histories of the storage with a clock of the test, \
         times to live from a millisecond to months, reads around their ends \
         (the very millisecond excepted), against a map with ends; \
         non-trivial = a read before an end and a read after an end.",
    );
    let ms = prop_oneof![
        4 => 1u64..20,
        2 => 1u64..3000,
        1 => 1u64..10_000_000_000,
        1 => (0u32..30).prop_map(|s| 1u64 << s),
        1 => (1u64..100).prop_map(|s| s * 1000),
    ];
    let op = prop_oneof![
        4 => (
            0u8..3,
            proptest::option::weighted(0.7, ms.clone()),
            any::<u8>(),
            any::<bool>(),
        )
            .prop_map(|(key, ttl, part, same)| Op::Set { key, ttl, part, same }),
        6 => (0u8..3, any::<u8>()).prop_map(|(key, part)| Op::Get { key, part }),
        2 => ms.prop_map(Op::Wait),
        3 => (0u8..3, -2i8..=2).prop_map(|(key, off)| Op::Until { key, off }),
    ];
    let s = (
        prop_oneof![4 => Just(1u8), 1 => 2u8..4],
        proptest::collection::vec(op, 1..60),
    )
        .prop_map(|(parts, ops)| Case { parts, ops });
    r.drive("clock", s, r.n(60_000, 600_000), check);
}

fn main() {
    libcheck::main("C02", run);
}
