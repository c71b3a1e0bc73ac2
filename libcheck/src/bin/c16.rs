//! C16: segments.
use coarsetime::Instant;
use libcheck::*;
use proptest::prelude::*;
use roster::domain::dialer::Slot;
use roster::domain::storage::{SetOptions, Storage, StorageSegment};
use rvcommon::{isolate, violation, Bad, Pass, Report, Res};
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicU64, Ordering};

const SLOTS: u16 = 16384;

fn new(n: u16) -> Result<Storage, Bad> {
    guarded(|| Storage::new(n, Slot::from(0..SLOTS)))
        .map_err(|e| Bad::Violation(format!("{n} segments: panic: {e}")))
}

fn partition(st: &Storage, n: u16) -> Result<(), Bad> {
    let g = st.global_slot();
    if g.start != 0 || g.end != SLOTS {
        violation!("{n} segments: the whole range is {g:?}");
    }
    let slots = st.slots();
    if slots.len() != n as usize {
        violation!("{n} segments: there are {}", slots.len());
    }
    // "contiguous, disjoint, non-empty, together all", in any order
    let mut v: Vec<(u16, u16)> = slots.iter().map(|s| (s.start, s.end)).collect();
    v.sort();
    let mut at = 0;
    for (a, b) in v {
        if a != at || b <= a {
            violation!("{n} segments: a range is {a}..{b} after {at}");
        }
        at = b;
    }
    if at != SLOTS {
        violation!("{n} segments: slots from {at} on belong to none");
    }
    Ok(())
}

fn put(s: &StorageSegment, key: &str, val: &str) {
    let _ = s.set_async(
        key.to_string().into(),
        val.as_bytes().to_vec().into(),
        SetOptions { expired: None },
    );
}

fn get(s: &StorageSegment, key: &str) -> Option<String> {
    block_on(s.get_async(key.to_string().into(), Instant::now()))
        .map(|b| String::from_utf8_lossy(&b).into_owned())
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Op {
    Set { part: u16, key: u8 },
    /// through a handle taken earlier
    SetOld { handle: u16, key: u8 },
    Get { part: u16, key: u8 },
    GetOld { handle: u16, key: u8 },
    /// of a clone of the storage
    GetClone { part: u16, key: u8 },
    Owner { slot: u16 },
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Case {
    n: u16,
    ops: Vec<Op>,
}

fn history(c: &Case) -> Res {
    let st = new(c.n)?;
    partition(&st, c.n)?;
    let other = st.clone();
    let slots = st.slots();
    let mut handles: Vec<(u16, StorageSegment)> = vec![];
    let mut model = std::collections::HashMap::<(u16, u8), String>::new();
    let mut shared = 0;
    let part = |st: &Storage, p: u16| -> Result<StorageSegment, Bad> {
        let (slot, seg) = guarded(|| st.part(p)).map_err(|e| {
            Bad::Violation(format!("part {p} of {}: panic: {e}", c.n))
        })?;
        let w = &slots[(p % c.n) as usize];
        if (slot.start, slot.end) != (w.start, w.end) {
            violation!("part {p} of {} has slots {slot:?}, not {w:?}", c.n);
        }
        Ok(seg)
    };
    for (i, op) in c.ops.iter().enumerate() {
        let (p, key, seg, set) = match op {
            Op::Set { part: p, key } => (*p, *key, part(&st, *p)?, true),
            Op::Get { part: p, key } => (*p, *key, part(&st, *p)?, false),
            Op::GetClone { part: p, key } => {
                (*p, *key, part(&other, *p)?, false)
            }
            Op::SetOld { handle, key } | Op::GetOld { handle, key } => {
                if handles.is_empty() {
                    continue;
                }
                let (p, seg) = &handles[*handle as usize % handles.len()];
                (*p, *key, seg.clone(), matches!(op, Op::SetOld { .. }))
            }
            Op::Owner { slot } => {
                let slot = slot % SLOTS;
                for p in 0..c.n.min(300) {
                    let p = (p as u32 * c.n as u32 / c.n.min(300) as u32) as u16;
                    let seg = part(&st, p)?;
                    if seg.is_in_slot(slot) != slots[p as usize].contains(&slot)
                    {
                        violation!(
                            "part {p} of {}, which has {:?}, is wrong about \
                             slot {slot}",
                            c.n,
                            slots[p as usize]
                        );
                    }
                }
                continue;
            }
        };
        let at = (p % c.n, key);
        if set {
            let val = format!("v{i}");
            put(&seg, &format!("k{key}"), &val);
            model.insert(at, val);
        } else {
            let got = get(&seg, &format!("k{key}"));
            let want = model.get(&at).cloned();
            shared += want.is_some() as u32;
            if got != want {
                violation!(
                    "{} segments: part {p} gives {got:?} for k{key} instead \
                     of {want:?}",
                    c.n
                );
            }
        }
        handles.push((p, seg));
    }
    let tags = if c.n > 1000 { vec!["more than 1000 segments"] } else { vec![] };
    Ok(Pass { nontrivial: shared > 1 && c.n > 1, tags })
}

fn every(r: &mut Report, ns: Vec<u16>) {
    if r.shrinking() {
        return;
    }
    isolate::begin("every number of segments", 0, || "null".into());
    let bad = std::sync::Mutex::new(None);
    let next = AtomicU64::new(0);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::Relaxed) as usize;
                if i >= ns.len() || bad.lock().unwrap().is_some() {
                    return;
                }
                let n = ns[i];
                isolate::tick();
                let x = new(n).and_then(|st| {
                    partition(&st, n)?;
                    let slots = st.slots();
                    // parts beyond the number of segments
                    let n32 = n as u32;
                    for p in [0, n32 - 1, n32, n32 + 1, 2 * n32 - 1, 65535, 40_000] {
                        let Ok(p) = u16::try_from(p) else { continue };
                        let (slot, seg) =
                            guarded(|| st.part(p)).map_err(|e| {
                                Bad::Violation(format!(
                                    "part {p} of {n}: panic: {e}"
                                ))
                            })?;
                        let w = &slots[(p % n) as usize];
                        let probe = [w.start, w.end - 1];
                        if (slot.start, slot.end) != (w.start, w.end)
                            || !probe.iter().all(|x| seg.is_in_slot(*x))
                            || seg.is_in_slot(w.end)
                            || (w.start > 0 && seg.is_in_slot(w.start - 1))
                        {
                            violation!(
                                "part {p} of {n} has {slot:?} instead of {w:?}"
                            );
                        }
                    }
                    Ok(())
                });
                if let Err(e) = x {
                    *bad.lock().unwrap() = Some((n, e));
                }
            });
        }
    });
    if let Some((n, e)) = bad.into_inner().unwrap() {
        r.one("history", Case { n, ops: vec![] }, |_| Err(e));
    }
    r.bulk("every number of segments", ns.len() as u64, ns.len() as u64);
}

fn run(r: &mut Report) {
    r.rule(
        "every number of segments: the ranges of all numbers of segments from \
         1 to 16384 are checked to partition the slots. history: generated \
         writes and reads through parts of any number, handles kept from \
         earlier and clones, against one map per segment; non-trivial = two \
         reads or more see a write, several segments.",
    );
    every(r, (1..=SLOTS).collect());
    let n = prop_oneof![
        4 => 1u16..20,
        2 => 1u16..=2000,
        2 => (0u32..15, -2i32..=2).prop_map(|(s, d)|
            ((1i32 << s) + d).clamp(1, 16384) as u16),
        1 => 1u16..=16384,
    ];
    let s = n.prop_flat_map(|n| {
        let part = prop_oneof![
            3 => 0..n,
            2 => (0..n.min(4), 0u16..6).prop_map(move |(p, k)|
                p.saturating_add(k.saturating_mul(n))),
            1 => any::<u16>(),
        ];
        let key = 0u8..3;
        let op = prop_oneof![
            4 => (part.clone(), key.clone()).prop_map(|(part, key)| Op::Set { part, key }),
            2 => (any::<u16>(), key.clone()).prop_map(|(handle, key)| Op::SetOld { handle, key }),
            4 => (part.clone(), key.clone()).prop_map(|(part, key)| Op::Get { part, key }),
            3 => (any::<u16>(), key.clone()).prop_map(|(handle, key)| Op::GetOld { handle, key }),
            2 => (part, key).prop_map(|(part, key)| Op::GetClone { part, key }),
            1 => any::<u16>().prop_map(|slot| Op::Owner { slot }),
        ];
        (Just(n), proptest::collection::vec(op, 1..60))
    });
    let s = s.prop_map(|(n, ops)| Case { n, ops });
    r.drive("history", s, r.n(18_000, 300_000), history);
}

fn main() {
    libcheck::main("C16", run);
}
