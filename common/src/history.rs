//! Oracles over concurrent histories.
use crate::{violation, Bad};
use std::collections::{BTreeMap, HashMap};

/// An operation on a register, with the times it started and was answered.
#[derive(Clone, Copy, Debug)]
pub struct Op {
    pub start: u64,
    pub end: u64,
    pub write: bool,
    /// Unique per write, 0 is the initial value
    pub val: u64,
}

/// Is the history of a register linearizable, given that each value is written
/// once? (Gibbons and Korach: the zones of the values.)
pub fn linearizable(key: &str, ops: &[Op]) -> Result<(), Bad> {
    struct Cluster {
        /// earliest end, latest start
        f: u64,
        s: u64,
        write: Option<(u64, u64)>,
    }
    let mut c: HashMap<u64, Cluster> = HashMap::new();
    // The initial value, written before everything.
    c.insert(0, Cluster { f: 0, s: 0, write: Some((0, 0)) });
    for o in ops {
        let e = c.entry(o.val).or_insert(Cluster {
            f: u64::MAX,
            s: 0,
            write: None,
        });
        e.f = e.f.min(o.end);
        e.s = e.s.max(o.start);
        if o.write {
            if e.write.is_some() {
                return Err(Bad::Harness(format!("{} written twice", o.val)));
            }
            e.write = Some((o.start, o.end));
        }
    }
    for o in ops.iter().filter(|o| !o.write) {
        match c[&o.val].write {
            None => violation!("key {key}: {} is read, never written", o.val),
            Some((ws, _)) if o.end < ws => violation!(
                "key {key}: {} is read (until {}) before it's written (from \
                 {ws})",
                o.val,
                o.end
            ),
            _ => {}
        }
    }
    // Forward zones: from when the value is in place to when it's still there.
    let mut fwd: Vec<(u64, u64, u64)> = c
        .iter()
        .filter(|(_, z)| z.f < z.s)
        .map(|(v, z)| (z.f, z.s, *v))
        .collect();
    fwd.sort();
    for w in fwd.windows(2) {
        if w[1].0 < w[0].1 {
            violation!(
                "key {key}: value {} was in place at {} and still is at {}, \
                 value {} at {} and {}",
                w[0].2,
                w[0].0,
                w[0].1,
                w[1].2,
                w[1].0,
                w[1].1
            );
        }
    }
    for (v, z) in c.iter().filter(|(_, z)| z.f >= z.s) {
        // The last forward zone which starts before this one.
        let i = fwd.partition_point(|w| w.0 < z.s);
        if i > 0 && z.f < fwd[i - 1].1 {
            let w = fwd[i - 1];
            violation!(
                "key {key}: value {v} was in place between {} and {}, while \
                 value {} was from {} to {}",
                z.s,
                z.f,
                w.2,
                w.0,
                w.1
            );
        }
    }
    Ok(())
}

/// Identifiers: unique, and greater than those known before they were asked
/// for. (when it was asked for, when it was known, identifier)
pub fn ordered(mut all: Vec<(u64, u64, i64)>) -> Result<(), Bad> {
    let mut ids: BTreeMap<i64, usize> = BTreeMap::new();
    for (i, x) in all.iter().enumerate() {
        if ids.insert(x.2, i).is_some() {
            violation!("id {} is given to two connections", x.2);
        }
    }
    let mut known: Vec<(u64, i64)> = all.iter().map(|x| (x.1, x.2)).collect();
    known.sort();
    all.sort();
    let mut k = 0;
    let mut max = i64::MIN;
    for (from, _, id) in &all {
        while k < known.len() && known[k].0 < *from {
            max = max.max(known[k].1);
            k += 1;
        }
        if *id < max {
            violation!(
                "a connection opened after connection {max} was answered has \
                 id {id}"
            );
        }
    }
    Ok(())
}

#[cfg(test)]
mod tests {
    use super::*;

    /// Against all the orders of small histories.
    #[test]
    fn agrees_with_brute_force() {
        fn brute(ops: &[Op]) -> bool {
            fn go(ops: &[Op], done: u32, cur: u64) -> bool {
                let all = (1u32 << ops.len()) - 1;
                if done == all {
                    return true;
                }
                for i in 0..ops.len() {
                    if done >> i & 1 == 1 {
                        continue;
                    }
                    // nothing left ended before it started
                    if (0..ops.len()).any(|j| {
                        done >> j & 1 == 0 && ops[j].end < ops[i].start
                    }) {
                        continue;
                    }
                    let o = ops[i];
                    if o.write {
                        if go(ops, done | 1 << i, o.val) {
                            return true;
                        }
                    } else if o.val == cur && go(ops, done | 1 << i, cur) {
                        return true;
                    }
                }
                false
            }
            go(ops, 0, 0)
        }
        let mut x = 88172645463325252u64;
        let mut r = |n: u64| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            x % n
        };
        let mut seen = [0, 0];
        for _ in 0..200_000 {
            let n = 2 + r(5);
            // distinct times
            let mut times: Vec<u64> = (1..=2 * n).collect();
            for i in (1..times.len()).rev() {
                times.swap(i, r(i as u64 + 1) as usize);
            }
            let writes = 1 + r(3).min(n - 1);
            let ops: Vec<Op> = (0..n)
                .map(|i| {
                    let a = times[2 * i as usize];
                    let b = times[2 * i as usize + 1];
                    Op {
                        start: a.min(b),
                        end: a.max(b),
                        write: i < writes,
                        val: if i < writes { i + 1 } else { r(writes + 1) },
                    }
                })
                .collect();
            let w = brute(&ops);
            seen[w as usize] += 1;
            assert_eq!(w, linearizable("k", &ops).is_ok(), "{ops:?}");
        }
        assert!(seen[0] > 1000 && seen[1] > 1000);
    }
}
