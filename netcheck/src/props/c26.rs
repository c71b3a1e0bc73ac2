//! C26: CLIENT LIST while connections come, go and change their names.
use proptest::prelude::*;
use rvcommon::resp::{decode, Dec, Val};
use rvcommon::{violation, Bad, Pass, Report, Res};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::net::{SocketAddr, TcpStream};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use crate::client::encode;
use crate::client::eventually;
use crate::model::{parse_entry, Entry};
use crate::server::{Opts, Server};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Case {
    /// These stay
    stay: u8,
    /// Of these so many are renamed all the time
    renamed: u8,
    listers: u8,
    /// Each thread opens that many, ends them, and again.
    waves: Vec<Vec<(u16, bool)>>,
    long: bool,
}

pub fn strat(size: u16) -> BoxedStrategy<Case> {
    let n = prop_oneof![
        2 => 1u16..30,
        3 => 30u16..size / 4,
        2 => size / 4..size,
    ];
    let wave = proptest::collection::vec((n, any::<bool>()), 1..5);
    (
        1u8..40,
        0u8..4,
        1u8..4,
        proptest::collection::vec(wave, 1..4),
        proptest::bool::weighted(0.3),
    )
        .prop_map(|(stay, renamed, listers, waves, long)| Case {
            stay,
            renamed: renamed.min(stay),
            listers,
            waves,
            long,
        })
        .boxed()
}

pub struct Talk {
    pub s: TcpStream,
    buf: Vec<u8>,
}

impl Talk {
    pub fn open(to: SocketAddr) -> Result<Talk, Bad> {
        let s = TcpStream::connect(to)?;
        s.set_nodelay(true)?;
        s.set_read_timeout(Some(Duration::from_secs(60)))?;
        Ok(Talk { s, buf: vec![] })
    }

    pub fn call(&mut self, cmd: &[&[u8]]) -> Result<Val, Bad> {
        self.s.write_all(&encode(cmd))?;
        self.buf.clear();
        let mut b = vec![0u8; 1 << 16];
        loop {
            let n = match self.s.read(&mut b) {
                Ok(0) => violation!("closed instead of a reply"),
                Ok(n) => n,
                Err(e) => violation!("no reply within 60 s: {e}"),
            };
            self.buf.extend(&b[..n]);
            if !self.buf.ends_with(b"\r\n") {
                continue;
            }
            match decode(&self.buf) {
                Dec::Ok(v, n) if n == self.buf.len() => return Ok(v),
                Dec::Ok(v, _) => violation!("more than one reply: {v:?} ..."),
                Dec::Incomplete => {}
                Dec::Bad(e) => violation!("malformed reply: {e}"),
            }
        }
    }

    fn reset(self) {
        let l = libc::linger { l_onoff: 1, l_linger: 0 };
        unsafe {
            libc::setsockopt(
                std::os::fd::AsRawFd::as_raw_fd(&self.s),
                libc::SOL_SOCKET,
                libc::SO_LINGER,
                &l as *const _ as *const _,
                std::mem::size_of::<libc::linger>() as u32,
            );
        }
    }
}

fn name_of(conn: usize, nth: u64, long: bool) -> String {
    let mut s = format!("c{conn}/{nth}/");
    if long && nth % 2 == 0 {
        s += &"n".repeat(3000 + nth as usize % 50);
    }
    s
}

struct Look {
    from: Duration,
    to: Duration,
    /// The identifiers which were asked for, if some were
    asked: Option<Vec<i64>>,
    entries: Vec<Entry>,
}

/// With `filters` the listers also ask for a TYPE, and for some identifiers.
pub fn check(c: &Case, filters: bool) -> Res {
    let mut sv = Server::start(&Opts::new())?;
    let to = sv.addr();
    let t0 = Instant::now();
    // The ones which stay: identifier, own address.
    let mut stay: Vec<(i64, String, Talk)> = vec![];
    for i in 0..c.stay as usize + c.listers as usize {
        let mut t = Talk::open(to)?;
        let Val::Int(id) = t.call(&[b"CLIENT", b"ID"])? else {
            violation!("CLIENT ID isn't a number")
        };
        let name = name_of(i, 0, c.long);
        t.call(&[b"CLIENT", b"SETNAME", name.as_bytes()])?;
        stay.push((id, t.s.local_addr()?.to_string(), t));
    }
    // The connection which saw that the server is up may still be listed.
    eventually(&mut sv, |_| {
        let v = stay[0].2.call(&[b"CLIENT", b"LIST"])?;
        Ok(match v {
            Val::Arr(es) if es.len() == stay.len() => Ok(()),
            v => Err(format!(
                "CLIENT LIST with {} open connections: {v:?}",
                stay.len()
            )),
        })
    })?;
    let known: Vec<(i64, String)> =
        stay.iter().map(|(i, a, _)| (*i, a.clone())).collect();
    let mut listers = stay.split_off(c.stay as usize);
    let (renamed, quiet) = stay.split_at_mut(c.renamed as usize);

    let stop = AtomicBool::new(false);
    let trouble: Mutex<Option<Bad>> = Mutex::new(None);
    let looks: Mutex<Vec<Look>> = Mutex::new(vec![]);
    // Who else was open: address -> when it began
    let others: Mutex<BTreeMap<String, Duration>> = Mutex::new(BTreeMap::new());
    // Names of a renamed one: when it was asked for, when it was there
    let names: Mutex<BTreeMap<usize, Vec<(Duration, Duration)>>> =
        Mutex::new(BTreeMap::new());
    let go = |r: Result<(), Bad>| {
        if let Err(e) = r {
            trouble.lock().unwrap().get_or_insert(e);
            stop.store(true, Ordering::SeqCst);
        }
    };
    std::thread::scope(|sc| {
        for (i, (_, _, t)) in renamed.iter_mut().enumerate() {
            let (stop, names, go) = (&stop, &names, &go);
            sc.spawn(move || {
                let mut mine = vec![];
                go((|| {
                    for n in 1.. {
                        if stop.load(Ordering::SeqCst) {
                            break;
                        }
                        let from = t0.elapsed();
                        let name = name_of(i, n, c.long);
                        let v = t.call(&[b"CLIENT", b"SETNAME", name.as_bytes()])?;
                        if v != Val::simple("OK") {
                            violation!("SETNAME of a valid name: {v:?}");
                        }
                        mine.push((from, t0.elapsed()));
                    }
                    Ok(())
                })());
                names.lock().unwrap().insert(i, mine);
            });
        }
        for (id, _, t) in listers.iter_mut() {
            let (stop, looks, go, known) = (&stop, &looks, &go, &known);
            let me = *id;
            sc.spawn(move || {
                let mut mine = vec![];
                go((|| {
                    for turn in 0usize.. {
                        if stop.load(Ordering::SeqCst) {
                            break;
                        }
                        // Some of those which stay, and some which may have been
                        let mut asked = None;
                        let mut cmd = vec!["CLIENT".to_string(), "LIST".to_string()];
                        let which = if filters { turn % 3 + 1 } else { 0 };
                        if which == 1 || which == 3 {
                            cmd.extend(["TYPE".into(), "normal".into()]);
                        }
                        if which >= 2 {
                            let mut ids: Vec<i64> = known
                                .iter()
                                .map(|k| k.0)
                                .filter(|i| (*i as usize * 7 + turn / 3) % 3 > 0)
                                .collect();
                            ids.extend((0..40).map(|i| (turn as i64 / 3 + i * 13) % 3000));
                            cmd.push("ID".into());
                            cmd.extend(ids.iter().map(|i| i.to_string()));
                            asked = Some(ids);
                        }
                        let cmd: Vec<&[u8]> =
                            cmd.iter().map(|a| a.as_bytes()).collect();
                        let from = t0.elapsed();
                        let v = t.call(&cmd)?;
                        let to = t0.elapsed();
                        let Val::Arr(v) = v else {
                            violation!("CLIENT LIST isn't an array: {v:?}")
                        };
                        let entries: Result<_, _> =
                            v.iter().map(parse_entry).collect();
                        mine.push(Look { from, to, asked, entries: entries? });
                        let e = parse_entry(&t.call(&[b"CLIENT", b"INFO"])?)?;
                        if e.id != me {
                            violation!("CLIENT INFO of {me} shows {e:?}");
                        }
                    }
                    Ok(())
                })());
                looks.lock().unwrap().append(&mut mine);
            });
        }
        let workers: Vec<_> = c
            .waves
            .iter()
            .map(|waves| {
                let (stop, others, go) = (&stop, &others, &go);
                sc.spawn(move || {
                    go((|| {
                        for (n, reset) in waves {
                            let mut open = vec![];
                            for _ in 0..*n {
                                if stop.load(Ordering::SeqCst) {
                                    return Ok(());
                                }
                                let from = t0.elapsed();
                                let t = Talk::open(to)?;
                                let a = t.s.local_addr()?.to_string();
                                others.lock().unwrap().entry(a).or_insert(from);
                                open.push(t);
                            }
                            for t in &mut open {
                                if t.call(&[b"PING"])? != Val::simple("PONG") {
                                    violation!("PING isn't answered by PONG");
                                }
                            }
                            for t in open {
                                if *reset {
                                    t.reset();
                                }
                            }
                        }
                        Ok(())
                    })());
                })
            })
            .collect();
        for w in workers {
            let _ = w.join();
        }
        std::thread::sleep(Duration::from_millis(20));
        stop.store(true, Ordering::SeqCst);
    });
    sv.check_alive()?;
    if let Some(e) = trouble.into_inner().unwrap() {
        return Err(e);
    }
    drop(quiet);

    let others = others.into_inner().unwrap();
    let names = names.into_inner().unwrap();
    let laddr = to.to_string();
    let mut largest = 0;
    for l in looks.into_inner().unwrap() {
        largest = largest.max(l.entries.len());
        let mut seen = BTreeSet::new();
        for e in &l.entries {
            if !seen.insert(e.id) {
                violation!(
                    "CLIENT LIST shows connection {} twice ({} entries) while \
                     others come and go",
                    e.id,
                    l.entries.len()
                );
            }
            if l.asked.as_ref().map(|a| !a.contains(&e.id)).unwrap_or(false) {
                violation!("CLIENT LIST of some identifiers shows {e:?} as well");
            }
            if e.laddr != laddr {
                violation!("entry {e:?} of a connection to {laddr}");
            }
            let Some(i) = known.iter().position(|k| k.0 == e.id) else {
                match others.get(&e.addr) {
                    Some(from) if *from <= l.to => {}
                    _ => violation!("CLIENT LIST shows {e:?}, nobody's connection"),
                }
                if !e.name.is_empty() {
                    violation!("entry {e:?} of a connection without a name");
                }
                continue;
            };
            if e.addr != known[i].1 {
                violation!("entry {e:?} of the connection from {}", known[i].1);
            }
            // The name is the last one which was there before, or one of
            // those asked for since.
            let none = vec![];
            let h = names.get(&i).filter(|_| i < c.renamed as usize).unwrap_or(&none);
            let first = h.iter().filter(|n| n.1 < l.from).count();
            let last = h.iter().filter(|n| n.0 <= l.to).count();
            let ok = (first..=last)
                .any(|n| name_of(i, n as u64, c.long).as_bytes() == &e.name[..]);
            if !ok {
                violation!(
                    "the name of connection {} is shown as {:?}: not one of \
                     its names number {first} to {last}",
                    e.id,
                    String::from_utf8_lossy(&e.name[..e.name.len().min(40)])
                );
            }
        }
        for (id, addr) in &known {
            let asked = l.asked.as_ref().map(|a| a.contains(id)).unwrap_or(true);
            if asked && !seen.contains(id) {
                violation!(
                    "CLIENT LIST misses connection {id} from {addr}, open all \
                     the time, while others come and go"
                );
            }
        }
    }
    let mut tags = vec![];
    if largest > 200 {
        tags.push("more than 200 entries");
    }
    if c.renamed > 0 {
        tags.push("renaming");
    }
    Ok(Pass { nontrivial: filters || largest > known.len(), tags })
}

pub fn run(r: &mut Report) {
    r.rule(
        "churn: some connections ask for CLIENT LIST all the time while others \
         are opened and ended in waves and some change their names; each reply \
         must have every connection which stays exactly once, with its \
         addresses and one of the names it had meanwhile, and otherwise only \
         ones the clients opened; non-trivial = a reply had some of those.",
    );
    let n = r.n(60, 600);
    let size = r.n(500, 1500) as u16;
    r.drive("churn", strat(size), n, |c| check(c, false));
}
