//! Histories: steps over several connections to one server, every reply is
//! compared to the model.
use std::collections::BTreeMap;
use std::time::Duration;

use proptest::prelude::*;
use rvcommon::resp::{Arg, Val};
use rvcommon::{violation, Bad, Blob, Report, Res};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};

use crate::client::{encode, Conn, End, Reply};
use crate::model::{check, check_entry, parse_entry, ConnState, Expect, Model};
use crate::server::{Opts, Server};

/// How request bytes are cut into writes.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Seg {
    Whole,
    /// Chunks of so many bytes, for the first 400 chunks
    Every(usize),
    /// Cut at these fractions (of 65536) of the bytes
    Cuts(Vec<u16>),
    /// Cut so many bytes after the start of each command (up to 40 cuts)
    InCmd(usize),
    /// Cut so many bytes before the end of each command (up to 40 cuts)
    BeforeEnd(usize),
    /// Cut right where the `n`th CR LF of the stream is in two (up to 40 cuts,
    /// every `step`)
    InCrLf(usize),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Send {
    pub seg: Seg,
    /// pause between the writes
    pub us: u64,
    /// Don't read until everything is sent
    pub hold: bool,
    /// then wait that long before reading
    pub hold_ms: u64,
    /// Read by that many bytes, with such pauses (µs)
    pub pace: Option<(usize, u64)>,
}

impl Send {
    pub fn plain() -> Send {
        Send { seg: Seg::Whole, us: 0, hold: false, hold_ms: 0, pace: None }
    }
}

pub type Cmd = Vec<Arg>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Ending {
    Close,
    HalfClose,
    Reset,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Step {
    /// Run the commands on a connection (opened at its first use)
    Batch { conn: u8, cmds: Vec<Cmd>, send: Send },
    /// End the connection, its next use opens another one
    End { conn: u8, how: Ending },
}

pub fn encode_cmd(c: &Cmd, out: &mut Vec<u8>) {
    Arg::Arr(c.clone()).encode(out)
}

pub fn cuts(seg: &Seg, bytes: &[u8], starts: &[usize]) -> Vec<usize> {
    let n = bytes.len();
    let mut v: Vec<usize> = match seg {
        Seg::Whole => vec![],
        Seg::Every(k) => {
            (1..=400usize).map(|i| i * (*k).max(1)).collect()
        }
        Seg::Cuts(f) => {
            f.iter().map(|x| *x as usize * n / 65536).collect()
        }
        Seg::InCmd(k) => {
            let step = (starts.len() / 40).max(1);
            starts.iter().step_by(step).map(|s| s + k).collect()
        }
        Seg::BeforeEnd(k) => {
            let step = (starts.len() / 40).max(1);
            starts
                .iter()
                .skip(1)
                .chain([&n])
                .step_by(step)
                .map(|s| s.saturating_sub(*k))
                .collect()
        }
        Seg::InCrLf(step) => {
            let pos: Vec<usize> = bytes
                .windows(2)
                .enumerate()
                .filter(|(_, w)| w == b"\r\n")
                .map(|(i, _)| i + 1)
                .collect();
            let step = (*step).max(1).max(pos.len() / 40);
            pos.into_iter().step_by(step).collect()
        }
    };
    v.retain(|c| *c > 0 && *c < n);
    v.sort();
    v.dedup();
    v
}

pub struct Live {
    pub conn: Conn,
    pub st: ConnState,
}

/// A server shared by the cases of a check, replaced when a case fails.
pub struct Bench {
    pub opts: fn() -> Opts,
    pub server: Option<Server>,
    pub cases: u64,
    pub facts: Option<Val>,
}

impl Bench {
    pub fn new(opts: fn() -> Opts) -> Bench {
        Bench { opts, server: None, cases: 0, facts: None }
    }

    /// Run a case; a failure throws the server away.
    pub fn run<T>(
        &mut self,
        f: impl FnOnce(&mut Server, u64, &mut Option<Val>) -> Result<T, Bad>,
    ) -> Result<T, Bad> {
        self.cases += 1;
        if self.server.is_none() {
            self.facts = None;
            self.server = Some(Server::start(&(self.opts)())?);
        }
        let sv = self.server.as_mut().unwrap();
        let mut r = f(sv, self.cases, &mut self.facts);
        if r.is_ok() {
            r = sv.check_alive().and(r);
        }
        if let Err(e) = &mut r {
            if let (Bad::Violation(m), Some(why)) = (e, sv.dead()) {
                if !m.contains("died") {
                    m.push_str(&format!(" (the server died: {why})"));
                }
            }
            self.server = None;
        }
        r
    }
}

/// Time which passes for a server: its clock jumps, and real time passes
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Wait {
    pub clock_ms: u64,
    pub ms: u16,
}

impl Wait {
    pub fn pass(&self, sv: &mut Server) {
        if let Some(c) = &mut sv.clock {
            c.advance(self.clock_ms * 1_000_000);
        }
        std::thread::sleep(Duration::from_millis(self.ms as u64));
    }

    /// Up to weeks for the clock, tens of milliseconds really
    pub fn any() -> BoxedStrategy<Wait> {
        let clock_ms = prop_oneof![
            2 => 0u64..10_000,
            3 => 10_000u64..1_000_000,
            2 => 1_000_000u64..2_600_000_000,
        ];
        (clock_ms, 1u16..30)
            .prop_map(|(clock_ms, ms)| Wait { clock_ms, ms })
            .boxed()
    }
}

/// Every thread of the server gets something to do.
pub fn wake(sv: &mut Server) -> Result<(), Bad> {
    let mut cs = vec![];
    for i in 0..64 {
        let mut c = Conn::open(sv.addr())?;
        let b = encode(&[b"PING", i.to_string().as_bytes()]);
        c.send(sv, &b, false)?;
        cs.push(c);
    }
    for (i, c) in cs.iter_mut().enumerate() {
        match c.reply(sv)? {
            Reply::Val(v) if v == Val::bulk(i.to_string()) => {}
            v => violation!("PING {i} of a new connection is answered {v:?}"),
        }
    }
    Ok(())
}

/// A case for a server which already had so many connections
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Aged<C> {
    first: u64,
    case: C,
}

/// Cases on servers whose first identifier is anywhere in 63 bits, mostly just
/// before the end of some number of bits.
pub fn aged<C>(
    r: &mut Report,
    cases: BoxedStrategy<C>,
    n: u32,
    opts: fn() -> Opts,
    mut check: impl FnMut(&mut Bench, &C) -> Res,
) where
    C: Clone + std::fmt::Debug + std::hash::Hash + Serialize + DeserializeOwned + 'static,
{
    if crate::server::aged_binary().is_none() {
        r.assume(
            "aged: left out, the server with a first identifier of our choice \
             doesn't build",
        );
        return;
    }
    let first = prop_oneof![
        6 => (proptest::sample::select(vec![8u32, 15, 16, 24, 31, 32, 32, 53, 62]), 0u64..12)
            .prop_map(|(bits, before)| (1u64 << bits) - before),
        1 => (4u32..19, 0u64..12).prop_map(|(n, before)| 10u64.pow(n) - before),
        1 => (0u32..63).prop_flat_map(|bits| 0..1u64 << bits),
    ];
    let s = (first, cases).prop_map(|(first, case)| Aged { first, case }).boxed();
    r.drive("aged", s, n, |c: &Aged<C>| {
        let o = Opts { first_id: Some(c.first), ..opts() };
        let mut b = Bench::new(opts);
        b.server = Some(Server::start(&o)?);
        check(&mut b, &c.case)
    });
}

#[derive(Default, Debug, Clone)]
pub struct Stats {
    pub cmds: usize,
    pub chunks: usize,
    pub errors: usize,
    pub closed: usize,
    pub nulls: usize,
    pub bytes_in: usize,
    pub largest_reply: usize,
    pub max_batch: usize,
}

pub struct World<'a> {
    pub sv: &'a mut Server,
    pub model: Model,
    pub live: BTreeMap<u8, Live>,
    pub stats: Stats,
    pub facts: &'a mut Option<Val>,
    /// Receive buffer of the connections
    pub rcvbuf: Option<usize>,
    pub slow: bool,
}

impl<'a> World<'a> {
    pub fn new(
        sv: &'a mut Server,
        facts: &'a mut Option<Val>,
    ) -> World<'a> {
        World {
            sv,
            model: Model::default(),
            live: BTreeMap::new(),
            stats: Stats::default(),
            facts,
            rcvbuf: None,
            slow: false,
        }
    }

    pub fn open(&mut self, c: u8) -> Result<(), Bad> {
        if self.live.contains_key(&c) {
            return Ok(());
        }
        let to = self.sv.addr();
        let conn =
            Conn::open_with(to, None, if self.slow { self.rcvbuf } else { None })?;
        let mut st = ConnState::new(conn.local, conn.peer);
        st.hello = self.facts.clone();
        self.live.insert(c, Live { conn, st });
        Ok(())
    }

    pub fn run(&mut self, steps: &[Step]) -> Result<(), Bad> {
        for (i, s) in steps.iter().enumerate() {
            self.step(s).map_err(|e| match e {
                Bad::Violation(m) => {
                    Bad::Violation(format!("step {}: {m}", i + 1))
                }
                e => e,
            })?;
        }
        Ok(())
    }

    pub fn step(&mut self, s: &Step) -> Result<(), Bad> {
        match s {
            Step::End { conn, how } => {
                if let Some(l) = self.live.remove(conn) {
                    end(self.sv, l.conn, *how)?;
                }
                Ok(())
            }
            Step::Batch { conn, cmds, send } => {
                if send.pace.is_some() || send.hold {
                    self.slow = true;
                }
                self.open(*conn)?;
                self.slow = false;
                let mut l = self.live.remove(conn).unwrap();
                let open = self.batch(&mut l, cmds, send)?;
                if open {
                    if let Some(h) = &l.st.hello {
                        *self.facts = Some(h.clone());
                    }
                    self.live.insert(*conn, l);
                }
                Ok(())
            }
        }
    }

    /// Gives whether the connection is still open.
    pub fn batch(
        &mut self,
        l: &mut Live,
        cmds: &[Cmd],
        send: &Send,
    ) -> Result<bool, Bad> {
        let mut bytes = vec![];
        let mut starts = vec![];
        for c in cmds {
            starts.push(bytes.len());
            encode_cmd(c, &mut bytes);
        }
        self.stats.bytes_in += bytes.len();
        self.stats.max_batch = self.stats.max_batch.max(cmds.len());
        let mut at = 0;
        let mut cut = cuts(&send.seg, &bytes, &starts);
        cut.push(bytes.len());
        let mut total_pause = 0;
        for c in cut {
            l.conn.send(self.sv, &bytes[at..c], send.hold)?;
            self.stats.chunks += 1;
            at = c;
            if send.us > 0 && c < bytes.len() && total_pause < 400_000 {
                std::thread::sleep(Duration::from_micros(send.us));
                total_pause += send.us;
            }
            if !send.hold {
                l.conn.drain(send.pace.map(|p| p.0).unwrap_or(usize::MAX));
            }
        }
        if send.hold && send.hold_ms > 0 {
            std::thread::sleep(Duration::from_millis(send.hold_ms));
        }
        // Slow reading, but a case has to end.
        let mut paced = 0;
        for (i, c) in cmds.iter().enumerate() {
            let exp = self.model.exec(&mut l.st, c);
            let pace = send.pace.filter(|_| paced < 150).map(|(n, us)| {
                paced += 1;
                (n, Duration::from_micros(us))
            });
            let what = || show_cmd(c);
            match l.conn.reply_paced(self.sv, pace)? {
                Reply::Val(v) => {
                    self.stats.cmds += 1;
                    match &v {
                        Val::Err(_) => self.stats.errors += 1,
                        Val::Null => self.stats.nulls += 1,
                        Val::Bulk(b) => {
                            self.stats.largest_reply =
                                self.stats.largest_reply.max(b.len())
                        }
                        Val::Arr(a) => {
                            self.stats.largest_reply =
                                self.stats.largest_reply.max(a.len() * 60)
                        }
                        _ => {}
                    }
                    check(&exp, &v, &mut l.st).map_err(|e| match e {
                        Bad::Violation(m) => Bad::Violation(format!(
                            "command {} {}: {m}",
                            i + 1,
                            what()
                        )),
                        e => e,
                    })?;
                }
                Reply::Closed(e) => {
                    if !matches!(exp, Expect::ErrorOrClose | Expect::Any) {
                        violation!(
                            "command {} {}: the connection was closed ({e:?}) \
                             instead of a reply",
                            i + 1,
                            what()
                        );
                    }
                    self.stats.closed += 1;
                    return Ok(false);
                }
            }
        }
        // Nothing more than the replies.
        l.conn.drain(usize::MAX);
        if l.conn.inbuf.len() > l.conn.pos {
            violation!(
                "more is received than the replies: {:?}",
                l.conn.inbuf[l.conn.pos..]
                    [..(l.conn.inbuf.len() - l.conn.pos).min(200)]
                    .escape_ascii()
                    .to_string()
            );
        }
        if l.conn.end.is_some() {
            violation!("the connection is closed by the server after replies");
        }
        Ok(true)
    }

    /// A unique PING on each open connection: no reply is missing, none is
    /// left over.
    pub fn barrier(&mut self) -> Result<(), Bad> {
        let ids: Vec<u8> = self.live.keys().copied().collect();
        for (i, c) in ids.into_iter().enumerate() {
            let mut l = self.live.remove(&c).unwrap();
            let tok = format!("barrier-{i}-{}", self.stats.cmds);
            let got = l.conn.call(self.sv, &[b"PING", tok.as_bytes()])?;
            if got != Val::bulk(&tok) {
                violation!("PING {tok} answered {got:?}: replies are shifted");
            }
            self.live.insert(c, l);
        }
        Ok(())
    }

    /// What CLIENT LIST says of the open connections, to another one.
    pub fn audit_list(&mut self) -> Result<(), Bad> {
        self.open(251)?;
        let mut l = self.live.remove(&251).unwrap();
        let v = l.conn.call(self.sv, &[b"CLIENT", b"LIST"])?;
        let Val::Arr(es) = &v else { violation!("CLIENT LIST: {v:?}") };
        let mut seen = 0;
        for e in es {
            let e = parse_entry(e)?;
            if let Some(x) = self.live.values_mut().find(|x| {
                x.conn.local.to_string() == e.addr
                    && x.conn.peer.to_string() == e.laddr
            }) {
                check_entry(&e, &mut x.st)?;
                seen += 1;
            }
        }
        if seen != self.live.len() {
            violation!(
                "CLIENT LIST shows {seen} of the {} other connections",
                self.live.len()
            );
        }
        Ok(())
    }

    /// Read every key back, from some connection.
    pub fn audit(&mut self) -> Result<(), Bad> {
        if self.model.db.is_empty() {
            return Ok(());
        }
        let mut keys: Vec<Vec<u8>> = self.model.db.keys().cloned().collect();
        keys.sort();
        self.open(250)?;
        for ch in keys.chunks(64) {
            let cmds: Vec<Cmd> = ch
                .iter()
                .map(|k| vec![Arg::bulk("GET"), Arg::bulk(k)])
                .collect();
            self.step(&Step::Batch { conn: 250, cmds, send: Send::plain() })?;
        }
        Ok(())
    }
}

pub fn end(sv: &mut Server, mut c: Conn, how: Ending) -> Result<(), Bad> {
    match how {
        Ending::Close => drop(c),
        Ending::Reset => c.reset(),
        Ending::HalfClose => {
            c.half_close();
            let e = c.until_closed(sv, "after the end of its input")?;
            if c.inbuf.len() > c.pos {
                violation!(
                    "bytes nobody asked for before the close ({e:?}): {:?}",
                    c.inbuf[c.pos..][..(c.inbuf.len() - c.pos).min(100)]
                        .escape_ascii()
                        .to_string()
                );
            }
            if e == End::Reset {
                violation!("a clean end of input is answered by a reset");
            }
        }
    }
    Ok(())
}

pub fn show_cmd(c: &Cmd) -> String {
    let s = format!("{c:?}");
    if s.len() > 300 {
        let mut n = 300;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        format!("{}...", &s[..n])
    } else {
        s
    }
}

// ---------------------------------------------------------------- generators

pub fn seg() -> BoxedStrategy<Seg> {
    prop_oneof![
        3 => Just(Seg::Whole),
        2 => (1usize..40).prop_map(Seg::Every),
        1 => proptest::sample::select(vec![1usize, 2, 3, 7, 512, 1023, 1024, 1025,
            4095, 4096, 4097, 8191, 8192, 8193, 16384]).prop_map(Seg::Every),
        3 => proptest::collection::vec(any::<u16>(), 1..12).prop_map(Seg::Cuts),
        2 => (0usize..40).prop_map(Seg::InCmd),
        2 => (0usize..12).prop_map(Seg::BeforeEnd),
        2 => (1usize..6).prop_map(Seg::InCrLf),
    ]
    .boxed()
}

pub fn send_plan(slow: bool) -> BoxedStrategy<Send> {
    let pace = if slow {
        prop_oneof![
            4 => Just(None),
            1 => (1usize..5000, 0u64..800).prop_map(Some),
        ]
        .boxed()
    } else {
        Just(None).boxed()
    };
    (
        seg(),
        proptest::sample::select(vec![0u64, 0, 0, 50, 300, 1500]),
        proptest::bool::weighted(if slow { 0.3 } else { 0.0 }),
        0u64..20,
        pace,
    )
        .prop_map(|(seg, us, hold, hold_ms, pace)| Send {
            seg,
            us,
            hold,
            hold_ms,
            pace,
        })
        .boxed()
}

/// A word whose letters change case.
pub fn cased(w: &'static str) -> BoxedStrategy<String> {
    prop_oneof![
        2 => Just(w.to_uppercase()),
        2 => Just(w.to_lowercase()),
        3 => proptest::collection::vec(any::<bool>(), w.len()).prop_map(move |m| {
            w.chars()
                .zip(m)
                .map(|(c, up)| if up { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() })
                .collect()
        }),
    ]
    .boxed()
}

/// An argument as a bulk, sometimes as a simple string when it can be.
pub fn arg(b: BoxedStrategy<Blob>) -> BoxedStrategy<Arg> {
    (b, proptest::bool::weighted(0.12))
        .prop_map(|(b, simple)| {
            let ok = simple && b.len() < 10_000 && {
                let v = b.bytes();
                std::str::from_utf8(&v).is_ok()
                    && !v.contains(&b'\r')
                    && !v.contains(&b'\n')
            };
            if ok {
                Arg::Simple(b)
            } else {
                Arg::Bulk(b)
            }
        })
        .boxed()
}

pub fn word(s: BoxedStrategy<String>) -> BoxedStrategy<Arg> {
    arg(s.prop_map(|s| Blob::Lit(s.into_bytes())).boxed())
}

pub fn cmd1(a: BoxedStrategy<Arg>) -> BoxedStrategy<Cmd> {
    a.prop_map(|a| vec![a]).boxed()
}

/// Prefix the keys of GET and SET, so that each case has its own ones.
pub fn own_keys(steps: &[Step], prefix: &str) -> Vec<Step> {
    let fix = |c: &Cmd| -> Cmd {
        let mut c = c.clone();
        let is = match c.first() {
            Some(Arg::Bulk(b) | Arg::Simple(b)) => {
                let b = b.bytes().to_ascii_lowercase();
                b == b"get" || b == b"set"
            }
            _ => false,
        };
        if is {
            if let Some(Arg::Bulk(b) | Arg::Simple(b)) = c.get_mut(1) {
                let mut v = prefix.as_bytes().to_vec();
                v.extend(b.bytes());
                *b = Blob::Lit(v);
            }
        }
        c
    };
    steps
        .iter()
        .map(|s| match s {
            Step::Batch { conn, cmds, send } => Step::Batch {
                conn: *conn,
                cmds: cmds.iter().map(fix).collect(),
                send: send.clone(),
            },
            s => s.clone(),
        })
        .collect()
}
