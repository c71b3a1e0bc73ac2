//! What each command has to answer and to do, from the documentation of the
//! server: a sequential model of the database and of the connections.
use std::collections::HashMap;
use std::net::SocketAddr;

use rvcommon::resp::{Arg, Val};
use rvcommon::{violation, Bad};

#[derive(Default, Clone)]
pub struct Model {
    pub db: HashMap<Vec<u8>, Vec<u8>>,
}

#[derive(Clone)]
pub struct ConnState {
    pub local: SocketAddr,
    pub peer: SocketAddr,
    pub id: Option<i64>,
    pub name: Option<Vec<u8>>,
    pub fd: Option<i64>,
    pub hello: Option<Val>,
}

impl ConnState {
    pub fn new(local: SocketAddr, peer: SocketAddr) -> ConnState {
        ConnState { local, peer, id: None, name: None, fd: None, hello: None }
    }
}

/// What a reply has to be.
#[derive(Debug, Clone)]
pub enum Expect {
    Exact(Val),
    /// One error which names the command, when it can be named
    Unknown(Vec<u8>),
    /// One error, nothing changes
    Refused,
    Hello,
    Id,
    Info,
    Help,
    /// An array of entries, this connection is one of them
    List,
    /// Any single value
    Any,
    /// Malformed: one error, or the end of the connection
    ErrorOrClose,
}

fn text(a: &Arg) -> Option<Vec<u8>> {
    let b = bytes(a)?;
    std::str::from_utf8(&b).ok()?;
    Some(b)
}

fn bytes(a: &Arg) -> Option<Vec<u8>> {
    match a {
        Arg::Bulk(b) | Arg::Simple(b) => Some(b.bytes()),
        _ => None,
    }
}

fn int(a: &Arg) -> Option<u64> {
    match a {
        Arg::Int(n) => Some(*n),
        Arg::Bulk(_) | Arg::Simple(_) => {
            let b = bytes(a)?;
            let s = std::str::from_utf8(&b).ok()?;
            let n: u64 = s.parse().ok()?;
            (n.to_string() == s).then_some(n)
        }
        _ => None,
    }
}

pub fn name_is_valid(name: &[u8]) -> bool {
    match std::str::from_utf8(name) {
        Ok(s) => !s.chars().any(|c| c.is_whitespace() || c.is_control()),
        Err(_) => false,
    }
}

impl Model {
    /// What the command answers; its effects are applied to the model. Time
    /// to live isn't modelled here: a SET with one only states its reply, and
    /// the caller doesn't read that key.
    pub fn exec(&mut self, c: &mut ConnState, args: &[Arg]) -> Expect {
        let ok = Expect::Exact(Val::simple("OK"));
        let Some(name) = args.first().and_then(text) else {
            return Expect::ErrorOrClose;
        };
        let lower = String::from_utf8(name.clone()).unwrap().to_lowercase();
        let rest = &args[1..];
        match lower.as_str() {
            "ping" => match rest {
                [] => Expect::Exact(Val::simple("PONG")),
                [m] => match bytes(m) {
                    Some(b) => Expect::Exact(Val::Bulk(b)),
                    None => Expect::ErrorOrClose,
                },
                _ => Expect::ErrorOrClose,
            },
            "get" => match rest {
                [k] => match text(k) {
                    Some(k) => Expect::Exact(match self.db.get(&k) {
                        Some(v) => Val::Bulk(v.clone()),
                        None => Val::Null,
                    }),
                    None => Expect::ErrorOrClose,
                },
                _ => Expect::ErrorOrClose,
            },
            "set" => {
                let (Some(k), Some(v)) = (
                    rest.first().and_then(text),
                    rest.get(1).and_then(bytes),
                ) else {
                    return Expect::ErrorOrClose;
                };
                match &rest[2..] {
                    [] => {}
                    [o, n] => {
                        let o = text(o).map(|o| {
                            String::from_utf8(o).unwrap().to_uppercase()
                        });
                        match o.as_deref() {
                            Some("EX") | Some("PX") if int(n).is_some() => {}
                            _ => return Expect::ErrorOrClose,
                        }
                    }
                    _ => return Expect::ErrorOrClose,
                }
                self.db.insert(k, v);
                ok
            }
            "hello" => match rest {
                [] => Expect::Hello,
                _ => Expect::ErrorOrClose,
            },
            "acl" => match rest {
                [] => Expect::ErrorOrClose,
                [s, more @ ..] => match text(s) {
                    None => Expect::ErrorOrClose,
                    Some(s) => {
                        let l =
                            String::from_utf8(s.clone()).unwrap().to_lowercase();
                        if l == "cat" && more.len() > 1 {
                            Expect::ErrorOrClose
                        } else if l == "cat"
                            && more.iter().any(|a| text(a).is_none())
                        {
                            Expect::ErrorOrClose
                        } else {
                            Expect::Unknown(s)
                        }
                    }
                },
            },
            "client" => {
                let Some(sub) = rest.first() else { return Expect::Help };
                let Some(sub) = text(sub) else {
                    return Expect::ErrorOrClose;
                };
                let more = &rest[1..];
                let l = String::from_utf8(sub.clone()).unwrap().to_lowercase();
                match (l.as_str(), more) {
                    ("id", []) => Expect::Id,
                    ("info", []) => Expect::Info,
                    ("help", []) => Expect::Help,
                    ("list", []) => Expect::List,
                    // Filters are checked by C23.
                    ("list", [..]) => Expect::Any,
                    ("getname", []) => Expect::Exact(match &c.name {
                        Some(n) => Val::Bulk(n.clone()),
                        None => Val::Null,
                    }),
                    ("setname", [n]) => match text(n) {
                        None => Expect::ErrorOrClose,
                        Some(n) if !name_is_valid(&n) => Expect::Refused,
                        Some(n) => {
                            c.name = Some(n).filter(|n| !n.is_empty());
                            ok
                        }
                    },
                    ("setinfo", [a, b])
                        if bytes(a).is_some() && bytes(b).is_some() =>
                    {
                        ok
                    }
                    // Accepted as a no-op by the server, refused by others.
                    ("setinfo", [_] | []) => Expect::Any,
                    (
                        "id" | "info" | "help" | "getname" | "setname"
                        | "setinfo",
                        _,
                    ) => Expect::ErrorOrClose,
                    _ => Expect::Unknown(sub),
                }
            }
            _ => Expect::Unknown(name),
        }
    }
}

/// The fields of an entry of CLIENT LIST.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Entry {
    pub id: i64,
    pub addr: String,
    pub laddr: String,
    pub fd: i64,
    pub name: Vec<u8>,
}

pub fn parse_entry(v: &Val) -> Result<Entry, Bad> {
    let b = match v {
        Val::Simple(b) | Val::Bulk(b) => b.clone(),
        v => violation!("an entry of CLIENT LIST is {v:?}"),
    };
    let mut e = Entry {
        id: -1,
        addr: String::new(),
        laddr: String::new(),
        fd: -1,
        name: vec![],
    };
    let mut seen: Vec<Vec<u8>> = vec![];
    for f in b.split(|c| *c == b' ') {
        let Some(p) = f.iter().position(|c| *c == b'=') else {
            violation!(
                "an entry of CLIENT LIST isn't made of field=value: {v:?}"
            );
        };
        let (k, x) = (&f[..p], &f[p + 1..]);
        if seen.contains(&k.to_vec()) {
            violation!("an entry of CLIENT LIST repeats a field: {v:?}");
        }
        seen.push(k.to_vec());
        let s = String::from_utf8_lossy(x).to_string();
        let num = || {
            s.parse::<i64>().ok().filter(|n| n.to_string() == s).ok_or(
                Bad::Violation(format!("bad number in the entry {v:?}")),
            )
        };
        match k {
            b"id" => e.id = num()?,
            b"addr" => e.addr = s.clone(),
            b"laddr" => e.laddr = s.clone(),
            b"fd" => e.fd = num()?,
            b"name" => e.name = x.to_vec(),
            _ => {}
        }
    }
    for k in [&b"id"[..], b"addr", b"laddr", b"name"] {
        if !seen.contains(&k.to_vec()) {
            violation!("an entry of CLIENT LIST lacks a field: {v:?}");
        }
    }
    Ok(e)
}

pub fn check_entry(e: &Entry, c: &mut ConnState) -> Result<(), Bad> {
    if let Some(id) = c.id {
        if id != e.id {
            violation!("entry {e:?} instead of id {id}");
        }
    }
    c.id = Some(e.id);
    if e.addr != c.local.to_string() || e.laddr != c.peer.to_string() {
        violation!(
            "entry {e:?} of the connection from {} to {}",
            c.local,
            c.peer
        );
    }
    if e.name != c.name.clone().unwrap_or_default() {
        violation!(
            "entry {e:?} of a connection named {:?}",
            c.name.as_ref().map(|n| n.escape_ascii().to_string())
        );
    }
    if let Some(fd) = c.fd {
        if fd != e.fd {
            violation!("the fd of a connection changed: {e:?}, was {fd}");
        }
    }
    c.fd = Some(e.fd);
    Ok(())
}

/// Does the reply meet the expectation?
pub fn check(
    exp: &Expect,
    got: &Val,
    c: &mut ConnState,
) -> Result<(), Bad> {
    match (exp, got) {
        (Expect::Any, _) => Ok(()),
        (Expect::Exact(v), g) if v == g => Ok(()),
        (Expect::Unknown(n), Val::Err(e)) => {
            let plain = !n.is_empty() && n.iter().all(|b| b.is_ascii_graphic());
            let n = n.to_ascii_lowercase();
            let e2 = e.to_ascii_lowercase();
            if plain && !e2.windows(n.len()).any(|w| w == &n[..]) {
                violation!(
                    "the error {got:?} doesn't name the command {:?}",
                    n.escape_ascii().to_string()
                );
            }
            Ok(())
        }
        (Expect::Refused | Expect::ErrorOrClose, Val::Err(_)) => Ok(()),
        (Expect::Id, Val::Int(i)) => {
            if let Some(id) = c.id {
                if id != *i {
                    violation!("the id of the connection was {id}, now {i}");
                }
            }
            c.id = Some(*i);
            Ok(())
        }
        (Expect::Info, v @ (Val::Simple(_) | Val::Bulk(_))) => {
            check_entry(&parse_entry(v)?, c)
        }
        (Expect::Help, Val::Arr(v)) => {
            let all: Vec<u8> = v
                .iter()
                .flat_map(|x| match x {
                    Val::Simple(b) | Val::Bulk(b) => b.clone(),
                    _ => vec![],
                })
                .collect();
            let all = String::from_utf8_lossy(&all).to_uppercase();
            for s in ["ID", "INFO", "LIST", "SETNAME", "GETNAME", "SETINFO"] {
                if !all.contains(s) {
                    violation!("CLIENT HELP doesn't mention {s}: {v:?}");
                }
            }
            Ok(())
        }
        (Expect::List, Val::Arr(v)) => {
            let mut mine = 0;
            for x in v {
                let e = parse_entry(x)?;
                if e.addr == c.local.to_string()
                    && e.laddr == c.peer.to_string()
                {
                    check_entry(&e, c)?;
                    mine += 1;
                }
            }
            if mine != 1 {
                violation!(
                    "CLIENT LIST has {mine} entries for the asking \
                     connection: {v:?}"
                );
            }
            Ok(())
        }
        (Expect::Hello, Val::Map(m)) => check_hello(m, c),
        _ => violation!("expected {exp:?}, got {got:?}"),
    }
}

fn check_hello(m: &[(Val, Val)], c: &mut ConnState) -> Result<(), Bad> {
    let mut facts: Vec<(Vec<u8>, Val)> = vec![];
    for (k, v) in m {
        let k = match k {
            Val::Bulk(b) | Val::Simple(b) => b.clone(),
            k => violation!("HELLO has the key {k:?}"),
        };
        if facts.iter().any(|f| f.0 == k) {
            violation!("HELLO repeats a key: {m:?}");
        }
        facts.push((k, v.clone()));
    }
    facts.sort();
    let names: Vec<String> = facts
        .iter()
        .map(|f| String::from_utf8_lossy(&f.0).to_string())
        .collect();
    if names != ["id", "mode", "modules", "proto", "role", "server", "version"]
    {
        violation!("HELLO has the keys {names:?}");
    }
    for (k, v) in &mut facts {
        match (&k[..], &*v) {
            (b"id", Val::Int(i)) => {
                if let Some(id) = c.id {
                    if id != *i {
                        violation!("HELLO says id {i}, CLIENT ID said {id}");
                    }
                }
                c.id = Some(*i);
                *v = Val::Null;
            }
            (b"proto", Val::Int(3)) => {}
            (b"modules", Val::Arr(_)) => {}
            (
                b"server" | b"version" | b"mode" | b"role",
                Val::Bulk(b) | Val::Simple(b),
            ) if !b.is_empty() => {}
            (k, v) => violation!(
                "HELLO says {:?} is {v:?}",
                k.escape_ascii().to_string()
            ),
        }
    }
    let facts = Val::Map(
        facts.into_iter().map(|(k, v)| (Val::Bulk(k), v)).collect(),
    );
    if let Some(h) = &c.hello {
        if *h != facts {
            violation!("HELLO said {h:?} before and says {facts:?} now");
        }
    }
    c.hello = Some(facts);
    Ok(())
}
