//! C17: configuration.
use proptest::prelude::*;
use rvcommon::resp::Val;
use rvcommon::{violation, Bad, Pass, Report, Res};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr, TcpListener};
use std::time::{Duration, Instant};

use crate::client::{encode, eventually, Conn};
use crate::server::{binary, free_addr, listeners, scratch, spawn, Output, Server, Stuck, StuckWatch};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Format {
    Toml,
    Json,
    Yaml,
    Ini,
    Ron,
    Json5,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Addr {
    /// One nobody uses
    V4,
    V6,
    /// The same, written differently
    V6Long,
    /// All addresses
    Any4,
    Any6,
    /// This text
    Text(String),
    Number(i64),
    List,
    Missing,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Max {
    Number(i64),
    /// As a text
    Quoted(i64),
    Text(String),
    List,
    Missing,
}

/// Where the file is, and what the server is told of it
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Place {
    Absolute,
    Relative,
    WithoutExtension,
    Sub,
    /// No CONFIG_FILE_LOCATION
    NotTold,
    /// Nothing there
    Nothing,
    Directory,
    /// It isn't of its format
    Garbage(u8),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Case {
    format: Format,
    place: Place,
    addr: Addr,
    max: Max,
    env_addr: Option<Addr>,
    env_max: Option<Max>,
    /// Variables which name no setting
    noise: Vec<(String, String)>,
    /// The other setting comes first
    swap: bool,
    /// Which of the variables come from a file .env rather than from the
    /// environment (bit 0: CONFIG_FILE_LOCATION, 1: the address, 2: the
    /// maximum, 3: the others)
    dotenv: u8,
    /// The file .env has other values of what the environment has
    decoy: bool,
}

/// One nobody uses there, or elsewhere if there is no IPv6
fn free_at(ip: IpAddr) -> SocketAddr {
    TcpListener::bind((ip, 0))
        .and_then(|l| l.local_addr())
        .unwrap_or_else(|_| free_addr())
}

fn resolve(a: &Addr) -> (Option<String>, Option<SocketAddr>) {
    match a {
        Addr::V4 => {
            let a = free_addr();
            (Some(a.to_string()), Some(a))
        }
        Addr::V6 => {
            let a = free_at(Ipv6Addr::LOCALHOST.into());
            (Some(a.to_string()), Some(a))
        }
        Addr::V6Long => {
            let a = free_at(Ipv6Addr::LOCALHOST.into());
            let s = a.to_string().replace("[::1]", "[0:00:0::0001]");
            (Some(s), Some(a))
        }
        Addr::Any4 => {
            let a = free_at(Ipv4Addr::UNSPECIFIED.into());
            (Some(a.to_string()), Some(a))
        }
        Addr::Any6 => {
            let a = free_at(Ipv6Addr::UNSPECIFIED.into());
            (Some(a.to_string()), Some(a))
        }
        Addr::Text(s) => (Some(s.clone()), None),
        Addr::Number(n) => (Some(n.to_string()), None),
        Addr::List => (Some("[]".into()), None),
        Addr::Missing => (None, None),
    }
}

fn max_of(m: &Max) -> Option<u16> {
    match m {
        Max::Number(n) | Max::Quoted(n) => u16::try_from(*n).ok(),
        _ => None,
    }
}

fn render(c: &Case, addr: &Option<String>) -> (String, &'static str) {
    let quoted = |s: &str| format!("\"{s}\"");
    let a = addr.as_ref().map(|a| match c.addr {
        Addr::Number(_) | Addr::List => a.clone(),
        _ => quoted(a),
    });
    let m = match &c.max {
        Max::Number(n) => Some(n.to_string()),
        Max::Quoted(n) => Some(quoted(&n.to_string())),
        Max::Text(s) => Some(quoted(s)),
        Max::List => Some("[1]".to_string()),
        Max::Missing => None,
    };
    let mut e: Vec<(&str, String)> = vec![];
    if let Some(a) = a {
        e.push(("bind_addr", a));
    }
    if let Some(m) = m {
        e.push(("max_connection", m));
    }
    if c.swap {
        e.reverse();
    }
    let join = |sep: &str, k: &dyn Fn(&str) -> String, eq: &str| {
        e.iter()
            .map(|(n, v)| format!("{}{eq}{v}", k(n)))
            .collect::<Vec<_>>()
            .join(sep)
    };
    match c.format {
        Format::Toml => {
            (format!("# roster\n{}\n", join("\n", &|n| n.into(), " = ")), "toml")
        }
        Format::Yaml => (
            // an empty document isn't a table
            format!("---\n{}\n", join("\n", &|n| n.into(), ": ")),
            "yaml",
        ),
        Format::Ini => (
            format!("; roster\n{}\n", join("\n", &|n| n.into(), "=")),
            "ini",
        ),
        Format::Json => (format!("{{{}}}", join(", ", &quoted, ": ")), "json"),
        Format::Json5 => (
            format!("{{ // roster\n{} }}", join(", ", &|n| n.into(), ": ")),
            "json5",
        ),
        Format::Ron => (format!("({})", join(", ", &|n| n.into(), ": ")), "ron"),
    }
}

fn check(c: &Case) -> Res {
    let dir = scratch();
    let r = run_case(c, &dir);
    let _ = std::fs::remove_dir_all(&dir);
    r
}

fn run_case(c: &Case, dir: &std::path::PathBuf) -> Res {
    let mut env = BTreeMap::new();
    let (text, at) = resolve(&c.addr);
    let (body, ext) = render(c, &text);
    let mut file = dir.join(format!("conf.{ext}"));
    if matches!(c.place, Place::Sub) {
        std::fs::create_dir(dir.join("sub.d"))?;
        file = dir.join(format!("sub.d/my conf.{ext}"));
    }
    let mut found = true;
    match &c.place {
        Place::Nothing => found = false,
        Place::Directory => {
            std::fs::create_dir(&file)?;
            found = false;
        }
        Place::Garbage(k) => {
            // not text; cut short; something else; empty
            let mut g = body.clone().into_bytes();
            match (k % 4, c.format) {
                (0, _) => g.extend(b"\xc3\x28\xff\n"),
                (1, Format::Ini) => g = b"[roster\nbind_addr".to_vec(),
                (1, Format::Toml) => g.extend(b"x = \"1"),
                (1, Format::Yaml) => g.extend(b"x: \"1"),
                (1, _) => drop(g.pop()),
                (2, Format::Ini) => g.extend(b"nothing more\n"),
                (2, Format::Toml) => g.extend(b"nothing more\n"),
                (2, Format::Yaml) => g.extend(b"} nothing more\n"),
                (2, _) => g.extend(b"nothing more"),
                _ => g.clear(),
            };
            std::fs::write(&file, &g)?;
            found = false;
        }
        _ => std::fs::write(&file, &body)?,
    }
    let told = match &c.place {
        Place::NotTold => {
            found = false;
            None
        }
        Place::Relative => Some(format!("conf.{ext}")),
        Place::Sub => Some(format!("./sub.d/my conf.{ext}")),
        Place::WithoutExtension => {
            Some(dir.join("conf").to_string_lossy().to_string())
        }
        _ => Some(file.to_string_lossy().to_string()),
    };
    if let Some(t) = &told {
        env.insert("CONFIG_FILE_LOCATION".to_string(), t.clone());
    }
    let mut want_addr = at;
    let mut want_max = max_of(&c.max);
    if let Some(a) = &c.env_addr {
        let (text, at) = resolve(a);
        if let Some(t) = text {
            env.insert("ROSTER_BIND_ADDR".into(), t);
            want_addr = at;
        }
    }
    if let Some(m) = &c.env_max {
        let t = match m {
            Max::Number(n) | Max::Quoted(n) => Some(n.to_string()),
            Max::Text(s) => Some(s.clone()),
            Max::List => Some("[1]".into()),
            Max::Missing => None,
        };
        if let Some(t) = t {
            env.insert("ROSTER_MAX_CONNECTION".into(), t);
            want_max = max_of(m);
        }
    }
    for (k, v) in &c.noise {
        env.insert(k.clone(), v.clone());
    }
    let overridden = env.contains_key("ROSTER_BIND_ADDR")
        || env.contains_key("ROSTER_MAX_CONNECTION");
    let both = env.contains_key("ROSTER_BIND_ADDR")
        && env.contains_key("ROSTER_MAX_CONNECTION");
    let mut dotenv = String::new();
    for (k, v) in std::mem::take(&mut env) {
        let bit = match &k[..] {
            "CONFIG_FILE_LOCATION" => 1,
            "ROSTER_BIND_ADDR" => 2,
            "ROSTER_MAX_CONNECTION" => 4,
            _ => 8,
        };
        if c.dotenv & bit != 0 {
            dotenv += &format!("{k}='{v}'\n");
            continue;
        }
        if c.decoy {
            let other = if bit == 4 { "8" } else { "127.0.0.1:9" };
            dotenv += &format!("{k}={other}\n");
        }
        env.insert(k, v);
    }
    if !dotenv.is_empty() {
        std::fs::write(dir.join(".env"), &dotenv)?;
    }
    let told_what =
        || format!("environment {env:?}, .env {dotenv:?}, file {body:?}");

    // What a mere file can't give, variables can: an empty or partial file is
    // completed by them.
    let empty_ok = matches!(&c.place, Place::Garbage(k) if k % 4 == 3);
    if empty_ok {
        // Is an empty file of this format a file without settings? Left open
        // unless settings are missing.
        if both {
            return Ok(Pass::default());
        }
    }
    let (child, _) = spawn(binary(), dir, &env, None, &[], [Output::File; 2])?;
    let bind = want_addr.unwrap_or_else(free_addr);
    let mut sv = Server { child, clock: None, heap: None, pipes: vec![], bind, dir: dir.clone(), keep: false };
    let valid = found && want_addr.is_some() && want_max.is_some();
    let t = Instant::now();
    let cpus = std::thread::available_parallelism().unwrap().get();
    let mut watch = StuckWatch::new(sv.pid());
    if !valid {
        loop {
            let l = listeners(sv.pid());
            if !l.is_empty() {
                violation!(
                    "the server listens on {l:?} with {}",
                    told_what()
                );
            }
            if sv.dead().is_some() {
                let st = sv.child.try_wait()?.unwrap();
                if st.success() {
                    violation!("the server ends without error with {}", told_what());
                }
                break;
            }
            if matches!(watch.poll(), Stuck::Idle | Stuck::Burning) {
                violation!("the server doesn't exit with {}", told_what());
            }
            if t.elapsed() > Duration::from_secs(300) {
                return Err(Bad::Harness("neither ends nor settles".into()));
            }
            std::thread::sleep(Duration::from_millis(1));
        }
        let tag = if !found {
            "no usable file"
        } else if overridden {
            "invalid in spite or because of a variable"
        } else {
            "invalid setting"
        };
        return Ok(Pass { nontrivial: true, tags: vec![tag] });
    }
    let (want_addr, want_max) = (want_addr.unwrap(), want_max.unwrap());
    let mut to = want_addr;
    match to.ip() {
        IpAddr::V4(ip) if ip.is_unspecified() => to.set_ip(Ipv4Addr::LOCALHOST.into()),
        IpAddr::V6(ip) if ip.is_unspecified() => to.set_ip(Ipv6Addr::LOCALHOST.into()),
        _ => {}
    }
    loop {
        if let Some(why) = sv.dead() {
            violation!("the server ended ({why}) with {}", told_what());
        }
        let l = listeners(sv.pid());
        if l.iter().any(|a| *a != want_addr) {
            violation!(
                "the server listens on {l:?} instead of {want_addr} with {}",
                told_what()
            );
        }
        if l.len() >= cpus || !l.is_empty() && t.elapsed() > Duration::from_secs(5)
        {
            break;
        }
        if l.is_empty() && matches!(watch.poll(), Stuck::Idle | Stuck::Burning) {
            violation!("the server doesn't listen with {}", told_what());
        }
        if t.elapsed() > Duration::from_secs(300) {
            return Err(Bad::Harness("neither listens nor settles".into()));
        }
        std::thread::sleep(Duration::from_millis(2));
    }
    // It works there, up to the limit.
    let many = (want_max as usize + 2).min(230);
    let want = many.min(want_max as usize);
    let mut open: Vec<(Conn, bool)> = vec![];
    let ping = encode(&[b"PING"]);
    for _ in 0..many {
        let mut k = Conn::open(to)?;
        k.send(&mut sv, &ping, false)?;
        open.push((k, false));
    }
    let count = |open: &mut Vec<(Conn, bool)>| -> Result<usize, Bad> {
        for (k, served) in open.iter_mut().filter(|o| !o.1) {
            k.drain(usize::MAX);
            match k.buffered()? {
                None => {}
                Some(v) if v == Val::simple("PONG") => *served = true,
                Some(v) => violation!("PING is answered {v:?}"),
            }
        }
        let n = open.iter().filter(|o| o.1).count();
        if n > want_max as usize {
            violation!("{n} connections are served with {}", told_what());
        }
        Ok(n)
    };
    eventually(&mut sv, |_| {
        let n = count(&mut open)?;
        Ok(if n == want {
            Ok(())
        } else {
            Err(format!(
                "{n} of {many} connections are served with {}",
                told_what()
            ))
        })
    })?;
    if many > want {
        std::thread::sleep(Duration::from_millis(25));
        count(&mut open)?;
    }
    let l = listeners(sv.pid());
    if l.is_empty() || l.iter().any(|a| *a != want_addr) {
        violation!("the server listens on {l:?} with {}", told_what());
    }
    sv.check_alive()?;
    let mut tags = vec!["valid"];
    if overridden {
        tags.push("overridden by a variable");
    }
    if want_addr.is_ipv6() {
        tags.push("IPv6");
    }
    if want_addr.ip().is_unspecified() {
        tags.push("any address");
    }
    if !dotenv.is_empty() {
        tags.push("with a file .env");
    }
    if overridden && (at.is_none() || max_of(&c.max).is_none()) {
        tags.push("made valid by a variable");
    }
    Ok(Pass { nontrivial: true, tags })
}

fn strat() -> BoxedStrategy<Case> {
    let format = || {
        proptest::sample::select(vec![
            Format::Toml,
            Format::Toml,
            Format::Json,
            Format::Yaml,
            Format::Ini,
            Format::Ron,
            Format::Json5,
        ])
    };
    let good_addr = || {
        prop_oneof![
            6 => Just(Addr::V4), 2 => Just(Addr::V6), 1 => Just(Addr::V6Long),
            1 => Just(Addr::Any4), 1 => Just(Addr::Any6)
        ]
    };
    let bad_addr = || {
        prop_oneof![
            4 => proptest::sample::select(vec![
                "", "localhost:3456", "127.0.0.1", "127.0.0.1:", "127.0.0.1:65536",
                "127.0.0.256:80", "127.0.0.1:-1", ":3456", "::1:80:", "[::1]", "x",
                "127.0.0.1:3456 x", "tcp://127.0.0.1:3456", "127.0.0.1:34 56",
                // nobody's address here
                "192.0.2.1:3456", "[2001:db8::1]:3456",
            ]).prop_map(|s| Addr::Text(s.into())),
            1 => (-5i64..70000).prop_map(Addr::Number),
            1 => Just(Addr::List),
            1 => Just(Addr::Missing),
        ]
    };
    let good_max = || {
        prop_oneof![
            5 => (1i64..5).prop_map(Max::Number),
            1 => (1i64..5).prop_map(Max::Quoted),
            2 => proptest::sample::select(vec![0i64, 9, 10, 200, 255, 256, 32768, 65535])
                .prop_map(Max::Number),
        ]
    };
    let bad_max = || {
        prop_oneof![
            3 => proptest::sample::select(vec![
                -1i64, 65536, 65537, 65736, 131072, 1 << 32, (1 << 32) + 3, i64::MAX,
                i64::MIN, -65535,
            ]).prop_map(Max::Number),
            2 => proptest::sample::select(vec!["many", "1 0", "0x10", "1e", "-", "12a"])
                .prop_map(|s| Max::Text(s.into())),
            1 => Just(Max::List),
            1 => Just(Max::Missing),
        ]
    };
    let noise = proptest::collection::vec(
        proptest::sample::select(vec![
            ("ROSTER_OTHER", "1"),
            ("ROSTERBIND_ADDR", "127.0.0.1:1"),
            ("ROSTERMAX_CONNECTION", "7"),
            ("BIND_ADDR", "127.0.0.1:1"),
            ("MAX_CONNECTION", "7"),
            ("bind_addr", "127.0.0.1:1"),
            ("ROSTER", "x"),
            ("ROSTER_", "x"),
            ("ROSTER_MAX", "9"),
            ("ROSTER_MAX_CONNECTIONS", "9"),
            ("ROSTER_BIND", "127.0.0.1:1"),
            ("ROSTER_PORT", "1"),
            ("NOT_ROSTER_MAX_CONNECTION", "9"),
            ("REDIS_MAX_CONNECTION", "9"),
        ])
        .prop_map(|(a, b)| (a.to_string(), b.to_string())),
        0..3,
    );
    let place = prop_oneof![
        4 => Just(Place::Absolute),
        1 => Just(Place::Relative),
        2 => Just(Place::WithoutExtension),
        1 => Just(Place::Sub),
    ];
    let bad_place = prop_oneof![
        1 => Just(Place::NotTold),
        1 => Just(Place::Nothing),
        1 => Just(Place::Directory),
        2 => any::<u8>().prop_map(Place::Garbage),
    ];
    let addr = prop_oneof![5 => good_addr(), 1 => bad_addr()];
    let max = prop_oneof![5 => good_max(), 1 => bad_max()];
    let env_addr = proptest::option::weighted(
        0.35,
        prop_oneof![5 => good_addr(), 1 => bad_addr()],
    );
    let env_max = proptest::option::weighted(
        0.4,
        prop_oneof![5 => good_max(), 1 => bad_max()],
    );
    let whole = |place: BoxedStrategy<Place>,
                 addr: BoxedStrategy<Addr>,
                 max: BoxedStrategy<Max>,
                 env_addr: BoxedStrategy<Option<Addr>>,
                 env_max: BoxedStrategy<Option<Max>>| {
        let dotenv =
            prop_oneof![2 => Just((0, false)), 1 => (0u8..16, any::<bool>())];
        let rest = (noise.clone(), any::<bool>(), dotenv);
        (format(), place, addr, max, env_addr, env_max, rest)
            .prop_map(
                |(format, place, addr, max, env_addr, env_max, rest)| Case {
                    format,
                    place,
                    addr,
                    max,
                    env_addr,
                    env_max,
                    noise: rest.0,
                    swap: rest.1,
                    dotenv: rest.2 .0,
                    decoy: rest.2 .1,
                },
            )
            .boxed()
    };
    let some = |p: f64, a: BoxedStrategy<Addr>| {
        proptest::option::weighted(p, a).boxed()
    };
    // anything
    let any_case = whole(
        prop_oneof![6 => place.clone(), 1 => bad_place.clone()].boxed(),
        addr.boxed(),
        max.boxed(),
        env_addr.boxed(),
        env_max.boxed(),
    );
    // one thing alone is wrong
    let wrong_file = whole(
        bad_place.boxed(),
        good_addr().boxed(),
        good_max().boxed(),
        some(0.9, good_addr().boxed()),
        proptest::option::weighted(0.9, good_max()).boxed(),
    );
    let wrong_addr = whole(
        place.clone().boxed(),
        bad_addr().boxed(),
        good_max().boxed(),
        Just(None).boxed(),
        proptest::option::weighted(0.5, good_max()).boxed(),
    );
    let wrong_max = whole(
        place.clone().boxed(),
        good_addr().boxed(),
        bad_max().boxed(),
        some(0.5, good_addr().boxed()),
        Just(None).boxed(),
    );
    let wrong_env_addr = whole(
        place.clone().boxed(),
        good_addr().boxed(),
        good_max().boxed(),
        bad_addr().prop_map(Some).boxed(),
        proptest::option::weighted(0.5, good_max()).boxed(),
    );
    let wrong_env_max = whole(
        place.boxed(),
        good_addr().boxed(),
        good_max().boxed(),
        some(0.5, good_addr().boxed()),
        bad_max().prop_map(Some).boxed(),
    );
    prop_oneof![
        5 => any_case,
        2 => wrong_file,
        1 => wrong_addr,
        1 => wrong_max,
        1 => wrong_env_addr,
        1 => wrong_env_max,
    ]
    .boxed()
}

pub fn run(r: &mut Report) {
    r.rule(
        "configuration: generated files (TOML, JSON, YAML, INI, RON, JSON5; \
         valid, invalid, missing, garbage, told in several ways) and \
         environment variables (overriding, invalid, naming no setting), \
         some of them from a file .env. \
         Invalid: the server ends with an error and is never seen listening. \
         Valid: its listening sockets have exactly the address, it answers \
         there, and serves exactly the maximum. non-trivial = all.",
    );
    r.assume(
        "left open: an empty file completed by variables, float and boolean \
         maximums, port 0",
    );
    r.drive("configuration", strat(), r.n(420, 6000), check);
}
