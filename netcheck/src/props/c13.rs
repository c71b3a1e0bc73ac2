//! C13: letter case, unknown commands, PING.
use proptest::prelude::*;
use rvcommon::blob::{edge_blob, nasty_text, small_bytes};
use rvcommon::resp::Arg;
use rvcommon::{Pass, Report, Res};
use serde::{Deserialize, Serialize};

use crate::engine::*;
use crate::server::Opts;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Case {
    steps: Vec<Step>,
}

fn w(s: &'static str) -> BoxedStrategy<Arg> {
    word(cased(s))
}

/// Names of nothing that is supported.
fn unknown() -> BoxedStrategy<Arg> {
    let redis = vec![
        "DEL", "EXISTS", "SETEX", "SETNX", "MSET", "MGET", "APPEND", "INCR",
        "FLUSHALL", "FLUSHDB", "KEYS", "SHUTDOWN", "CONFIG", "COMMAND", "INFO",
        "AUTH", "SELECT", "QUIT", "ECHO", "TTL", "EXPIRE", "GETSET", "GETDEL",
        "GETEX", "STRLEN", "RESET", "MONITOR", "SUBSCRIBE", "MULTI", "EXEC",
        "GE", "GETT", "SE", "SETT", "PIN", "PINGG", "PONG", "HELL", "HELLOO",
        "CLIEN", "CLIENTS", "AC", "ACLS", "CAT", "ID", "LIST", "GETNAME",
        "SETNAME", "SETINFO", "HELP", "", "get set", "SET\0", "\0GET", "GET ",
        " GET", "GET\n", "*1", "ＧＥＴ", "g\u{307}et", "ſet", "İNFO", "pıng",
    ];
    let redis: Vec<String> = redis.into_iter().map(String::from).collect();
    prop_oneof![
        5 => word(proptest::sample::select(redis).boxed()),
        3 => word("[a-zA-Z][a-zA-Z0-9._:-]{0,30}".boxed()),
        1 => word(nasty_text()),
        1 => word("[a-z]{1,2}".prop_map(|s| s.repeat(3000)).boxed()),
    ]
    .boxed()
}

/// A command which is supported, in some letter case.
fn known() -> BoxedStrategy<Cmd> {
    let key = super::c04::key;
    let value = || {
        arg(prop_oneof![4 => small_bytes(), 1 => edge_blob(3000, false)].boxed())
    };
    let name = || word("[a-z0-9]{0,8}".boxed());
    prop_oneof![
        3 => w("PING").prop_map(|c| vec![c]),
        3 => (w("PING"), value()).prop_map(|(c, m)| vec![c, m]),
        5 => (w("SET"), key(), value()).prop_map(|(c, k, v)| vec![c, k, v]),
        1 => (w("SET"), key(), value(), w("EX"), 5000u64..90000)
            .prop_map(|(c, k, v, o, n)| vec![c, k, v, o, Arg::bulk(n.to_string())]),
        1 => (w("SET"), key(), value(), w("PX"), 5_000_000u64..90_000_000)
            .prop_map(|(c, k, v, o, n)| vec![c, k, v, o, Arg::Int(n)]),
        5 => (w("GET"), key()).prop_map(|(c, k)| vec![c, k]),
        2 => w("HELLO").prop_map(|c| vec![c]),
        2 => (w("CLIENT"), w("ID")).prop_map(|(c, s)| vec![c, s]),
        2 => (w("CLIENT"), w("INFO")).prop_map(|(c, s)| vec![c, s]),
        2 => (w("CLIENT"), w("LIST")).prop_map(|(c, s)| vec![c, s]),
        2 => (w("CLIENT"), w("HELP")).prop_map(|(c, s)| vec![c, s]),
        1 => w("CLIENT").prop_map(|c| vec![c]),
        2 => (w("CLIENT"), w("GETNAME")).prop_map(|(c, s)| vec![c, s]),
        2 => (w("CLIENT"), w("SETNAME"), name()).prop_map(|(c, s, n)| vec![c, s, n]),
        2 => (w("CLIENT"), w("SETINFO"), w("LIB-NAME"), name())
            .prop_map(|(c, s, o, n)| vec![c, s, o, n]),
        1 => (w("CLIENT"), w("SETINFO"), w("LIB-VER"), name())
            .prop_map(|(c, s, o, n)| vec![c, s, o, n]),
        1 => (w("ACL"), w("CAT")).prop_map(|(c, s)| vec![c, s]),
    ]
    .boxed()
}

/// One which isn't, with any arguments (those of a supported one often).
fn refused() -> BoxedStrategy<Cmd> {
    let args = prop_oneof![
        2 => Just(vec![]),
        4 => (super::c04::key(), arg(small_bytes())).prop_map(|(k, v)| vec![k, v]),
        1 => proptest::collection::vec(arg(small_bytes()), 0..6),
        1 => proptest::collection::vec(prop_oneof![
            Just(Arg::Null), (0u64..9).prop_map(Arg::Int),
            Just(Arg::Arr(vec![Arg::bulk("SET"), Arg::bulk("a"), Arg::bulk("b")])),
        ], 0..3),
        1 => known(),
    ]
    .boxed();
    (0u8..6, unknown(), args, w("CLIENT"), w("ACL"))
        .prop_map(|(kind, u, mut args, client, acl)| {
            let mut v = match kind {
                0..=2 => vec![u],
                3 | 4 => vec![client, u],
                _ => vec![acl, u],
            };
            v.append(&mut args);
            v
        })
        .boxed()
}

/// What other alphabets have for a letter; mostly the ones which become an
/// ASCII letter when their case is changed one way or the other, or twice.
fn lookalike(c: char, which: u8) -> String {
    let c = c.to_ascii_lowercase();
    let special: &[&str] = match c {
        'i' => &["ı", "İ", "i\u{307}", "í", "Ⅰ", "ⓘ"],
        's' => &["ſ", "ß", "ẞ", "ś", "ꜱ"],
        'l' => &["ł", "Ⅼ", "ŀ"],
        'c' => &["ⅽ", "с", "ć"],
        'n' => &["ŉ", "ñ"],
        'a' => &["å", "Å", "а", "ª"],
        'e' => &["е", "é"],
        'o' => &["о", "º", "0"],
        't' => &["ẗ", "ť"],
        'h' => &["ẖ", "һ"],
        _ => &[],
    };
    let n = which as usize % (special.len() + 3);
    match n.checked_sub(special.len()) {
        None => special[n].into(),
        // fullwidth, circled, the other bit 5 (as a crude conversion has it)
        Some(0) => char::from_u32(c as u32 - 'a' as u32 + 0xff41).unwrap().into(),
        Some(1) => char::from_u32(c as u32 - 'a' as u32 + 0x24d0).unwrap().into(),
        _ => char::from(c as u8 ^ 0x40).into(),
    }
}

/// A supported one with one letter of its name, or of its subcommand's,
/// replaced by a look-alike, or two by a ligature.
fn alike() -> BoxedStrategy<Cmd> {
    (known(), any::<(bool, u8, u8, bool)>())
        .prop_map(|(mut cmd, (second, at, which, upper))| {
            let sub = cmd.len() > 1 && {
                let s = text_of(&cmd[0]).to_lowercase();
                s == "client" || s == "acl"
            };
            let i = (sub && second) as usize;
            let s = text_of(&cmd[i]);
            let cs: Vec<char> = s.chars().collect();
            let at = at as usize % cs.len();
            let mut t: String = cs[..at].iter().collect();
            let pair: String = cs[at..].iter().take(2).collect();
            let mut rest = at + 1;
            match &pair.to_lowercase()[..] {
                "st" if which % 2 == 0 => {
                    t.push(if upper { 'ﬆ' } else { 'ﬅ' });
                    rest += 1;
                }
                "li" | "el" if which % 8 == 0 => {
                    t.push('ǉ');
                    rest += 1;
                }
                _ => {
                    let l = lookalike(cs[at], which);
                    t += &if upper { l.to_uppercase() } else { l };
                }
            }
            t.extend(&cs[rest..]);
            // ß and the like become letters themselves when asked for upper case.
            if t.to_lowercase() == s.to_lowercase() {
                t.push('ı');
            }
            cmd[i] = Arg::bulk(t);
            cmd
        })
        .boxed()
}

fn text_of(a: &Arg) -> String {
    match a {
        Arg::Bulk(b) | Arg::Simple(b) => {
            String::from_utf8_lossy(&b.bytes()).into_owned()
        }
        _ => String::new(),
    }
}

fn strat() -> BoxedStrategy<Case> {
    let cmd = prop_oneof![6 => known(), 3 => refused(), 2 => alike()];
    let step = (0u8..3, proptest::collection::vec(cmd, 1..12), any::<bool>())
        .prop_map(|(conn, cmds, whole)| Step::Batch {
            conn,
            cmds,
            send: Send {
                seg: if whole { Seg::Whole } else { Seg::InCmd(0) },
                ..Send::plain()
            },
        });
    proptest::collection::vec(step, 1..8)
        .prop_map(|steps| Case { steps })
        .boxed()
}

fn check(b: &mut Bench, c: &Case) -> Res {
    b.run(|sv, n, facts| {
        let mut w = World::new(sv, facts);
        w.run(&own_keys(&c.steps, &format!("c{n}:")))?;
        w.audit()?;
        w.audit_list()?;
        w.barrier()?;
        let mut tags = vec![];
        if w.stats.errors > 0 {
            tags.push("unknown commands");
        }
        let nontrivial = w.stats.cmds >= 3;
        Ok(Pass { nontrivial, tags })
    })
}

/// Every supported spelling, letter by letter.
fn spellings(b: &mut Bench, r: &mut Report) {
    let words: Vec<Vec<&str>> = vec![
        vec!["PING"],
        vec!["HELLO"],
        vec!["GET", "\u{1}k"],
        vec!["SET", "\u{1}k", "v"],
        vec!["CLIENT"],
        vec!["CLIENT", "ID"],
        vec!["CLIENT", "INFO"],
        vec!["CLIENT", "LIST"],
        vec!["CLIENT", "HELP"],
        vec!["CLIENT", "GETNAME"],
        vec!["CLIENT", "SETNAME", "\u{1}n"],
        vec!["CLIENT", "SETINFO", "LIB-VER", "\u{1}1"],
        vec!["ACL", "CAT"],
    ];
    let mut evals = 0;
    for cmd in words {
        // All the letter cases of the last word to be spelled, and with a
        // few ones of the first.
        let last = cmd.iter().rposition(|s| !s.starts_with('\u{1}') && *s != "v").unwrap();
        let last = if cmd[0] == "CLIENT" && cmd.len() > 1 { 1 } else { last };
        let n = cmd[last].len();
        let mut cmds: Vec<Cmd> = vec![];
        for m in 0..1u32 << n {
            let spell = |s: &str, m: u32| -> String {
                s.chars()
                    .enumerate()
                    .map(|(i, c)| {
                        if m >> i & 1 == 1 {
                            c.to_ascii_lowercase()
                        } else {
                            c
                        }
                    })
                    .collect()
            };
            let c = cmd
                .iter()
                .enumerate()
                .map(|(i, s)| {
                    if s.starts_with('\u{1}') || *s == "v" {
                        Arg::bulk(s.trim_start_matches('\u{1}'))
                    } else if i == last {
                        Arg::bulk(spell(s, m))
                    } else {
                        Arg::bulk(spell(s, m.wrapping_mul(2654435761)))
                    }
                })
                .collect();
            cmds.push(c);
        }
        evals += cmds.len() as u64;
        r.one(
            "spellings",
            Case {
                steps: cmds
                    .chunks(64)
                    .map(|c| Step::Batch {
                        conn: 0,
                        cmds: c.to_vec(),
                        send: Send::plain(),
                    })
                    .collect(),
            },
            |c| check(b, c),
        );
    }
    r.extra.insert("spellings".into(), evals.into());
}

pub fn run(r: &mut Report) {
    r.rule(
        "case: batches of supported commands in generated letter cases mixed \
         with unsupported commands and subcommands (Redis ones, near misses, \
         look-alikes, arbitrary text) given the arguments of real ones; every \
         reply is compared to the model, an unsupported one needs exactly one \
         error naming it; data and names audited; non-trivial = 3 commands or \
         more. spellings: every letter case of every command or subcommand.",
    );
    let mut b = Bench::new(Opts::new);
    spellings(&mut b, r);
    r.drive("case", strat(), r.n(6000, 80000), |c| check(&mut b, c));
}
