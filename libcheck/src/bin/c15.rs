//! C15: hash slots.
use libcheck::*;
use proptest::prelude::*;
use roster::application::server::frame::Frame;
use roster::application::server::verif::{Command, CommandExecution};
use roster::infrastructure::hash::crc_hash;
use rvcommon::blob::{edge_blob, nasty_text, small_bytes};
use rvcommon::{isolate, violation, Bad, Blob, Pass, Report, Res};
use std::sync::atomic::{AtomicU64, Ordering};

/// CRC16/XMODEM, bit by bit: polynomial x^16 + x^12 + x^5 + 1, from 0.
fn crc16(b: &[u8]) -> u16 {
    let mut r: u32 = 0;
    for x in b {
        for i in (0..8).rev() {
            let bit = (*x >> i) as u32 & 1;
            let out = r >> 15 & 1;
            r = r << 1 & 0xffff;
            if out ^ bit == 1 {
                r ^= 0x1021;
            }
        }
    }
    r as u16
}

fn hash(b: &[u8]) -> Result<u16, Bad> {
    match guarded(|| crc_hash(b)) {
        Ok(h) => Ok(h),
        Err(e) => Err(Bad::Violation(format!(
            "hashing \"{}\" panics: {e}",
            b.escape_ascii()
        ))),
    }
}

fn one(b: &[u8]) -> Result<(), Bad> {
    let h = hash(b)?;
    let w = crc16(b) % 16384;
    if h != w {
        let b: String = b.escape_ascii().to_string().chars().take(300).collect();
        violation!("the slot of \"{b}\" is {h} instead of {w}");
    }
    Ok(())
}

/// What the server makes of a command on the key.
fn through_command(key: &str) -> Result<(), Bad> {
    let w = crc16(key.as_bytes()) % 16384;
    let bulk = |s: &str| Frame::Bulk(s.as_bytes().to_vec().into());
    for args in [
        vec![bulk("GET"), bulk(key)],
        vec![bulk("set"), bulk(key), bulk("v")],
        vec![bulk("SET"), bulk(key), bulk(""), bulk("PX"), bulk("100")],
        vec![Frame::Simple("get".into()), Frame::Simple(key.into())],
    ] {
        let got = guarded(|| {
            Command::from_frame(Frame::Array(args.clone()))
                .map(|c| c.hash_key())
        });
        match got {
            Ok(Ok(Some(h))) if h == w => {}
            x => violation!(
                "the slot of {:?} is {:?} instead of {w}",
                args,
                x.map(|x| x.map_err(|e| e.to_string()))
            ),
        }
    }
    Ok(())
}

fn key(b: &Blob) -> Res {
    let b = b.bytes();
    one(&b)?;
    let mut tags = vec![];
    if let Ok(s) = std::str::from_utf8(&b) {
        through_command(s)?;
        tags.push("through commands");
    }
    if b.len() > 1000 {
        tags.push("more than 1000 bytes");
    }
    // The same bytes anywhere in memory.
    let mut moved = vec![0xaa; b.len() + 9];
    for at in [1, 3, 8] {
        moved[at..at + b.len()].copy_from_slice(&b);
        if hash(&moved[at..at + b.len()])? != crc16(&b) % 16384 {
            violation!("the slot depends on where the key is");
        }
    }
    Ok(Pass { nontrivial: b.len() > 2, tags })
}

fn exhaust(r: &mut Report, len: u32) {
    if r.shrinking() {
        return;
    }
    isolate::begin("exhaustive", 0, || "null".into());
    let total = 256u64.pow(len);
    let bad = std::sync::Mutex::new(None);
    let next = AtomicU64::new(0);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let from = next.fetch_add(4096, Ordering::Relaxed);
                if from >= total || bad.lock().unwrap().is_some() {
                    return;
                }
                isolate::tick();
                for i in from..(from + 4096).min(total) {
                    let b = &i.to_be_bytes()[8 - len as usize..];
                    if let Err(e) = one(b) {
                        *bad.lock().unwrap() = Some((b.to_vec(), e));
                        return;
                    }
                }
            });
        }
    });
    if let Some((b, e)) = bad.into_inner().unwrap() {
        r.one("key", Blob::Lit(b), |_| Err(e));
    }
    r.bulk("exhaustive", total, total);
}

fn run(r: &mut Report) {
    r.rule(
        "exhaustive: every key of 0 to 2 bytes (3 in the thorough tier). key: \
         generated keys of any content up to 1 MiB, through the hash function \
         from several places in memory and, when they are text, through the \
         commands naming the key; against a CRC computed bit by bit. \
         non-trivial = more than 2 bytes.",
    );
    // The oracle itself, on the example of the specification.
    assert_eq!(crc16(b"123456789"), 0x31c3);
    for len in 0..=r.n(2, 3) {
        exhaust(r, len);
    }
    let tagged = (nasty_text(), nasty_text(), nasty_text())
        .prop_map(|(a, b, c)| Blob::s(&format!("{a}{{{b}}}{c}")));
    let s = prop_oneof![
        3 => small_bytes(),
        3 => nasty_text().prop_map(|s| Blob::s(&s)),
        2 => tagged,
        2 => edge_blob(5000, false),
        1 => edge_blob(5000, true),
        2 => proptest::collection::vec(any::<u8>(), 0..300).prop_map(Blob::Lit),
    ];
    r.drive("key", s, r.n(500_000, 9_000_000), key);
    r.drive("long", edge_blob(1 << 20, false), r.n(300, 5000), key);
}

fn main() {
    libcheck::main("C15", run);
}
