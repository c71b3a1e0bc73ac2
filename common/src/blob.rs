//! Byte strings of generated cases: literal ones, and large ones described by
//! a recipe so that a case stays readable and replayable.
use proptest::prelude::*;
use serde::{Deserialize, Deserializer, Serialize, Serializer};

#[derive(Clone, PartialEq, Eq, Hash)]
pub enum Blob {
    Lit(Vec<u8>),
    /// `len` bytes of the pattern `kind` (see [Blob::bytes]), varied by `seed`
    Gen { len: usize, seed: u32, kind: u8 },
}

impl Blob {
    pub fn s(s: &str) -> Blob {
        Blob::Lit(s.as_bytes().to_vec())
    }

    pub fn len(&self) -> usize {
        match self {
            Blob::Lit(v) => v.len(),
            Blob::Gen { len, .. } => *len,
        }
    }

    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }

    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Blob::Lit(v) => v.clone(),
            Blob::Gen { len, seed, kind } => gen(*len, *seed, *kind),
        }
    }
}

fn gen(len: usize, seed: u32, kind: u8) -> Vec<u8> {
    let mut out = Vec::with_capacity(len);
    match kind {
        // any byte
        0 => {
            let mut x = (seed as u64) << 1 | 1;
            while out.len() < len {
                x ^= x << 13;
                x ^= x >> 7;
                x ^= x << 17;
                let b = x.to_le_bytes();
                let n = b.len().min(len - out.len());
                out.extend_from_slice(&b[..n]);
            }
        }
        // numbered words, any lost, repeated or moved part shows
        1 => {
            let mut i = seed as u64;
            while out.len() < len {
                let w = format!("{:x}_", i);
                let n = w.len().min(len - out.len());
                out.extend_from_slice(&w.as_bytes()[..n]);
                i += 1;
            }
        }
        // what looks like the protocol
        2 => {
            let pats: [&[u8]; 4] =
                [b"+OK\r\n", b"$-1\r\n", b"*2\r\n$3\r\nSET\r\n", b"\r\n\r\n"];
            let mut i = seed as usize;
            while out.len() < len {
                let w = pats[i % 4];
                let n = w.len().min(len - out.len());
                out.extend_from_slice(&w[..n]);
                i += 1;
            }
        }
        // constant
        _ => out.resize(len, b'a' + (seed % 26) as u8),
    }
    out
}

fn escape(v: &[u8]) -> String {
    v.escape_ascii().to_string()
}

fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 1 < b.len() {
            i += 1;
            match b[i] {
                b'n' => out.push(b'\n'),
                b'r' => out.push(b'\r'),
                b't' => out.push(b'\t'),
                b'x' => {
                    let h = std::str::from_utf8(&b[i + 1..i + 3]).unwrap();
                    out.push(u8::from_str_radix(h, 16).unwrap());
                    i += 2;
                }
                c => out.push(c),
            }
        } else {
            out.push(b[i]);
        }
        i += 1;
    }
    out
}

impl std::fmt::Debug for Blob {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.repr())
    }
}

impl Blob {
    fn repr(&self) -> String {
        match self {
            Blob::Lit(v) => format!("\"{}\"", escape(v)),
            Blob::Gen { len, seed, kind } => {
                format!("gen:{len}:{seed}:{kind}")
            }
        }
    }
}

impl Serialize for Blob {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&self.repr())
    }
}

impl<'de> Deserialize<'de> for Blob {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        if let Some(rest) = s.strip_prefix("gen:") {
            let p: Vec<u64> =
                rest.split(':').map(|x| x.parse().unwrap()).collect();
            return Ok(Blob::Gen {
                len: p[0] as usize,
                seed: p[1] as u32,
                kind: p[2] as u8,
            });
        }
        Ok(Blob::Lit(unescape(&s[1..s.len() - 1])))
    }
}

/// Sizes around which buffers, counters and length digits change.
pub fn edge_len(max: usize) -> BoxedStrategy<usize> {
    let mut edges: Vec<usize> = vec![0, 1, 2, 3, 9, 10, 11, 99, 100, 101];
    let mut p = 8;
    while p <= 1 << 27 {
        edges.push(p);
        p *= 2;
    }
    edges.extend([999, 1000, 4000, 8190, 8194, 10_000, 100_000, 1_000_000]);
    edges.retain(|e| *e <= max);
    let around = (proptest::sample::select(edges), -48i64..=12i64).prop_map(
        move |(e, d)| ((e as i64 + d).max(0) as usize).min(max),
    );
    let close = {
        let mut p: Vec<usize> = Vec::new();
        let mut x = 16;
        while x <= max {
            p.push(x);
            x *= 2;
        }
        if p.is_empty() {
            p.push(max);
        }
        (proptest::sample::select(p), -2i64..=2i64)
            .prop_map(move |(e, d)| ((e as i64 + d).max(0) as usize).min(max))
    };
    prop_oneof![
        3 => around,
        3 => close,
        2 => 0..=max.min(64),
        1 => 0..=max.min(20_000),
    ]
    .boxed()
}

/// A generated blob of an edge length. Only ascii when `text`.
pub fn edge_blob(max: usize, text: bool) -> BoxedStrategy<Blob> {
    (edge_len(max), any::<u16>(), if text { 1u8..4 } else { 0u8..4 })
        .prop_map(|(len, seed, kind)| Blob::Gen { len, seed: seed as u32, kind })
        .boxed()
}

/// Short byte strings of any content.
pub fn small_bytes() -> BoxedStrategy<Blob> {
    prop_oneof![
        4 => proptest::collection::vec(any::<u8>(), 0..24),
        2 => proptest::collection::vec(
            proptest::sample::select(b"\r\n$*+-:%0123 a\0\xff".to_vec()), 0..24),
    ]
    .prop_map(Blob::Lit)
    .boxed()
}

/// Text (UTF-8) of any content, with the characters which matter to protocols
/// and to case conversions.
pub fn nasty_text() -> BoxedStrategy<String> {
    let parts = vec![
        "\r\n", "\n", "\r", " ", "\0", "+OK", "-ERR", "$3", "$-1", "*1", ":1",
        "%1", "a", "B", "é", "ß", "İ", "ſ", "\u{212a}", "名", "\u{1F600}",
        "\u{85}", "\u{2028}", "\u{feff}", "'", "\"", "\\", "{", "}", "=",
        "id=1", "name=", "\t", "\x1b", "\x7f", "0", "set", "PING",
    ];
    let parts: Vec<String> = parts.into_iter().map(String::from).collect();
    prop_oneof![
        3 => proptest::collection::vec(proptest::sample::select(parts), 0..12)
            .prop_map(|v| v.concat()),
        1 => proptest::collection::vec(any::<char>(), 0..12)
            .prop_map(|v| v.into_iter().collect()),
    ]
    .boxed()
}
