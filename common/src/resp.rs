//! Reference RESP values: encoding, strict decoding of replies.
use crate::Blob;
use serde::{Deserialize, Serialize};

/// What is written on the wire, as generated.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Arg {
    Bulk(Blob),
    Simple(Blob),
    Err(Blob),
    Int(u64),
    Null,
    Arr(Vec<Arg>),
    Map(Vec<(Arg, Arg)>),
}

impl Arg {
    pub fn encode(&self, out: &mut Vec<u8>) {
        match self {
            Arg::Bulk(b) => {
                let b = b.bytes();
                out.extend(format!("${}\r\n", b.len()).bytes());
                out.extend(b);
                out.extend(b"\r\n");
            }
            Arg::Simple(b) => {
                out.push(b'+');
                out.extend(b.bytes());
                out.extend(b"\r\n");
            }
            Arg::Err(b) => {
                out.push(b'-');
                out.extend(b.bytes());
                out.extend(b"\r\n");
            }
            Arg::Int(n) => out.extend(format!(":{n}\r\n").bytes()),
            Arg::Null => out.extend(b"$-1\r\n"),
            Arg::Arr(v) => {
                out.extend(format!("*{}\r\n", v.len()).bytes());
                for a in v {
                    a.encode(out);
                }
            }
            Arg::Map(v) => {
                out.extend(format!("%{}\r\n", v.len()).bytes());
                for (k, a) in v {
                    k.encode(out);
                    a.encode(out);
                }
            }
        }
    }

    pub fn bulk(s: impl AsRef<[u8]>) -> Arg {
        Arg::Bulk(Blob::Lit(s.as_ref().to_vec()))
    }
}

/// A decoded reply.
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Val {
    Simple(Vec<u8>),
    Err(Vec<u8>),
    Int(i64),
    Null,
    Bulk(Vec<u8>),
    Arr(Vec<Val>),
    Map(Vec<(Val, Val)>),
}

fn show(b: &[u8]) -> String {
    if b.len() > 160 {
        format!(
            "{}...({} bytes)...{}",
            b[..60].escape_ascii(),
            b.len(),
            b[b.len() - 40..].escape_ascii()
        )
    } else {
        b.escape_ascii().to_string()
    }
}

impl std::fmt::Debug for Val {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Val::Simple(b) => write!(f, "+{}", show(b)),
            Val::Err(b) => write!(f, "-{}", show(b)),
            Val::Int(i) => write!(f, ":{i}"),
            Val::Null => write!(f, "null"),
            Val::Bulk(b) => write!(f, "\"{}\"", show(b)),
            Val::Arr(v) => f.debug_list().entries(v).finish(),
            Val::Map(v) => {
                f.debug_map().entries(v.iter().map(|(a, b)| (a, b))).finish()
            }
        }
    }
}

impl Val {
    pub fn bulk(s: impl AsRef<[u8]>) -> Val {
        Val::Bulk(s.as_ref().to_vec())
    }
    pub fn simple(s: impl AsRef<[u8]>) -> Val {
        Val::Simple(s.as_ref().to_vec())
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Dec {
    /// value and how many bytes it takes
    Ok(Val, usize),
    Incomplete,
    Bad(String),
}

fn find_line(b: &[u8], from: usize) -> Result<Option<(usize, usize)>, String> {
    // A line of a reply holds neither CR nor LF.
    for i in from..b.len() {
        if b[i] == b'\n' {
            return Err(format!("bare LF in a line at {i}"));
        }
        if b[i] == b'\r' {
            if i + 1 == b.len() {
                return Ok(None);
            }
            if b[i + 1] != b'\n' {
                return Err(format!("bare CR in a line at {i}"));
            }
            return Ok(Some((i, i + 2)));
        }
    }
    Ok(None)
}

fn int(b: &[u8]) -> Result<i64, String> {
    let s = std::str::from_utf8(b).map_err(|_| "bad integer".to_string())?;
    let n: i64 = s.parse().map_err(|_| format!("bad integer {s:?}"))?;
    if n.to_string() != s {
        return Err(format!("integer not canonical {s:?}"));
    }
    Ok(n)
}

/// Strictly decode the first value of `b`.
pub fn decode(b: &[u8]) -> Dec {
    match dec(b, 0, 0) {
        Ok(Some((v, n))) => Dec::Ok(v, n),
        Ok(None) => Dec::Incomplete,
        Err(e) => Dec::Bad(e),
    }
}

fn dec(
    b: &[u8],
    at: usize,
    depth: usize,
) -> Result<Option<(Val, usize)>, String> {
    if depth > 1000 {
        return Err("too deep".into());
    }
    let Some(&t) = b.get(at) else { return Ok(None) };
    if !b"+-:$*%".contains(&t) {
        return Err(format!("unknown type byte {:?}", t as char));
    }
    let Some((end, next)) = find_line(b, at + 1)? else { return Ok(None) };
    let line = &b[at + 1..end];
    match t {
        b'+' => Ok(Some((Val::Simple(line.to_vec()), next))),
        b'-' => Ok(Some((Val::Err(line.to_vec()), next))),
        b':' => Ok(Some((Val::Int(int(line)?), next))),
        b'$' => {
            let n = int(line)?;
            if n == -1 {
                return Ok(Some((Val::Null, next)));
            }
            if n < 0 {
                return Err("negative length".into());
            }
            let n = n as usize;
            if b.len() < next + n + 2 {
                if b.len() > next + n && b[next + n] != b'\r' {
                    return Err("bulk not ended by CRLF".into());
                }
                return Ok(None);
            }
            if &b[next + n..next + n + 2] != b"\r\n" {
                return Err("bulk not ended by CRLF".into());
            }
            Ok(Some((Val::Bulk(b[next..next + n].to_vec()), next + n + 2)))
        }
        b'*' => {
            let n = int(line)?;
            if n < 0 {
                return Err("negative length".into());
            }
            let mut p = next;
            let mut v = Vec::new();
            for _ in 0..n {
                let Some((x, q)) = dec(b, p, depth + 1)? else {
                    return Ok(None);
                };
                v.push(x);
                p = q;
            }
            Ok(Some((Val::Arr(v), p)))
        }
        _ => {
            let n = int(line)?;
            if n < 0 {
                return Err("negative length".into());
            }
            let mut p = next;
            let mut v = Vec::new();
            for _ in 0..n {
                let Some((x, q)) = dec(b, p, depth + 1)? else {
                    return Ok(None);
                };
                let Some((y, q)) = dec(b, q, depth + 1)? else {
                    return Ok(None);
                };
                v.push((x, y));
                p = q;
            }
            Ok(Some((Val::Map(v), p)))
        }
    }
}
