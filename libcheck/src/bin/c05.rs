//! C05: decoding.
use bytes::BytesMut;
use libcheck::*;
use proptest::prelude::*;
use roster::application::server::frame::{Error, Frame};
use rvcommon::blob::small_bytes;
use rvcommon::resp::Arg;
use rvcommon::{isolate, violation, Blob, Pass, Report, Res};
use serde::{Deserialize, Serialize};
use std::io::Cursor;

/// Nesting which has to be decoded
const DEPTH: usize = 128;

/// What the decoder made of some bytes.
#[derive(Debug, PartialEq)]
enum Got {
    Frame(Frame, usize),
    Incomplete,
    Invalid(String),
    Panic(String),
}

/// As a connection does: check, then parse what was checked.
fn decode(b: &[u8]) -> Got {
    decode_at(&BytesMut::from(b))
}

fn decode_at(buf: &BytesMut) -> Got {
    let r = guarded(|| {
        let mut c = Cursor::new(buf);
        match Frame::check(&mut c) {
            Err(Error::Incomplete) => return Got::Incomplete,
            Err(e) => return Got::Invalid(e.to_string()),
            Ok(()) => {}
        }
        let n = c.position() as usize;
        if n > buf.len() {
            return Got::Panic(format!("check went to {n} of {}", buf.len()));
        }
        let mut c = Cursor::new(buf.clone().split_to(n).freeze());
        match Frame::parse(&mut c) {
            Err(e) => Got::Invalid(format!("after the check: {e}")),
            Ok(f) if c.position() as usize != n => Got::Panic(format!(
                "check took {n} bytes, parse {}: {f:?}",
                c.position()
            )),
            Ok(f) => Got::Frame(f, n),
        }
    });
    r.unwrap_or_else(Got::Panic)
}

/// What the reference says of some bytes.
enum Want {
    Frame(Frame, usize),
    /// A frame if accepted (a form which isn't canonical), of that length
    Loose(usize),
    Incomplete,
    Invalid,
    /// Can't be told yet: incomplete or invalid
    NotFrame,
    /// Only that nothing breaks
    Any,
}

enum Stop {
    Incomplete,
    Invalid,
    NotFrame,
    Any,
}

struct Ref<'a> {
    b: &'a [u8],
    at: usize,
    loose: bool,
    /// Something invalid whose end is known: it may be told only when the
    /// frame around it is complete
    late: bool,
}

impl Ref<'_> {
    fn line(&mut self) -> Option<&[u8]> {
        let rest = &self.b[self.at..];
        let n = rest.windows(2).position(|w| w == b"\r\n")?;
        let l = &self.b[self.at..self.at + n];
        self.at += n + 2;
        Some(l)
    }

    /// An unsigned number on a line.
    fn number(&mut self) -> Result<u64, Stop> {
        let from = self.at;
        let Some(l) = self.line() else {
            let rest = &self.b[from..];
            let rest = rest.strip_suffix(b"\r").unwrap_or(rest);
            let digits = rest.iter().all(|c| c.is_ascii_digit());
            return Err(if digits && num(rest).is_some_or_empty() {
                Stop::Incomplete
            } else {
                Stop::NotFrame
            });
        };
        let l = l.to_vec();
        let d = l.strip_prefix(b"+").unwrap_or(&l);
        let d = match d.strip_prefix(b"-") {
            // "-0" is zero, if accepted
            Some(z) if !z.is_empty() && z.iter().all(|c| *c == b'0') => z,
            _ => d,
        };
        let Some(n) = num(d).0 else { return Err(Stop::Invalid) };
        if n.to_string().as_bytes() != &l[..] {
            self.loose = true;
        }
        Ok(n)
    }

    fn frame(&mut self, depth: usize) -> Result<Frame, Stop> {
        if depth > DEPTH {
            return Err(Stop::Any);
        }
        let Some(&t) = self.b.get(self.at) else {
            return Err(Stop::Incomplete);
        };
        if !b"+-:$*%".contains(&t) {
            return Err(Stop::Invalid);
        }
        self.at += 1;
        match t {
            b'+' | b'-' => {
                let from = self.at;
                let Some(l) = self.line() else {
                    // Bytes which may be the beginning of a character.
                    let rest = &self.b[from..];
                    return Err(match std::str::from_utf8(rest) {
                        Err(e) if e.error_len().is_some() => Stop::NotFrame,
                        _ => Stop::Incomplete,
                    });
                };
                let s = match String::from_utf8(l.to_vec()) {
                    Ok(s) => s,
                    Err(_) => {
                        self.late = true;
                        String::new()
                    }
                };
                Ok(if t == b'+' {
                    Frame::Simple(s.into())
                } else {
                    Frame::Error(s.into())
                })
            }
            b':' => Ok(Frame::Integer(self.number()?)),
            b'$' => {
                let rest = &self.b[self.at..];
                if rest.first() == Some(&b'-') {
                    if rest.starts_with(b"-1\r\n") {
                        self.at += 4;
                        return Ok(Frame::Null);
                    }
                    if b"-1\r\n".starts_with(rest) {
                        return Err(Stop::Incomplete);
                    }
                    let complete = rest.windows(2).any(|w| w == b"\r\n");
                    return Err(if complete && rest.len() >= 4 && depth == 0 {
                        Stop::Invalid
                    } else {
                        Stop::NotFrame
                    });
                }
                let n = self.number()?;
                let Some(end) = n.checked_add(2) else {
                    return Err(Stop::Invalid);
                };
                let rest = &self.b[self.at..];
                if (rest.len() as u64) < end {
                    let tail = rest.get(n as usize..).unwrap_or(b"");
                    return Err(if b"\r\n".starts_with(tail) {
                        Stop::Incomplete
                    } else {
                        Stop::NotFrame
                    });
                }
                let n = n as usize;
                if &rest[n..n + 2] != b"\r\n" {
                    self.loose = true;
                }
                self.at += n + 2;
                Ok(Frame::Bulk(rest[..n].to_vec().into()))
            }
            b'*' => {
                let n = self.number()?;
                let mut v = vec![];
                for _ in 0..n {
                    v.push(self.frame(depth + 1)?);
                }
                Ok(Frame::Array(v))
            }
            _ => {
                let n = self.number()?;
                if n.checked_mul(2).is_none() {
                    return Err(Stop::Invalid);
                }
                let mut v = indexmap::IndexMap::new();
                for _ in 0..n {
                    let k = self.frame(depth + 1)?;
                    let x = self.frame(depth + 1)?;
                    if v.insert(k, x).is_some() {
                        self.loose = true;
                    }
                }
                Ok(Frame::Map(v))
            }
        }
    }
}

struct Num(Option<u64>, bool);
impl Num {
    fn is_some_or_empty(&self) -> bool {
        self.0.is_some() || self.1
    }
}

/// Decimal digits only; and whether there's none.
fn num(d: &[u8]) -> Num {
    if d.is_empty() {
        return Num(None, true);
    }
    let mut n = 0u64;
    for c in d {
        if !c.is_ascii_digit() {
            return Num(None, false);
        }
        match n.checked_mul(10).and_then(|n| n.checked_add((c - b'0') as u64)) {
            Some(x) => n = x,
            None => return Num(None, false),
        }
    }
    Num(Some(n), false)
}

fn want(b: &[u8]) -> Want {
    let mut r = Ref { b, at: 0, loose: false, late: false };
    match r.frame(0) {
        Ok(_) if r.late => Want::Invalid,
        Err(Stop::Incomplete) if r.late => Want::NotFrame,
        Ok(_) if r.loose => Want::Loose(r.at),
        Ok(f) => Want::Frame(f, r.at),
        // What isn't canonical can be refused already.
        Err(Stop::Incomplete) if r.loose => Want::NotFrame,
        Err(Stop::Incomplete) => Want::Incomplete,
        Err(Stop::Invalid) => Want::Invalid,
        Err(Stop::NotFrame) => Want::NotFrame,
        Err(Stop::Any) => Want::Any,
    }
}

fn show(b: &[u8]) -> String {
    if b.len() > 300 {
        format!("{}... ({} bytes)", b[..300].escape_ascii(), b.len())
    } else {
        b.escape_ascii().to_string()
    }
}

/// Decoded bytes against the reference. Says whether they hold a frame.
fn compare(b: &[u8]) -> Result<Want, rvcommon::Bad> {
    compare_buf(&BytesMut::from(b))
}

fn compare_buf(b: &BytesMut) -> Result<Want, rvcommon::Bad> {
    let got = decode_at(b);
    let want = want(b);
    if let Got::Panic(e) = &got {
        violation!("decoding \"{}\" panics: {e}", show(b));
    }
    let ok = match (&want, &got) {
        (Want::Frame(f, n), Got::Frame(g, m)) => f == g && n == m,
        (Want::Loose(n), Got::Frame(_, m)) => n == m,
        (Want::Loose(_), Got::Invalid(_)) => true,
        (Want::Incomplete, Got::Incomplete) => true,
        (Want::Invalid, Got::Invalid(_)) => true,
        (Want::NotFrame, Got::Incomplete | Got::Invalid(_)) => true,
        (Want::Any, _) => true,
        _ => false,
    };
    if !ok {
        let w = match &want {
            Want::Frame(f, n) => format!("{n} bytes giving {f:?}"),
            Want::Loose(n) => format!("invalid, or a frame of {n} bytes"),
            Want::Incomplete => "incomplete".into(),
            Want::Invalid => "invalid".into(),
            Want::NotFrame => "not a frame".into(),
            Want::Any => "?".into(),
        };
        violation!("\"{}\" is decoded as {got:?}, expected {w}", show(b));
    }
    Ok(want)
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Valid {
    frames: Vec<Arg>,
    rest: Blob,
    cuts: Vec<u16>,
}

fn valid(c: &Valid) -> Res {
    let mut all: Vec<u8> = vec![];
    let mut lens = vec![];
    for f in &c.frames {
        let e = encoded(f);
        lens.push(e.len());
        all.extend(e);
    }
    let total = all.len();
    all.extend(c.rest.bytes());
    // One after the other in the same buffer.
    let mut buf = BytesMut::from(&all[..]);
    for (f, len) in c.frames.iter().zip(&lens) {
        match decode_at(&buf) {
            Got::Frame(g, n) if n == *len && g == to_frame(f) => {
                let _ = buf.split_to(n);
            }
            g => violation!(
                "\"{}\" is decoded as {g:?}, expected {len} bytes giving {f:?}",
                show(&buf)
            ),
        }
    }
    if total < all.len() {
        compare_buf(&buf)?;
    }
    // Prefixes.
    let mut cuts = 0;
    let mut from = 0;
    for len in &lens {
        let e = &all[from..from + len];
        let ends: Vec<usize> = if *len <= 1200 {
            (0..*len).collect()
        } else {
            (0..150)
                .chain(len - 150..*len)
                .chain(c.cuts.iter().map(|x| *x as usize * len / 65536))
                .collect()
        };
        for i in ends {
            cuts += 1;
            match decode(&e[..i]) {
                Got::Incomplete => {}
                g => violation!(
                    "the first {i} bytes of \"{}\" are decoded as {g:?}",
                    show(e)
                ),
            }
        }
        from += len;
    }
    let mut tags = vec![];
    if c.frames.iter().any(|f| depth(f) >= 100) {
        tags.push("nested 100 times or more");
    }
    if total < all.len() {
        tags.push("followed by other bytes");
    }
    if cuts > 100 {
        tags.push("more than 100 prefixes");
    }
    if lens.iter().any(|l| *l > 65536) {
        tags.push("frame over 64 KiB");
    }
    Ok(Pass { nontrivial: c.frames.iter().any(|f| size(f) > 1), tags })
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Edited {
    frame: Arg,
    edits: Vec<(u16, u8, u8)>,
}

impl Edited {
    fn bytes(&self) -> Vec<u8> {
        let mut out = encoded(&self.frame);
        for (at, how, with) in &self.edits {
            if out.is_empty() {
                break;
            }
            let at = *at as usize * out.len() / 65536;
            match how % 8 {
                0 => out[at] = *with,
                1 => {
                    out.remove(at);
                }
                2 => out.insert(at, *with),
                3 => {
                    let b = out[at..(at + 8).min(out.len())].to_vec();
                    out.splice(at..at, b);
                }
                4 => out.truncate(at),
                // where it matters: markers, digits, line ends
                5 => {
                    if let Some(p) =
                        out[at..].iter().position(|c| b"\r\n".contains(c))
                    {
                        out[at + p] = b"\r\n0-"[*with as usize % 4];
                    }
                }
                6 => {
                    if let Some(p) =
                        out[at..].iter().position(|c| c.is_ascii_digit())
                    {
                        out[at + p] = b"0123456789-+a"[*with as usize % 13];
                    }
                }
                _ => {
                    if let Some(p) =
                        out[at..].iter().position(|c| b"+-:$*%".contains(c))
                    {
                        out[at + p] = b"+-:$*%_#"[*with as usize % 8];
                    }
                }
            }
        }
        out
    }
}

fn outcome(w: &Want) -> Pass {
    let (nontrivial, tag) = match w {
        Want::Frame(..) => (true, "frame"),
        Want::Loose(_) => (true, "not canonical"),
        Want::Incomplete => (true, "incomplete"),
        Want::Invalid => (true, "invalid"),
        Want::NotFrame => (true, "incomplete or invalid"),
        Want::Any => (false, "nested too deep"),
    };
    Pass { nontrivial, tags: vec![tag] }
}

/// A frame made of tokens of the protocol in any order.
fn tokens() -> BoxedStrategy<Blob> {
    let t: Vec<&[u8]> = vec![
        b"+", b"-", b":", b"$", b"*", b"%", b"0", b"1", b"2", b"3", b"9", b"10",
        b"\r\n", b"\r\n", b"\r\n", b"\r", b"\n", b"-1", b"$-1\r\n", b"$0\r\n\r\n",
        b":1\r\n", b"+a\r\n", b"-e\r\n", b"*1\r\n", b"*2\r\n", b"%1\r\n", b"%0\r\n",
        b"*0\r\n", b"$1\r\na\r\n", b"a", b"\xff", b"\xc3", b"\xa9", b" ",
        b"18446744073709551615", b"18446744073709551614", b"9223372036854775808",
        b"4294967296", b"_", b"#",
    ];
    proptest::collection::vec(proptest::sample::select(t), 0..14)
        .prop_map(|v| Blob::Lit(v.concat()))
        .boxed()
}

/// A number of any look behind any marker.
fn numbers() -> BoxedStrategy<(u8, Blob, Blob)> {
    let digits = prop_oneof![
        3 => int().prop_map(|n| n.to_string().into_bytes()),
        2 => proptest::collection::vec(b'0'..=b'9', 0..40),
        2 => (1u8..=9, 17usize..22, proptest::collection::vec(b'0'..=b'9', 24))
            .prop_map(|(d, n, v)| [&[d + b'0'], &v[..n]].concat()),
        2 => (0u64..5, any::<bool>()).prop_map(|(d, up)| {
            let n = if up { u64::MAX as u128 + d as u128 }
                else { u64::MAX as u128 - d as u128 };
            n.to_string().into_bytes()
        }),
    ];
    let one = (digits, proptest::option::weighted(0.4, (any::<u16>(), any::<u8>())))
        .prop_map(|(mut d, edit)| {
            if let Some((at, b)) = edit {
                let at = at as usize * (d.len() + 1) / 65536;
                let b = if b < 128 {
                    b"-+ \t.,eEx/:_\0\r\n\x80"[b as usize % 16]
                } else {
                    b
                };
                d.insert(at, b);
            }
            Blob::Lit(d)
        });
    (0u8..4, one, small_bytes()).boxed()
}

fn numbers_bytes(c: &(u8, Blob, Blob)) -> Vec<u8> {
    let mut b = vec![b":$*%"[c.0 as usize % 4]];
    b.extend(c.1.bytes());
    b.extend(b"\r\n");
    b.extend(c.2.bytes());
    b
}

/// Nesting of any depth: run in another process, a stack overflow can't be
/// caught.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Nest {
    open: Blob,
    n: u32,
    inner: Blob,
}

fn nest(c: &Nest) -> Res {
    let exe = std::env::current_exe()?;
    let out = std::process::Command::new(exe)
        .arg("--nest")
        .arg(serde_json::to_string(c).unwrap())
        .output()?;
    if let Some(code) = out.status.code() {
        match code {
            0 => {}
            1 => violation!("{}", String::from_utf8_lossy(&out.stdout)),
            _ => {
                return Err(rvcommon::Bad::Harness(format!(
                    "child ended with {code}: {}",
                    String::from_utf8_lossy(&out.stderr)
                )))
            }
        }
    } else {
        violation!(
            "decoding {} times \"{}\" kills the process ({})",
            c.n,
            show(&c.open.bytes()),
            out.status
        );
    }
    Ok(Pass { nontrivial: c.n > 100, tags: vec!["nested frames"] })
}

fn nest_child(c: Nest) -> ! {
    // As much stack as a thread of the server has.
    let t = std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || {
            let mut b = c.open.bytes().repeat(c.n as usize);
            b.extend(c.inner.bytes());
            match decode(&b) {
                Got::Panic(e) => {
                    println!("panics: {e}");
                    std::process::exit(1)
                }
                _ => std::process::exit(0),
            }
        })
        .unwrap();
    let _ = t.join();
    std::process::exit(3)
}

/// Every string of that length over that alphabet, by an index.
fn nth(mut i: u64, len: usize, alphabet: &[u8], out: &mut [u8]) {
    for o in out.iter_mut().take(len) {
        *o = alphabet[(i % alphabet.len() as u64) as usize];
        i /= alphabet.len() as u64;
    }
}

fn exhaust(r: &mut Report, part: &str, alphabet: Vec<u8>, len: usize) {
    if r.shrinking() {
        return;
    }
    isolate::begin(part, 0, || "null".into());
    let total = (alphabet.len() as u64).pow(len as u32);
    let threads = 8;
    let bad = std::sync::Mutex::new(None);
    let frames = std::sync::atomic::AtomicU64::new(0);
    std::thread::scope(|s| {
        for t in 0..threads {
            let (bad, frames, alphabet) = (&bad, &frames, &alphabet);
            s.spawn(move || {
                let mut b = BytesMut::zeroed(len);
                let mut i = t;
                let mut found = 0;
                while i < total {
                    nth(i, len, alphabet, &mut b[..]);
                    match compare_buf(&b) {
                        Ok(Want::Frame(..) | Want::Incomplete) => found += 1,
                        Ok(_) => {}
                        Err(e) => {
                            bad.lock().unwrap().get_or_insert((b.to_vec(), e));
                            break;
                        }
                    }
                    i += threads;
                    if i & 0xffff < threads {
                        isolate::tick();
                    }
                }
                frames
                    .fetch_add(found, std::sync::atomic::Ordering::Relaxed);
            });
        }
    });
    if let Some((b, e)) = bad.into_inner().unwrap() {
        r.one("bytes", Blob::Lit(b), |_| Err(e));
    }
    let n = frames.into_inner();
    r.bulk(part, total, n);
}

fn run(r: &mut Report) {
    r.rule(
        "valid: sequences of generated frames (every type, nested up to 128, \
         empty, wide, large) followed by other bytes are decoded one by one \
         exactly, and every prefix (sampled over 1200 bytes) is incomplete; \
         non-trivial = some frame holds another. wide: the same with up to some \
         million elements or bytes; non-trivial = all. bytes, edited, numbers: \
         token soups, edited encodings, numbers of any look behind any marker, \
         against a reference decoder; non-trivial = all. exhaustive: every \
         string over an alphabet against the reference; non-trivial = a frame \
         or the beginning of one. nesting: up to 300000 levels decoded on a \
         2 MiB stack in another process.",
    );
    r.assume(
        "left open: bulk strings not ended by CRLF, leading zeros, plus signs, \
         -0, repeated map keys, nesting over 128 (only that nothing panics and \
         that check and parse agree)",
    );
    let rest = prop_oneof![
        2 => Just(Blob::Lit(vec![])),
        2 => small_bytes(),
        1 => tokens(),
        1 => (frame(64), 0u16..=u16::MAX).prop_map(|(f, n)| {
            let e = encoded(&f);
            let n = n as usize * e.len() / 65536;
            Blob::Lit(e[..n].to_vec())
        }),
    ];
    let s = (
        prop_oneof![
            4 => proptest::collection::vec(frame(600), 1..4),
            1 => proptest::collection::vec(frame(300_000), 1..2),
        ],
        rest,
        proptest::collection::vec(any::<u16>(), 40),
    )
        .prop_map(|(frames, rest, cuts)| Valid { frames, rest, cuts });
    r.drive("valid", s, r.n(9000, 150_000), valid);

    let s = (wide(17), proptest::collection::vec(any::<u16>(), 6), small_bytes());
    r.drive("wide", s, r.n(40, 1000), |(w, cuts, rest)| {
        let f = w.frame();
        let e = encoded(&f);
        let mut buf = BytesMut::from(&e[..]);
        buf.extend_from_slice(&rest.bytes());
        let want = to_frame(&f);
        match decode_at(&buf) {
            Got::Frame(g, n) if n == e.len() && g == want => {}
            g => {
                let g: String = format!("{g:?}").chars().take(300).collect();
                violation!("{} bytes of {} are decoded as {g}", e.len(), show(&buf))
            }
        }
        let ends = cuts.iter().map(|x| *x as usize * e.len() / 65536);
        for i in ends.chain([e.len() - 1, e.len() - 2]) {
            match decode_at(&BytesMut::from(&e[..i])) {
                Got::Incomplete => {}
                g => {
                    let g: String = format!("{g:?}").chars().take(300).collect();
                    violation!("the first {i} bytes of {} are {g}", show(&buf))
                }
            }
        }
        Ok(Pass { nontrivial: true, tags: vec!["wide"] })
    });

    let s = prop_oneof![4 => tokens(), 1 => small_bytes()];
    r.drive("bytes", s, r.n(250_000, 6_000_000), |b| {
        compare(&b.bytes()).map(|w| outcome(&w))
    });

    let s = (frame(300), proptest::collection::vec(any::<(u16, u8, u8)>(), 1..4))
        .prop_map(|(frame, edits)| Edited { frame, edits });
    r.drive("edited", s, r.n(60_000, 1_500_000), |c| {
        compare(&c.bytes()).map(|w| outcome(&w))
    });

    r.drive("numbers", numbers(), r.n(150_000, 4_000_000), |c| {
        compare(&numbers_bytes(c)).map(|w| outcome(&w))
    });

    let alphabet = b"+-:$*%0129\r\na\xff".to_vec();
    let all: Vec<u8> = (0..=255).collect();
    for len in 0..=2 {
        exhaust(r, "exhaustive", all.clone(), len);
    }
    for len in 3..=r.n(5, 7) as usize {
        exhaust(r, "exhaustive", alphabet.clone(), len);
    }
    let small = b"*%$:01\r\n".to_vec();
    exhaust(r, "exhaustive", small, r.n(7, 9) as usize);

    let open = proptest::sample::select(vec![
        &b"*1\r\n"[..],
        b"%1\r\n",
        b"%1\r\n:1\r\n",
        b"*2\r\n:1\r\n",
        b"*9\r\n",
        b"*1\r\n%1\r\n",
        b"*3\r\n$1\r\na\r\n",
    ]);
    let n = prop_oneof![1u32..300, 300u32..20_000, 100_000u32..300_000];
    let s = (open, n, proptest::sample::select(vec![&b":1\r\n"[..], b"", b"x"]))
        .prop_map(|(o, n, i)| Nest {
            open: Blob::Lit(o.to_vec()),
            n,
            inner: Blob::Lit(i.to_vec()),
        });
    r.drive("nesting", s, r.n(60, 800), nest);
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|a| a == "--nest").unwrap_or(false) {
        std::panic::set_hook(Box::new(|_| {}));
        nest_child(serde_json::from_str(&args[2]).unwrap());
    }
    libcheck::main("C05", run);
}
