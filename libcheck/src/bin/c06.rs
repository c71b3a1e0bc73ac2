//! C06: encoding.
use bytes::BytesMut;
use libcheck::*;
use monoio::buf::{IoBuf, IoVecBuf};
use monoio::io::{AsyncWriteRent, BufWriter};
use monoio::BufResult;
use proptest::prelude::*;
use roster::application::server::frame::{write_frame, Frame};
use rvcommon::blob::edge_blob;
use rvcommon::resp::Arg;
use rvcommon::{violation, Pass, Report, Res};
use serde::{Deserialize, Serialize};
use std::future::Future;
use std::io::{self, Cursor};
use std::pin::Pin;
use std::task::{Context, Poll};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Case {
    frames: Vec<Arg>,
    /// What the transport accepts at each write, again and again
    accepts: Vec<u32>,
    /// It isn't ready before these writes (of as many)
    waits: u16,
    /// through a buffered stream of that size, as the server does
    buffer: Option<u32>,
}

struct Transport {
    got: Vec<u8>,
    accepts: Vec<u32>,
    waits: u16,
    n: usize,
    short: usize,
    /// The n-th write fails
    fails: Option<usize>,
    failed: bool,
}

struct Yield(bool);
impl Future for Yield {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            return Poll::Ready(());
        }
        self.0 = true;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

impl Transport {
    async fn take(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.waits >> (self.n % 16) & 1 == 1 {
            Yield(false).await;
        }
        if self.fails == Some(self.n) || self.failed {
            self.failed = true;
            return Err(io::ErrorKind::ConnectionReset.into());
        }
        let max = self.accepts[self.n % self.accepts.len()].max(1) as usize;
        self.n += 1;
        let n = b.len().min(max);
        self.short += (n < b.len()) as usize;
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
}

impl AsyncWriteRent for Transport {
    async fn write<T: IoBuf>(&mut self, buf: T) -> BufResult<usize, T> {
        let b = unsafe {
            std::slice::from_raw_parts(buf.read_ptr(), buf.bytes_init())
        };
        (self.take(b).await, buf)
    }

    async fn writev<T: IoVecBuf>(&mut self, buf: T) -> BufResult<usize, T> {
        let mut all = vec![];
        for i in 0..buf.read_iovec_len() {
            let v = unsafe { &*buf.read_iovec_ptr().add(i) };
            all.extend_from_slice(unsafe {
                std::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len)
            });
        }
        (self.take(&all).await, buf)
    }

    async fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }

    async fn shutdown(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn send(
    frames: &[Frame],
    t: Transport,
    buffer: Option<u32>,
) -> (Transport, io::Result<()>) {
    block_on(async {
        let mut r = Ok(());
        let t = if let Some(n) = buffer {
            let mut w = BufWriter::with_capacity(n.max(1) as usize, t);
            for f in frames {
                r = write_frame(&mut w, f).await;
                if r.is_err() {
                    break;
                }
            }
            w.into_inner()
        } else {
            let mut t = t;
            for f in frames {
                r = write_frame(&mut t, f).await;
                if r.is_err() {
                    break;
                }
            }
            t
        };
        (t, r)
    })
}

fn first_difference(a: &[u8], b: &[u8]) -> usize {
    a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()))
}

fn check(c: &Case) -> Res {
    let frames: Vec<Frame> = c.frames.iter().map(to_frame).collect();
    let mut expected = vec![];
    for f in &c.frames {
        f.encode(&mut expected);
    }
    let t = Transport {
        got: vec![],
        accepts: c.accepts.clone(),
        waits: c.waits,
        n: 0,
        short: 0,
        fails: None,
        failed: false,
    };
    let (t, r) = match guarded(|| send(&frames, t, c.buffer)) {
        Ok(x) => x,
        Err(e) => violation!("writing panics: {e}"),
    };
    if let Err(e) = r {
        violation!("writing fails: {e}");
    }
    if t.got != expected {
        let d = first_difference(&t.got, &expected);
        violation!(
            "{} bytes are written instead of {}, different from byte {d}: \
             \"{}\" instead of \"{}\"",
            t.got.len(),
            expected.len(),
            t.got[d..].iter().take(40).copied().collect::<Vec<_>>().escape_ascii(),
            expected[d..].iter().take(40).copied().collect::<Vec<_>>().escape_ascii()
        );
    }
    // Back.
    let mut buf = BytesMut::from(&t.got[..]);
    for f in &frames {
        let back = guarded(|| {
            let mut cur = Cursor::new(&buf);
            Frame::check(&mut cur).map_err(|e| e.to_string())?;
            let n = cur.position() as usize;
            let mut cur = Cursor::new(buf.split_to(n).freeze());
            Frame::parse(&mut cur).map_err(|e| e.to_string())
        });
        match back {
            Ok(Ok(g)) if g == *f => {}
            x => {
                let f: String = format!("{f:?}").chars().take(300).collect();
                let x: String = format!("{x:?}").chars().take(300).collect();
                violation!("{f} comes back as {x}")
            }
        }
    }
    if !buf.is_empty() {
        violation!("{} bytes are left over", buf.len());
    }
    let mut tags = vec![];
    if expected.len() > 8192 {
        tags.push("more than a buffer (8 KiB)");
    }
    if expected.len() > 1 << 20 {
        tags.push("more than 1 MiB");
    }
    if c.frames.iter().any(|f| depth(f) >= 100) {
        tags.push("nested 100 times or more");
    }
    if t.short > 0 {
        tags.push("short writes");
    }
    Ok(Pass {
        nontrivial: t.short > 0 && c.frames.iter().any(|f| size(f) > 1),
        tags,
    })
}

/// The transport breaks: it must not be taken for a success.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Broken {
    case: Case,
    at: u16,
}

fn broken(c: &Broken) -> Res {
    let frames: Vec<Frame> = c.case.frames.iter().map(to_frame).collect();
    let mut expected = vec![];
    for f in &c.case.frames {
        f.encode(&mut expected);
    }
    let transport = |fails| Transport {
        got: vec![],
        accepts: c.case.accepts.clone(),
        waits: c.case.waits,
        n: 0,
        short: 0,
        fails,
        failed: false,
    };
    let (t, _) = send(&frames, transport(None), c.case.buffer);
    let at = c.at as usize * t.n / 65536;
    let (t, r) =
        match guarded(|| send(&frames, transport(Some(at)), c.case.buffer)) {
            Ok(x) => x,
            Err(e) => violation!("writing panics: {e}"),
        };
    if r.is_ok() {
        violation!("write {at} failed, writing the frames is a success");
    }
    if !expected.starts_with(&t.got) {
        violation!("what was written before write {at} failed is wrong");
    }
    Ok(Pass { nontrivial: at > 0, tags: vec!["failed write"] })
}

fn strat(big: usize) -> BoxedStrategy<Case> {
    let accepts = prop_oneof![
        2 => Just(vec![1]),
        3 => proptest::collection::vec(1u32..9, 1..7),
        3 => proptest::collection::vec(1u32..5000, 1..7),
        2 => proptest::collection::vec(
            proptest::sample::select(vec![1, 2, 4095, 4096, 8191, 8192, 8193, 65536]),
            1..7),
        1 => Just(vec![u32::MAX]),
    ];
    let buffer = proptest::option::of(prop_oneof![
        3 => Just(8192u32),
        1 => 1u32..200,
        1 => 200u32..20_000,
    ]);
    (
        proptest::collection::vec(frame(big), 1..4),
        accepts,
        any::<u16>(),
        buffer,
    )
        .prop_map(|(frames, accepts, waits, buffer)| Case {
            frames,
            accepts,
            waits,
            buffer,
        })
        .boxed()
}

fn run(r: &mut Report) {
    r.rule(
        "frames: generated frames (every type, nested up to 128, empty, wide) \
         are written one after the other to a transport accepting generated \
         numbers of bytes per write and not always ready, directly or through \
         a buffered stream; the bytes are compared with a reference encoder, \
         then decoded back. large: the same with bulks of up to several MiB; wide: \
         arrays, maps and texts of up to some million elements or bytes. \
         failing: the transport fails at a generated write. non-trivial = a \
         write was short and a frame holds another; large = short; failing = \
         not the first write.",
    );
    r.drive("frames", strat(2000), r.n(40_000, 700_000), check);
    let large = (
        strat(300_000),
        proptest::option::of(edge_blob(6 << 20, false)),
    )
        .prop_map(|(mut c, b)| {
            if let Some(b) = b {
                c.frames.push(Arg::Arr(vec![Arg::Bulk(b), Arg::Null]));
            }
            // byte by byte takes long
            for a in &mut c.accepts {
                *a = (*a).max(300);
            }
            c
        });
    r.drive("large", large, r.n(700, 12_000), check);
    let s = (wide(17), strat(1), strat(1));
    r.drive("wide", s, r.n(60, 1500), |(w, c, d)| {
        let mut c = c.clone();
        c.frames.truncate(1);
        c.frames.push(w.frame());
        c.frames.extend(d.frames[..1].to_vec());
        for a in &mut c.accepts {
            *a = (*a).max(5000);
        }
        check(&c)
    });
    let s = (strat(2000), any::<u16>())
        .prop_map(|(case, at)| Broken { case, at });
    r.drive("failing", s, r.n(8000, 150_000), broken);
}

fn main() {
    libcheck::main("C06", run);
}
