//! Checks which call the code of roster directly (built with its hooks).
use proptest::prelude::*;
use rvcommon::blob::{edge_blob, nasty_text, small_bytes};
use rvcommon::resp::Arg;
use rvcommon::{Blob, Report};
use std::future::Future;
use std::path::PathBuf;
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

use roster::application::server::frame::Frame;

pub fn main(id: &str, run: impl Fn(&mut Report)) {
    let root = PathBuf::from(std::env::var("RV_ROOT").unwrap_or("/verif".into()));
    // The code under test writes to the standard error.
    unsafe {
        if std::env::var("RV_STDERR").is_err() {
            let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
            libc::dup2(null, 2);
        }
    }
    // Panics of the code under test are reported as violations.
    std::panic::set_hook(Box::new(|_| {}));
    Report::isolated(id, &root, |mut r| {
        let run = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            run(&mut r);
            r.finish();
        }));
        if let Err(e) = run {
            println!("HARNESS ERROR: panic in the check: {}", panic_text(&e));
            std::process::exit(2);
        }
    })
}

pub fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "?".into()
    }
}

/// Calls the code under test, gives the text of its panic.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))
        .map_err(|e| panic_text(&e))
}

struct Unpark(std::thread::Thread);
impl Wake for Unpark {
    fn wake(self: Arc<Self>) {
        self.0.unpark();
    }
}

pub fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    let w = Waker::from(Arc::new(Unpark(std::thread::current())));
    let mut cx = Context::from_waker(&w);
    loop {
        if let Poll::Ready(x) = f.as_mut().poll(&mut cx) {
            return x;
        }
        std::thread::park();
    }
}

/// The frame an [Arg] stands for.
pub fn to_frame(a: &Arg) -> Frame {
    let text = |b: &Blob| {
        bytestring::ByteString::from(String::from_utf8(b.bytes()).unwrap())
    };
    match a {
        Arg::Bulk(b) => Frame::Bulk(b.bytes().into()),
        Arg::Simple(b) => Frame::Simple(text(b)),
        Arg::Err(b) => Frame::Error(text(b)),
        Arg::Int(n) => Frame::Integer(*n),
        Arg::Null => Frame::Null,
        Arg::Arr(v) => Frame::Array(v.iter().map(to_frame).collect()),
        Arg::Map(v) => Frame::Map(
            v.iter().map(|(k, v)| (to_frame(k), to_frame(v))).collect(),
        ),
    }
}

pub fn encoded(a: &Arg) -> Vec<u8> {
    let mut v = vec![];
    a.encode(&mut v);
    v
}

/// Keys of maps written once only.
pub fn dedup(a: Arg) -> Arg {
    match a {
        Arg::Arr(v) => Arg::Arr(v.into_iter().map(dedup).collect()),
        Arg::Map(v) => {
            let mut seen = std::collections::HashSet::new();
            let mut out = vec![];
            for (k, x) in v {
                let (k, x) = (dedup(k), dedup(x));
                if seen.insert(canon(&k)) {
                    out.push((k, x));
                }
            }
            Arg::Map(out)
        }
        a => a,
    }
}

/// Equal for frames which are equal: maps don't depend on the order.
pub fn canon(a: &Arg) -> Vec<u8> {
    match a {
        Arg::Arr(v) => {
            let mut out = format!("*{}\r\n", v.len()).into_bytes();
            for x in v {
                out.extend(canon(x));
            }
            out
        }
        Arg::Map(v) => {
            let mut e: Vec<Vec<u8>> = v
                .iter()
                .map(|(k, x)| [canon(k), canon(x)].concat())
                .collect();
            e.sort();
            let mut out = format!("%{}\r\n", v.len()).into_bytes();
            out.extend(e.concat());
            out
        }
        a => encoded(a),
    }
}

fn line() -> BoxedStrategy<Blob> {
    prop_oneof![
        2 => nasty_text().prop_map(|s| Blob::Lit(
            s.replace(['\r', '\n'], "").into_bytes())),
        1 => edge_blob(3000, true).prop_map(|b| Blob::Lit(
            b.bytes().into_iter().filter(|c| !b"\r\n".contains(c)).collect())),
    ]
    .boxed()
}

pub fn int() -> BoxedStrategy<u64> {
    prop_oneof![
        3 => 0u64..200,
        2 => any::<u64>(),
        3 => (0u32..64, -2i64..3).prop_map(|(s, d)|
            (1u64 << s).wrapping_add(d as u64)),
        2 => (0u32..20, -2i64..3).prop_map(|(s, d)|
            10u64.pow(s).wrapping_add(d as u64)),
        1 => Just(u64::MAX),
    ]
    .boxed()
}

fn leaf(big: usize) -> BoxedStrategy<Arg> {
    prop_oneof![
        4 => small_bytes().prop_map(Arg::Bulk),
        2 => edge_blob(big, false).prop_map(Arg::Bulk),
        2 => line().prop_map(Arg::Simple),
        2 => line().prop_map(Arg::Err),
        3 => int().prop_map(Arg::Int),
        1 => Just(Arg::Null),
    ]
    .boxed()
}

/// Any frame, bulks of at most `big` bytes.
pub fn frame(big: usize) -> BoxedStrategy<Arg> {
    let tree = leaf(big).prop_recursive(6, 40, 6, |inner| {
        prop_oneof![
            3 => proptest::collection::vec(inner.clone(), 0..7).prop_map(Arg::Arr),
            2 => proptest::collection::vec((inner.clone(), inner), 0..5)
                .prop_map(Arg::Map),
        ]
    });
    // One in the other, up to the limit.
    let deep = (leaf(64), proptest::collection::vec(0u8..4, 1..=128)).prop_map(
        |(leaf, how)| {
            how.iter().fold(leaf, |a, h| match h {
                0 => Arg::Arr(vec![a]),
                1 => Arg::Arr(vec![Arg::Int(1), a, Arg::Null]),
                2 => Arg::Map(vec![(a, Arg::Null)]),
                _ => Arg::Map(vec![(Arg::Int(7), a)]),
            })
        },
    );
    // Many elements.
    let wide = (leaf(8), 0usize..1200, any::<bool>()).prop_map(|(l, n, map)| {
        if map {
            Arg::Map(
                (0..n).map(|i| (Arg::Int(i as u64), l.clone())).collect(),
            )
        } else {
            Arg::Arr(vec![l; n])
        }
    });
    prop_oneof![10 => tree, 1 => deep, 1 => wide].prop_map(dedup).boxed()
}

/// A frame of one kind of very many elements or bytes
#[derive(Clone, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub struct Wide {
    kind: u8,
    leaf: Arg,
    n: u32,
    /// Within an array, after this
    after: Option<Arg>,
}

impl Wide {
    pub fn frame(&self) -> Arg {
        let n = self.n as usize;
        let text = || Blob::Lit(b"0123456789abcdefghijklmnopq".repeat(n / 27 + 1)[..n].to_vec());
        let f = match self.kind {
            0 => Arg::Arr(vec![self.leaf.clone(); n]),
            1 => Arg::Map(
                (0..n).map(|i| (Arg::Int(i as u64), self.leaf.clone())).collect(),
            ),
            2 => Arg::Bulk(text()),
            3 => Arg::Simple(text()),
            _ => Arg::Err(text()),
        };
        match &self.after {
            Some(a) => Arg::Arr(vec![a.clone(), f]),
            None => f,
        }
    }
}

/// Around the powers of two and ten, up to 2^`most`
pub fn wide(most: u32) -> BoxedStrategy<Wide> {
    let small = || {
        prop_oneof![
            Just(Arg::Int(1)),
            Just(Arg::Null),
            int().prop_map(Arg::Int),
            Just(Arg::Bulk(Blob::Lit(vec![]))),
            Just(Arg::Bulk(Blob::Lit(b"ab".to_vec()))),
            Just(Arg::Simple(Blob::Lit(b"a".to_vec()))),
            Just(Arg::Arr(vec![])),
        ]
    };
    let n = move |most: u32| {
        prop_oneof![
            4 => (10..=most, -2i64..3).prop_map(|(e, d)| ((1i64 << e) + d) as u32),
            2 => (3u32..=most * 3 / 10, -2i64..3)
                .prop_map(|(e, d)| (10i64.pow(e) + d) as u32),
            1 => 1000u32..1 << most,
        ]
    };
    let kind_n = prop_oneof![
        3 => (Just(0u8), n(most)),
        2 => (Just(1u8), n(most - 2)),
        3 => (Just(2u8), n(most + 4)),
        1 => (3u8..5, n(most + 2)),
    ];
    (kind_n, small(), proptest::option::of(small()))
        .prop_map(|((kind, n), leaf, after)| Wide { kind, leaf, n, after })
        .boxed()
}

pub fn size(a: &Arg) -> usize {
    match a {
        Arg::Arr(v) => 1 + v.iter().map(size).sum::<usize>(),
        Arg::Map(v) => 1 + v.iter().map(|(k, x)| size(k) + size(x)).sum::<usize>(),
        _ => 1,
    }
}

pub fn depth(a: &Arg) -> usize {
    match a {
        Arg::Arr(v) => v.iter().map(|x| 1 + depth(x)).max().unwrap_or(0),
        Arg::Map(v) => v
            .iter()
            .map(|(k, x)| 1 + depth(k).max(depth(x)))
            .max()
            .unwrap_or(0),
        _ => 0,
    }
}
