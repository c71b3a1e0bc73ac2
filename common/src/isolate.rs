//! Runs a check which calls the code under test in a child process, so that a
//! crash or an endless loop of that code is a violation with a replay file.
use serde_json::Value;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;
use std::time::{Duration, Instant};

const SIZE: usize = 256 << 20;
/// No case takes that long.
const STUCK: Duration = Duration::from_secs(150);

struct Shared {
    seq: *const AtomicU64,
    index: *const AtomicU64,
    len: *const AtomicU64,
    text: *mut u8,
}
unsafe impl Sync for Shared {}
unsafe impl Send for Shared {}

static SHARED: OnceLock<Shared> = OnceLock::new();

impl Shared {
    fn store(&self, index: u64, text: &str) {
        let n = text.len().min(SIZE - 64);
        unsafe {
            (*self.len).store(0, Ordering::SeqCst);
            std::ptr::copy_nonoverlapping(text.as_ptr(), self.text, n);
            (*self.len).store(n as u64, Ordering::SeqCst);
            (*self.index).store(index, Ordering::SeqCst);
            (*self.seq).fetch_add(1, Ordering::SeqCst);
        }
    }

    fn seq(&self) -> u64 {
        unsafe { (*self.seq).load(Ordering::SeqCst) }
    }

    fn load(&self) -> (u64, u64, String) {
        unsafe {
            let n = (*self.len).load(Ordering::SeqCst) as usize;
            let b = std::slice::from_raw_parts(self.text, n);
            (
                (*self.seq).load(Ordering::SeqCst),
                (*self.index).load(Ordering::SeqCst),
                String::from_utf8_lossy(b).into_owned(),
            )
        }
    }
}

/// The case which is about to run.
pub fn begin(part: &str, index: u64, case: impl FnOnce() -> String) {
    if let Some(s) = SHARED.get() {
        s.store(index, &format!("{part}\n{}", case()));
    }
}

/// A sign of life during long enumerations.
pub fn tick() {
    if let Some(s) = SHARED.get() {
        unsafe { (*s.seq).fetch_add(1, Ordering::Relaxed) };
    }
}

/// Runs `f` in a process of its own; true if it doesn't come back with true.
pub fn fails(f: impl FnOnce() -> bool) -> bool {
    unsafe {
        let pid = libc::fork();
        if pid == 0 {
            let ok = f();
            libc::_exit(if ok { 0 } else { 1 });
        }
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        st != 0
    }
}

pub struct Crash {
    pub part: String,
    pub index: u64,
    pub case: Value,
    pub evaluations: u64,
    pub what: String,
}

fn child(f: impl FnOnce()) -> libc::pid_t {
    unsafe {
        let parent = libc::getpid();
        let pid = libc::fork();
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            if libc::getppid() != parent {
                libc::_exit(2);
            }
            f();
            std::process::exit(0);
        }
        pid
    }
}

/// Runs `f`, which ends with its result as the exit code, in a child. Gives the
/// case it crashed on if it did.
pub fn supervise(f: impl FnOnce()) -> Option<Crash> {
    SHARED.get_or_init(|| unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            SIZE,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        ) as *mut u8;
        assert!(p as isize != -1);
        Shared {
            seq: p as *const AtomicU64,
            index: p.add(8) as *const AtomicU64,
            len: p.add(16) as *const AtomicU64,
            text: p.add(64),
        }
    });
    let shared = SHARED.get().unwrap();
    let (base, ..) = shared.load();
    let pid = child(f);
    let mut last = (0, Instant::now());
    let what = loop {
        let mut st = 0;
        let r = unsafe { libc::waitpid(pid, &mut st, libc::WNOHANG) };
        if r == pid {
            if libc::WIFEXITED(st) {
                std::process::exit(libc::WEXITSTATUS(st));
            }
            let sig = libc::WTERMSIG(st);
            if sig == libc::SIGKILL {
                println!("HARNESS ERROR: the check was killed");
                std::process::exit(2);
            }
            break format!("the process crashes with signal {sig}");
        }
        let seq = shared.seq();
        if seq != last.0 {
            last = (seq, Instant::now());
        } else if seq != 0 && last.1.elapsed() > STUCK {
            unsafe {
                libc::kill(pid, libc::SIGKILL);
                libc::waitpid(pid, &mut st, 0);
            }
            break format!("no end within {} s", STUCK.as_secs());
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    let (seq, index, text) = shared.load();
    let (part, case) = text.split_once('\n').unwrap_or(("", "null"));
    Some(Crash {
        part: part.to_string(),
        index,
        case: serde_json::from_str(case).unwrap_or(Value::Null),
        evaluations: seq - base,
        what,
    })
}

/// Runs `f`, which stores smaller and smaller cases, for a while.
pub fn smaller(limit: Duration, f: impl FnOnce()) -> Value {
    let shared = SHARED.get().unwrap();
    let pid = child(f);
    let t = Instant::now();
    loop {
        let mut st = 0;
        let r = unsafe { libc::waitpid(pid, &mut st, libc::WNOHANG) };
        if r == pid {
            break;
        }
        if t.elapsed() > limit {
            unsafe {
                libc::kill(pid, libc::SIGKILL);
                libc::waitpid(pid, &mut st, 0);
            }
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    let (_, _, text) = shared.load();
    let case = text.split_once('\n').map(|x| x.1).unwrap_or("null");
    serde_json::from_str(case).unwrap_or(Value::Null)
}
