//! The real `roster` binary as a child process.
use std::collections::BTreeMap;
use std::io;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr, TcpListener};
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::PathBuf;
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering};
use std::sync::Arc;
use std::thread::JoinHandle;
use std::time::{Duration, Instant};

use rvcommon::Bad;
use serde::{Deserialize, Serialize};

static N: AtomicU32 = AtomicU32::new(0);

pub fn binary() -> PathBuf {
    PathBuf::from(std::env::var("RV_SERVER").expect("RV_SERVER"))
}

/// The one which can be told its first identifier, if it could be built
pub fn aged_binary() -> Option<PathBuf> {
    std::env::var("RV_AGED").ok().map(PathBuf::from)
}

/// A loopback address nobody else uses.
pub fn free_addr() -> SocketAddr {
    let pid = std::process::id();
    loop {
        let n = N.fetch_add(1, Ordering::Relaxed);
        let ip = Ipv4Addr::new(
            127,
            (1 + (pid / 250) % 200) as u8,
            (pid % 250) as u8,
            (1 + n % 250) as u8,
        );
        if let Ok(l) = TcpListener::bind((ip, 0)) {
            return l.local_addr().unwrap();
        }
    }
}

#[derive(Clone, Debug)]
pub struct Opts {
    pub bind: SocketAddr,
    pub max_connection: u32,
    pub nofile: Option<u64>,
    /// It sees only so many processors; 0: all
    pub cpus: u8,
    /// These ones of the processors we have, if any, instead
    pub on: u64,
    /// It can't choose others, as in a cpuset.
    pub confined: bool,
    /// Where the standard output and error go
    pub outs: [Output; 2],
    /// Its clocks can be moved.
    pub clock: bool,
    /// What it allocates is counted.
    pub heap: bool,
    /// Its directory, which isn't removed; a new one without
    pub dir: Option<PathBuf>,
    /// The identifier of its first connection, with the binary for that
    pub first_id: Option<u64>,
}

/// What a standard output is.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Output {
    File,
    /// a full disk
    Full,
    /// a pipe read until it's closed
    Pipe,
    /// a pipe whose reader is gone
    Broken,
    /// a pipe which doesn't block, and nobody reads
    Clogged,
    Closed,
}

impl Output {
    /// The end for the server and ours
    fn open(&self, file: PathBuf) -> io::Result<(Stdio, Option<Reader>)> {
        let pipe = |flags| {
            let mut p = [0; 2];
            unsafe {
                if libc::pipe2(p.as_mut_ptr(), flags | libc::O_CLOEXEC) < 0 {
                    return Err(io::Error::last_os_error());
                }
                Ok((OwnedFd::from_raw_fd(p[0]), OwnedFd::from_raw_fd(p[1])))
            }
        };
        Ok(match self {
            Output::File | Output::Closed => {
                (std::fs::File::create(file)?.into(), None)
            }
            Output::Full => {
                let mut o = std::fs::OpenOptions::new();
                (o.write(true).open("/dev/full")?.into(), None)
            }
            Output::Broken => (pipe(0)?.1.into(), None),
            Output::Pipe => {
                let (r, w) = pipe(0)?;
                (w.into(), Some(Reader::reading(r)))
            }
            Output::Clogged => {
                let (r, w) = pipe(libc::O_NONBLOCK)?;
                unsafe { libc::fcntl(r.as_raw_fd(), libc::F_SETPIPE_SZ, 4096) };
                (w.into(), Some(Reader::Idle(r)))
            }
        })
    }
}

/// Some words in common with the library preloaded into a server
pub struct Shared(*const AtomicU64);

impl Shared {
    fn new(path: &PathBuf) -> io::Result<Shared> {
        std::fs::write(path, [0; 4096])?;
        let file = std::fs::OpenOptions::new().read(true).write(true).open(path)?;
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                4096,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                file.as_raw_fd(),
                0,
            )
        };
        if p == libc::MAP_FAILED {
            return Err(io::Error::last_os_error());
        }
        Ok(Shared(p.cast()))
    }
}

/// How much the clocks of a server run ahead of the real ones
pub struct Clock {
    shared: Shared,
    pub ahead: u64,
}

impl Clock {
    /// `ns` further
    pub fn advance(&mut self, ns: u64) {
        self.ahead += ns;
        unsafe { (*self.shared.0).store(self.ahead, Ordering::SeqCst) }
    }

    /// The wall clock is set to so many seconds from the right time.
    pub fn set_wall(&mut self, s: i64) {
        unsafe { (*self.shared.0.add(1)).store(s as u64, Ordering::SeqCst) }
    }
}

/// What a server has allocated
pub struct Heap(Shared);

impl Heap {
    pub fn bytes(&self) -> i64 {
        unsafe { (*self.0 .0).load(Ordering::SeqCst) as i64 }
    }
}

impl Drop for Shared {
    fn drop(&mut self) {
        unsafe { libc::munmap(self.0 as *mut _, 4096) };
    }
}

/// Our end of a pipe, which ends when this is dropped
pub enum Reader {
    Idle(#[allow(dead_code)] OwnedFd),
    Reading { stop: Arc<AtomicBool>, thread: Option<JoinHandle<()>> },
}

impl Reader {
    fn reading(r: OwnedFd) -> Reader {
        let stop = Arc::new(AtomicBool::new(false));
        let stopped = stop.clone();
        let thread = Some(std::thread::spawn(move || {
            let mut buf = vec![0u8; 1 << 16];
            while !stopped.load(Ordering::SeqCst) {
                let fd = r.as_raw_fd();
                let mut p = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
                unsafe {
                    if libc::poll(&mut p, 1, 10) > 0
                        && libc::read(fd, buf.as_mut_ptr().cast(), buf.len()) <= 0
                    {
                        break;
                    }
                }
            }
        }));
        Reader::Reading { stop, thread }
    }
}

impl Drop for Reader {
    fn drop(&mut self) {
        if let Reader::Reading { stop, thread } = self {
            stop.store(true, Ordering::SeqCst);
            if let Some(t) = thread.take() {
                let _ = t.join();
            }
        }
    }
}

impl Opts {
    pub fn new() -> Opts {
        Opts {
            bind: free_addr(),
            max_connection: 60000,
            nofile: None,
            cpus: 0,
            on: 0,
            confined: false,
            outs: [Output::File; 2],
            clock: false,
            heap: false,
            dir: None,
            first_id: None,
        }
    }

    fn on(&self) -> Vec<usize> {
        match (self.on, self.cpus) {
            (0, 0) => vec![],
            (0, n) => chosen(u64::MAX).into_iter().take(n as usize).collect(),
            (bits, _) => chosen(bits),
        }
    }

    /// Bound to every address, reached by several ones.
    pub fn wildcard() -> Opts {
        let mut o = Opts::new();
        o.bind = SocketAddr::new(
            IpAddr::V4(Ipv4Addr::UNSPECIFIED),
            TcpListener::bind("0.0.0.0:0")
                .unwrap()
                .local_addr()
                .unwrap()
                .port(),
        );
        o
    }

    /// On IPv6 addresses; `None` where there are none.
    pub fn v6(any: bool) -> Option<Opts> {
        let ip = if any { Ipv6Addr::UNSPECIFIED } else { Ipv6Addr::LOCALHOST };
        let l = TcpListener::bind((ip, 0)).ok()?;
        let mut o = Opts::new();
        o.bind = l.local_addr().ok()?;
        // Those of IPv4 reach the first one only if that isn't switched off.
        if any {
            let v4 = SocketAddr::new(Ipv4Addr::LOCALHOST.into(), o.bind.port());
            std::net::TcpStream::connect(v4).ok()?;
        }
        Some(o)
    }
}

pub struct Server {
    pub child: Child,
    pub clock: Option<Clock>,
    pub heap: Option<Heap>,
    /// Read ends of its outputs
    pub pipes: Vec<Reader>,
    pub bind: SocketAddr,
    pub dir: PathBuf,
    pub keep: bool,
}

pub fn scratch() -> PathBuf {
    let dir = std::env::temp_dir().join(format!(
        "rv-{}-{}",
        std::process::id(),
        N.fetch_add(1, Ordering::Relaxed)
    ));
    std::fs::create_dir_all(&dir).unwrap();
    dir
}

/// Spawn the binary in its own scratch directory, with a clean environment.
pub fn spawn(
    binary: PathBuf,
    dir: &PathBuf,
    env: &BTreeMap<String, String>,
    nofile: Option<u64>,
    on: &[usize],
    outs: [Output; 2],
) -> io::Result<(Child, Vec<Reader>)> {
    let (out, r1) = outs[0].open(dir.join("stdout"))?;
    let (err, r2) = outs[1].open(dir.join("stderr"))?;
    let pipes = [r1, r2].into_iter().flatten().collect();
    let mut cmd = Command::new(binary);
    cmd.current_dir(dir)
        .env_clear()
        .env("PATH", "/usr/bin:/bin")
        .env("TMPDIR", dir)
        .env("HOME", dir)
        .envs(env)
        .stdin(Stdio::null())
        .stdout(out)
        .stderr(err);
    let parent = unsafe { libc::getpid() };
    let on = on.to_vec();
    unsafe {
        cmd.pre_exec(move || {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            if libc::getppid() != parent {
                libc::_exit(1);
            }
            let zero = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &zero);
            // What a client can make the server allocate stays bounded.
            let mem = libc::rlimit {
                rlim_cur: 64 << 30,
                rlim_max: 64 << 30,
            };
            libc::setrlimit(libc::RLIMIT_AS, &mem);
            if let Some(n) = nofile {
                let l = libc::rlimit { rlim_cur: n, rlim_max: n };
                libc::setrlimit(libc::RLIMIT_NOFILE, &l);
            }
            if !on.is_empty() {
                move_to(0, &on);
            }
            for (i, o) in outs.iter().enumerate() {
                if *o == Output::Closed {
                    libc::close(1 + i as i32);
                }
            }
            Ok(())
        });
    }
    Ok((cmd.spawn()?, pipes))
}

/// The processors we may use
pub fn processors() -> Vec<usize> {
    unsafe {
        let mut all: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of_val(&all), &mut all) != 0 {
            return vec![];
        }
        (0..libc::CPU_SETSIZE as usize)
            .filter(|i| libc::CPU_ISSET(*i, &all))
            .collect()
    }
}

/// Those of ours whose bits are set, the first one without any
pub fn chosen(bits: u64) -> Vec<usize> {
    let all = processors();
    let mut some = all.clone();
    let mut bit = 0;
    some.retain(|_| {
        bit += 1;
        bits >> ((bit - 1) % 64) & 1 == 1
    });
    if some.is_empty() {
        some = all.into_iter().take(1).collect();
    }
    some
}

/// That thread runs on these processors from now on.
pub fn move_to(thread: i32, on: &[usize]) {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        on.iter().for_each(|i| libc::CPU_SET(*i, &mut set));
        libc::sched_setaffinity(thread, std::mem::size_of_val(&set), &set);
    }
}

impl Server {
    pub fn start(o: &Opts) -> Result<Server, Bad> {
        let mut s = Self::begin(o)?;
        s.wait_up(o)?;
        Ok(s)
    }

    /// The process is there, but it may still be starting.
    pub fn begin(o: &Opts) -> Result<Server, Bad> {
        let dir = o.dir.clone().unwrap_or_else(scratch);
        let conf = dir.join("roster.toml");
        std::fs::write(
            &conf,
            format!(
                "bind_addr = \"{}\"\nmax_connection = {}\n",
                o.bind, o.max_connection
            ),
        )?;
        let mut env = BTreeMap::new();
        env.insert(
            "CONFIG_FILE_LOCATION".into(),
            conf.to_string_lossy().to_string(),
        );
        let mut preload = |wanted: bool, name: &str| -> io::Result<Option<Shared>> {
            let lib =
                std::env::current_exe()?.with_file_name(format!("../{name}.so"));
            if !wanted || !lib.exists() {
                return Ok(None);
            }
            let file = dir.join(name);
            let shared = Shared::new(&file)?;
            let path = |p: PathBuf| p.to_string_lossy().to_string();
            env.insert(format!("RV_{}", name.to_uppercase()), path(file));
            env.insert("LD_PRELOAD".into(), path(lib.canonicalize()?));
            Ok(Some(shared))
        };
        let clock =
            preload(o.clock, "clock")?.map(|shared| Clock { shared, ahead: 0 });
        let heap = preload(o.heap, "heap")?.map(Heap);
        let binary = match (o.first_id, aged_binary()) {
            (Some(id), Some(aged)) => {
                env.insert("ROSTER_VERIF_FIRST_ID".into(), id.to_string());
                aged
            }
            _ => binary(),
        };
        let on = o.on();
        if o.confined {
            let lib = std::env::current_exe()?.with_file_name("../cpuset.so");
            if lib.exists() {
                let s: Vec<String> = on.iter().map(|n| n.to_string()).collect();
                env.insert("RV_CPUSET".into(), s.join(","));
                env.insert(
                    "LD_PRELOAD".into(),
                    lib.canonicalize()?.to_string_lossy().to_string(),
                );
            }
        }
        let (child, pipes) = spawn(binary, &dir, &env, o.nofile, &on, o.outs)?;
        Ok(Server { child, clock, heap, pipes, bind: o.bind, dir, keep: o.dir.is_some() })
    }

    /// The address to connect to.
    pub fn addr(&self) -> SocketAddr {
        if self.bind.ip().is_unspecified() {
            SocketAddr::new(Ipv4Addr::LOCALHOST.into(), self.bind.port())
        } else {
            self.bind
        }
    }

    pub fn wait_up(&mut self, o: &Opts) -> Result<(), Bad> {
        let t = Instant::now();
        let cpus = match o.on().len() {
            0 => std::thread::available_parallelism().unwrap().get(),
            n => n,
        };
        let mut had = (0, t);
        loop {
            if let Some(why) = self.dead() {
                return Err(Bad::Violation(format!(
                    "the server ended while starting: {why}"
                )));
            }
            let n = listeners(self.pid())
                .iter()
                .filter(|a| a.port() == self.bind.port())
                .count();
            if n != had.0 {
                had = (n, Instant::now());
            }
            // Usually there is one listener per processor.
            let settled = had.1.elapsed() > Duration::from_millis(700);
            if n >= cpus || (n > 0 && settled) {
                break;
            }
            if t.elapsed() > Duration::from_secs(60) {
                return Err(Bad::Harness(
                    "the server doesn't listen after 60s".into(),
                ));
            }
            std::thread::sleep(Duration::from_millis(5));
        }
        // The kernel may close the listeners of an ended process a bit later
        // than it ends (with io_uring): they still get connections.
        let here = |a: &SocketAddr| a.port() == self.bind.port();
        let own = listeners(self.pid());
        let own: Vec<_> = own.into_iter().filter(here).collect();
        let t = Instant::now();
        loop {
            let all = listening(|_| true);
            if all.iter().filter(|a| own.contains(a)).count() <= own.len() {
                break;
            }
            if t.elapsed() > Duration::from_secs(60) {
                return Err(Bad::Harness(
                    "something else listens on the address".into(),
                ));
            }
            std::thread::sleep(Duration::from_millis(5));
        }
        Ok(())
    }

    pub fn pid(&self) -> u32 {
        self.child.id()
    }

    /// How it ended, if it did
    pub fn dead(&mut self) -> Option<String> {
        let st = self.child.try_wait().ok().flatten()?;
        let err = self.stderr();
        let msg: Vec<&str> = err
            .lines()
            .filter(|l| l.contains("panicked") || l.contains("rror"))
            .take(3)
            .collect();
        let after: String = err
            .split("panicked at")
            .nth(1)
            .map(|s| s.chars().take(300).collect())
            .unwrap_or_default();
        Some(format!(
            "code {:?} signal {:?} {:?} {after:?}",
            st.code(),
            st.signal(),
            msg
        ))
    }

    pub fn check_alive(&mut self) -> Result<(), Bad> {
        match self.dead() {
            Some(why) => {
                Err(Bad::Violation(format!("the server died: {why}")))
            }
            None => Ok(()),
        }
    }

    pub fn stderr(&self) -> String {
        let b = std::fs::read(self.dir.join("stderr")).unwrap_or_default();
        let from = b.len().saturating_sub(200_000);
        String::from_utf8_lossy(&b[from..]).to_string()
    }

    pub fn fds(&self) -> usize {
        std::fs::read_dir(format!("/proc/{}/fd", self.pid()))
            .map(|d| d.count())
            .unwrap_or(0)
    }

    /// Inodes of the sockets the process holds
    pub fn sockets(&self) -> Vec<u64> {
        sockets(self.pid())
    }
}

impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        if !self.keep {
            let _ = std::fs::remove_dir_all(&self.dir);
        }
    }
}

pub fn sockets(pid: u32) -> Vec<u64> {
    let mut out = vec![];
    if let Ok(d) = std::fs::read_dir(format!("/proc/{pid}/fd")) {
        for e in d.flatten() {
            if let Ok(l) = std::fs::read_link(e.path()) {
                let l = l.to_string_lossy().to_string();
                if let Some(x) =
                    l.strip_prefix("socket:[").and_then(|x| x.strip_suffix(']'))
                {
                    if let Ok(n) = x.parse() {
                        out.push(n);
                    }
                }
            }
        }
    }
    out
}

/// Addresses on which the process listens, one per listening socket.
/// What the kernel holds of the two directions of a connection: at either end
/// what isn't sent yet, or not acknowledged, and what isn't read.
fn queues(a: SocketAddr, b: SocketAddr) -> Option<[(u64, u64); 2]> {
    let name = |a: SocketAddr| -> String {
        let ip = match a.ip() {
            IpAddr::V4(ip) => {
                format!("{:08X}", u32::from_ne_bytes(ip.octets()))
            }
            IpAddr::V6(ip) => ip
                .octets()
                .chunks(4)
                .map(|w| {
                    format!("{:08X}", u32::from_ne_bytes(w.try_into().unwrap()))
                })
                .collect(),
        };
        format!("{ip}:{:04X}", a.port())
    };
    let (a, b) = (name(a), name(b));
    let file = if a.len() > 13 { "/proc/net/tcp6" } else { "/proc/net/tcp" };
    let s = std::fs::read_to_string(file).ok()?;
    let find = |from: &str, to: &str| {
        s.lines().find_map(|l| {
            let f: Vec<&str> = l.split_whitespace().collect();
            if f.len() < 10 || f[1] != from || f[2] != to {
                return None;
            }
            let (tx, rx) = f[4].split_once(':')?;
            let n = |x| u64::from_str_radix(x, 16).ok();
            Some((n(tx)?, n(rx)?))
        })
    };
    Some([find(&a, &b)?, find(&b, &a)?])
}

/// Bytes are under way which nobody could have read yet: when both directions
/// are full, TCP may need a while to notice that one isn't any more.
pub fn under_way(ours: SocketAddr, theirs: SocketAddr) -> bool {
    matches!(
        queues(ours, theirs),
        Some([(tx, rx), (their_tx, their_rx)])
            if (tx > 0 && their_rx == 0) || (their_tx > 0 && rx == 0)
    )
}

pub fn listeners(pid: u32) -> Vec<SocketAddr> {
    let inodes = sockets(pid);
    listening(|inode| inodes.contains(&inode))
}

/// The addresses something listens on, once per socket
fn listening(which: impl Fn(u64) -> bool) -> Vec<SocketAddr> {
    let mut out = vec![];
    for (file, v6) in [("/proc/net/tcp", false), ("/proc/net/tcp6", true)] {
        let Ok(s) = std::fs::read_to_string(file) else { continue };
        for l in s.lines().skip(1) {
            let f: Vec<&str> = l.split_whitespace().collect();
            if f.len() < 10 || f[3] != "0A" {
                continue;
            }
            let Ok(inode) = f[9].parse::<u64>() else { continue };
            if !which(inode) {
                continue;
            }
            let (ip, port) = f[1].split_once(':').unwrap();
            let port = u16::from_str_radix(port, 16).unwrap();
            let ip: IpAddr = if v6 {
                let mut b = [0u8; 16];
                for w in 0..4 {
                    let x =
                        u32::from_str_radix(&ip[w * 8..w * 8 + 8], 16).unwrap();
                    b[w * 4..w * 4 + 4].copy_from_slice(&x.to_ne_bytes());
                }
                std::net::Ipv6Addr::from(b).into()
            } else {
                let x = u32::from_str_radix(ip, 16).unwrap();
                Ipv4Addr::from(x.to_ne_bytes()).into()
            };
            out.push(SocketAddr::new(ip, port));
        }
    }
    out
}

/// What a process has done so far, to tell a stuck server from a slow machine.
#[derive(Clone, Debug, Default)]
pub struct Activity {
    /// clock ticks of CPU
    pub cpu: u64,
    pub running: usize,
}

pub fn activity(pid: u32) -> Activity {
    let mut a = Activity::default();
    if let Ok(d) = std::fs::read_dir(format!("/proc/{pid}/task")) {
        for e in d.flatten() {
            let Ok(s) = std::fs::read_to_string(e.path().join("stat")) else {
                continue;
            };
            let Some(p) = s.rfind(')') else { continue };
            let f: Vec<&str> = s[p + 1..].split_whitespace().collect();
            if f.len() < 13 {
                continue;
            }
            if f[0] == "R" || f[0] == "D" {
                a.running += 1;
            }
            a.cpu += f[11].parse::<u64>().unwrap_or(0)
                + f[12].parse::<u64>().unwrap_or(0);
        }
    }
    a
}

/// Decides that a server which owes something will never give it: it sleeps,
/// or it has burnt a lot of CPU without giving it.
pub struct StuckWatch {
    pid: u32,
    since: Instant,
    idle_from: Option<(Instant, u64, u32, u32)>,
    cpu0: u64,
    last: Instant,
}

pub enum Stuck {
    NotYet,
    Idle,
    Burning,
    /// Neither after a very long time
    Unknown,
}

impl StuckWatch {
    pub fn new(pid: u32) -> StuckWatch {
        StuckWatch {
            pid,
            since: Instant::now(),
            idle_from: None,
            cpu0: activity(pid).cpu,
            last: Instant::now(),
        }
    }

    pub fn poll(&mut self) -> Stuck {
        if self.since.elapsed() < Duration::from_millis(1500)
            || self.last.elapsed() < Duration::from_millis(50)
        {
            return Stuck::NotYet;
        }
        self.last = Instant::now();
        let a = activity(self.pid);
        if a.cpu.saturating_sub(self.cpu0) > 4000
            && self.since.elapsed() > Duration::from_secs(5)
        {
            return Stuck::Burning;
        }
        match &mut self.idle_from {
            None => {
                self.idle_from = Some((Instant::now(), a.cpu, 0, 0));
            }
            Some((t, cpu, samples, busy)) => {
                *samples += 1;
                if a.running > 0 {
                    *busy += 1;
                }
                // A window of 3s: barely any CPU, nearly always asleep.
                if a.cpu.saturating_sub(*cpu) > 20 {
                    self.idle_from = None;
                } else if t.elapsed() > Duration::from_secs(3)
                    && *samples >= 30
                {
                    if *busy * 4 < *samples {
                        return Stuck::Idle;
                    }
                    self.idle_from = None;
                }
            }
        }
        if self.since.elapsed() > Duration::from_secs(240) {
            return Stuck::Unknown;
        }
        Stuck::NotYet
    }
}

/// Nanoseconds of CPU of all the threads alive
pub fn cpu_ns(pid: u32) -> u64 {
    let mut n = 0;
    if let Ok(d) = std::fs::read_dir(format!("/proc/{pid}/task")) {
        for e in d.flatten() {
            let s = std::fs::read_to_string(e.path().join("schedstat"));
            n += s
                .ok()
                .and_then(|s| s.split(' ').next()?.parse::<u64>().ok())
                .unwrap_or(0);
        }
    }
    n
}

/// Bytes of anonymous memory which are resident
pub fn memory(pid: u32) -> u64 {
    let s = std::fs::read_to_string(format!("/proc/{pid}/status"))
        .unwrap_or_default();
    s.lines()
        .find_map(|l| l.strip_prefix("RssAnon:"))
        .and_then(|l| l.trim().strip_suffix(" kB")?.trim().parse::<u64>().ok())
        .unwrap_or(0)
        * 1024
}

/// Share of a processor (per cent) used over a quiet window, or the least of
/// all the windows when there is none for long.
pub fn settles(sv: &mut Server, percent: u64) -> Result<Result<u64, u64>, Bad> {
    let start = Instant::now();
    let cpu0 = cpu_ns(sv.pid());
    let mut least = u64::MAX;
    loop {
        let (t, c) = (Instant::now(), cpu_ns(sv.pid()));
        std::thread::sleep(Duration::from_millis(200));
        let c = cpu_ns(sv.pid()).saturating_sub(c);
        let used = c * 100 / t.elapsed().as_nanos().max(1) as u64;
        sv.check_alive()?;
        if used < percent {
            return Ok(Ok(used));
        }
        least = least.min(used);
        let burnt = cpu_ns(sv.pid()).saturating_sub(cpu0) / 1_000_000_000;
        let secs = start.elapsed().as_secs();
        if secs >= 30 && burnt >= 10 || secs >= 120 {
            return Ok(Err(least));
        }
    }
}
