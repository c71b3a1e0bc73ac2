//! A client connection whose sends and reads are driven step by step.
use std::io::{ErrorKind, Read, Write};
use std::net::{SocketAddr, TcpStream};
use std::os::fd::{AsRawFd, FromRawFd};
use std::time::{Duration, Instant};

use rvcommon::resp::{decode, Dec, Val};
use rvcommon::{violation, Bad};

use crate::server::{under_way, Server, Stuck, StuckWatch};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum End {
    Eof,
    Reset,
}

pub struct Conn {
    pub s: TcpStream,
    pub inbuf: Vec<u8>,
    pub pos: usize,
    pub end: Option<End>,
    /// Our side of the connection
    pub local: SocketAddr,
    pub peer: SocketAddr,
    /// Writing failed, as the server closed the connection
    pub broken: bool,
}

#[derive(Debug, Clone)]
pub enum Reply {
    Val(Val),
    Closed(End),
}

/// Connect from a given source ip, with a given receive buffer.
pub fn connect(
    to: SocketAddr,
    from: Option<SocketAddr>,
    rcvbuf: Option<usize>,
) -> std::io::Result<TcpStream> {
    if from.is_none() && rcvbuf.is_none() {
        let s = TcpStream::connect(to)?;
        s.set_nodelay(true)?;
        return Ok(s);
    }
    unsafe {
        let (fam, len) = match to {
            SocketAddr::V4(_) => {
                (libc::AF_INET, std::mem::size_of::<libc::sockaddr_in>())
            }
            SocketAddr::V6(_) => {
                (libc::AF_INET6, std::mem::size_of::<libc::sockaddr_in6>())
            }
        };
        let fd = libc::socket(fam, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0);
        if fd < 0 {
            return Err(std::io::Error::last_os_error());
        }
        let s = TcpStream::from_raw_fd(fd);
        if let Some(n) = rcvbuf {
            let n = n as libc::c_int;
            libc::setsockopt(
                fd,
                libc::SOL_SOCKET,
                libc::SO_RCVBUF,
                &n as *const _ as *const _,
                4,
            );
        }
        let raw = |a: SocketAddr| {
            let mut st: libc::sockaddr_storage = std::mem::zeroed();
            match a {
                SocketAddr::V4(a) => {
                    let p = &mut st as *mut _ as *mut libc::sockaddr_in;
                    (*p).sin_family = libc::AF_INET as u16;
                    (*p).sin_port = a.port().to_be();
                    (*p).sin_addr.s_addr =
                        u32::from_ne_bytes(a.ip().octets());
                }
                SocketAddr::V6(a) => {
                    let p = &mut st as *mut _ as *mut libc::sockaddr_in6;
                    (*p).sin6_family = libc::AF_INET6 as u16;
                    (*p).sin6_port = a.port().to_be();
                    (*p).sin6_addr.s6_addr = a.ip().octets();
                }
            }
            st
        };
        if let Some(f) = from {
            let one: libc::c_int = 1;
            libc::setsockopt(
                fd,
                libc::IPPROTO_IP,
                24, // IP_BIND_ADDRESS_NO_PORT
                &one as *const _ as *const _,
                4,
            );
            let st = raw(f);
            if libc::bind(fd, &st as *const _ as *const _, len as u32) != 0 {
                return Err(std::io::Error::last_os_error());
            }
        }
        let st = raw(to);
        if libc::connect(fd, &st as *const _ as *const _, len as u32) != 0 {
            return Err(std::io::Error::last_os_error());
        }
        s.set_nodelay(true)?;
        Ok(s)
    }
}

impl Conn {
    pub fn open(to: SocketAddr) -> Result<Conn, Bad> {
        Conn::open_with(to, None, None)
    }

    pub fn open_with(
        to: SocketAddr,
        from: Option<SocketAddr>,
        rcvbuf: Option<usize>,
    ) -> Result<Conn, Bad> {
        let s = connect(to, from, rcvbuf).map_err(|e| match e.kind() {
            ErrorKind::ConnectionRefused => Bad::Violation(format!(
                "the server doesn't accept connections any more: {e}"
            )),
            _ => Bad::Harness(format!("connect: {e}")),
        })?;
        let local = s.local_addr()?;
        let peer = s.peer_addr().unwrap_or(to);
        s.set_nonblocking(true)?;
        Ok(Conn {
            s,
            inbuf: vec![],
            pos: 0,
            end: None,
            local,
            peer,
            broken: false,
        })
    }

    /// Read what is there, at most `max` bytes.
    pub fn drain(&mut self, max: usize) -> usize {
        let mut got = 0;
        let mut buf = [0u8; 64 * 1024];
        while got < max && self.end.is_none() {
            let n = buf.len().min(max - got);
            match self.s.read(&mut buf[..n]) {
                Ok(0) => self.end = Some(End::Eof),
                Ok(n) => {
                    self.inbuf.extend_from_slice(&buf[..n]);
                    got += n;
                }
                Err(e) if e.kind() == ErrorKind::WouldBlock => break,
                Err(e) if e.kind() == ErrorKind::Interrupted => {}
                Err(_) => self.end = Some(End::Reset),
            }
        }
        got
    }

    pub fn poll(&self, write: bool, ms: i32) {
        let mut p = libc::pollfd {
            fd: self.s.as_raw_fd(),
            events: libc::POLLIN | if write { libc::POLLOUT } else { 0 },
            revents: 0,
        };
        unsafe {
            libc::poll(&mut p, 1, ms);
        }
    }

    fn poll_out(&self, ms: i32) {
        let mut p = libc::pollfd {
            fd: self.s.as_raw_fd(),
            events: libc::POLLOUT,
            revents: 0,
        };
        unsafe {
            libc::poll(&mut p, 1, ms);
        }
    }

    /// Send everything. Unless `no_read`, read replies meanwhile.
    pub fn send(
        &mut self,
        sv: &mut Server,
        b: &[u8],
        mut no_read: bool,
    ) -> Result<(), Bad> {
        let mut at = 0;
        let mut stalls = 0;
        let mut watch: Option<StuckWatch> = None;
        while at < b.len() && !self.broken {
            match self.s.write(&b[at..]) {
                Ok(n) => {
                    at += n;
                    watch = None;
                }
                Err(e) if e.kind() == ErrorKind::WouldBlock => {
                    if no_read {
                        self.poll_out(50);
                    } else {
                        if self.drain(usize::MAX) > 0 {
                            watch = None;
                        }
                        if self.end.is_none() {
                            self.poll(true, 50);
                        } else {
                            self.poll_out(50);
                        }
                    }
                    sv.check_alive()?;
                    let w = watch
                        .get_or_insert_with(|| StuckWatch::new(sv.pid()));
                    match w.poll() {
                        Stuck::NotYet => {}
                        // It's up to the network; reading helps.
                        Stuck::Idle if under_way(self.local, self.peer) => {
                            no_read = false;
                            watch = None;
                            stalls += 1;
                            if stalls > 40 {
                                return Err(Bad::Harness("send: TCP stalls".into()));
                            }
                        }
                        Stuck::Idle | Stuck::Burning => violation!(
                            "the server stopped reading a connection it \
                             keeps open ({} of {} bytes sent)",
                            at,
                            b.len()
                        ),
                        Stuck::Unknown => {
                            return Err(Bad::Harness("send: too slow".into()))
                        }
                    }
                }
                Err(e) if e.kind() == ErrorKind::Interrupted => {}
                Err(_) => self.broken = true,
            }
        }
        Ok(())
    }

    /// The next complete reply already read, if any.
    pub fn buffered(&mut self) -> Result<Option<Val>, Bad> {
        match decode(&self.inbuf[self.pos..]) {
            Dec::Ok(v, n) => {
                self.pos += n;
                if self.pos == self.inbuf.len() {
                    self.inbuf.clear();
                    self.pos = 0;
                }
                Ok(Some(v))
            }
            Dec::Incomplete => Ok(None),
            Dec::Bad(e) => {
                let rest = &self.inbuf[self.pos..];
                violation!(
                    "the reply stream is not well-formed RESP: {e}; at {:?}",
                    rest[..rest.len().min(200)].escape_ascii().to_string()
                )
            }
        }
    }

    /// The next reply, which the server owes.
    pub fn reply(&mut self, sv: &mut Server) -> Result<Reply, Bad> {
        self.reply_paced(sv, None)
    }

    /// Same, reading at most `pace` bytes at a time, with pauses.
    pub fn reply_paced(
        &mut self,
        sv: &mut Server,
        pace: Option<(usize, Duration)>,
    ) -> Result<Reply, Bad> {
        let mut watch: Option<StuckWatch> = None;
        let mut stalls = 0;
        let mut need = 0;
        loop {
            // Decode again only when enough has come, values may be large.
            let have = self.inbuf.len() - self.pos;
            if have >= need || self.end.is_some() {
                if let Some(v) = self.buffered()? {
                    return Ok(Reply::Val(v));
                }
                need = bulk_need(&self.inbuf[self.pos..]).max(have + 1);
            }
            if let Some(e) = self.end {
                let rest = &self.inbuf[self.pos..];
                if !rest.is_empty() {
                    violation!(
                        "the connection ended ({e:?}) in the middle of a \
                         reply: {} bytes {:?}",
                        rest.len(),
                        rest[..rest.len().min(100)].escape_ascii().to_string()
                    );
                }
                return Ok(Reply::Closed(e));
            }
            let got = match pace {
                None => self.drain(usize::MAX),
                Some((n, d)) => {
                    std::thread::sleep(d);
                    self.drain(n.max(1))
                }
            };
            if got > 0 || self.end.is_some() {
                watch = None;
                continue;
            }
            self.poll(false, 50);
            if self.drain(pace.map(|p| p.0.max(1)).unwrap_or(usize::MAX)) > 0
                || self.end.is_some()
            {
                watch = None;
                continue;
            }
            if let Some(why) = sv.dead() {
                violation!("the server died: {why}");
            }
            let w = watch.get_or_insert_with(|| StuckWatch::new(sv.pid()));
            match w.poll() {
                Stuck::NotYet => {}
                Stuck::Idle if under_way(self.local, self.peer) => {
                    watch = None;
                    stalls += 1;
                    if stalls > 40 {
                        return Err(Bad::Harness("reply: TCP stalls".into()));
                    }
                }
                Stuck::Idle => violation!(
                    "a reply is missing: the server sleeps and never answers \
                     (received so far of it: {} bytes {:?})",
                    self.inbuf.len() - self.pos,
                    self.inbuf[self.pos..]
                        [..(self.inbuf.len() - self.pos).min(100)]
                        .escape_ascii()
                        .to_string()
                ),
                Stuck::Burning => violation!(
                    "a reply is missing: the server burns CPU and never answers"
                ),
                Stuck::Unknown => {
                    return Err(Bad::Harness("no reply, no verdict".into()))
                }
            }
        }
    }

    /// Send one command and give its reply.
    pub fn call(
        &mut self,
        sv: &mut Server,
        args: &[&[u8]],
    ) -> Result<Val, Bad> {
        let b = encode(args);
        self.send(sv, &b, false)?;
        match self.reply(sv)? {
            Reply::Val(v) => Ok(v),
            Reply::Closed(e) => violation!(
                "connection closed by the server ({e:?}) instead of a reply \
                 to {:?}",
                args.iter()
                    .map(|a| a[..a.len().min(50)].escape_ascii().to_string())
                    .collect::<Vec<_>>()
            ),
        }
    }

    pub fn id(&mut self, sv: &mut Server) -> Result<i64, Bad> {
        match self.call(sv, &[b"CLIENT", b"ID"])? {
            Val::Int(i) => Ok(i),
            v => violation!("CLIENT ID answered {v:?}"),
        }
    }

    /// End of what we send, we still read
    pub fn half_close(&self) {
        let _ = self.s.shutdown(std::net::Shutdown::Write);
    }

    /// Close with a reset
    pub fn reset(self) {
        self.linger0();
    }

    pub fn linger0(&self) {
        let l = libc::linger { l_onoff: 1, l_linger: 0 };
        unsafe {
            libc::setsockopt(
                self.s.as_raw_fd(),
                libc::SOL_SOCKET,
                libc::SO_LINGER,
                &l as *const _ as *const _,
                std::mem::size_of::<libc::linger>() as u32,
            );
        }
    }

    /// Wait until the server closes; anything received meanwhile is kept.
    pub fn until_closed(
        &mut self,
        sv: &mut Server,
        why: &str,
    ) -> Result<End, Bad> {
        let mut watch: Option<StuckWatch> = None;
        let mut stalls = 0;
        loop {
            if self.drain(usize::MAX) > 0 {
                watch = None;
            }
            if let Some(e) = self.end {
                return Ok(e);
            }
            self.poll(false, 20);
            sv.check_alive()?;
            let w = watch.get_or_insert_with(|| StuckWatch::new(sv.pid()));
            match w.poll() {
                Stuck::NotYet => {}
                Stuck::Idle if under_way(self.local, self.peer) => {
                    watch = None;
                    stalls += 1;
                    if stalls > 40 {
                        return Err(Bad::Harness("close: TCP stalls".into()));
                    }
                }
                Stuck::Idle | Stuck::Burning => {
                    violation!("the server doesn't close the connection {why}")
                }
                Stuck::Unknown => {
                    return Err(Bad::Harness("no close, no verdict".into()))
                }
            }
        }
    }
}

pub fn encode(args: &[&[u8]]) -> Vec<u8> {
    let mut o = format!("*{}\r\n", args.len()).into_bytes();
    for a in args {
        o.extend(format!("${}\r\n", a.len()).bytes());
        o.extend(*a);
        o.extend(b"\r\n");
    }
    o
}

/// When `b` starts with the header of a bulk, how many bytes it takes.
fn bulk_need(b: &[u8]) -> usize {
    if b.first() != Some(&b'$') {
        return 0;
    }
    let Some(e) = b.iter().take(24).position(|c| *c == b'\r') else {
        return 0;
    };
    std::str::from_utf8(&b[1..e])
        .ok()
        .and_then(|s| s.parse::<usize>().ok())
        .map(|n| n + e + 4)
        .unwrap_or(0)
}

/// Poll `f` until it gives something; when the server has settled without it,
/// the last complaint is the verdict.
pub fn eventually<T>(
    sv: &mut Server,
    mut f: impl FnMut(&mut Server) -> Result<Result<T, String>, Bad>,
) -> Result<T, Bad> {
    let t = Instant::now();
    let mut pause = 1;
    loop {
        let why = match f(sv)? {
            Ok(x) => return Ok(x),
            Err(why) => why,
        };
        sv.check_alive()?;
        // The polling itself keeps the server busy: it had all the time.
        if t.elapsed() > Duration::from_secs(12) {
            let mut w = StuckWatch::new(sv.pid());
            loop {
                match w.poll() {
                    Stuck::NotYet => {
                        std::thread::sleep(Duration::from_millis(20))
                    }
                    Stuck::Idle | Stuck::Burning => break,
                    Stuck::Unknown => {
                        return Err(Bad::Harness(format!(
                            "never settles: {why}"
                        )))
                    }
                }
            }
            return match f(sv)? {
                Ok(x) => Ok(x),
                Err(why) => Err(Bad::Violation(why)),
            };
        }
        std::thread::sleep(Duration::from_millis(pause));
        pause = (pause * 2).min(100);
    }
}
