//! Real server processes and raw client connections to them.
use serde_json::Value;
use std::collections::VecDeque;
use std::fs;
use std::io::{BufRead, BufReader, Read, Write};
use std::net::TcpStream;
use std::os::fd::AsRawFd;
use std::os::unix::net::UnixStream;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, ExitStatus, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

/// longest wait for anything the server owes
pub const PATIENCE: Duration = Duration::from_secs(25);

pub fn ced_bin() -> String {
    std::env::var("CED_BIN").unwrap_or_else(|_| "/verif/target/debug/ced".into())
}

pub fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}

/// the program under test, in its own scratch world, dying with us
pub fn ced(dir: &Path) -> Command {
    let mut c = Command::new(ced_bin());
    world(&mut c, dir);
    c
}

/// the same world for another program
pub fn world(c: &mut Command, dir: &Path) {
    let work = dir.join("work");
    let _ = fs::create_dir_all(&work);
    c.current_dir(&work)
        .env("TMPDIR", dir)
        .env("HOME", dir)
        .env("USER", "verif")
        .env("TERM", "xterm")
        .env("RUST_BACKTRACE", "0")
        .env_remove("RUST_LOG")
        .env_remove("LD_PRELOAD")
        .env_remove("CED_FWSTDERR");
    unsafe {
        c.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
}

pub fn shim() -> PathBuf {
    root().join("target").join("shim.so")
}

pub struct Server {
    pub child: Child,
    pub name: String,
    pub dir: PathBuf,
    pub err: PathBuf,
    pub tcp: Option<u16>,
}

#[derive(Clone, Default)]
pub struct Conf {
    /// percentage of the server's socket calls cut short
    pub cut: u32,
    pub seed: u64,
    /// limit of file descriptors
    pub files: Option<u64>,
}

impl Server {
    pub fn socket_path(&self) -> PathBuf {
        self.dir.join("ced-verif").join(&self.name)
    }

    /// Err: it could not be started; Ok(None): the address is not free
    pub fn start(dir: &Path, name: &str, tcp: Option<u16>, conf: &Conf) -> Result<Option<Server>, String> {
        let mut c = ced(dir);
        if conf.cut > 0 {
            c.env("LD_PRELOAD", shim())
                .env("CED_SHIM_CUT", conf.cut.to_string())
                .env("CED_SHIM_SEED", conf.seed.to_string());
        }
        if let Some(n) = conf.files {
            unsafe {
                c.pre_exec(move || {
                    let l = libc::rlimit { rlim_cur: n, rlim_max: n };
                    libc::setrlimit(libc::RLIMIT_NOFILE, &l);
                    Ok(())
                });
            }
        }
        let err = dir.join(format!("err-{}", name.trim_start_matches('@').replace([':', '[', ']'], "_")));
        c.arg("--mode=server")
            .arg(format!("--session={}", name))
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(fs::File::create(&err).map_err(|e| e.to_string())?);
        let mut child = c.spawn().map_err(|e| format!("spawn server: {}", e))?;
        let out = child.stdout.take().unwrap();
        let (tx, rx) = mpsc::channel();
        std::thread::spawn(move || {
            let mut out = BufReader::new(out);
            let mut line = String::new();
            let n = out.read_line(&mut line).unwrap_or(0);
            let _ = tx.send(n > 0 && line.trim().is_empty());
            // keeps the pipe open and empty
            let mut sink = Vec::new();
            let _ = out.read_to_end(&mut sink);
        });
        let ready = rx.recv_timeout(PATIENCE);
        let mut s = Server { child, name: name.to_string(), dir: dir.to_path_buf(), err, tcp };
        match ready {
            Ok(true) => Ok(Some(s)),
            _ => {
                let st = s.exited(Duration::from_secs(5));
                let text = s.stderr();
                if tcp.is_some() && text.contains("AddrInUse") {
                    return Ok(None);
                }
                Err(format!("the server does not get ready ({:?}): {}", st, text))
            }
        }
    }

    pub fn stderr(&self) -> String {
        let s = fs::read(&self.err).unwrap_or_default();
        let s = String::from_utf8_lossy(&s).into_owned();
        let n = s.len().saturating_sub(600);
        let n = (n..=s.len()).find(|&i| s.is_char_boundary(i)).unwrap_or(s.len());
        s[n..].to_string()
    }

    pub fn exited(&mut self, wait: Duration) -> Option<ExitStatus> {
        let end = Instant::now() + wait;
        loop {
            if let Ok(Some(st)) = self.child.try_wait() {
                return Some(st);
            }
            if Instant::now() >= end {
                return None;
            }
            std::thread::sleep(Duration::from_millis(2));
        }
    }

    pub fn alive(&mut self) -> bool {
        matches!(self.child.try_wait(), Ok(None))
    }

    pub fn connect(&self) -> Result<Conn, String> {
        let sock = match self.tcp {
            None => Sock::Unix(UnixStream::connect(self.socket_path()).map_err(|e| format!("connect: {}", e))?),
            Some(p) => {
                let s = TcpStream::connect(("127.0.0.1", p)).map_err(|e| format!("connect: {}", e))?;
                let _ = s.set_nodelay(true);
                Sock::Tcp(s)
            }
        };
        Conn::new(sock)
    }
}

impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

pub fn describe(st: ExitStatus) -> String {
    match (st.code(), st.signal()) {
        (Some(c), _) => format!("exit status {}", c),
        (_, Some(s)) => format!("signal {}", s),
        _ => "?".into(),
    }
}

/// a port nobody listens on now
pub fn free_port() -> u16 {
    std::net::TcpListener::bind(("127.0.0.1", 0))
        .and_then(|l| l.local_addr())
        .map(|a| a.port())
        .unwrap_or(34567)
}

pub enum Sock {
    Unix(UnixStream),
    Tcp(TcpStream),
}

impl Sock {
    pub fn fd(&self) -> i32 {
        match self {
            Sock::Unix(s) => s.as_raw_fd(),
            Sock::Tcp(s) => s.as_raw_fd(),
        }
    }
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        match self {
            Sock::Unix(s) => s.read(b),
            Sock::Tcp(s) => s.read(b),
        }
    }
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        match self {
            Sock::Unix(s) => s.write(b),
            Sock::Tcp(s) => s.write(b),
        }
    }
    pub fn shutdown(&self, how: std::net::Shutdown) {
        let _ = match self {
            Sock::Unix(s) => s.shutdown(how),
            Sock::Tcp(s) => s.shutdown(how),
        };
    }
}

/// one raw connection; bytes are moved by `pump`
pub struct Conn {
    pub sock: Sock,
    /// bytes to be sent, in pieces given to the system one at a time
    pub out: VecDeque<Vec<u8>>,
    pub inbuf: Vec<u8>,
    /// complete lines not looked at yet
    pub lines: VecDeque<Vec<u8>>,
    pub eof: bool,
    /// nothing can be sent anymore
    pub broken: bool,
    /// reads nothing for now
    pub deaf: bool,
    pub received: u64,
    pub sent: u64,
    /// sends nothing before
    pub not_before: Option<Instant>,
}

impl Conn {
    pub fn new(sock: Sock) -> Result<Conn, String> {
        match &sock {
            Sock::Unix(s) => s.set_nonblocking(true),
            Sock::Tcp(s) => s.set_nonblocking(true),
        }
        .map_err(|e| e.to_string())?;
        Ok(Conn {
            sock,
            out: VecDeque::new(),
            inbuf: Vec::new(),
            lines: VecDeque::new(),
            eof: false,
            broken: false,
            deaf: false,
            received: 0,
            sent: 0,
            not_before: None,
        })
    }

    pub fn send_line(&mut self, line: &[u8]) {
        let mut v = line.to_vec();
        v.push(b'\n');
        self.out.push_back(v);
    }

    fn read_some(&mut self) {
        let mut buf = [0u8; 65536];
        // bounded, so that one talkative connection does not starve the others
        for _ in 0..16 {
            match self.sock.read(&mut buf) {
                Ok(0) => {
                    self.eof = true;
                    return;
                }
                Ok(n) => {
                    self.received += n as u64;
                    let mut rest = &buf[..n];
                    while let Some(i) = rest.iter().position(|&b| b == b'\n') {
                        self.inbuf.extend_from_slice(&rest[..i]);
                        self.lines.push_back(std::mem::take(&mut self.inbuf));
                        rest = &rest[i + 1..];
                    }
                    self.inbuf.extend_from_slice(rest);
                }
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => return,
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                Err(_) => {
                    self.eof = true;
                    return;
                }
            }
        }
    }

    fn write_some(&mut self) {
        // one piece at a time: pieces are the fragments of the case
        if let Some(mut piece) = self.out.pop_front() {
            match self.sock.write(&piece) {
                Ok(n) => {
                    self.sent += n as u64;
                    if n < piece.len() {
                        piece.drain(..n);
                        self.out.push_front(piece);
                    }
                }
                Err(e)
                    if e.kind() == std::io::ErrorKind::WouldBlock
                        || e.kind() == std::io::ErrorKind::Interrupted =>
                {
                    self.out.push_front(piece)
                }
                Err(_) => {
                    self.broken = true;
                    self.out.clear();
                }
            }
        }
    }

    /// closes at once, discarding what is unread or unsent (a reset, on TCP)
    pub fn reset(self) {
        if let Sock::Tcp(s) = &self.sock {
            let l = libc::linger { l_onoff: 1, l_linger: 0 };
            unsafe {
                libc::setsockopt(
                    s.as_raw_fd(),
                    libc::SOL_SOCKET,
                    libc::SO_LINGER,
                    &l as *const _ as *const libc::c_void,
                    std::mem::size_of::<libc::linger>() as u32,
                );
            }
        }
    }
}

/// moves bytes once, waiting at most `wait`
pub fn pump(conns: &mut [&mut Conn], wait: Duration) {
    let now = Instant::now();
    let mut fds = Vec::new();
    let mut wait = wait;
    for c in conns.iter_mut() {
        let mut events = 0;
        if !c.eof && !c.deaf {
            events |= libc::POLLIN;
        }
        if !c.out.is_empty() && !c.broken {
            match c.not_before {
                Some(t) if t > now => wait = wait.min(t - now),
                _ => events |= libc::POLLOUT,
            }
        }
        fds.push(libc::pollfd { fd: if events == 0 { -1 } else { c.sock.fd() }, events, revents: 0 });
    }
    let n = unsafe { libc::poll(fds.as_mut_ptr(), fds.len() as libc::nfds_t, wait.as_millis().max(1) as i32) };
    if n <= 0 {
        return;
    }
    for (c, f) in conns.iter_mut().zip(&fds) {
        if f.revents == 0 {
            continue;
        }
        if f.events & libc::POLLIN != 0 && f.revents & (libc::POLLIN | libc::POLLHUP | libc::POLLERR) != 0 {
            c.read_some();
        }
        if f.events & libc::POLLOUT != 0 && f.revents & (libc::POLLOUT | libc::POLLERR | libc::POLLHUP) != 0 {
            c.write_some();
        }
    }
}

/// One complete message of the server.
#[derive(Clone, Debug)]
pub enum Msg {
    Notification(String, Value),
    /// id, and Ok(result) or Err(error)
    Response(Value, Result<Value, Value>),
}

pub fn parse_msg(line: &[u8]) -> Result<Msg, String> {
    let show = || {
        let t = String::from_utf8_lossy(&line[..line.len().min(300)]).into_owned();
        format!("{:?} ({} bytes)", t, line.len())
    };
    let v: Value = serde_json::from_slice(line).map_err(|e| format!("a line of the server is not a message: {}: {}", e, show()))?;
    let o = v.as_object().ok_or_else(|| format!("a line of the server is not a message: {}", show()))?;
    if o.get("jsonrpc") != Some(&Value::from("2.0")) {
        return Err(format!("a message of the server has no version: {}", show()));
    }
    if let Some(m) = o.get("method") {
        let m = m.as_str().ok_or_else(|| format!("odd method: {}", show()))?;
        if o.contains_key("id") {
            return Err(format!("the server sends a request: {}", show()));
        }
        return Ok(Msg::Notification(m.to_string(), o.get("params").cloned().unwrap_or(Value::Null)));
    }
    let id = o.get("id").cloned().ok_or_else(|| format!("neither response nor notification: {}", show()))?;
    match (o.get("result"), o.get("error")) {
        (Some(r), None) => Ok(Msg::Response(id, Ok(r.clone()))),
        (None, Some(e)) => Ok(Msg::Response(id, Err(e.clone()))),
        (Some(r), Some(Value::Null)) => Ok(Msg::Response(id, Ok(r.clone()))),
        (Some(Value::Null), Some(e)) => Ok(Msg::Response(id, Err(e.clone()))),
        _ => Err(format!("a response with neither or both of result and error: {}", show())),
    }
}
