//! C31: clients find the server of their session, or start it.
use super::ffi::c;
use super::tui::Pty;
use crate::check::{CaseResult, Check, Ctx, Tier};
use crate::live::*;
use crate::rng::{hash_str, Rng};
use serde_json::{json, Value};
use std::collections::BTreeSet;
use std::ffi::{CStr, CString};
use std::fs;
use std::io::{BufRead, BufReader, Write};
use std::os::fd::{AsRawFd, FromRawFd};
use std::os::unix::fs::PermissionsExt;
use std::os::unix::net::UnixStream;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, Command, ExitStatus, Stdio};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct C31Check;
pub static C31: C31Check = C31Check;

/// A program using the C interface: says who it is told to be, and stays until its input ends.
pub fn host(session: &str) -> i32 {
    let name = CString::new(session).unwrap();
    let conn = unsafe { c::ced_connection_create(name.as_ptr()) };
    if conn.is_null() {
        let n = unsafe { c::ced_last_error_length() };
        println!("@@{}", json!({"method": "failed", "params": n}));
        return 7;
    }
    std::thread::spawn(|| {
        let mut s = String::new();
        while std::io::stdin().read_line(&mut s).unwrap_or(0) > 0 {}
        std::process::exit(0);
    });
    loop {
        let p = unsafe { c::ced_connection_next_event(conn) };
        if p.is_null() {
            // no event for a while, or the end
            std::thread::sleep(Duration::from_millis(5));
            continue;
        }
        let ev = unsafe { &*p };
        if ev.tag == 1 {
            let i = unsafe { ev.body.info };
            let text = |p| unsafe { CStr::from_ptr(p) }.to_string_lossy().into_owned();
            println!("@@{}", json!({"method": "info", "params": {"client": text(i.client), "session": text(i.session)}}));
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Json,
    Term,
    Host,
}

/// how the programs of a case are run
struct World {
    dir: PathBuf,
    /// programs starting a server go through a script that keeps a record
    record: Option<PathBuf>,
    pause: u32,
    seed: u64,
    started: Mutex<u64>,
}

impl World {
    fn new(r: &mut Rng, dir: &Path, recorded: bool, ctx: &mut Ctx) -> Result<World, String> {
        let record = if recorded {
            let script = dir.join("starter");
            let log = dir.join("starts");
            fs::write(&log, b"").map_err(|e| e.to_string())?;
            let text = format!("#!/bin/sh\necho \"$$ $*\" >> '{}'\nexec '{}' \"$@\"\n", log.display(), ced_bin());
            fs::write(&script, text).map_err(|e| e.to_string())?;
            fs::set_permissions(&script, fs::Permissions::from_mode(0o755)).map_err(|e| e.to_string())?;
            ctx.count("recorded");
            Some(log)
        } else {
            None
        };
        let pause = *r.pick(&[0, 0, 2, 8, 20]);
        if pause > 0 {
            ctx.count("with pauses");
        }
        Ok(World { dir: dir.to_path_buf(), record, pause, seed: r.next() % 1_000_000, started: Mutex::new(0) })
    }

    fn ready(&self, c: &mut Command) {
        if self.record.is_some() {
            c.env("CED_BIN", self.dir.join("starter"));
        } else {
            c.env_remove("CED_BIN");
        }
        if self.pause > 0 {
            let mut n = self.started.lock().unwrap();
            *n += 1;
            c.env("LD_PRELOAD", shim())
                .env("CED_SHIM_CUT", "0")
                .env("CED_SHIM_PAUSE", self.pause.to_string())
                .env("CED_SHIM_SEED", (self.seed + *n * 7919).to_string());
        }
    }

    /// the servers started, as pid and arguments
    fn starts(&self) -> Vec<(i32, String)> {
        let text = self.record.as_ref().and_then(|f| fs::read_to_string(f).ok()).unwrap_or_default();
        text.lines()
            .filter_map(|l| l.split_once(' ').and_then(|(p, a)| p.parse().ok().map(|p| (p, a.to_string()))))
            .collect()
    }

    fn socket(&self, name: &str) -> PathBuf {
        self.dir.join("ced-verif").join(name)
    }
}

impl Drop for World {
    fn drop(&mut self) {
        for (pid, _) in self.starts() {
            if running(pid) {
                unsafe { libc::kill(pid, libc::SIGKILL) };
            }
            reap(pid);
        }
    }
}

/// neither gone nor waiting to be collected, and still a server of ours
fn running(pid: i32) -> bool {
    let stat = fs::read_to_string(format!("/proc/{}/stat", pid)).unwrap_or_default();
    match stat.rsplit_once(')') {
        Some((name, rest)) => !rest.trim_start().starts_with(['Z', 'X']) && (name.ends_with("(ced") || name.ends_with("(starter") || name.ends_with("(sh")),
        None => false,
    }
}

fn reap(pid: i32) -> Option<ExitStatus> {
    let mut st = 0;
    let got = unsafe { libc::waitpid(pid, &mut st, libc::WNOHANG) };
    if got == pid {
        Some(ExitStatus::from_raw(st))
    } else {
        None
    }
}

/// the process serving a socket
fn server_of(sock: &UnixStream) -> i32 {
    let mut c = libc::ucred { pid: 0, uid: 0, gid: 0 };
    let mut l = std::mem::size_of::<libc::ucred>() as libc::socklen_t;
    unsafe { libc::getsockopt(sock.as_raw_fd(), libc::SOL_SOCKET, libc::SO_PEERCRED, &mut c as *mut _ as *mut libc::c_void, &mut l) };
    c.pid
}

struct Peer {
    kind: Kind,
    child: Child,
    input: Option<ChildStdin>,
    /// messages not looked at yet
    got: Arc<Mutex<Vec<Value>>>,
    seen: Vec<Value>,
    err: PathBuf,
    pty: Option<Arc<Pty>>,
    over: Arc<AtomicBool>,
    next: u64,
    id: Option<String>,
    what: String,
}

impl Peer {
    fn start(w: &World, kind: Kind, session: Option<&str>, files: &[String], n: usize) -> Result<Peer, String> {
        let mut cmd = match kind {
            Kind::Host => {
                // beside the program, where the library looks for it
                let mut c = Command::new(Path::new(&ced_bin()).with_file_name("cedmon"));
                world(&mut c, &w.dir);
                c.arg("helper").arg("host").arg(session.unwrap_or(""));
                c
            }
            Kind::Json | Kind::Term => {
                let mut c = ced(&w.dir);
                c.arg(if kind == Kind::Json { "--mode=json" } else { "--mode=term" });
                if let Some(s) = session {
                    c.arg(format!("--session={}", s));
                }
                c.args(files);
                c
            }
        };
        w.ready(&mut cmd);
        let err = w.dir.join(format!("err{}", n));
        let mut pty = None;
        let over = Arc::new(AtomicBool::new(false));
        if kind == Kind::Term {
            let p = Arc::new(Pty::new(60, 20)?);
            let dup = |fd: i32| unsafe { Stdio::from_raw_fd(libc::dup(fd)) };
            cmd.stdin(dup(p.slave)).stdout(dup(p.slave)).stderr(fs::File::create(&err).map_err(|e| e.to_string())?);
            unsafe {
                cmd.pre_exec(|| {
                    if libc::setsid() < 0 || libc::ioctl(0, libc::TIOCSCTTY, 0) < 0 {
                        return Err(std::io::Error::last_os_error());
                    }
                    Ok(())
                });
            }
            let (q, o) = (p.clone(), over.clone());
            std::thread::spawn(move || {
                while !o.load(Ordering::Relaxed) {
                    q.read();
                    std::thread::sleep(Duration::from_millis(3));
                }
            });
            pty = Some(p);
        } else {
            cmd.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(fs::File::create(&err).map_err(|e| e.to_string())?);
        }
        let mut child = cmd.spawn().map_err(|e| format!("spawn: {}", e))?;
        let got = Arc::new(Mutex::new(Vec::new()));
        if let Some(out) = child.stdout.take() {
            let to = got.clone();
            std::thread::spawn(move || {
                for l in BufReader::new(out).split(b'\n') {
                    let l = match l {
                        Ok(l) => l,
                        Err(_) => break,
                    };
                    let text = match kind {
                        Kind::Host => match l.strip_prefix(b"@@") {
                            Some(t) => t,
                            None => continue,
                        },
                        _ => &l[..],
                    };
                    let v = serde_json::from_slice(text).unwrap_or_else(|_| json!({"method": "garbage", "params": String::from_utf8_lossy(text)}));
                    to.lock().unwrap().push(v);
                }
            });
        }
        let input = child.stdin.take();
        let what = format!("client {} ({:?}) of {:?}", n, kind, session);
        Ok(Peer { kind, child, input, got, seen: Vec::new(), err, pty, over, next: 0, id: None, what })
    }

    fn stderr(&self) -> String {
        let s = fs::read(&self.err).unwrap_or_default();
        String::from_utf8_lossy(&s[s.len().saturating_sub(300)..]).into_owned()
    }

    fn until<T>(&mut self, what: &str, f: impl Fn(&Value) -> Option<T>) -> Result<T, String> {
        let end = Instant::now() + PATIENCE;
        loop {
            let fresh: Vec<Value> = self.got.lock().unwrap().drain(..).collect();
            let mut found = None;
            for v in fresh {
                if v["method"] == "garbage" {
                    return Err(format!("{}: an odd line {}", self.what, v["params"]));
                }
                if found.is_none() {
                    found = f(&v);
                }
                self.seen.push(v);
            }
            if let Some(x) = found {
                return Ok(x);
            }
            if let Ok(Some(st)) = self.child.try_wait() {
                return Err(format!("{} ends ({}) before {}: {}", self.what, describe(st), what, self.stderr()));
            }
            if Instant::now() > end {
                let last = self.seen.last().map(|v| v.to_string().chars().take(200).collect::<String>());
                return Err(format!("{}: {} does not come; last message {:?}; {}", self.what, what, last, self.stderr()));
            }
            std::thread::sleep(Duration::from_millis(1));
        }
    }

    /// who it is told to be: client and session
    fn introduced(&mut self, w: &World, session: &str) -> CaseResult {
        let told = self.until("it is introduced", |v| if v["method"] == "info" { Some(v["params"].clone()) } else { None })?;
        if told["session"] != session {
            return Err(format!("{}: introduced to session {}", self.what, told["session"]));
        }
        if let Some(cwd) = told["cwd"].as_str() {
            let work = fs::canonicalize(w.dir.join("work")).unwrap_or_default();
            if Path::new(cwd) != work {
                return Err(format!("{}: the session works in {:?}, not in {:?} where it was started", self.what, cwd, work));
            }
        }
        let id = told["client"].as_str().ok_or_else(|| format!("{}: introduced as {}", self.what, told))?;
        self.id = Some(id.to_string());
        Ok(())
    }

    fn ask(&mut self, method: &str, params: Value) -> Result<u64, String> {
        self.next += 1;
        let l = format!("{}\n", json!({"jsonrpc": "2.0", "id": self.next, "method": method, "params": params}));
        match self.input.as_mut().map(|i| i.write_all(l.as_bytes())) {
            Some(Ok(())) => Ok(self.next),
            _ => Err(format!("{}: it does not read its input: {}", self.what, self.stderr())),
        }
    }

    fn request(&mut self, method: &str, params: Value) -> CaseResult {
        let n = self.ask(method, params)?;
        let v = self.until(&format!("the response to {}", method), |v| if v.get("method").is_none() && v["id"] == n { Some(v.clone()) } else { None })?;
        if v.get("error").map_or(false, |e| !e.is_null()) {
            return Err(format!("{}: {} is refused: {}", self.what, method, v["error"]));
        }
        Ok(())
    }

    /// the names offered by the view menu
    fn views(&mut self) -> Result<Vec<String>, String> {
        let from = self.seen.len();
        self.request("menu", json!({"command": "view_select", "search": ""}))?;
        let menu = self.seen[from..].iter().rev().find(|v| v["method"] == "menu").cloned();
        let menu = match menu {
            Some(m) => m,
            None => self.until("the menu asked for", |v| if v["method"] == "menu" { Some(v.clone()) } else { None })?,
        };
        Ok(menu["params"]["entries"].as_array().map(|es| es.iter().map(|e| e["value"].as_str().unwrap_or("").to_string()).collect()).unwrap_or_default())
    }

    /// sees all these buffers of its session
    fn sees(&mut self, marks: &BTreeSet<String>, after: &str) -> CaseResult {
        let end = Instant::now() + PATIENCE;
        loop {
            let views = self.views().map_err(|e| format!("{} ({})", e, after))?;
            let missing: Vec<&String> = marks.iter().filter(|m| !views.iter().any(|v| v.contains(m.as_str()))).collect();
            if missing.is_empty() {
                return Ok(());
            }
            if Instant::now() > end {
                return Err(format!("{}: {}: {:?} are not in its session, which has {:?}", self.what, after, missing, views));
            }
            std::thread::sleep(Duration::from_millis(5));
        }
    }

    fn ended(&mut self, wait: Duration) -> Option<ExitStatus> {
        let end = Instant::now() + wait;
        loop {
            if let Ok(Some(st)) = self.child.try_wait() {
                return Some(st);
            }
            if Instant::now() > end {
                return None;
            }
            std::thread::sleep(Duration::from_millis(1));
        }
    }

    fn leave(&mut self, abruptly: bool) -> CaseResult {
        if !abruptly {
            match self.kind {
                Kind::Json => {
                    self.ask("quit", Value::Null)?;
                }
                Kind::Term => {
                    // Alt-q, until it is listened to
                    let end = Instant::now() + PATIENCE;
                    while Instant::now() < end {
                        self.pty.as_ref().unwrap().write(b"\x1bq");
                        if self.ended(Duration::from_millis(200)).is_some() {
                            break;
                        }
                    }
                }
                Kind::Host => {
                    self.input.take();
                }
            }
            match self.ended(PATIENCE) {
                Some(st) if st.success() => return Ok(()),
                Some(st) => return Err(format!("{} leaves with {}: {}", self.what, describe(st), self.stderr())),
                None => return Err(format!("{} is asked to leave and does not: {}", self.what, self.stderr())),
            }
        }
        let _ = self.child.kill();
        let _ = self.child.wait();
        Ok(())
    }
}

impl Drop for Peer {
    fn drop(&mut self) {
        self.over.store(true, Ordering::Relaxed);
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn gen_name(r: &mut Rng) -> String {
    (*r.pick(&["s", "été 1", "a.b", "-x", "--mode=json", "a=b", "a,b", "\"q\" 'r'", "$HOME", "*", ".h", "@x", "0", "a:1", " s ", "@s:x", "%20", "-"])).to_string()
}

/// once everyone has left: the server ends well and nothing is left of the session
fn vanished(w: &World, name: &str, server: Option<i32>, alone: bool, what: &str) -> CaseResult {
    let end = Instant::now() + PATIENCE;
    let mut status = None;
    loop {
        if let Some(p) = server {
            if status.is_none() {
                status = reap(p);
            }
        }
        let over = match server {
            Some(_) => status.is_some(),
            None => true,
        };
        let dir_left = alone && w.socket(name).parent().unwrap().exists();
        if over && !w.socket(name).exists() && !dir_left {
            break;
        }
        if Instant::now() > end {
            return Err(format!(
                "{}: everyone left; server {:?} ended: {:?}, socket there: {}, session directory there: {}",
                what, server, status.map(describe), w.socket(name).exists(), dir_left
            ));
        }
        std::thread::sleep(Duration::from_millis(2));
    }
    match status {
        Some(st) if !st.success() => Err(format!("{}: everyone left and the server ends with {}", what, describe(st))),
        _ => Ok(()),
    }
}

/// several clients at once
fn crowd(r: &mut Rng, dir: &Path, ctx: &mut Ctx) -> CaseResult {
    let recorded = r.chance(2, 3);
    let w = World::new(r, dir, recorded, ctx)?;
    let tcp = r.chance(1, 8);
    let name = if tcp { format!("@127.0.0.1:{}", free_port()) } else { gen_name(r) };
    for round in 0..if tcp { 1 } else { *r.pick(&[1, 1, 2]) } {
        let before = w.starts().len();
        // somebody may serve already
        let served = tcp || round == 0 && r.chance(1, 4);
        let mut marks = BTreeSet::new();
        let mut first = None;
        let mut base = 0;
        if served {
            let port = if tcp { name.rsplit(':').next().and_then(|p| p.parse().ok()) } else { None };
            let s = match Server::start(dir, &name, port, &Conf::default())? {
                Some(s) => s,
                None => return Ok(()),
            };
            let mut conn = s.connect()?;
            conn.send_line(json!({"jsonrpc": "2.0", "id": 1, "method": "edit", "params": {"name": "mark0", "scratch": true}}).to_string().as_bytes());
            let end = Instant::now() + PATIENCE;
            while !conn.lines.iter().any(|l| matches!(parse_msg(l), Ok(Msg::Response(..)))) {
                if Instant::now() > end || conn.eof {
                    return Err("a served session does not answer".into());
                }
                pump(&mut [&mut conn], Duration::from_millis(5));
            }
            marks.insert("mark0".to_string());
            base = 1;
            first = Some((s, conn));
            ctx.count("sessions already served");
        }
        let n = *r.pick(&[1, 2, 2, 3, 4, 6]);
        let mut peers = Vec::new();
        let mut kinds = Vec::new();
        for i in 0..n {
            let kind = if i == 0 { Kind::Json } else { *r.pick(&[Kind::Json, Kind::Json, Kind::Term, Kind::Host]) };
            kinds.push(kind);
        }
        for i in (1..kinds.len()).rev() {
            kinds.swap(i, r.below(i + 1));
        }
        let what = format!("{} clients {:?} of {:?} ({}, pauses up to {} ms)", n, kinds, name, if served { "served" } else { "not served" }, w.pause);
        ctx.log(what.clone());
        for (i, &kind) in kinds.iter().enumerate() {
            let files = if kind == Kind::Term {
                let f = format!("file{}", i);
                fs::write(dir.join("work").join(&f), b"x\n").map_err(|e| e.to_string())?;
                marks.insert(f.clone());
                vec![f]
            } else {
                Vec::new()
            };
            peers.push(Peer::start(&w, kind, Some(&name), &files, i)?);
            if r.chance(1, 3) {
                std::thread::sleep(Duration::from_micros(r.below(12_000) as u64));
            }
        }
        let mut ids = BTreeSet::new();
        for (i, p) in peers.iter_mut().enumerate() {
            if p.kind == Kind::Term {
                ctx.count("terminal clients");
                continue;
            }
            p.introduced(&w, &name).map_err(|e| format!("{}: {}", what, e))?;
            let id = p.id.clone().unwrap();
            if !id.parse::<usize>().map_or(false, |x| x > base && x <= base + n) || !ids.insert(id.clone()) {
                return Err(format!("{}: client {} is introduced as {:?}, others were {:?}", what, i, id, ids));
            }
            if p.kind == Kind::Json {
                let m = format!("mark{}", i + 1);
                p.request("edit", json!({"name": m, "scratch": true})).map_err(|e| format!("{}: {}", what, e))?;
                marks.insert(m);
                ctx.count("json clients");
            } else {
                ctx.count("C interface clients");
            }
        }
        // all in one place
        for p in peers.iter_mut().filter(|p| p.kind == Kind::Json) {
            p.sees(&marks, "once all have joined").map_err(|e| format!("{}: {}", what, e))?;
        }
        // and one server, which only the clients keep
        let server = if tcp {
            None
        } else {
            let probe = UnixStream::connect(w.socket(&name)).map_err(|e| format!("{}: the session can not be joined: {}", what, e))?;
            Some(server_of(&probe))
        };
        let starts = w.starts();
        let mine = &starts[before.min(starts.len())..];
        ctx.add("servers started", mine.len() as u64);
        if mine.len() > 1 {
            ctx.count("concurrent starts");
        }
        if w.record.is_some() {
            if served && !mine.is_empty() {
                return Err(format!("{}: a server is started for a session that has one: {:?}", what, mine));
            }
            if !served && !mine.iter().any(|m| Some(m.0) == server) {
                return Err(format!("{}: served by process {:?}, started were {:?}", what, server, mine));
            }
            let end = Instant::now() + PATIENCE;
            while let Some(m) = mine.iter().find(|m| Some(m.0) != server && running(m.0)) {
                if Instant::now() > end {
                    return Err(format!("{}: server {:?} stays, although {:?} serves", what, m, server));
                }
                std::thread::sleep(Duration::from_millis(2));
            }
        }
        // they leave one by one, in any way
        while !peers.is_empty() {
            let mut p = peers.remove(r.below(peers.len()));
            let abruptly = r.chance(1, 2);
            p.leave(abruptly).map_err(|e| format!("{}: {}", what, e))?;
            ctx.count(if abruptly { "abrupt departures" } else { "orderly departures" });
            let after = format!("after {} left{}", p.what, if abruptly { " abruptly" } else { "" });
            for q in peers.iter_mut().filter(|q| q.kind == Kind::Json) {
                q.sees(&marks, &after).map_err(|e| format!("{}: {}", what, e))?;
            }
            // the others are still connected
            for q in peers.iter_mut() {
                if let Ok(Some(st)) = q.child.try_wait() {
                    return Err(format!("{}: {} and {} ends ({})", what, after, q.what, describe(st)));
                }
            }
        }
        match first {
            Some((mut s, conn)) => {
                if !s.alive() {
                    return Err(format!("{}: the server ended with a client left", what));
                }
                drop(conn);
                match s.exited(PATIENCE) {
                    Some(st) if st.success() => {}
                    st => return Err(format!("{}: everyone left, the server: {:?}", what, st.map(describe))),
                }
            }
            None => vanished(&w, &name, server, true, &what)?,
        }
        ctx.distinct(hash_str(&format!("{} {:?} {} {}", name.starts_with('@'), kinds, served, mine.len())));
        ctx.sample(|| format!("{}: ids {:?}, servers started {:?}", what, ids, mine));
    }
    Ok(())
}

/// sessions of different names that come and go
fn churn(r: &mut Rng, dir: &Path, ctx: &mut Ctx) -> CaseResult {
    let recorded = r.chance(1, 2);
    let w = World::new(r, dir, recorded, ctx)?;
    let n = r.range(2, 4);
    let rounds = r.range(2, 4);
    let seeds: Vec<u64> = (0..n).map(|_| r.next()).collect();
    let what = format!("{} sessions coming and going {} times (pauses up to {} ms)", n, rounds, w.pause);
    ctx.log(what.clone());
    let results: Vec<CaseResult> = std::thread::scope(|s| {
        let w = &w;
        let hs: Vec<_> = seeds
            .iter()
            .enumerate()
            .map(|(i, &seed)| {
                s.spawn(move || -> CaseResult {
                    let mut r = Rng::new(seed);
                    let name = format!("s{}", i);
                    for k in 0..rounds {
                        let mut p = Peer::start(w, Kind::Json, Some(&name), &[], i * 100 + k)?;
                        p.introduced(w, &name)?;
                        if p.id.as_deref() != Some("1") {
                            return Err(format!("{}: introduced as {:?}, alone in its session", p.what, p.id));
                        }
                        p.request("edit", json!({"name": "own", "scratch": true}))?;
                        let views = p.views()?;
                        if !views.iter().any(|v| v.contains("own")) {
                            return Err(format!("{}: it sees {:?}", p.what, views));
                        }
                        let abruptly = r.chance(1, 2);
                        let pid = UnixStream::connect(w.socket(&name)).map(|s| server_of(&s)).map_err(|e| format!("{}: its session can not be joined: {}", p.what, e))?;
                        p.leave(abruptly)?;
                        vanished(w, &name, Some(pid), false, &p.what)?;
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("harness: panic".into()))).collect()
    });
    for x in results {
        x.map_err(|e| format!("{}: {}", what, e))?;
    }
    ctx.add("sessions come and gone", (n * rounds) as u64);
    // nothing remains
    let end = Instant::now() + PATIENCE;
    while dir.join("ced-verif").exists() {
        if Instant::now() > end {
            return Err(format!("{}: all are gone, the session directory remains with {:?}", what, fs::read_dir(dir.join("ced-verif")).map(|d| d.count())));
        }
        std::thread::sleep(Duration::from_millis(2));
    }
    ctx.distinct(hash_str(&format!("churn {} {} {}", n, rounds, w.pause)));
    ctx.sample(|| what.clone());
    Ok(())
}

/// runs a program to its end: status, outputs; its outputs have to end with it
fn complete(mut cmd: Command, what: &str) -> Result<(ExitStatus, String), String> {
    let mut child = cmd
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .map_err(|e| format!("spawn: {}", e))?;
    let stdin = child.stdin.take();
    let (tx, rx) = std::sync::mpsc::channel();
    let mut streams: Vec<Box<dyn std::io::Read + Send>> = vec![Box::new(child.stdout.take().unwrap()), Box::new(child.stderr.take().unwrap())];
    for mut s in streams.drain(..) {
        let tx = tx.clone();
        std::thread::spawn(move || {
            let mut t = Vec::new();
            let _ = s.read_to_end(&mut t);
            let _ = tx.send(String::from_utf8_lossy(&t).into_owned());
        });
    }
    let end = Instant::now() + PATIENCE;
    let st = loop {
        if let Ok(Some(st)) = child.try_wait() {
            break st;
        }
        if Instant::now() > end {
            let _ = child.kill();
            let _ = child.wait();
            return Err(format!("{}: it does not end", what));
        }
        std::thread::sleep(Duration::from_millis(1));
    };
    drop(stdin);
    let mut text = String::new();
    for _ in 0..2 {
        match rx.recv_timeout(PATIENCE) {
            Ok(t) => text += &t,
            Err(_) => return Err(format!("{}: it ended and its outputs are still held", what)),
        }
    }
    Ok((st, text))
}

/// servers started in the background
fn daemon(r: &mut Rng, dir: &Path, ctx: &mut Ctx) -> CaseResult {
    let w = World::new(r, dir, true, ctx)?;
    let tcp = r.chance(1, 3);
    let port = free_port();
    let name = if tcp { format!("@127.0.0.1:{}", port) } else { gen_name(r) };
    let start = || {
        let mut c = ced(&w.dir);
        c.arg("--mode=daemon").arg(format!("--session={}", name));
        w.ready(&mut c);
        c
    };
    let join = || -> std::io::Result<Conn> {
        let s = if tcp { std::net::TcpStream::connect(("127.0.0.1", port)).map(Sock::Tcp) } else { UnixStream::connect(w.socket(&name)).map(Sock::Unix) };
        s.and_then(|s| Conn::new(s).map_err(std::io::Error::other))
    };
    let what = format!("daemon mode for {:?} (pauses up to {} ms)", name, w.pause);
    ctx.log(what.clone());
    let (st, text) = complete(start(), &what)?;
    if !st.success() {
        // the port may have been taken since
        if tcp && join().is_ok() {
            return Ok(());
        }
        return Err(format!("{}: {}: {}", what, describe(st), text));
    }
    // at once
    let mut conn = join().map_err(|e| format!("{}: it ended well, but nobody can join: {}", what, e))?;
    // the response and a notification, in any order
    let answered = |conn: &mut Conn, id: u64, notice: &str, req: Value| -> Result<Value, String> {
        let mut v = req;
        v["jsonrpc"] = json!("2.0");
        v["id"] = json!(id);
        conn.send_line(v.to_string().as_bytes());
        let end = Instant::now() + PATIENCE;
        let (mut done, mut told) = (false, None);
        loop {
            pump(&mut [conn], Duration::from_millis(5));
            while let Some(l) = conn.lines.pop_front() {
                match parse_msg(&l)? {
                    Msg::Response(i, Ok(_)) if i == json!(id) => done = true,
                    Msg::Notification(m, p) if m == notice => told = Some(p),
                    _ => {}
                }
            }
            if done && told.is_some() {
                return Ok(told.unwrap());
            }
            if conn.eof || Instant::now() > end {
                return Err(format!("{}: request {} is not answered, or {} not sent (connection closed: {})", what, id, notice, conn.eof));
            }
        }
    };
    let info = answered(&mut conn, 1, "info", json!({"method": "edit", "params": {"name": "mark", "scratch": true}}))?;
    if info["session"] != json!(name) || info["client"] != "1" {
        return Err(format!("{}: the first client is told {}", what, info));
    }
    let starts = w.starts();
    if starts.len() != 1 || !running(starts[0].0) {
        return Err(format!("{}: servers started: {:?}", what, starts));
    }
    let server = starts[0].0;
    if !text.split(|c: char| !c.is_ascii_digit()).any(|d| d == server.to_string()) {
        return Err(format!("{}: it says {:?}, the server is process {}", what, text, server));
    }
    ctx.count("daemons");
    // a name in use
    if r.chance(1, 2) {
        let (st, text) = complete(start(), &what)?;
        if st.success() {
            return Err(format!("{}: a second one pretends to have started: {}", what, text));
        }
        ctx.count("names in use");
    }
    // clients find it
    if r.chance(1, 2) {
        let before = w.starts().len();
        let mut p = Peer::start(&w, if r.chance(1, 2) { Kind::Json } else { Kind::Host }, Some(&name), &[], 9)?;
        p.introduced(&w, &name).map_err(|e| format!("{}: {}", what, e))?;
        if p.id.as_deref() != Some("2") {
            return Err(format!("{}: the second client is introduced as {:?}", what, p.id));
        }
        if w.starts().len() != before {
            return Err(format!("{}: its client starts another server", what));
        }
        p.leave(r.chance(1, 2)).map_err(|e| format!("{}: {}", what, e))?;
        ctx.count("daemons joined");
    }
    let menu = answered(&mut conn, 2, "menu", json!({"method": "menu", "params": {"command": "view_select", "search": ""}}))?;
    if !menu.to_string().contains("\"mark") {
        return Err(format!("{}: the first client's buffer is gone: {}", what, menu));
    }
    drop(conn);
    if tcp {
        let end = Instant::now() + PATIENCE;
        let st = loop {
            if let Some(st) = reap(server) {
                break st;
            }
            if Instant::now() > end {
                return Err(format!("{}: everyone left and the server stays", what));
            }
            std::thread::sleep(Duration::from_millis(2));
        };
        if !st.success() {
            return Err(format!("{}: everyone left and the server ends with {}", what, describe(st)));
        }
    } else {
        vanished(&w, &name, Some(server), true, &what)?;
    }
    ctx.distinct(hash_str(&format!("daemon {} {}", tcp, name)));
    ctx.sample(|| format!("{}: {:?}", what, text));
    Ok(())
}

/// a client without a session name
fn nameless(r: &mut Rng, dir: &Path, ctx: &mut Ctx) -> CaseResult {
    let w = World::new(r, dir, true, ctx)?;
    let n = r.range(1, 3);
    let mut peers = Vec::new();
    for i in 0..n {
        peers.push(Peer::start(&w, Kind::Json, None, &[], i)?);
    }
    for p in peers.iter_mut() {
        let name = p.child.id().to_string();
        p.introduced(&w, &name)?;
        if p.id.as_deref() != Some("1") {
            return Err(format!("{}: introduced as {:?}", p.what, p.id));
        }
        p.request("edit", json!({"name": format!("own{}", name), "scratch": true}))?;
    }
    let mut listed: Vec<String> = {
        let mut c = ced(dir);
        c.arg("--list");
        let (st, text) = complete(c, "the list of sessions")?;
        if !st.success() {
            return Err(format!("listing sessions: {}", describe(st)));
        }
        text.lines().map(String::from).collect()
    };
    listed.sort();
    let mut want: Vec<String> = peers.iter().map(|p| p.child.id().to_string()).collect();
    want.sort();
    if listed != want {
        return Err(format!("the sessions of clients {:?} are listed as {:?}", want, listed));
    }
    for p in peers.iter_mut() {
        let views = p.views()?;
        if views.iter().filter(|v| v.contains("own")).count() != 1 {
            return Err(format!("{}: alone in its session, it sees {:?}", p.what, views));
        }
    }
    if w.starts().len() != n {
        return Err(format!("{} clients without a session name start {:?}", n, w.starts()));
    }
    for p in peers.iter_mut() {
        p.leave(r.chance(1, 2))?;
    }
    for (p, (pid, _)) in want.iter().zip(w.starts()) {
        let _ = p;
        let end = Instant::now() + PATIENCE;
        while reap(pid).is_none() {
            if Instant::now() > end {
                return Err(format!("the client of a session left and its server {} stays", pid));
            }
            std::thread::sleep(Duration::from_millis(2));
        }
    }
    if dir.join("ced-verif").exists() {
        return Err("all sessions are gone and their directory remains".into());
    }
    ctx.add("sessions without a name", n as u64);
    ctx.distinct(hash_str(&format!("nameless {} {}", n, w.pause)));
    Ok(())
}

/// no server can be had
fn failing(r: &mut Rng, dir: &Path, ctx: &mut Ctx) -> CaseResult {
    let w = World::new(r, dir, true, ctx)?;
    let kind = r.below(6);
    let mode = if matches!(kind, 0) { "json" } else { *r.pick(&["json", "daemon"]) };
    let host = mode == "json" && r.chance(1, 3);
    let mut name = gen_name(r);
    let mut c = if host {
        let mut c = Command::new(Path::new(&ced_bin()).with_file_name("cedmon"));
        world(&mut c, dir);
        c
    } else {
        ced(dir)
    };
    w.ready(&mut c);
    let label = match kind {
        0 => {
            name = format!("@:{}", free_port());
            "unserved endpoint"
        }
        1 => {
            c.env("CED_BIN", dir.join("no-such-program"));
            "no program"
        }
        2 => {
            c.env("CED_BIN", *r.pick(&["/bin/true", "/bin/false"]));
            "program that is no server"
        }
        3 => {
            fs::write(dir.join("ced-verif"), b"kept").map_err(|e| e.to_string())?;
            "no directory"
        }
        4 => {
            name = "n".repeat(r.range(110, 200));
            "long name"
        }
        _ => {
            fs::create_dir_all(w.socket(&name)).map_err(|e| e.to_string())?;
            "directory in its place"
        }
    };
    if host {
        c.arg("helper").arg("host").arg(&name);
    } else {
        c.arg(format!("--mode={}", mode)).arg(format!("--session={}", name));
    }
    let what = format!("{} ({} {:?})", label, if host { "C interface" } else { mode }, name);
    ctx.log(what.clone());
    let (st, text) = complete(c, &what)?;
    if st.success() || st.code().is_none() || st.code() == Some(101) || host && st.code() != Some(7) {
        return Err(format!("{}: {}: {}", what, describe(st), text));
    }
    if kind == 0 {
        if !w.starts().is_empty() {
            return Err(format!("{}: a server is started: {:?}", what, w.starts()));
        }
    }
    if kind == 3 && fs::read(dir.join("ced-verif")).ok().as_deref() != Some(b"kept") {
        return Err(format!("{}: a file is damaged", what));
    }
    let end = Instant::now() + PATIENCE;
    for (pid, _) in w.starts() {
        while running(pid) {
            if Instant::now() > end {
                return Err(format!("{}: server {} stays", what, pid));
            }
            std::thread::sleep(Duration::from_millis(2));
        }
    }
    ctx.count(label);
    ctx.distinct(hash_str(&format!("{} {} {}", label, mode, host)));
    Ok(())
}

impl Check for C31Check {
    fn id(&self) -> &'static str {
        "C31"
    }
    fn rule(&self) -> &'static str {
        "real programs starting and joining sessions: 1 to 6 clients at once (json, terminal, C interface) of a served or unserved name, leaving one by one; sessions of several names coming and going together; background servers; clients without a name; servers that can not be had. Pauses are injected around the system calls by which sessions appear, are found and disappear, servers started are recorded; distinct by kind of clients, name and situation"
    }
    fn cases(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 2500,
            Tier::Thorough => 40_000,
        }
    }
    fn required(&self) -> Vec<&'static str> {
        vec![
            "terminal clients", "json clients", "C interface clients", "servers started", "concurrent starts", "sessions already served", "abrupt departures",
            "orderly departures", "sessions come and gone", "daemons", "daemons joined", "names in use", "sessions without a name", "unserved endpoint",
            "no program", "program that is no server", "no directory", "long name", "with pauses", "recorded",
        ]
    }
    fn stall_secs(&self) -> u64 {
        150
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["25 s without what is owed count as never", "a client that starts at the instant when the last one leaves is not judged", "pauses between binding a socket and listening to it last up to 20 ms"]
    }
    fn run(&self, case: u64, r: &mut Rng, ctx: &mut Ctx) -> CaseResult {
        // servers outlive the clients that started them: their ends are collected here
        unsafe { libc::prctl(libc::PR_SET_CHILD_SUBREAPER, 1, 0, 0, 0) };
        let dir = ctx.scratch.join(format!("c{}", case));
        let _ = fs::remove_dir_all(&dir);
        fs::create_dir_all(dir.join("work")).map_err(|e| e.to_string())?;
        let res = match r.weighted(&[5, 2, 2, 1, 2]) {
            0 => crowd(r, &dir, ctx),
            1 => churn(r, &dir, ctx),
            2 => daemon(r, &dir, ctx),
            3 => nameless(r, &dir, ctx),
            _ => failing(r, &dir, ctx),
        };
        let _ = fs::remove_dir_all(&dir);
        res
    }
}
