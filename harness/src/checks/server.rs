//! C18 and C19: real server processes, their clients and the bytes between them.
use crate::check::{CaseResult, Check, Ctx, Tier};
use crate::live::*;
use crate::rng::{hash_str, Rng};
use serde_json::{json, Value};
use std::collections::{HashMap, VecDeque};
use std::net::Shutdown;
use std::path::Path;
use std::time::{Duration, Instant};

pub struct C18Check;
pub static C18: C18Check = C18Check;
pub struct C19Check;
pub static C19: C19Check = C19Check;

struct Member {
    conn: Conn,
    id: u64,
    n: i64,
    tag: usize,
    /// responses received and not waited for yet
    responses: VecDeque<(Value, Result<Value, Value>)>,
    got_info: bool,
    got_status: bool,
    /// reads but never asks for anything
    silent: bool,
}

impl Member {
    fn new(conn: Conn, tag: usize) -> Member {
        Member {
            conn,
            id: 0,
            n: 0,
            tag,
            responses: VecDeque::new(),
            got_info: false,
            got_status: false,
            silent: false,
        }
    }

    fn digest(&mut self) -> Result<(), String> {
        while let Some(l) = self.conn.lines.pop_front() {
            match parse_msg(&l).map_err(|e| format!("to client {}: {}", self.tag, e))? {
                Msg::Response(id, r) => self.responses.push_back((id, r)),
                Msg::Notification(m, p) => match m.as_str() {
                    "info" => {
                        self.got_info = true;
                        self.id = p["client"].as_str().and_then(|s| s.parse().ok()).unwrap_or(0);
                    }
                    "status" => self.got_status = true,
                    _ => {}
                },
            }
        }
        Ok(())
    }

    fn request(&mut self, method: &str, params: Value) -> i64 {
        self.n += 1;
        let v = json!({"jsonrpc": "2.0", "id": self.n, "method": method, "params": params});
        self.conn.send_line(v.to_string().as_bytes());
        self.n
    }
}

fn step(members: &mut [Member], wait: Duration) -> Result<(), String> {
    {
        let mut cs: Vec<&mut Conn> = members.iter_mut().map(|m| &mut m.conn).collect();
        pump(&mut cs, wait);
    }
    for m in members.iter_mut() {
        m.digest()?;
    }
    Ok(())
}

/// waits for a condition on the members; Ok(false) when it does not come
fn wait_until(members: &mut [Member], mut done: impl FnMut(&mut [Member]) -> bool) -> Result<bool, String> {
    let end = Instant::now() + PATIENCE;
    loop {
        if done(members) {
            return Ok(true);
        }
        if Instant::now() > end {
            return Ok(false);
        }
        step(members, Duration::from_millis(50))?;
    }
}

fn dead(server: &mut Server) -> String {
    match server.exited(Duration::from_millis(300)) {
        Some(st) => format!("the server ended ({}): {}", describe(st), server.stderr()),
        None => "the server is still running".to_string(),
    }
}

/// every member gets an answer of its own
fn probe(server: &mut Server, members: &mut [Member], what: &str, ctx: &mut Ctx) -> CaseResult {
    let mut ids = Vec::new();
    for m in members.iter_mut().filter(|m| !m.silent) {
        m.responses.clear();
        let id = m.n + 1;
        let tok = format!("tok-{}-{}", m.tag, id);
        let id = m.request("exec", json!(format!("error('{}', 0)", tok)));
        ids.push((id, tok));
    }
    let ok = wait_until(members, |ms| {
        ms.iter().filter(|m| !m.silent).zip(&ids).all(|(m, (id, _))| m.responses.iter().any(|(i, _)| *i == json!(id)))
            || ms.iter().any(|m| m.conn.eof && !m.silent)
    })?;
    let gone: Vec<usize> = members.iter().filter(|m| m.conn.eof && !m.silent).map(|m| m.tag).collect();
    for (m, (id, tok)) in members.iter_mut().filter(|m| !m.silent).zip(&ids) {
        match m.responses.iter().find(|(i, _)| *i == json!(id)) {
            Some((_, Err(e))) if e.to_string().contains(tok.as_str()) => {}
            Some((_, r)) => {
                return Err(format!("after {}: client {} asked for an error {:?} and got {:?}", what, m.tag, tok, r))
            }
            None if !gone.is_empty() => {
                return Err(format!("after {}: clients {:?} were disconnected; {}", what, gone, dead(server)))
            }
            None => {
                let got: Vec<String> = m.responses.iter().map(|x| format!("{:?}", x).chars().take(100).collect()).collect();
                return Err(format!("after {}: client {} gets no answer to {} (waited: {}; got {:?}); {}", what, m.tag, id, !ok, got, dead(server)))
            }
        }
        m.responses.clear();
        ctx.count("probes");
    }
    if !server.alive() {
        return Err(format!("after {}: {}", what, dead(server)));
    }
    Ok(())
}

fn start(r: &mut Rng, dir: &Path, name: &mut String, tcp: &mut Option<u16>, conf: &Conf) -> Result<Server, String> {
    for _ in 0..20 {
        if let Some(s) = Server::start(dir, name, *tcp, conf)? {
            return Ok(s);
        }
        let p = free_port();
        *tcp = Some(p);
        *name = if r.chance(1, 2) { format!("@:{}", p) } else { format!("@127.0.0.1:{}", p) };
    }
    Err("no port to be found".into())
}

fn setup(r: &mut Rng, ctx: &Ctx, case: u64, files: Option<u64>) -> Result<(Server, Conf, String, Option<u16>), String> {
    let dir = ctx.scratch.join(format!("c{}", case));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let conf = Conf {
        cut: if r.chance(1, 2) { r.range(5, 70) as u32 } else { 0 },
        seed: r.next() % 1_000_000,
        files,
    };
    let mut tcp = if r.chance(1, 3) { Some(free_port()) } else { None };
    let mut name = match tcp {
        Some(p) => format!("@:{}", p),
        None => (*r.pick(&["s", "my session", "été", "a.b", "x@y", "-dash", "42"])).to_string(),
    };
    let s = start(r, &dir, &mut name, &mut tcp, &conf)?;
    Ok((s, conf, name, tcp))
}

const WAYS: &[&str] = &[
    "quit",
    "menu quit",
    "half close",
    "close",
    "reset",
    "close with unread output",
    "close in the middle of a line",
    "close with requests in flight",
    "quit then more requests",
    "bytes that are no text",
    "half close in the middle of a line",
    "quit without reading",
];

/// what a member does before it goes; true when it has gone by itself
fn leave(server: &mut Server, mut m: Member, way: &str, others: &mut Vec<Member>, r: &mut Rng, ctx: &mut Ctx) -> CaseResult {
    ctx.log(format!("client {} ({}) leaves: {}", m.tag, m.id, way));
    ctx.count(&format!("left by {}", way));
    // moves the bytes of everyone, the leaving one being last
    fn go(others: &mut Vec<Member>, m: Member, done: impl FnMut(&mut [Member]) -> bool) -> Result<(Member, bool), String> {
        others.push(m);
        let res = wait_until(others, done);
        let m = others.pop().unwrap();
        Ok((m, res?))
    }
    let eof = |ms: &mut [Member]| ms.last().unwrap().conn.eof;
    let sent = |ms: &mut [Member]| {
        let m = ms.last().unwrap();
        m.conn.out.is_empty() || m.conn.eof || m.conn.broken
    };
    match way {
        "quit" | "menu quit" | "quit then more requests" => {
            m.responses.clear();
            let id = if way == "menu quit" {
                m.request("menu", json!({"command": "", "search": ""}));
                m.request("menu-select", json!({"command": "", "choice": "quit"}))
            } else {
                m.request("quit", Value::Null)
            };
            if way == "quit then more requests" {
                for _ in 0..r.range(1, 20) {
                    match r.below(3) {
                        0 => m.request("quit", Value::Null),
                        1 => m.request("keys", json!([{"key": {"Char": "l"}, "ctrl": false, "alt": false, "shift": false}])),
                        _ => m.request("exec", json!("editor:message(1, 'late')")),
                    };
                }
                // all at once
                let all: Vec<u8> = m.conn.out.drain(..).flatten().collect();
                m.conn.out.push_back(all);
            }
            let (m, _) = go(others, m, eof)?;
            if !m.conn.eof {
                return Err(format!("client {} quit ({}) and stays connected; {}", m.tag, way, dead(server)));
            }
            match m.responses.iter().find(|(i, _)| *i == json!(id)) {
                Some((_, Ok(_))) => {}
                other => return Err(format!("client {} quit ({}) and got {:?}; {}", m.tag, way, other, dead(server))),
            }
            Ok(())
        }
        "half close" => {
            let k = r.range(0, 5);
            m.responses.clear();
            let mut ids = Vec::new();
            for _ in 0..k {
                ids.push(m.request("view", json!("no such view")));
            }
            let (m, _) = go(others, m, sent)?;
            m.conn.sock.shutdown(Shutdown::Write);
            let (m, _) = go(others, m, eof)?;
            if !m.conn.eof {
                return Err(format!("client {} ended its requests and stays connected; {}", m.tag, dead(server)));
            }
            let got: Vec<Value> = m.responses.iter().map(|(i, _)| i.clone()).collect();
            if got != ids.iter().map(|i| json!(i)).collect::<Vec<_>>() {
                return Err(format!("client {} sent requests {:?} then ended them, answered: {:?}", m.tag, ids, got));
            }
            Ok(())
        }
        "half close in the middle of a line" => {
            let text = json!({"jsonrpc": "2.0", "id": 77, "method": "keys", "params": []}).to_string();
            let n = r.range(1, text.len() - 1);
            m.conn.out.push_back(text.as_bytes()[..n].to_vec());
            let (m, _) = go(others, m, sent)?;
            m.conn.sock.shutdown(Shutdown::Write);
            let (m, _) = go(others, m, eof)?;
            if !m.conn.eof {
                return Err(format!("client {} ended in the middle of a line and stays connected; {}", m.tag, dead(server)));
            }
            Ok(())
        }
        "close" => Ok(()),
        "reset" => {
            m.conn.reset();
            Ok(())
        }
        "close with unread output" | "quit without reading" => {
            m.conn.deaf = true;
            let k = r.range(1, 60);
            for _ in 0..k {
                let big = "x".repeat(r.below(20_000));
                m.request("exec", json!(format!("error('{}', 0)", big)));
            }
            if way == "quit without reading" {
                m.request("quit", Value::Null);
            }
            // lets some of it through: the server may wait for us to read
            others.push(m);
            let end = Instant::now() + Duration::from_millis(r.range(0, 60) as u64);
            let mut res = Ok(());
            while Instant::now() < end && res.is_ok() {
                res = step(others, Duration::from_millis(5));
            }
            m = others.pop().unwrap();
            res?;
            if r.chance(1, 3) {
                m.conn.reset();
            }
            Ok(())
        }
        "close in the middle of a line" => {
            let text = json!({"jsonrpc": "2.0", "id": 77, "method": "exec", "params": "x = 'ééé'"}).to_string();
            let n = r.range(1, text.len());
            m.conn.out.push_back(text.as_bytes()[..n].to_vec());
            let (m, _) = go(others, m, sent)?;
            if r.chance(1, 2) {
                m.conn.reset();
            }
            Ok(())
        }
        "close with requests in flight" => {
            for i in 0..r.range(1, 30) {
                match i % 4 {
                    0 => m.request("edit", json!({"name": format!("flight{}", r.below(4)), "scratch": true})),
                    1 => m.request("view-delete", Value::Null),
                    2 => m.request("keys", json!([{"key": {"Char": "g"}, "ctrl": false, "alt": false, "shift": false}])),
                    _ => m.request("exec", json!("editor:message(1, 'flight')")),
                };
            }
            let (m, _) = go(others, m, sent)?;
            if r.chance(1, 3) {
                m.conn.reset();
            }
            Ok(())
        }
        _ => {
            m.conn.out.push_back(vec![b'{', 0xff, 0xfe, 0xc3, b'\n']);
            let id = m.request("view", json!("no such view"));
            let (m, _) = go(others, m, |ms| {
                let m = ms.last().unwrap();
                m.conn.eof || m.responses.iter().any(|(i, _)| *i == json!(id))
            })?;
            if !m.conn.eof && !m.responses.iter().any(|(i, _)| *i == json!(id)) {
                return Err(format!("client {} sent bytes that are no text; it is neither answered nor disconnected; {}", m.tag, dead(server)));
            }
            Ok(())
        }
    }
}

/// connects; a member that `waits` is in once its first status line has come
fn join(server: &mut Server, members: &mut Vec<Member>, tag: usize, waits: bool, ctx: &mut Ctx) -> CaseResult {
    let conn = server.connect().map_err(|e| format!("client {} can not connect: {}; {}", tag, e, dead(server)))?;
    members.push(Member::new(conn, tag));
    ctx.log(format!("client {} connects", tag));
    ctx.count("joins");
    if waits {
        welcome(server, members)?;
    }
    Ok(())
}

fn welcome(server: &mut Server, members: &mut [Member]) -> CaseResult {
    wait_until(members, |ms| ms.iter().all(|m| (m.got_status && m.got_info) || m.conn.eof))?;
    for m in members.iter() {
        if !(m.got_status && m.got_info) {
            return Err(format!(
                "client {} connected and is not welcomed (info: {}, status: {}, disconnected: {}); {}",
                m.tag, m.got_info, m.got_status, m.conn.eof, dead(server)
            ));
        }
    }
    Ok(())
}

/// clients that come and go, so that the next ones get large numbers; `drain` moves the bytes of those who stay
fn visitors(server: &mut Server, n: usize, ctx: &mut Ctx, mut drain: impl FnMut() -> CaseResult) -> CaseResult {
    ctx.log(format!("{} visitors", n));
    let mut here: VecDeque<Conn> = VecDeque::new();
    for i in 0..n {
        let conn = server.connect().map_err(|e| format!("visitor {} can not connect: {}; {}", i, e, dead(server)))?;
        here.push_back(conn);
        // some company, none of it for long
        if here.len() > 8 {
            let mut c = here.pop_front().unwrap();
            let end = Instant::now() + PATIENCE;
            while c.lines.is_empty() && !c.eof && Instant::now() < end {
                pump(&mut [&mut c], Duration::from_millis(20));
                drain()?;
            }
            if c.lines.is_empty() {
                return Err(format!("visitor {} is not welcomed (disconnected: {}); {}", i - 8, c.eof, dead(server)));
            }
            if i % 3 == 0 {
                c.reset();
            }
        }
        if i % 16 == 0 {
            drain()?;
        }
        ctx.count("visitors");
    }
    Ok(())
}

/// the last client is gone: the server has to end and clean up
fn ended(server: &mut Server, how: &str, ctx: &mut Ctx) -> CaseResult {
    match server.exited(PATIENCE) {
        None => return Err(format!("the last client left by {} and the server keeps running", how)),
        Some(st) if !st.success() => {
            return Err(format!("the last client left by {} and the server fails with {}: {}", how, describe(st), server.stderr()))
        }
        _ => {}
    }
    if server.tcp.is_none() && server.socket_path().symlink_metadata().is_ok() {
        return Err(format!("the last client left by {} and the socket stays", how));
    }
    ctx.count("ends");
    Ok(())
}

fn second_server(server: &mut Server, ctx: &mut Ctx) -> CaseResult {
    ctx.log("a second server".into());
    ctx.count("second servers");
    let mut c = ced(&server.dir);
    c.arg("--mode=server")
        .arg(format!("--session={}", server.name))
        .stdin(std::process::Stdio::null())
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null());
    let mut child = c.spawn().map_err(|e| e.to_string())?;
    let end = Instant::now() + PATIENCE;
    let st = loop {
        if let Ok(Some(st)) = child.try_wait() {
            break st;
        }
        if Instant::now() > end {
            let _ = child.kill();
            let _ = child.wait();
            return Err("a second server for a name in use keeps running".into());
        }
        std::thread::sleep(Duration::from_millis(2));
    };
    if st.success() {
        return Err("a second server for a name in use ends successfully".into());
    }
    if server.tcp.is_none() && server.socket_path().symlink_metadata().is_err() {
        return Err("a second server for a name in use removes the socket of the first one".into());
    }
    Ok(())
}

impl Check for C18Check {
    fn id(&self) -> &'static str {
        "C18"
    }
    fn rule(&self) -> &'static str {
        "real server processes (Unix and TCP, half of them with their socket calls cut short by a preloaded shim): generated orders of joins, departures of 12 kinds (alone or several at once, racing with joins), second servers under the same name, descriptor exhaustion, restarts; after each step every surviving client must be answered and, after the last departure, the exit status and the socket file are judged; distinct by the history of events"
    }
    fn cases(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 1000,
            Tier::Thorough => 12_000,
        }
    }
    fn required(&self) -> Vec<&'static str> {
        vec!["probes", "joins", "ends", "second servers", "restarts", "left by reset", "left by quit", "left by close with unread output"]
    }
    fn stall_secs(&self) -> u64 {
        120
    }
    fn memory_mb(&self) -> u64 {
        12_000
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "a client joining at the very instant the last one leaves is not judged, nor is a client that stays connected without ever reading",
            "25 s without an answer count as none",
        ]
    }
    fn run(&self, case: u64, r: &mut Rng, ctx: &mut Ctx) -> CaseResult {
        let crowded = r.chance(1, 16);
        let files = if crowded { Some(24) } else { None };
        let (mut server, conf, mut name, mut tcp) = setup(r, ctx, case, files)?;
        ctx.log(format!("server {:?} cut {}% files {:?}", name, conf.cut, files));
        let dir = server.dir.clone();
        let mut history = format!("{} {}", tcp.is_some(), crowded);
        let mut members: Vec<Member> = Vec::new();
        let mut tag = 0;
        let mut lives = 0;
        for turn in 0..r.range(3, 14) {
            if members.is_empty() {
                // nobody yet: it waits for its first client
                if r.chance(1, 4) {
                    std::thread::sleep(Duration::from_millis(15));
                }
                if !server.alive() {
                    return Err(format!("without any client yet: {}", dead(&mut server)));
                }
                tag += 1;
                if r.chance(1, 10) {
                    // a first client that goes at once
                    let conn = server.connect().map_err(|e| format!("connect: {}; {}", e, dead(&mut server)))?;
                    let rst = r.chance(1, 2);
                    if rst {
                        conn.reset();
                    } else {
                        drop(conn);
                    }
                    ctx.log("a first client goes at once".into());
                    history += " blink";
                    ended(&mut server, "going at once", ctx)?;
                    lives += 1;
                } else {
                    join(&mut server, &mut members, tag, true, ctx)?;
                    history += " join";
                }
            } else {
                if !crowded && r.chance(1, 150) {
                    history += " visitors";
                    let n = r.range(240, 300);
                    // away from the debug buffer, which tells of every visitor
                    for m in members.iter_mut().filter(|m| !m.silent) {
                        m.request("edit", json!({"name": "quiet", "scratch": true}));
                    }
                    probe(&mut server, &mut members, "going to a buffer", ctx)?;
                    visitors(&mut server, n, ctx, || step(&mut members, Duration::from_millis(0)))?;
                    probe(&mut server, &mut members, "many visitors", ctx)?;
                }
                match r.weighted(&[5, 10, 3, 2]) {
                    0 if members.len() < 6 => {
                        tag += 1;
                        history += " join";
                        join(&mut server, &mut members, tag, true, ctx)?;
                    }
                    0 | 1 => {
                        // some leave, possibly all of them, possibly while another one joins
                        let all = r.chance(1, 4);
                        let k = if all { members.len() } else { r.range(1, members.len()) };
                        let racing = k < members.len() && r.chance(1, 3);
                        if racing {
                            tag += 1;
                            join(&mut server, &mut members, tag, false, ctx)?;
                            history += " race";
                        }
                        let mut how = String::new();
                        for _ in 0..k {
                            // a joiner that has not been welcomed yet is no company
                            let i = r.below(members.len() - usize::from(racing));
                            let m = members.remove(i);
                            let way = *r.pick(WAYS);
                            history += &format!(" {}", way);
                            how = way.to_string();
                            let unwelcomed = m.id == 0;
                            if unwelcomed {
                                members.push(m);
                                continue;
                            }
                            leave(&mut server, m, way, &mut members, r, ctx).map_err(|e| format!("{} [{}]", e, way))?;
                        }
                        if members.is_empty() {
                            ended(&mut server, &how, ctx)?;
                            lives += 1;
                        } else {
                            welcome(&mut server, &mut members)?;
                            probe(&mut server, &mut members, &how, ctx)?;
                        }
                    }
                    2 => {
                        history += " second";
                        second_server(&mut server, ctx)?;
                    }
                    _ => {
                        // company that never says anything, then goes away
                        let n = if crowded { 30 } else { r.range(1, 6) };
                        let known = members.len();
                        for _ in 0..n {
                            match server.connect() {
                                Ok(c) => {
                                    let mut m = Member::new(c, 1000);
                                    m.silent = true;
                                    members.push(m);
                                    ctx.count("silent company");
                                }
                                Err(e) if crowded => ctx.log(format!("crowded out: {}", e)),
                                Err(e) => return Err(format!("connect: {}; {}", e, dead(&mut server))),
                            }
                        }
                        if crowded {
                            ctx.count("crowds");
                        }
                        history += " crowd";
                        probe(&mut server, &mut members, "silent company came", ctx)?;
                        for (i, m) in members.split_off(known).into_iter().enumerate() {
                            if i % 2 == 0 {
                                m.conn.reset();
                            }
                        }
                        probe(&mut server, &mut members, "silent company went", ctx)?;
                    }
                }
                if !members.is_empty() {
                    probe(&mut server, &mut members, "a step", ctx)?;
                }
            }
            if members.is_empty() && server.exited(Duration::from_millis(0)).is_some() {
                if lives > 2 || turn > 10 {
                    break;
                }
                // the name can be used again
                server = start(r, &dir, &mut name, &mut tcp, &conf)?;
                ctx.log(format!("restarted as {:?}", name));
                ctx.count("restarts");
                history += " restart";
            }
        }
        // everybody goes
        let mut how = "nothing".to_string();
        let running = server.alive() && !members.is_empty();
        while let Some(m) = members.pop() {
            let way = *r.pick(WAYS);
            how = way.to_string();
            history += &format!(" {}", way);
            leave(&mut server, m, way, &mut members, r, ctx).map_err(|e| format!("{} [{}]", e, way))?;
        }
        if running {
            ended(&mut server, &how, ctx)?;
        }
        ctx.distinct(hash_str(&history));
        ctx.sample(|| history.clone());
        drop(server);
        let _ = std::fs::remove_dir_all(&dir);
        Ok(())
    }
}

/// what a line sent has to be answered with
pub struct Due {
    pub id: Value,
    /// a result or an error
    pub ok: bool,
    pub contains: Option<String>,
    pub what: String,
}

struct Peer {
    m: Conn,
    id: u64,
    tag: usize,
    due: VecDeque<Due>,
    answered: usize,
    /// message tokens it has to be told, by sender
    echoes: HashMap<usize, VecDeque<String>>,
    info: usize,
    views: u64,
    /// it sent bytes that are no text
    odd: bool,
    half_closed: bool,
}

fn is_token_of_other(text: &str, tag: usize) -> Option<String> {
    // tokens look like  tkn<owner>_<number>!
    let mut rest = text;
    while let Some(i) = rest.find("tkn") {
        rest = &rest[i + 3..];
        let owner: String = rest.chars().take_while(|c| c.is_ascii_digit()).collect();
        if rest[owner.len()..].starts_with('_') && owner.parse::<usize>().ok() != Some(tag) {
            return Some(format!("tkn{}", &rest[..rest.len().min(12)]));
        }
    }
    None
}

fn take(p: &mut Peer, ctx: &mut Ctx) -> CaseResult {
    while let Some(l) = p.m.lines.pop_front() {
        ctx.count("lines received");
        match parse_msg(&l).map_err(|e| format!("client {}: {}", p.tag, e))? {
            Msg::Response(id, res) => {
                let d = p
                    .due
                    .pop_front()
                    .ok_or_else(|| format!("client {} gets a response {} to nothing: {:?}", p.tag, id, short(&res)))?;
                if d.id != id {
                    return Err(format!(
                        "client {}: response {} where {} was due, to {}: {}",
                        p.tag,
                        id,
                        d.id,
                        d.what,
                        short(&res)
                    ));
                }
                if d.ok != res.is_ok() {
                    return Err(format!("client {}: {} got {}", p.tag, d.what, short(&res)));
                }
                let text = match &res {
                    Ok(v) | Err(v) => v.to_string(),
                };
                if let Some(t) = &d.contains {
                    if !text.contains(t.as_str()) {
                        return Err(format!("client {}: {} got {}, without {:?}", p.tag, d.what, short(&res), t));
                    }
                }
                if let Some(t) = is_token_of_other(&text, p.tag) {
                    return Err(format!("client {}: {} got {}, with {:?} of another client", p.tag, d.what, short(&res), t));
                }
                p.answered += 1;
                ctx.count("responses");
            }
            Msg::Notification(method, params) => match method.as_str() {
                "echo" => {
                    let text = flat(&params);
                    if let Some(i) = text.find("msg<") {
                        let end = text[i..].find('>').map_or(text.len(), |e| i + e + 1);
                        let tok = text[i..end].to_string();
                        // msg<to-from-n>
                        let parts: Vec<usize> = tok[4..tok.len() - 1].split('-').filter_map(|x| x.parse().ok()).collect();
                        if parts.len() != 3 || parts[0] != p.tag {
                            return Err(format!("client {} is told {:?}, meant for another one", p.tag, tok));
                        }
                        let next = p.echoes.get_mut(&parts[1]).and_then(|q| q.pop_front());
                        if next.as_deref() != Some(tok.as_str()) {
                            return Err(format!("client {} is told {:?} where {:?} was due", p.tag, tok, next));
                        }
                        ctx.count("messages");
                    }
                }
                "info" => {
                    p.info += 1;
                    p.id = params["client"].as_str().and_then(|s| s.parse().ok()).unwrap_or(0);
                    if p.info > 1 {
                        return Err(format!("client {} is introduced twice", p.tag));
                    }
                }
                "view" => p.views += 1,
                _ => {}
            },
        }
    }
    Ok(())
}

pub fn flat(v: &Value) -> String {
    match v {
        Value::String(s) => s.clone(),
        Value::Array(a) => a.iter().map(flat).collect(),
        Value::Object(o) => o.get("text").map(flat).unwrap_or_default(),
        _ => String::new(),
    }
}

fn short(r: &Result<Value, Value>) -> String {
    let s = format!("{:?}", r);
    s.chars().take(300).collect()
}

fn run_peers(peers: &mut [Peer], server: &mut Server, ctx: &mut Ctx, done: &dyn Fn(&Peer) -> bool) -> CaseResult {
    let mut last = Instant::now();
    let mut seen = 0;
    loop {
        if peers.iter().all(|p| done(p)) {
            return Ok(());
        }
        {
            let mut cs: Vec<&mut Conn> = peers.iter_mut().map(|p| &mut p.m).collect();
            pump(&mut cs, Duration::from_millis(20));
        }
        for p in peers.iter_mut() {
            take(p, ctx)?;
            if p.m.eof && !p.odd && !p.half_closed {
                return Err(format!("client {} is disconnected, with {} answers due; {}", p.tag, p.due.len(), dead(server)));
            }
        }
        let moved: u64 = peers.iter().map(|p| p.m.received + p.m.sent).sum();
        if moved != seen {
            seen = moved;
            last = Instant::now();
        }
        if last.elapsed() > PATIENCE {
            let state: Vec<String> = peers
                .iter()
                .map(|p| {
                    format!(
                        "client {}: {} answered, {} due{}, {} bytes unsent",
                        p.tag,
                        p.answered,
                        p.due.len(),
                        p.due.front().map(|d| format!(" (first: {})", d.what)).unwrap_or_default(),
                        p.m.out.iter().map(Vec::len).sum::<usize>()
                    )
                })
                .collect();
            return Err(format!("nothing comes anymore: {}; {}", state.join("; "), dead(server)));
        }
    }
}

fn key(c: &str) -> Value {
    json!({"key": {"Char": c}, "ctrl": false, "alt": false, "shift": false})
}

#[derive(Default)]
pub struct Lines {
    pub lines: Vec<Vec<u8>>,
    pub due: Vec<Due>,
    /// addressee and message
    pub told: Vec<(usize, String)>,
}

/// the lines of one client, and what is due to whom
pub fn lines_of(r: &mut Rng, tag: usize, ids: &[(u64, usize)], n: usize, big: bool, ctx: &mut Ctx) -> Lines {
    let mut all = Lines::default();
    for i in 0..n {
        let id = match r.below(5) {
            0 => json!(format!("id tkn{}_{}! \u{1F600}\u{301}\"\\", tag, i)),
            1 => json!(""),
            2 => json!(-(i as i64) - 1),
            _ => json!(i),
        };
        let tok = format!("tkn{}_{}!", tag, i);
        let req = |method: &str, params: Value| json!({"jsonrpc": "2.0", "id": id, "method": method, "params": params}).to_string();
        let kind = r.weighted(&[8, 5, 3, 3, 3, 3, if big { 2 } else { 0 }, if big { 1 } else { 0 }, 2, 2, if big { 1 } else { 0 }]);
        let (line, due) = match kind {
            0 => (
                req("exec", json!(format!("error('{}', 0)", tok))),
                Due { id: id.clone(), ok: false, contains: Some(tok.clone()), what: format!("exec error {}", tok) },
            ),
            1 => {
                let (to, to_tag) = *r.pick(ids);
                let m = format!("msg<{}-{}-{}>", to_tag, tag, i);
                all.told.push((to_tag, m.clone()));
                (
                    req("exec", json!(format!("editor:message({}, '{}')", to, m))),
                    Due { id: id.clone(), ok: true, contains: None, what: format!("message {}", m) },
                )
            }
            2 => (
                req("edit", json!({"name": format!("own-{}-{}", tag, r.below(3)), "scratch": true})),
                Due { id: id.clone(), ok: true, contains: None, what: "edit".into() },
            ),
            3 => (
                req(&tok, Value::Null),
                Due { id: id.clone(), ok: false, contains: None, what: format!("unknown method {}", tok) },
            ),
            4 => {
                let bad = *r.pick(&["", "{", "null", "[]", "\"x\"", "{}", "12", "{\"id\":3}", "é\u{2028}", "\r", "{\"jsonrpc\":\"2.0\",\"id\":1,", "\u{0}"]);
                (bad.to_string(), Due { id: Value::Null, ok: false, contains: None, what: format!("line {:?}", bad) })
            }
            5 => {
                let ks: Vec<Value> = (0..r.below(6)).map(|_| key(r.pick(&["h", "j", "k", "l", "i", "Q"]))).collect();
                // never left in insertion mode by a lone i: other keys do nothing there
                (req("keys", json!(ks)), Due { id: id.clone(), ok: true, contains: None, what: "keys".into() })
            }
            6 => {
                let size = if r.chance(1, 8) { r.range(200_000, 1_500_000) } else { r.range(5_000, 120_000) };
                ctx.count("large requests");
                let pad: String = r.pick(&["x", "é", "\u{1F600}"]).repeat(size / 3);
                (
                    req("exec", json!(format!("local s = '{}'; error('{}', 0)", pad, tok))),
                    Due { id: id.clone(), ok: false, contains: Some(tok.clone()), what: format!("large request of {} bytes", size) },
                )
            }
            7 => {
                let size = r.range(10_000, 400_000);
                ctx.count("large responses");
                (
                    req("exec", json!(format!("error(string.rep('y', {}) .. '{}', 0)", size, tok))),
                    Due { id: id.clone(), ok: false, contains: Some(tok.clone()), what: format!("large response of {} bytes", size) },
                )
            }
            8 => (
                req("menu", json!({"command": "", "search": *r.pick(&["", "view", "zz"])})),
                Due { id: id.clone(), ok: true, contains: None, what: "menu".into() },
            ),
            10 => {
                // far more notifications than responses
                let (to, to_tag) = *r.pick(ids);
                let (from, many) = ((i + 1) * 100_000, if r.chance(1, 4) { r.range(600, 3000) } else { r.range(20, 600) });
                ctx.count("requests with many notifications");
                for j in from + 1..=from + many {
                    all.told.push((to_tag, format!("msg<{}-{}-{}>", to_tag, tag, j)));
                }
                (
                    req("exec", json!(format!("for j = {}, {} do editor:message({}, string.format('msg<{}-{}-%d>', j)) end", from + 1, from + many, to, to_tag, tag))),
                    Due { id: id.clone(), ok: true, contains: None, what: format!("{} messages", many) },
                )
            }
            _ => (
                req("view", json!(tok)),
                Due { id: id.clone(), ok: false, contains: None, what: format!("view {}", tok) },
            ),
        };
        let mut b = line.into_bytes();
        if r.chance(1, 12) {
            b.push(b'\r');
        }
        b.push(b'\n');
        all.lines.push(b);
        all.due.push(due);
    }
    all
}

fn script(r: &mut Rng, who: usize, peers: &mut [Peer], n: usize, big: bool, ctx: &mut Ctx) -> Vec<Vec<u8>> {
    let ids: Vec<(u64, usize)> = peers.iter().filter(|p| !p.odd && !p.half_closed).map(|p| (p.id, p.tag)).collect();
    let tag = peers[who].tag;
    let all = lines_of(r, tag, &ids, n, big, ctx);
    for (to, m) in all.told {
        let p = peers.iter_mut().find(|p| p.tag == to).unwrap();
        p.echoes.entry(tag).or_default().push_back(m);
    }
    peers[who].due.extend(all.due);
    all.lines
}

/// the same bytes, cut
pub fn fragments(r: &mut Rng, lines: Vec<Vec<u8>>) -> Vec<Vec<u8>> {
    let total: usize = lines.iter().map(Vec::len).sum();
    match r.below(5) {
        // all at once
        0 => vec![lines.concat()],
        // line by line
        1 => lines,
        // one byte at a time, when that is not too long
        2 if total < 3000 => lines.concat().into_iter().map(|b| vec![b]).collect(),
        // newlines apart from their lines
        3 => {
            let mut out = Vec::new();
            for mut l in lines {
                let nl = l.pop().unwrap();
                out.push(l);
                out.push(vec![nl]);
            }
            out.retain(|f| !f.is_empty());
            out
        }
        _ => {
            let all = lines.concat();
            let mut out = Vec::new();
            let mut i = 0;
            let max = *r.pick(&[7, 60, 700, 9000, 70_000]);
            let max = max.max(total / 400);
            while i < all.len() {
                let n = r.range(1, max).min(all.len() - i);
                out.push(all[i..i + n].to_vec());
                i += n;
            }
            out
        }
    }
}

impl Check for C19Check {
    fn id(&self) -> &'static str {
        "C19"
    }
    fn rule(&self) -> &'static str {
        "real server processes over Unix and TCP sockets (half of them with socket calls cut short and spuriously blocking), 1 to 5 clients sending generated lines at once, cut into fragments, pausing and ceasing to read for a while; every line received is parsed, responses are matched in order with the lines sent, tokens of one client may only show in its own responses, messages arrive once, in order and at their addressee; distinct by mode, number of clients and lines sent"
    }
    fn cases(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 2400,
            Tier::Thorough => 10_000,
        }
    }
    fn required(&self) -> Vec<&'static str> {
        vec!["requests with many notifications", "lines received", "responses", "messages", "large requests", "large responses", "invalid text", "half closes"]
    }
    fn stall_secs(&self) -> u64 {
        120
    }
    fn memory_mb(&self) -> u64 {
        12_000
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["25 s without any byte moving count as no answer", "clients that cease to read do so for less than a second"]
    }
    fn run(&self, case: u64, r: &mut Rng, ctx: &mut Ctx) -> CaseResult {
        let (mut server, conf, name, tcp) = setup(r, ctx, case, None)?;
        let dir = server.dir.clone();
        let k = r.range(1, 5);
        ctx.log(format!("server {:?} cut {}%, {} clients", name, conf.cut, k));
        let mut peers: Vec<Peer> = Vec::new();
        let crowd = if r.chance(1, 30) { r.range(240, 300) } else { 0 };
        for tag in 0..k {
            if tag == 1 && crowd > 0 {
                run_peers(&mut peers, &mut server, ctx, &|p| p.id != 0)?;
                // away from the debug buffer, which tells of every visitor
                for p in peers.iter_mut() {
                    let l = json!({"jsonrpc": "2.0", "id": -2, "method": "edit", "params": {"name": "quiet", "scratch": true}});
                    p.m.send_line(l.to_string().as_bytes());
                    p.due.push_back(Due { id: json!(-2), ok: true, contains: None, what: "edit".into() });
                }
                run_peers(&mut peers, &mut server, ctx, &|p| p.due.is_empty())?;
                visitors(&mut server, crowd, ctx, || {
                    let mut cs: Vec<&mut Conn> = peers.iter_mut().map(|p| &mut p.m).collect();
                    pump(&mut cs, Duration::from_millis(0));
                    Ok(())
                })?;
            }
            peers.push(Peer {
                m: server.connect()?,
                id: 0,
                tag,
                due: VecDeque::new(),
                answered: 0,
                echoes: HashMap::new(),
                info: 0,
                views: 0,
                odd: false,
                half_closed: false,
            });
            if r.chance(1, 2) {
                run_peers(&mut peers, &mut server, ctx, &|p| p.id != 0)?;
            }
        }
        run_peers(&mut peers, &mut server, ctx, &|p| p.id != 0)?;
        // out of the debug buffer, whose updates would drown the rest
        for p in peers.iter_mut() {
            let l = json!({"jsonrpc": "2.0", "id": -1, "method": "edit", "params": {"name": format!("own-{}-0", p.tag), "scratch": true}});
            p.m.send_line(l.to_string().as_bytes());
            p.due.push_back(Due { id: json!(-1), ok: true, contains: None, what: "edit".into() });
        }
        run_peers(&mut peers, &mut server, ctx, &|p| p.due.is_empty())?;
        let big = r.chance(1, 3);
        let mut total = 0;
        let mut summary = Vec::new();
        for round in 0..r.range(1, 3) {
            let mut scripts = Vec::new();
            for i in 0..peers.len() {
                if peers[i].odd || peers[i].half_closed {
                    continue;
                }
                let n = r.range(1, 24);
                total += n;
                let lines = script(r, i, &mut peers, n, big, ctx);
                summary.push(format!("client {} sends {} lines, {} bytes", i, n, lines.iter().map(Vec::len).sum::<usize>()));
                scripts.push((i, lines));
            }
            for (i, lines) in scripts {
                let mut fr = fragments(r, lines);
                ctx.add("fragments", fr.len() as u64);
                peers[i].m.out.extend(fr.drain(..));
                peers[i].m.not_before = if r.chance(1, 4) {
                    Some(Instant::now() + Duration::from_millis(r.below(20) as u64))
                } else {
                    None
                };
            }
            ctx.log(format!("round {}: {}", round, summary.join("; ")));
            // somebody does not read for a while
            if r.chance(1, 3) {
                let i = r.below(peers.len());
                peers[i].m.deaf = true;
                let end = Instant::now() + Duration::from_millis(r.range(5, 250) as u64);
                while Instant::now() < end {
                    let mut cs: Vec<&mut Conn> = peers.iter_mut().map(|p| &mut p.m).collect();
                    pump(&mut cs, Duration::from_millis(5));
                }
                peers[i].m.deaf = false;
                ctx.count("pauses in reading");
            }
            run_peers(&mut peers, &mut server, ctx, &|p| p.odd || (p.due.is_empty() && p.m.out.is_empty()))?;
            // messages travel apart from the responses
            run_peers(&mut peers, &mut server, ctx, &|p| p.odd || p.half_closed || p.echoes.values().all(VecDeque::is_empty))
                .map_err(|e| {
                    let missing: Vec<String> = peers
                        .iter()
                        .flat_map(|p| p.echoes.values().flatten().map(move |t| format!("client {}: {}", p.tag, t)))
                        .take(5)
                        .collect();
                    format!("messages never told: {:?}; {}", missing, e)
                })?;
            // one of several clients ends its requests, or sends bytes that are no text
            let up: Vec<usize> = (0..peers.len()).filter(|&i| !peers[i].odd && !peers[i].half_closed).collect();
            if up.len() > 1 && r.chance(1, 2) {
                let i = *r.pick(&up[1..]);
                if r.chance(1, 2) {
                    ctx.count("half closes");
                    let n = r.range(1, 10);
                    peers[i].half_closed = true;
                    let lines = script(r, i, &mut peers, n, big, ctx);
                    let mut fr = fragments(r, lines);
                    peers[i].m.out.extend(fr.drain(..));
                    ctx.log(format!("client {} sends {} lines and ends", i, n));
                    run_peers(&mut peers, &mut server, ctx, &|p| p.m.out.is_empty())?;
                    peers[i].m.sock.shutdown(Shutdown::Write);
                    run_peers(&mut peers, &mut server, ctx, &|p| p.tag != i || p.m.eof)?;
                    if !peers[i].due.is_empty() {
                        return Err(format!(
                            "client {} ended its requests and {} lines are never answered, the first being {}",
                            i,
                            peers[i].due.len(),
                            peers[i].due[0].what
                        ));
                    }
                } else {
                    ctx.count("invalid text");
                    peers[i].odd = true;
                    ctx.log(format!("client {} sends bytes that are no text", i));
                    let odd: &[u8] = r.pick::<&[u8]>(&[b"\xff\xfe\n", b"{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"view\",\"params\":\"\xc3\"}\n", b"\xf0\x9f\x98\n", b"\x80\n"]);
                    peers[i].m.out.push_back(odd.to_vec());
                    peers[i].due.push_back(Due { id: Value::Null, ok: false, contains: None, what: "bytes that are no text".into() });
                    run_peers(&mut peers, &mut server, ctx, &|p| p.tag != i || p.m.eof || p.due.is_empty())?;
                    if !peers[i].m.eof {
                        // answered: it goes on like any other
                        peers[i].odd = false;
                    }
                }
                // nothing has happened to the others
                for p in peers.iter_mut().filter(|p| !p.odd && !p.half_closed) {
                    let l = json!({"jsonrpc": "2.0", "id": "after", "method": "exec", "params": format!("error('tkn{}_after!', 0)", p.tag)});
                    p.m.send_line(l.to_string().as_bytes());
                    p.due.push_back(Due { id: json!("after"), ok: false, contains: Some(format!("tkn{}_after!", p.tag)), what: "probe".into() });
                }
                run_peers(&mut peers, &mut server, ctx, &|p| p.odd || p.half_closed || p.due.is_empty())?;
            }
        }
        if !server.alive() {
            return Err(dead(&mut server));
        }
        for p in &peers {
            if !p.m.inbuf.is_empty() && !p.half_closed && !p.odd {
                // settle: the rest of a notification under way
                ctx.count("cut notifications");
            }
        }
        ctx.distinct(hash_str(&format!("{} {} {} {:?}", tcp.is_some(), k, total, summary)));
        ctx.sample(|| format!("{} cut {}%: {}", name, conf.cut, summary.join("; ")));
        drop(peers);
        drop(server);
        let _ = std::fs::remove_dir_all(&dir);
        Ok(())
    }
}
