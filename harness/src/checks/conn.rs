//! C23: the client connection against a fake server.
use super::wire::{gen_face_text, gen_string, gen_value};
use crate::check::{CaseResult, Check, Ctx, Tier};
use crate::rng::{hash_str, Rng};
use futures_lite::{future, FutureExt, StreamExt};
use remote::protocol::{notifications, Key, KeyEvent};
use remote::{Connection, ConnectionEvent, ConnectionMode, Session};
use serde_json::{json, Value};
use std::collections::HashSet;
use std::io::{BufRead, BufReader, Write};
use std::net::{Shutdown, TcpListener, TcpStream};
use std::os::unix::net::{UnixListener, UnixStream};
use std::time::Duration;

pub struct C23Check;
pub static C23: C23Check = C23Check;

enum Sock {
    Unix(UnixStream),
    Tcp(TcpStream),
}

impl Sock {
    fn write(&mut self, b: &[u8]) -> std::io::Result<()> {
        match self {
            Sock::Unix(s) => s.write_all(b),
            Sock::Tcp(s) => s.write_all(b),
        }
    }
    fn end(&self) {
        let _ = match self {
            Sock::Unix(s) => s.shutdown(Shutdown::Write),
            Sock::Tcp(s) => s.shutdown(Shutdown::Write),
        };
    }
    fn reader(&self) -> std::io::Result<Box<dyn BufRead>> {
        let t = Some(Duration::from_secs(20));
        Ok(match self {
            Sock::Unix(s) => {
                s.set_read_timeout(t)?;
                Box::new(BufReader::new(s.try_clone()?))
            }
            Sock::Tcp(s) => {
                s.set_read_timeout(t)?;
                s.set_nodelay(true)?;
                Box::new(BufReader::new(s.try_clone()?))
            }
        })
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct MenuModel {
    command: String,
    title: String,
    search: String,
    /// value, rest as shown
    entries: Vec<(String, String)>,
    selected: usize,
}

/// what the server announced last; texts in their debug form
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Model {
    client: String,
    session: String,
    echo: Option<String>,
    status: String,
    view: String,
    menu: Option<MenuModel>,
    /// a menu came after the message and may have taken its place
    covered: bool,
}

/// a line of the server and the event it has to give
pub enum Want {
    Noop,
    ConnErr,
    Exact(String),
    /// only that there is one event
    Some,
}

pub struct Line {
    pub bytes: Vec<u8>,
    pub want: Want,
}

fn dbg<T: std::fmt::Debug>(x: &T) -> String {
    format!("{:?}", x)
}

fn show_event(e: &ConnectionEvent) -> String {
    match e {
        ConnectionEvent::ConnErr(_) => "ConnErr".into(),
        ConnectionEvent::Noop => "Noop".into(),
        ConnectionEvent::Echo(t) => format!("Echo {:?}", t),
        ConnectionEvent::Hint(h) => format!("Hint {:?}", h.text),
        ConnectionEvent::Info(c, s) => format!("Info {:?} {:?}", c, s),
        ConnectionEvent::Menu(m) => format!("Menu {}", show_menu(&menu_of(m))),
        ConnectionEvent::Status(s) => format!("Status {:?}", s),
        ConnectionEvent::View(v) => format!("View {:?}", v),
    }
}

fn menu_of(m: &remote::Menu) -> MenuModel {
    MenuModel {
        command: m.command.clone(),
        title: m.title.clone(),
        search: m.search.clone(),
        entries: m
            .entries
            .iter()
            .map(|e| (e.value.clone(), format!("{:?} {:?}", e.text, e.description)))
            .collect(),
        selected: m.selected,
    }
}

fn show_menu(m: &MenuModel) -> String {
    format!("{:?}", m)
}

fn line_of(method: &str, params: Value) -> Vec<u8> {
    let mut l = json!({"jsonrpc": "2.0", "method": method, "params": params}).to_string().into_bytes();
    l.push(b'\n');
    l
}

/// a line the server could send; updates the model
pub fn gen_line(r: &mut Rng, m: &mut Model) -> Line {
    match r.weighted(&[5, 4, 5, 6, 5, 6, 5, 4, 5, 4, 2]) {
        0 => {
            let t = gen_face_text(r);
            let bytes = line_of("echo", serde_json::to_value(&t).unwrap());
            m.echo = Some(dbg(&t));
            m.covered = false;
            Line { bytes, want: Want::Exact(format!("Echo {:?}", t)) }
        }
        1 => {
            let h: Vec<_> = (0..r.below(4)).map(|_| gen_face_text(r)).collect();
            Line {
                bytes: line_of("hint", json!({"text": serde_json::to_value(&h).unwrap()})),
                want: Want::Exact(format!("Hint {:?}", h)),
            }
        }
        2 => {
            let (c, s) = (gen_string(r), gen_string(r));
            let bytes = line_of("info", json!({"client": c, "session": s, "cwd": gen_string(r)}));
            m.client = c.clone();
            m.session = s.clone();
            Line { bytes, want: Want::Exact(format!("Info {:?} {:?}", c, s)) }
        }
        3 => {
            let n = if r.chance(1, 6) { 0 } else { r.below(6) };
            let entries: Vec<notifications::MenuParamsEntry> = (0..n)
                .map(|_| notifications::MenuParamsEntry {
                    value: if r.chance(1, 4) { String::new() } else { gen_string(r) },
                    text: gen_face_text(r),
                    description: if r.chance(1, 2) { None } else { Some(gen_string(r)) },
                })
                .collect();
            let (command, title, search) = (gen_string(r), gen_string(r), gen_string(r));
            let bytes = line_of(
                "menu",
                json!({"command": command, "title": title, "search": search, "entries": serde_json::to_value(&entries).unwrap()}),
            );
            let menu = MenuModel {
                command,
                title,
                search,
                entries: entries
                    .iter()
                    .map(|e| (e.value.clone(), format!("{:?} {:?}", e.text, e.description)))
                    .collect(),
                selected: 0,
            };
            m.menu = Some(menu.clone());
            m.covered = true;
            Line { bytes, want: Want::Exact(format!("Menu {}", show_menu(&menu))) }
        }
        4 => {
            let s: notifications::StatusParams = (0..r.below(4))
                .map(|_| notifications::StatusParamsItem {
                    index: r.next() as i32 as isize,
                    text: gen_face_text(r),
                })
                .collect();
            m.status = dbg(&s);
            Line {
                bytes: line_of("status", serde_json::to_value(&s).unwrap()),
                want: Want::Exact(format!("Status {:?}", s)),
            }
        }
        5 => {
            let v: notifications::ViewParams = (0..r.below(4))
                .map(|_| notifications::ViewParamsItem {
                    buffer: gen_string(r),
                    start: r.below(100),
                    end: r.below(100_000),
                    lenses: (0..r.below(3))
                        .map(|_| notifications::ViewParamsLens {
                            lines: (0..r.below(30)).map(|_| gen_face_text(r)).collect(),
                            first_line_num: r.below(5000),
                        })
                        .collect(),
                })
                .collect();
            m.view = dbg(&v);
            Line {
                bytes: line_of("view", serde_json::to_value(&v).unwrap()),
                want: Want::Exact(format!("View {:?}", v)),
            }
        }
        6 => {
            // a response: successful or not
            let v = if r.chance(1, 2) {
                json!({"jsonrpc": "2.0", "id": r.next() as i32, "result": gen_value(r, 2)})
            } else {
                json!({"jsonrpc": "2.0", "id": gen_string(r), "error": {"code": r.next() as i32, "message": gen_string(r), "data": gen_value(r, 1)}})
            };
            let mut b = v.to_string().into_bytes();
            b.push(b'\n');
            Line { bytes: b, want: Want::Noop }
        }
        7 => {
            // unknown notification
            let mut name = gen_string(r);
            if ["echo", "hint", "info", "menu", "status", "view"].contains(&name.as_str()) {
                name.push('x');
            }
            if r.chance(1, 3) {
                name = (*r.pick(&["ECHO", "Info", "views", "status ", "men", ""])).to_string();
            }
            Line { bytes: line_of(&name, gen_value(r, 3)), want: Want::Noop }
        }
        8 => {
            // a known notification with parameters of another type, or without
            let method = *r.pick(&["echo", "hint", "info", "menu", "status", "view"]);
            if r.chance(1, 4) {
                let b = format!("{{\"jsonrpc\":\"2.0\",\"method\":\"{}\"}}\n", method);
                return Line { bytes: b.into_bytes(), want: Want::Noop };
            }
            let bad = match method {
                "info" => json!({"client": r.below(10), "session": "x", "cwd": "y"}),
                "menu" => json!({"command": "c", "title": "t", "entries": []}),
                "view" => json!([{"buffer": "b", "start": -1, "end": 0, "lenses": []}]),
                "status" => json!([{"index": "1", "text": []}]),
                "hint" => json!({"text": 3}),
                _ => json!(r.below(100)),
            };
            let p = if r.chance(1, 3) { json!(r.chance(1, 2)) } else { bad };
            Line { bytes: line_of(method, p), want: Want::Noop }
        }
        9 => {
            // not a message
            let s = match r.below(9) {
                0 => String::new(),
                1 => "{".to_string(),
                2 => "null".to_string(),
                3 => "\"view\"".to_string(),
                4 => "{\"jsonrpc\":\"2.0\"}".to_string(),
                5 => "{\"method\":\"echo\",\"params\":[]}".to_string(),
                6 => "{\"jsonrpc\":\"2.0\",\"id\":1}".to_string(),
                7 => "{\"jsonrpc\":\"2.0\",\"method\":7}".to_string(),
                _ => "garbage ".repeat(r.below(3000)),
            };
            Line { bytes: (s + "\n").into_bytes(), want: Want::ConnErr }
        }
        _ => Line {
            bytes: [&b"\xff\xfe{\"jsonrpc\""[..], &b"\xc3\x28"[..], b"\n"].concat(),
            want: Want::ConnErr,
        },
    }
}

/// the request a call has to send, without its identifier
type Sent = (&'static str, Value);

fn keys_value(keys: &[KeyEvent]) -> Value {
    serde_json::to_value(keys).unwrap()
}

fn call(r: &mut Rng, conn: &mut Connection, m: &mut Model, ctx: &mut Ctx) -> Option<Sent> {
    match r.weighted(&[3, 3, 6, 8, 5, 4, 4, 3, 1]) {
        0 => {
            let (n, s) = (gen_string(r), r.chance(1, 2));
            ctx.log(format!("edit {:?} {}", n, s));
            conn.edit(n.clone(), s);
            Some(("edit", json!({"name": n, "scratch": s})))
        }
        1 => {
            let (c, s) = (gen_string(r), gen_string(r));
            conn.menu(&c, &s);
            Some(("menu", json!({"command": c, "search": s})))
        }
        2 => {
            ctx.log("menu_select".into());
            let menu = m.menu.take();
            conn.menu_select();
            let menu = menu?;
            let (value, _) = menu.entries.get(menu.selected)?;
            let choice = if value.is_empty() { &menu.search } else { value };
            ctx.count("menu_selections");
            if value.is_empty() {
                ctx.count("prompt_selections");
            }
            Some(("menu-select", json!({"command": menu.command, "choice": choice})))
        }
        3 => {
            conn.action_menu_select_next();
            if let Some(menu) = m.menu.as_mut() {
                ctx.count("menu_moves");
                if menu.selected + 1 < menu.entries.len() {
                    menu.selected += 1;
                }
            }
            None
        }
        4 => {
            conn.action_menu_select_previous();
            if let Some(menu) = m.menu.as_mut() {
                ctx.count("menu_moves");
                menu.selected = menu.selected.saturating_sub(1);
            }
            None
        }
        5 => {
            if r.chance(1, 3) {
                ctx.log("cancel".into());
                conn.action_menu_cancel();
                m.menu = None;
            }
            None
        }
        6 => {
            let make = |r: &mut Rng| -> Vec<KeyEvent> {
                (0..r.below(5))
                    .map(|_| KeyEvent {
                        ctrl: r.chance(1, 2),
                        alt: r.chance(1, 2),
                        shift: r.chance(1, 2),
                        key: match r.below(4) {
                            0 => Key::Escape,
                            1 => Key::Enter,
                            2 => Key::Char('é'),
                            _ => Key::Char((r.range(32, 126) as u8) as char),
                        },
                    })
                    .collect()
            };
            if r.chance(1, 3) {
                let v = keys_value(&[KeyEvent::from('K')]);
                conn.keys(KeyEvent::from('K'));
                return Some(("keys", v));
            }
            let keys = make(r);
            let v = keys_value(&keys);
            conn.keys(keys);
            Some(("keys", v))
        }
        7 => {
            let s = gen_string(r);
            conn.exec(&s);
            Some(("exec", json!(s)))
        }
        _ => {
            conn.quit();
            Some(("quit", Value::Null))
        }
    }
}

fn check_state(conn: &Connection, m: &Model, after: &str) -> CaseResult {
    let s = conn.state();
    let got = Model {
        client: s.client,
        session: s.session,
        echo: s.echo.as_ref().map(dbg),
        status: dbg(&s.status),
        view: dbg(&s.view),
        menu: s.menu.as_ref().map(menu_of),
        covered: m.covered,
    };
    let echo_ok = got.echo == m.echo || (got.echo.is_none() && m.covered);
    let mut got2 = got.clone();
    if echo_ok {
        got2.echo = m.echo.clone();
    }
    if got2 != *m {
        let d = |n: &str, a: &dyn std::fmt::Debug, b: &dyn std::fmt::Debug| {
            let (a, b) = (format!("{:?}", a), format!("{:?}", b));
            if a != b {
                format!(" {}: is {} should be {};", n, a, b)
            } else {
                String::new()
            }
        };
        return Err(format!(
            "after {}: the state differs from what the server announced:{}{}{}{}{}{}",
            after,
            d("client", &got.client, &m.client),
            d("session", &got.session, &m.session),
            if echo_ok { String::new() } else { d("message", &got.echo, &m.echo) },
            d("status", &got.status, &m.status),
            d("view", &got.view, &m.view),
            d("menu", &got.menu, &m.menu)
        ));
    }
    Ok(())
}

async fn timeout<T>(f: impl std::future::Future<Output = T>, deadline: std::time::Instant) -> Option<T> {
    let wait = async {
        loop {
            if std::time::Instant::now() > deadline {
                return None;
            }
            future::yield_now().await;
            std::thread::yield_now();
        }
    };
    async { Some(f.await) }.or(wait).await
}

fn one_case(r: &mut Rng, ctx: &mut Ctx) -> CaseResult {
    let io = |e: std::io::Error| format!("harness: {}", e);
    let path = ctx.scratch.join(format!("s{}", r.next() % 100_000_000));
    let tcp = r.chance(1, 3);
    let (mode, accept): (ConnectionMode, Box<dyn FnOnce() -> std::io::Result<Sock>>) = if tcp {
        let l = TcpListener::bind("127.0.0.1:0").map_err(io)?;
        (ConnectionMode::Tcp(l.local_addr().map_err(io)?), Box::new(move || Ok(Sock::Tcp(l.accept()?.0))))
    } else {
        let l = UnixListener::bind(&path).map_err(io)?;
        (ConnectionMode::Socket(path.clone()), Box::new(move || Ok(Sock::Unix(l.accept()?.0))))
    };
    let mut conn = Connection::new(Session { mode });
    let early: bool = r.chance(1, 4);
    let mut m = Model {
        status: "[]".into(),
        view: "[]".into(),
        ..Model::default()
    };
    let mut sent: Vec<Sent> = Vec::new();
    if early {
        // calls made before connecting are sent once connected
        for _ in 0..r.range(1, 3) {
            sent.extend(call(r, &mut conn, &mut m, ctx));
        }
    }
    let (events, request_loop) = future::block_on(conn.connect()).map_err(|e| format!("connection refused: {}", e))?;
    let mut sock = accept().map_err(io)?;
    let _ = std::fs::remove_file(&path);
    let mut reader = sock.reader().map_err(io)?;
    let sender = std::thread::spawn(move || future::block_on(request_loop));
    futures_lite::pin!(events);
    let mut ids: HashSet<String> = HashSet::new();
    check_state(&conn, &m, "connecting")?;
    let mut pending = sent;
    let mut next_event = |what: &str| -> Result<Option<ConnectionEvent>, String> {
        future::block_on(timeout(events.next(), std::time::Instant::now() + Duration::from_secs(20)))
            .ok_or_else(|| format!("no event within 20 s for {}", what))
    };
    let n = r.range(5, 40);
    let mut kinds = String::new();
    for _ in 0..n {
        if r.chance(3, 5) {
            // one or several lines at once, possibly cut in pieces
            let k = if r.chance(1, 4) { r.range(2, 6) } else { 1 };
            let mut bytes = Vec::new();
            let mut lines = Vec::new();
            for _ in 0..k {
                let mut after = m.clone();
                let line = gen_line(r, &mut after);
                bytes.extend_from_slice(&line.bytes);
                lines.push((String::from_utf8_lossy(&line.bytes).chars().take(300).collect::<String>(), line.want, after.clone()));
                m = after;
            }
            // written by a thread: a long line may exceed the socket's buffer
            let cut = if r.chance(1, 4) && bytes.len() > 1 { r.below(bytes.len()) } else { bytes.len() };
            let mut out = match &sock {
                Sock::Unix(s) => Sock::Unix(s.try_clone().map_err(io)?),
                Sock::Tcp(s) => Sock::Tcp(s.try_clone().map_err(io)?),
            };
            let writer = std::thread::spawn(move || {
                out.write(&bytes[..cut])?;
                if cut < bytes.len() {
                    std::thread::sleep(Duration::from_micros(300));
                    out.write(&bytes[cut..])?;
                }
                Ok::<(), std::io::Error>(())
            });
            for (text, want, after) in lines {
                ctx.log(format!("<- {}", text));
                let ev = next_event(&text)?;
                let Some(ev) = ev else {
                    return Err(format!("the events ended at the line {:?}", text));
                };
                let got = show_event(&ev);
                let ok = match &want {
                    Want::Noop => got == "Noop",
                    Want::ConnErr => got == "ConnErr",
                    Want::Exact(w) => got == *w,
                    Want::Some => true,
                };
                kinds.push_str(got.split(' ').next().unwrap_or(""));
                if !ok {
                    let want = match want {
                        Want::Noop => "Noop".to_string(),
                        Want::ConnErr => "ConnErr".to_string(),
                        Want::Exact(w) => w,
                        Want::Some => String::new(),
                    };
                    return Err(format!("line {:?} gave the event {} instead of {}", text, got, want));
                }
                ctx.count(&format!("event_{}", got.split(' ').next().unwrap_or("")));
                check_state(&conn, &after, &format!("the line {:?}", text))?;
            }
            writer.join().map_err(|_| "harness: writer")?.map_err(io)?;
        } else {
            let before = m.clone();
            let got = call(r, &mut conn, &mut m, ctx);
            pending.extend(got);
            if before.menu != m.menu {
                ctx.count("menu_changes");
            }
            check_state(&conn, &m, "a call")?;
        }
        // sometimes a great many of them
        if r.chance(1, 1500) {
            for _ in 0..(if r.chance(1, 40) { 70_000 } else { r.range(100, 700) }) {
                let key = KeyEvent::from((r.range(32, 126) as u8) as char);
                pending.push(("keys", keys_value(std::slice::from_ref(&key))));
                conn.keys(key);
            }
            ctx.count("bursts");
            read_requests(&mut reader, &mut pending, &mut ids, ctx)?;
        }
        // the requests come in order, nothing else does
        if r.chance(1, 3) {
            read_requests(&mut reader, &mut pending, &mut ids, ctx)?;
        }
    }
    read_requests(&mut reader, &mut pending, &mut ids, ctx)?;
    // the end of the stream, possibly in the middle of a line
    let mut tail_events = 0;
    if r.chance(1, 2) {
        let line = gen_line(r, &mut m);
        let mut b = line.bytes;
        b.pop();
        if r.chance(1, 2) && b.len() > 1 {
            let n = r.range(1, b.len() - 1);
            b.truncate(n);
        }
        if !b.is_empty() {
            let mut out = match &sock {
                Sock::Unix(s) => Sock::Unix(s.try_clone().map_err(io)?),
                Sock::Tcp(s) => Sock::Tcp(s.try_clone().map_err(io)?),
            };
            let w = std::thread::spawn(move || {
                let _ = out.write(&b);
                out.end();
            });
            tail_events = 1;
            let ev = next_event("a cut line")?;
            if ev.is_none() {
                return Err("a line without line end gave no event".into());
            }
            ctx.count("cut_lines");
            let _ = w.join();
        }
    }
    sock.end();
    match next_event("the end")? {
        None => ctx.count("ends"),
        Some(ev) => return Err(format!("event {} after the end of the stream ({} cut lines)", show_event(&ev), tail_events)),
    }
    drop(conn);
    // nothing more was sent than what was asked
    let _ = sender.join();
    match &sock {
        Sock::Unix(s) => s.set_nonblocking(true).map_err(io)?,
        Sock::Tcp(s) => s.set_nonblocking(true).map_err(io)?,
    }
    let mut rest = String::new();
    match reader.read_line(&mut rest) {
        Ok(0) | Err(_) => {}
        Ok(_) => return Err(format!("unexpected request {:?}", rest)),
    }
    ctx.distinct(hash_str(&kinds));
    Ok(())
}

fn read_requests(
    reader: &mut Box<dyn BufRead>,
    pending: &mut Vec<Sent>,
    ids: &mut HashSet<String>,
    ctx: &mut Ctx,
) -> CaseResult {
    for (method, params) in pending.drain(..) {
        let mut line = String::new();
        match reader.read_line(&mut line) {
            Ok(0) => return Err(format!("connection closed instead of the request {} {}", method, params)),
            Ok(_) => {}
            Err(e) => return Err(format!("request {} {} not sent: {}", method, params, e)),
        }
        ctx.log(format!("-> {}", line.trim_end()));
        let v: Value = serde_json::from_str(&line).map_err(|e| format!("request {:?} is not JSON: {}", line, e))?;
        if v["method"] != json!(method) || v.get("params").unwrap_or(&Value::Null) != &params {
            return Err(format!("request {:?} sent instead of {} {}", line, method, params));
        }
        match v.get("id") {
            Some(id) if !id.is_null() => {
                if !ids.insert(id.to_string()) {
                    return Err(format!("request {:?} reuses an identifier", line));
                }
            }
            _ => return Err(format!("request {:?} without identifier", line)),
        }
        if v["jsonrpc"] != json!("2.0") {
            return Err(format!("request {:?} without version", line));
        }
        ctx.count("requests");
    }
    Ok(())
}

/// The events are taken in one thread, the requests written by another, the calls made in a third,
/// as the C interface does it; a server answers at once. Wake-ups are delayed at random.
fn threaded_case(r: &mut Rng, ctx: &mut Ctx) -> CaseResult {
    let io = |e: std::io::Error| format!("harness: {}", e);
    let path = ctx.scratch.join(format!("s{}", r.next() % 100_000_000));
    let listener = UnixListener::bind(&path).map_err(io)?;
    let mut conn = Connection::new(Session { mode: ConnectionMode::Socket(path.clone()) });
    let (events, request_loop) = future::block_on(conn.connect()).map_err(|e| format!("connection refused: {}", e))?;
    let (sock, _) = listener.accept().map_err(io)?;
    let _ = std::fs::remove_file(&path);
    let noise = r.next();
    let handle = sock.try_clone().map_err(io)?;
    // the server: answers a menu by that menu, a selection by a submenu, keys by a message
    let server = std::thread::spawn(move || -> Vec<String> {
        let mut r = Rng::new(noise);
        let mut out = Sock::Unix(sock.try_clone().expect("clone"));
        let mut seen = Vec::new();
        let mut reader = BufReader::new(sock);
        let mut line = String::new();
        while reader.read_line(&mut line).unwrap_or(0) > 0 {
            let v: Value = serde_json::from_str(&line).unwrap_or(Value::Null);
            seen.push(std::mem::take(&mut line));
            let n = seen.len();
            let entries = |k: usize| -> Vec<Value> {
                (0..k).map(|i| json!({"value": format!("v{}", i), "text": [{"text": "x", "face": "Default"}], "description": null})).collect()
            };
            let p = &v["params"];
            let mut b = Vec::new();
            match v["method"].as_str().unwrap_or("") {
                "menu" => b.extend(line_of(
                    "menu",
                    json!({"command": p["command"], "title": "m", "search": p["search"], "entries": entries(p["search"].as_str().map_or(0, str::len))}),
                )),
                "menu-select" => b.extend(line_of(
                    "menu",
                    json!({"command": format!("sub {}", n), "title": p["command"], "search": p["choice"], "entries": entries(3)}),
                )),
                "keys" => b.extend(line_of("echo", json!([{"text": format!("keys {}", n), "face": "Default"}]))),
                "edit" => b.extend(line_of("view", json!([{"buffer": p["name"], "start": 1, "end": 1, "lenses": []}]))),
                _ => {}
            }
            let res = format!("{{\"jsonrpc\":\"2.0\",\"id\":{},\"result\":null}}\n", v["id"]).into_bytes();
            if r.chance(1, 2) {
                b.extend(res);
            } else {
                b.splice(0..0, res);
            }
            if out.write(&b).is_err() {
                break;
            }
        }
        seen
    });
    let sender = std::thread::spawn(move || future::block_on(request_loop));
    let shown = std::sync::Arc::new(std::sync::Mutex::new(Vec::<String>::new()));
    let log = shown.clone();
    let taker = std::thread::spawn(move || {
        for e in futures_lite::stream::block_on(events) {
            log.lock().unwrap().push(show_event(&e));
        }
    });
    let rate = *r.pick(&[0, 10, 50, 90]);
    let delays = crate::delay::Delays::start(rate, r.next());
    let mut sent: Vec<(&'static str, Value)> = Vec::new();
    // waits for an event not yet looked at
    let mut from = 0;
    let mut wait = |want: &str| -> CaseResult {
        let end = std::time::Instant::now() + Duration::from_secs(20);
        loop {
            let l = shown.lock().unwrap();
            if let Some(i) = l[from..].iter().position(|e| e.starts_with(want)) {
                from += i + 1;
                return Ok(());
            }
            if std::time::Instant::now() > end {
                return Err(format!("no event {:?} within 20 s, those not looked at are {:?}", want, &l[from..]));
            }
            drop(l);
            std::thread::sleep(Duration::from_micros(50));
        }
    };
    let mut history = String::new();
    for k in 0..r.range(3, 12) {
        match r.weighted(&[6, 2, 2]) {
            0 => {
                let n = r.below(5);
                let (cmd, search) = (format!("c{}", k), "s".repeat(n));
                conn.menu(&cmd, &search);
                sent.push(("menu", json!({"command": cmd, "search": search})));
                wait(&format!("Menu MenuModel {{ command: {:?}", cmd))?;
                let mut at = 0;
                for _ in 0..r.below(6) {
                    if r.chance(1, 3) {
                        conn.action_menu_select_previous();
                        at = usize::saturating_sub(at, 1);
                    } else {
                        conn.action_menu_select_next();
                        at = if at + 1 < n { at + 1 } else { at };
                    }
                }
                match conn.state().menu {
                    Some(m) if m.command == cmd && m.entries.len() == n && m.selected == at => {}
                    other => return Err(format!("menu {:?} with {} entries, {} selected, expected; the state has {:?}", cmd, n, at, other)),
                }
                if r.chance(1, 4) {
                    conn.action_menu_cancel();
                    history.push('c');
                    if let Some(m) = conn.state().menu {
                        return Err(format!("closed menu still there: {:?}", m));
                    }
                    continue;
                }
                conn.menu_select();
                history.push(if n > 0 { 's' } else { 'e' });
                if n == 0 {
                    if let Some(m) = conn.state().menu {
                        return Err(format!("empty menu still there after selecting: {:?}", m));
                    }
                    continue;
                }
                sent.push(("menu-select", json!({"command": cmd, "choice": format!("v{}", at)})));
                let sub = format!("sub {}", sent.len());
                wait(&format!("Menu MenuModel {{ command: {:?}", sub))?;
                match conn.state().menu {
                    Some(m) if m.command == sub => ctx.count("submenus_kept"),
                    other => {
                        return Err(format!(
                            "the menu {:?} announced in answer to a selection is lost: the state has {:?}",
                            sub, other
                        ))
                    }
                }
            }
            1 => {
                let key = KeyEvent { ctrl: false, alt: r.chance(1, 2), shift: false, key: Key::Char('k') };
                let value = keys_value(std::slice::from_ref(&key));
                conn.keys(key);
                sent.push(("keys", value));
                let text = format!("keys {}", sent.len());
                wait("Echo ")?;
                if !format!("{:?}", conn.state().echo).contains(&format!("{:?}", text)) {
                    return Err(format!("message {:?} expected, the state has {:?}", text, conn.state().echo));
                }
                history.push('k');
            }
            _ => {
                let name = format!("f{}", k);
                conn.edit(name.clone(), false);
                sent.push(("edit", json!({"name": name, "scratch": false})));
                wait("View ")?;
                if !format!("{:?}", conn.state().view).contains(&format!("{:?}", name)) {
                    return Err(format!("view of {:?} expected, the state has {:?}", name, conn.state().view));
                }
                history.push('v');
            }
        }
    }
    let pauses = delays.pauses();
    drop(delays);
    drop(conn);
    sender.join().map_err(|_| "the request loop panicked")?;
    // the server still reads what was sent
    handle.shutdown(Shutdown::Read).map_err(io)?;
    let seen = server.join().map_err(|_| "harness: server")?;
    let _ = handle.shutdown(Shutdown::Both);
    taker.join().map_err(|_| "the event loop panicked")?;
    if seen.len() != sent.len() {
        return Err(format!("{} requests received, {} made", seen.len(), sent.len()));
    }
    let mut ids = HashSet::new();
    for (line, (method, params)) in seen.iter().zip(&sent) {
        let v: Value = serde_json::from_str(line).map_err(|e| format!("request {:?} is not JSON: {}", line, e))?;
        if v["method"] != json!(method) || v.get("params").unwrap_or(&Value::Null) != params || !ids.insert(v["id"].to_string()) {
            return Err(format!("request {:?} received instead of {} {}", line, method, params));
        }
    }
    ctx.count("threaded_connections");
    if pauses > 0 {
        ctx.count("threaded_with_delays");
    }
    ctx.distinct(hash_str(&format!("threaded {} {}", rate, history)));
    Ok(())
}

impl Check for C23Check {
    fn id(&self) -> &'static str {
        "C23"
    }
    fn rule(&self) -> &'static str {
        "a case is one connection over a Unix or TCP socket to a fake server: 5 to 40 steps (at times hundreds of calls at once, seldom 70000) of server lines (every notification, unknown ones, wrong parameters, responses, garbage, invalid UTF-8; batched or cut) and client calls, ended cleanly or in the middle of a line; event, state and requests are judged after each; distinct by sequence of event kinds"
    }
    fn cases(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 12_000,
            Tier::Thorough => 300_000,
        }
    }
    fn required(&self) -> Vec<&'static str> {
        vec![
            "event_Echo", "event_Hint", "event_Info", "event_Menu", "event_Status", "event_View", "event_Noop", "event_ConnErr",
            "requests", "menu_selections", "prompt_selections", "menu_moves", "cut_lines", "ends",
            "threaded_connections", "submenus_kept",
        ]
    }
    fn run(&self, case: u64, r: &mut Rng, ctx: &mut Ctx) -> CaseResult {
        if case % 8 == 5 {
            return threaded_case(r, ctx);
        }
        one_case(r, ctx)
    }
}
