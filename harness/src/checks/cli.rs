//! C26: the program run in script, standalone and json modes.
use super::server::{fragments, lines_of, Due, Lines};
use super::wire::{close, gen_string, gen_value};
use crate::check::{CaseResult, Check, Ctx, Tier};
use crate::live::*;
use crate::rng::{hash_str, Rng};
use serde_json::{json, Value};
use std::fs;
use std::io::{Read, Write};
use std::net::{Shutdown, TcpListener};
use std::os::unix::net::UnixListener;
use std::path::Path;
use std::process::{Child, Command, ExitStatus, Stdio};
use std::sync::{mpsc, Arc, Mutex};
use std::time::{Duration, Instant};

pub struct C26Check;
pub static C26: C26Check = C26Check;

/// a running program, its input fed and its outputs gathered by threads
struct Run {
    child: Child,
    out: Arc<Mutex<Vec<u8>>>,
    err: Arc<Mutex<Vec<u8>>>,
    ends: mpsc::Receiver<()>,
    /// dropped, the input ends
    hold: Option<mpsc::Sender<Vec<u8>>>,
}

impl Run {
    fn start(mut c: Command, input: Option<Vec<Vec<u8>>>, pause: u64, hold: bool, late: u64) -> Result<Run, String> {
        let mut child = c
            .stdin(if input.is_some() { Stdio::piped() } else { Stdio::null() })
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .map_err(|e| format!("spawn: {}", e))?;
        let (holder, held) = mpsc::channel::<Vec<u8>>();
        if let Some(pieces) = input {
            let mut stdin = child.stdin.take().unwrap();
            std::thread::spawn(move || {
                for p in pieces {
                    if stdin.write_all(&p).is_err() {
                        return;
                    }
                    if pause > 0 {
                        std::thread::sleep(Duration::from_micros(pause));
                    }
                }
                if hold {
                    while let Ok(more) = held.recv() {
                        if stdin.write_all(&more).is_err() {
                            return;
                        }
                    }
                }
            });
        }
        let (tx, ends) = mpsc::channel();
        let gather = |mut from: Box<dyn Read + Send>| {
            let into = Arc::new(Mutex::new(Vec::new()));
            let (to, tx) = (into.clone(), tx.clone());
            std::thread::spawn(move || {
                // a reader that comes late, and takes little at a time
                std::thread::sleep(Duration::from_millis(late));
                let mut buf = vec![0u8; if late > 0 { 4096 } else { 65536 }];
                loop {
                    match from.read(&mut buf) {
                        Ok(0) | Err(_) => break,
                        Ok(n) => to.lock().unwrap().extend_from_slice(&buf[..n]),
                    }
                }
                let _ = tx.send(());
            });
            into
        };
        let out = gather(Box::new(child.stdout.take().unwrap()));
        let err = gather(Box::new(child.stderr.take().unwrap()));
        Ok(Run { child, out, err, ends, hold: Some(holder) })
    }

    fn stdout(&self) -> Vec<u8> {
        self.out.lock().unwrap().clone()
    }

    fn stderr(&self) -> String {
        let e = self.err.lock().unwrap();
        let n = e.len().saturating_sub(500);
        String::from_utf8_lossy(&e[n..]).into_owned()
    }

    /// its end, as long as something still comes out within the patience
    fn wait(&mut self) -> Option<ExitStatus> {
        let mut size = 0;
        let mut last = Instant::now();
        loop {
            if let Ok(Some(st)) = self.child.try_wait() {
                // what it wrote before ending
                for _ in 0..2 {
                    let _ = self.ends.recv_timeout(Duration::from_secs(10));
                }
                return Some(st);
            }
            let n = self.out.lock().unwrap().len();
            if n != size {
                size = n;
                last = Instant::now();
            }
            if last.elapsed() > PATIENCE {
                return None;
            }
            std::thread::sleep(Duration::from_millis(1));
        }
    }
}

impl Drop for Run {
    fn drop(&mut self) {
        self.hold.take();
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn cut(s: &str) -> String {
    s.chars().take(160).collect()
}

fn show(line: &[u8]) -> String {
    format!("{:?} ({} bytes)", cut(&String::from_utf8_lossy(line)), line.len())
}

/// complete lines only
fn lines(out: &[u8]) -> Result<Vec<Vec<u8>>, String> {
    if out.is_empty() {
        return Ok(Vec::new());
    }
    if *out.last().unwrap() != b'\n' {
        let tail = &out[out.len().saturating_sub(100)..];
        return Err(format!("the output ends in the middle of a line: {}", show(tail)));
    }
    Ok(out[..out.len() - 1].split(|&b| b == b'\n').map(<[u8]>::to_vec).collect())
}

// --------------------------------------------------------------------------------- script mode

enum Kind {
    Good,
    Raises,
    Syntax,
    Missing,
    NotText,
    Directory,
    Stdin,
}

fn script_mode(r: &mut Rng, dir: &Path, ctx: &mut Ctx) -> CaseResult {
    let work = dir.join("work");
    let mut c = ced(dir);
    c.arg("--mode=script");
    let n = r.weighted(&[1, 3, 4, 4, 3, 2, 1]);
    let mut expected = Vec::new();
    let mut failed = false;
    let mut globals = 0;
    // the scratch the client views, and where its cursor is
    let mut pad: Option<(usize, usize)> = None;
    let mut input: Option<Vec<u8>> = None;
    let mut desc = Vec::new();
    let mut args: Vec<String> = Vec::new();
    // failures are rather late
    for i in 0..n {
        let kind = match r.weighted(&[14, 1, 1, 1, 1, 1, if input.is_none() { 2 } else { 0 }]) {
            0 => Kind::Good,
            1 => Kind::Raises,
            2 => Kind::Syntax,
            3 => Kind::Missing,
            4 => Kind::NotText,
            5 => Kind::Directory,
            _ => Kind::Stdin,
        };
        let fname = format!("{}{}.lua", r.pick(&["script", "été ", "a-b."]), i);
        let path = work.join(&fname);
        let mut good = |globals: &mut usize, pad: &mut Option<(usize, usize)>, expected: &mut Vec<String>| {
            let mut src = String::new();
            let mut out = Vec::new();
            if r.chance(1, 3) {
                src.push_str("-- été 世界 \u{1F600}\n");
            }
            for k in 0..r.below(4) {
                out.push(format!("tok-{}-{}", i, k));
                src.push_str(&format!("print('tok-{}-{}')\n", i, k));
            }
            match r.below(7) {
                0 => {
                    out.push("client 1".into());
                    src.push_str("print('client ' .. env.client)\n");
                }
                1 => {
                    let g = *globals;
                    *globals += 1;
                    src.push_str(&format!("shared{} = 'g{}'\n", g, g));
                }
                2 if *globals > 0 => {
                    let g = r.below(*globals);
                    out.push(format!("kept g{}", g));
                    src.push_str(&format!("print('kept ' .. tostring(shared{}))\n", g));
                }
                3 => {
                    // one editor: what a script opens the next ones find
                    let letter = |k: usize| (b'a' + k as u8 % 26) as char;
                    if let Some((p, at)) = pad.filter(|_| r.chance(2, 3)) {
                        out.push(format!("found {} {}", at, letter(p + at)));
                        src.push_str(&format!(
                            "local c = editor:get_context(1)\nlocal s = c.selections['pad{}'][1]\nprint('found ' .. string.format('%d', s.cursor.offset) .. ' ' .. s.text)\n",
                            p
                        ));
                    } else {
                        let text: String = (0..30).map(|k| letter(i + k)).collect();
                        src.push_str(&format!("editor:scratch(1, 'pad{}', '{}')\n", i, text));
                        *pad = Some((i, 0));
                    }
                    if let Some((_, at)) = pad.as_mut().filter(|_| r.chance(2, 3)) {
                        *at += 1;
                        src.push_str("editor:move_right(1, false)\n");
                    }
                }
                4 => {
                    src.push_str("local ok = pcall(editor.edit, editor, 1, 'no such file', false)\nprint('caught ' .. tostring(ok))\n");
                    out.push("caught false".into());
                }
                5 => {
                    let len = r.range(1, 200_000);
                    src.push_str(&format!("print(string.rep('z', {}))\n", len));
                    out.push("z".repeat(len));
                }
                _ => {}
            }
            if !r.chance(1, 3) && src.ends_with('\n') {
                src.pop();
            }
            expected.extend(out);
            src
        };
        let mut later = Vec::new();
        let into = if failed { &mut later } else { &mut expected };
        let mut scrap = globals;
        let g = if failed { &mut scrap } else { &mut globals };
        let mut scrap_pad = pad;
        let p = if failed { &mut scrap_pad } else { &mut pad };
        let name = match kind {
            Kind::Good => {
                fs::write(&path, good(g, p, into)).map_err(|e| e.to_string())?;
                "good"
            }
            Kind::Stdin => {
                input = Some(good(g, p, into).into_bytes());
                "stdin"
            }
            Kind::Raises => {
                let mut s = good(g, p, into);
                s.push('\n');
                s.push_str(*r.pick(&[
                    "error('no')",
                    "error({})",
                    "error()",
                    "editor:edit(1, 'no such file', false)",
                    "editor:message(7, 'x')",
                    "local x = nil; x.y = 1",
                    "error('é\\xff\\xfe')",
                    "local f = nil; f()",
                ]));
                s.push_str("\nprint('after the error')\n");
                fs::write(&path, s).map_err(|e| e.to_string())?;
                "raises"
            }
            Kind::Syntax => {
                fs::write(&path, "print('never')\nlocal = = 3\n").map_err(|e| e.to_string())?;
                "syntax error"
            }
            Kind::Missing => "missing",
            Kind::NotText => {
                fs::write(&path, b"print('never') -- \xff\xfe\n").map_err(|e| e.to_string())?;
                "no text"
            }
            Kind::Directory => {
                fs::create_dir_all(&path).map_err(|e| e.to_string())?;
                "directory"
            }
        };
        ctx.count(&format!("script: {}", name));
        if !matches!(kind, Kind::Good | Kind::Stdin) {
            failed = true;
        }
        desc.push(name);
        args.push(if let Kind::Stdin = kind { "-".into() } else { fname });
    }
    c.args(&args);
    ctx.log(format!("scripts {:?}", desc));
    let pieces = input.map(|i| fragments(r, vec![[&i[..], b"\n"].concat()]));
    let mut run = Run::start(c, pieces, 0, false, 0)?;
    let st = run.wait().ok_or_else(|| format!("script mode does not end: {:?}", desc))?;
    let out = run.stdout();
    let got: Vec<String> = lines(&out)?.iter().map(|l| String::from_utf8_lossy(l).into_owned()).collect();
    if got != expected {
        let k = got.iter().zip(&expected).position(|(a, b)| a != b).unwrap_or(got.len().min(expected.len()));
        return Err(format!(
            "scripts {:?} print {} lines, expected {}; line {}: {:?}, expected {:?}; {}",
            desc, got.len(), expected.len(), k,
            got.get(k).map(|s| cut(s)), expected.get(k).map(|s| cut(s)), run.stderr()
        ));
    }
    if st.success() == failed || st.code().is_none() || st.code() == Some(101) {
        return Err(format!("scripts {:?} end with {}: {}", desc, describe(st), run.stderr()));
    }
    ctx.count("script runs");
    ctx.distinct(hash_str(&format!("script {:?} {:?}", desc, expected.len())));
    ctx.sample(|| format!("script mode with {:?}: {} lines, {}", desc, expected.len(), describe(st)));
    Ok(())
}

// --------------------------------------------------------------------------- the client's view

struct Seen {
    responses: Vec<(Value, Result<Value, Value>)>,
    echoes: Vec<String>,
    views: Vec<Value>,
    infos: usize,
}

fn digest(out: &[u8]) -> Result<Seen, String> {
    let mut seen = Seen { responses: Vec::new(), echoes: Vec::new(), views: Vec::new(), infos: 0 };
    for l in lines(out)? {
        match parse_msg(&l)? {
            Msg::Response(id, res) => seen.responses.push((id, res)),
            Msg::Notification(m, p) => match m.as_str() {
                "echo" => {
                    let text = |f: &Value| f["text"].as_str().unwrap_or("").to_string();
                    seen.echoes.push(match p.as_array() {
                        Some(fs) => fs.iter().map(text).collect(),
                        None => text(&p),
                    });
                }
                "view" => seen.views.push(p),
                "info" => seen.infos += 1,
                _ => {}
            },
        }
    }
    Ok(seen)
}

fn judge(seen: &Seen, due: &[Due], told: &[String], all_told: bool, what: &str, err: &dyn Fn() -> String) -> CaseResult {
    for (i, d) in due.iter().enumerate() {
        let (id, res) = seen.responses.get(i).ok_or_else(|| {
            format!("{}: {} answers to {} lines, the first without one is {}; {}", what, seen.responses.len(), due.len(), d.what, err())
        })?;
        let text = match res {
            Ok(v) => v.to_string(),
            Err(e) => e.to_string(),
        };
        if *id != d.id || res.is_ok() != d.ok {
            return Err(format!("{}: line {} ({}, id {}) is answered {} {} {}", what, i, d.what, d.id, id, res.is_ok(), cut(&text)));
        }
        if let Some(c) = &d.contains {
            if !text.contains(c.as_str()) {
                return Err(format!("{}: line {} ({}) is answered {}", what, i, d.what, cut(&text)));
            }
        }
    }
    if seen.responses.len() > due.len() {
        return Err(format!("{}: {} answers to {} lines", what, seen.responses.len(), due.len()));
    }
    let echoes: Vec<&String> = seen.echoes.iter().filter(|e| e.starts_with("msg<")).collect();
    let told = if all_told { told } else { &told[..echoes.len().min(told.len())] };
    if echoes != told.iter().collect::<Vec<_>>() {
        let k = echoes.iter().zip(told).position(|(a, b)| *a != b).unwrap_or(echoes.len().min(told.len()));
        return Err(format!(
            "{}: {} messages shown of {}; number {}: {:?}, expected {:?}; {}",
            what, echoes.len(), told.len(), k, echoes.get(k), told.get(k), err()
        ));
    }
    Ok(())
}

/// the first line of a buffer in a view notification
fn first_lines(v: &Value) -> Option<(String, String)> {
    let items = v.as_array()?;
    if items.len() != 1 {
        return None;
    }
    let lens = items[0]["lenses"].as_array()?.first()?;
    if lens["first_line_num"] != json!(1) {
        return None;
    }
    let line = lens["lines"].as_array()?.first()?;
    let text: String = line.as_array()?.iter().filter_map(|f| f["text"].as_str()).collect();
    Some((items[0]["buffer"].as_str()?.to_string(), text))
}

// ----------------------------------------------------------------------------- standalone mode

fn standalone(r: &mut Rng, dir: &Path, ctx: &mut Ctx) -> CaseResult {
    let work = dir.join("work");
    let mut c = ced(dir);
    c.arg("--mode=standalone");
    let k = match r.below(4) {
        0 => 0,
        1 => r.range(1, 4),
        2 => r.range(5, 40),
        _ => r.range(60, 250),
    };
    let mut opened: Vec<(String, String)> = Vec::new();
    let mut missing = Vec::new();
    for i in 0..k {
        if r.chance(1, 8) {
            let name = format!("missing{}", i);
            missing.push(name.clone());
            c.arg(name);
        } else if !opened.is_empty() && r.chance(1, 10) {
            let f = r.pick(&opened[..]).clone();
            c.arg(&f.0);
            opened.push(f);
        } else {
            let name = format!("{}{}", r.pick(&["file", "été ", "x.y", "世"]), i);
            let text = format!("content of {} é", i);
            let tail = *r.pick(&["", "\n", "\nmore\n", "\n\n"]);
            fs::write(work.join(&name), format!("{}{}", text, tail)).map_err(|e| e.to_string())?;
            c.arg(&name);
            opened.push((name, text));
        }
    }
    let n = *r.pick(&[0, 1, 5, 30, 150]);
    let big = r.chance(1, 4);
    let mut all = Lines::default();
    // half of the time about the files themselves
    for (i, f) in opened.iter().map(|f| &f.0).chain(&missing).enumerate() {
        if n > 0 && r.chance(1, 3) {
            let ok = i < opened.len();
            let id = format!("file {}", i);
            let mut l = json!({"jsonrpc": "2.0", "id": id, "method": "view", "params": f}).to_string().into_bytes();
            l.push(b'\n');
            all.lines.push(l);
            all.due.push(Due { id: json!(id), ok, contains: None, what: format!("view of {}", f) });
        }
    }
    let more = lines_of(r, 0, &[(1, 0)], n, big, ctx);
    let mut quits = None;
    all.lines.extend(more.lines);
    all.due.extend(more.due);
    let told: Vec<String> = more.told.into_iter().map(|t| t.1).collect();
    // an end by quitting, and lines that come too late
    let mut late = Vec::new();
    if r.chance(1, 3) {
        let l = if r.chance(1, 2) {
            json!({"jsonrpc": "2.0", "id": "end", "method": "quit"})
        } else {
            let l = json!({"jsonrpc": "2.0", "id": "before", "method": "menu", "params": {"command": "", "search": ""}});
            all.lines.push(format!("{}\n", l).into_bytes());
            all.due.push(Due { id: json!("before"), ok: true, contains: None, what: "menu".into() });
            json!({"jsonrpc": "2.0", "id": "end", "method": "menu-select", "params": {"command": "", "choice": "quit"}})
        };
        let mut l = l.to_string().into_bytes();
        l.push(b'\n');
        all.lines.push(l);
        all.due.push(Due { id: json!("end"), ok: true, contains: None, what: "quit".into() });
        quits = Some(());
        late.push(b"{\"jsonrpc\":\"2.0\",\"id\":\"late\",\"method\":\"view\",\"params\":\"x\"}\n".to_vec());
    }
    // lines that are no text are skipped
    let mut odd = 0;
    let mut i = 0;
    while i <= all.lines.len() {
        if r.chance(1, 25) && (quits.is_none() || i < all.lines.len()) {
            let l: &[u8] = r.pick::<&[u8]>(&[b"\xff\n", b"{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"view\",\"params\":\"\xc3\"}\n", b"\xf0\x9f\n"]);
            all.lines.insert(i, l.to_vec());
            odd += 1;
            i += 1;
        }
        i += 1;
    }
    let mut lines_in = all.lines;
    if quits.is_some() && r.chance(1, 2) {
        lines_in.extend(late);
    }
    let mut pieces = if lines_in.is_empty() { Vec::new() } else { fragments(r, lines_in) };
    // the last line may lack its end
    if quits.is_none() && r.chance(1, 2) {
        if let Some(l) = pieces.last_mut() {
            // an empty line without its end is no line
            let n = l.len();
            let alone = n == 1 || l[n - 2] == b'\n' || (n >= 2 && l[n - 2] == b'\r');
            if !alone {
                l.pop();
                ctx.count("unterminated last lines");
            }
        }
    }
    // the input stays open: it has to end by itself
    let hold = quits.is_some() && r.chance(1, 2);
    ctx.log(format!("standalone with {} files ({} missing), {} lines ({} odd), quits {:?}", k, missing.len(), all.due.len(), odd, quits));
    let what = format!("standalone with {} files and {} lines", k, all.due.len());
    let late = if r.chance(1, 8) { 400 } else { 0 };
    if late > 0 {
        ctx.count("standalone runs read late");
    }
    let mut run = Run::start(c, Some(pieces), if r.chance(1, 4) { 100 } else { 0 }, hold, late)?;
    let st = run.wait();
    let st = st.ok_or_else(|| format!("{}: it does not end; {} answered; {}", what, digest(&run.stdout()).map(|s| s.responses.len()).unwrap_or(0), run.stderr()))?;
    let seen = digest(&run.stdout())?;
    judge(&seen, &all.due, &told, true, &what, &|| format!("{}: {}", describe(st), run.stderr()))?;
    if !st.success() {
        return Err(format!("{}: {}: {}", what, describe(st), run.stderr()));
    }
    // every file is opened, and shown in turn
    let views: Vec<(String, String)> = seen.views.iter().filter_map(first_lines).collect();
    let mut at = 0;
    for (i, (name, text)) in opened.iter().enumerate() {
        match views[at..].iter().position(|(b, t)| b == name && t.trim_end() == text) {
            Some(j) => at += j + 1,
            None => {
                let again: Vec<&(String, String)> = views.iter().filter(|v| v.0 == *name).collect();
                return Err(format!("{}: file {} of {} ({:?}) is not shown in its turn: {:?}; {}", what, i, opened.len(), name, again.first(), run.stderr()));
            }
        }
        ctx.count("files shown");
    }
    if seen.infos != 1 {
        return Err(format!("{}: the client is introduced {} times", what, seen.infos));
    }
    ctx.add("responses", seen.responses.len() as u64);
    ctx.add("messages", told.len() as u64);
    ctx.add("lines that are no text", odd);
    ctx.count("standalone runs");
    ctx.distinct(hash_str(&format!("standalone {} {} {} {:?}", k, all.due.len(), told.len(), missing)));
    ctx.sample(|| format!("{}: {} views, {} messages, {}", what, seen.views.len(), told.len(), describe(st)));
    Ok(())
}


// ----------------------------------------------------------------------------------- json mode

fn valid_request(r: &mut Rng, i: usize) -> Value {
    let id = match r.below(4) {
        0 => json!(gen_string(r)),
        1 => Value::Null,
        2 => json!(*r.pick(&[0, -1, i32::MAX, i32::MIN])),
        _ => json!(i),
    };
    let mut v = json!({"jsonrpc": "2.0", "id": id, "method": if r.chance(1, 2) { format!("m{}", i) } else { gen_string(r) }});
    if r.chance(4, 5) {
        v["params"] = if r.chance(1, 30) {
            json!("p".repeat(r.range(50_000, 400_000)))
        } else {
            gen_value(r, 3)
        };
    }
    v
}

fn valid_event(r: &mut Rng, i: usize) -> Value {
    match r.below(4) {
        0 => {
            let id = if r.chance(1, 2) { json!(i) } else { json!(gen_string(r)) };
            json!({"jsonrpc": "2.0", "id": id, "result": gen_value(r, 3)})
        }
        1 => {
            let mut e = json!({"code": *r.pick(&[-32600, -32601, 1, 0]), "message": gen_string(r)});
            if r.chance(1, 2) {
                e["data"] = json!(gen_string(r));
            }
            json!({"jsonrpc": "2.0", "id": if r.chance(1, 4) { Value::Null } else { json!(i) }, "error": e})
        }
        _ => {
            let method = if r.chance(1, 2) { format!("n{}", i) } else { (*r.pick(&["echo", "view", "menu", "status", "info", "hint"])).to_string() };
            let mut v = json!({"jsonrpc": "2.0", "method": method});
            if r.chance(4, 5) {
                v["params"] = if r.chance(1, 30) { json!("é".repeat(r.range(50_000, 300_000))) } else { gen_value(r, 3) };
            }
            v
        }
    }
}

/// without the members that say nothing
fn plain(v: &Value) -> Value {
    let mut v = v.clone();
    for k in ["params", "error"] {
        if v.get(k) == Some(&Value::Null) {
            v.as_object_mut().unwrap().remove(k);
        }
    }
    if let Some(e) = v.get_mut("error") {
        if e.get("data") == Some(&Value::Null) {
            e.as_object_mut().unwrap().remove("data");
        }
    }
    v
}

const BROKEN: &[&[u8]] = &[
    b"",
    b"{",
    b"null",
    b"[1]",
    b"plain text",
    b"{\"jsonrpc\":\"2.0\"}",
    b"{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":",
    b"\xff\xfe",
    b"{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"\xc3\"}",
    b"\r",
    b"\0",
];

/// a stream of messages with broken lines between them
fn stream(r: &mut Rng, n: usize, make: &dyn Fn(&mut Rng, usize) -> Value, ctx: &mut Ctx) -> (Vec<Vec<u8>>, Vec<Value>) {
    let mut out = Vec::new();
    let mut sent = Vec::new();
    for i in 0..n {
        if r.chance(1, 8) {
            let mut l = r.pick(BROKEN).to_vec();
            l.push(b'\n');
            out.push(l);
            ctx.count("broken lines");
        }
        let v = make(r, i);
        let mut l = v.to_string().into_bytes();
        if r.chance(1, 10) {
            l.push(b'\r');
        }
        l.push(b'\n');
        out.push(l);
        sent.push(v);
    }
    (out, sent)
}

fn same(got: &[Vec<u8>], sent: &[Value], what: &str, err: &str) -> CaseResult {
    for (i, v) in sent.iter().enumerate() {
        let l = got.get(i).ok_or_else(|| format!("{}: {} of {} messages arrive, the first lost is {}; {}", what, got.len(), sent.len(), cut(&v.to_string()), err))?;
        let g: Value = serde_json::from_slice(l).map_err(|e| format!("{}: message {} arrives as {}: {}", what, i, show(l), e))?;
        if !close(&plain(&g), &plain(v)) {
            return Err(format!("{}: message {} is {} and arrives as {}", what, i, cut(&v.to_string()), show(l)));
        }
    }
    if got.len() > sent.len() {
        return Err(format!("{}: {} messages arrive, {} were sent; {}", what, got.len(), sent.len(), show(&got[sent.len()])));
    }
    Ok(())
}

enum Listener {
    Unix(UnixListener),
    Tcp(TcpListener),
}

fn relay(r: &mut Rng, dir: &Path, ctx: &mut Ctx) -> CaseResult {
    let (listener, name) = if r.chance(1, 3) {
        let l = TcpListener::bind(("127.0.0.1", 0)).map_err(|e| e.to_string())?;
        let p = l.local_addr().map_err(|e| e.to_string())?.port();
        l.set_nonblocking(true).map_err(|e| e.to_string())?;
        (Listener::Tcp(l), format!("@:{}", p))
    } else {
        let name = *r.pick(&["s", "été 1", "@x", "a.b"]);
        fs::create_dir_all(dir.join("ced-verif")).map_err(|e| e.to_string())?;
        let l = UnixListener::bind(dir.join("ced-verif").join(name)).map_err(|e| e.to_string())?;
        l.set_nonblocking(true).map_err(|e| e.to_string())?;
        (Listener::Unix(l), name.to_string())
    };
    let mut c = ced(dir);
    c.arg("--mode=json").arg(format!("--session={}", name));
    if r.chance(1, 2) {
        c.env("LD_PRELOAD", shim())
            .env("CED_SHIM_CUT", r.range(5, 60).to_string())
            .env("CED_SHIM_SEED", r.below(100_000).to_string());
        ctx.count("socket calls cut short");
    }
    let many = *r.pick(&[0, 1, 8, 40, 200]);
    let (in_lines, sent) = stream(r, many, &valid_request, ctx);
    let many = *r.pick(&[0, 1, 8, 40, 200]);
    let (out_lines, told) = stream(r, many, &valid_event, ctx);
    let n_in = in_lines.len();
    let mut pieces = if in_lines.is_empty() { Vec::new() } else { fragments(r, in_lines) };
    let mut unended = false;
    if !pieces.is_empty() && r.chance(1, 3) {
        let l = pieces.last_mut().unwrap();
        if l.len() > 1 && l[l.len() - 2] != b'\r' {
            l.pop();
            unended = true;
        }
    }
    let slow = r.chance(1, 4);
    let hold = !unended && r.chance(1, 3);
    let what = format!("json mode with session {:?}, {} lines in, {} events", name, n_in, told.len());
    ctx.log(format!("{} (input held open: {}, last line unended: {})", what, hold, unended));
    let mut run = Run::start(c, Some(pieces), if slow { 200 } else { 0 }, hold, if r.chance(1, 10) { 300 } else { 0 })?;
    let end = Instant::now() + PATIENCE;
    let mut conn = loop {
        let got = match &listener {
            Listener::Unix(l) => l.accept().map(|x| Sock::Unix(x.0)),
            Listener::Tcp(l) => l.accept().map(|x| Sock::Tcp(x.0)),
        };
        match got {
            Ok(s) => break Conn::new(s)?,
            Err(_) if Instant::now() < end => std::thread::sleep(Duration::from_millis(1)),
            Err(e) => return Err(format!("{}: it does not connect ({}): {}", what, e, run.stderr())),
        }
    };
    if !out_lines.is_empty() {
        conn.out.extend(fragments(r, out_lines));
    }
    // everything has to arrive
    let end = Instant::now() + PATIENCE;
    let mut quiet = Instant::now();
    let mut size = (0, 0);
    while Instant::now() < end + PATIENCE && quiet.elapsed() < PATIENCE {
        pump(&mut [&mut conn], Duration::from_millis(10));
        let n = run.out.lock().unwrap().iter().filter(|&&b| b == b'\n').count();
        if conn.lines.len() >= sent.len() && n >= told.len() && conn.out.is_empty() {
            break;
        }
        if conn.eof {
            return Err(format!("{}: it disconnects after {} of {} messages: {}", what, conn.lines.len(), sent.len(), run.stderr()));
        }
        let now = (conn.received, conn.sent + n as u64);
        if now != size {
            size = now;
            quiet = Instant::now();
        }
    }
    // and nothing else
    let extra = Instant::now() + Duration::from_millis(15);
    while Instant::now() < extra {
        pump(&mut [&mut conn], Duration::from_millis(5));
    }
    let got: Vec<Vec<u8>> = conn.lines.drain(..).collect();
    same(&got, &sent, &format!("{}, to the session", what), &run.stderr())?;
    if !conn.inbuf.is_empty() {
        return Err(format!("{}: the session receives the unended line {}", what, show(&conn.inbuf)));
    }
    same(&lines(&run.stdout())?, &told, &format!("{}, to the output", what), &run.stderr())?;
    if let Ok(Some(st)) = run.child.try_wait() {
        return Err(format!("{}: it ends ({}) while the session goes on: {}", what, describe(st), run.stderr()));
    }
    // last words
    let mut told = told;
    if r.chance(1, 2) {
        let v = json!({"jsonrpc": "2.0", "method": "last", "params": ["é"]});
        told.push(v.clone());
        let mut l = v.to_string().into_bytes();
        if r.chance(2, 3) {
            l.push(b'\n');
        }
        conn.out.push_back(l);
        while !conn.out.is_empty() && !conn.broken {
            pump(&mut [&mut conn], Duration::from_millis(10));
        }
        ctx.count("last words");
    }
    conn.sock.shutdown(Shutdown::Both);
    drop(conn);
    let st = run.wait().ok_or_else(|| format!("{}: the session ends and it does not: {}", what, run.stderr()))?;
    if !st.success() {
        return Err(format!("{}: {}: {}", what, describe(st), run.stderr()));
    }
    same(&lines(&run.stdout())?, &told, &format!("{}, to the output", what), &run.stderr())?;
    ctx.add("relayed to the session", sent.len() as u64);
    ctx.add("relayed to the output", told.len() as u64);
    ctx.distinct(hash_str(&format!("relay {} {:?} {}", name.starts_with("@:"), sent.iter().map(|v| v.to_string().len()).collect::<Vec<_>>(), told.len())));
    ctx.sample(|| what.clone());
    Ok(())
}

/// a real session, started for the occasion or before
fn json_real(r: &mut Rng, dir: &Path, ctx: &mut Ctx) -> CaseResult {
    let name = *r.pick(&["s", "été 1", "a.b"]);
    let socket = dir.join("ced-verif").join(name);
    let mut server = if r.chance(1, 2) { Server::start(dir, name, None, &Conf::default())? } else { None };
    let mut c = ced(dir);
    c.arg("--mode=json").arg(format!("--session={}", name));
    let n = *r.pick(&[0, 3, 20, 80]);
    // the debug buffer, shown at first, grows with each request
    let mut all = Lines::default();
    all.lines.push(b"{\"jsonrpc\":\"2.0\",\"id\":\"first\",\"method\":\"edit\",\"params\":{\"name\":\"own\",\"scratch\":true}}\n".to_vec());
    all.due.push(Due { id: json!("first"), ok: true, contains: None, what: "edit".into() });
    let big = r.chance(1, 4);
    let more = lines_of(r, 0, &[(1, 0)], n, big, ctx);
    all.lines.extend(more.lines);
    // what is no message is not relayed
    all.due.extend(more.due.into_iter().filter(|d| !d.what.starts_with("line ")));
    let told: Vec<String> = more.told.into_iter().map(|t| t.1).collect();
    // what a client is told may be lost once it quits
    let patient = r.chance(2, 3);
    let end = b"{\"jsonrpc\":\"2.0\",\"id\":\"end\",\"method\":\"quit\"}\n".to_vec();
    if !patient {
        all.lines.push(end.clone());
    }
    let want = all.due.len() + told.len();
    all.due.push(Due { id: json!("end"), ok: true, contains: None, what: "quit".into() });
    let what = format!("json mode with a real session {:?} ({}) and {} lines", name, if server.is_some() { "running" } else { "started by it" }, all.due.len());
    ctx.log(what.clone());
    let mut pieces = fragments(r, all.lines);
    let unended = !patient && r.chance(1, 3);
    if unended {
        pieces.last_mut().unwrap().pop();
    }
    let hold = patient || (!unended && r.chance(1, 2));
    let mut run = Run::start(c, Some(pieces), 0, hold, 0)?;
    if patient {
        let mut last = Instant::now();
        let mut size = 0;
        let mut n = 0;
        while n < want && last.elapsed() < PATIENCE {
            std::thread::sleep(Duration::from_millis(1));
            let out = run.out.lock().unwrap();
            if out.len() != size {
                size = out.len();
                last = Instant::now();
                // responses and messages, roughly: judged afterwards
                let text = String::from_utf8_lossy(&out);
                n = text.lines().filter(|l| l.contains("\"id\":") && !l.contains("\"method\":") || l.contains("\"echo\"") && l.contains("msg<")).count();
            }
        }
        if let Some(h) = &run.hold {
            let _ = h.send(end);
        }
    }
    let st = run.wait().ok_or_else(|| {
        format!("{}: it quits and does not end; {} answered; {}", what, digest(&run.stdout()).map(|s| s.responses.len()).unwrap_or(0), run.stderr())
    })?;
    let seen = digest(&run.stdout())?;
    judge(&seen, &all.due, &told, patient, &what, &|| format!("{}: {}", describe(st), run.stderr()))?;
    if !st.success() {
        return Err(format!("{}: {}: {}", what, describe(st), run.stderr()));
    }
    if let Some(s) = server.as_mut() {
        if s.exited(PATIENCE).is_none() {
            return Err(format!("{}: the session's only client quit and the server keeps running", what));
        }
    }
    let end = Instant::now() + PATIENCE;
    while socket.exists() {
        if Instant::now() > end {
            return Err(format!("{}: the session's only client quit and its socket is still there", what));
        }
        std::thread::sleep(Duration::from_millis(2));
    }
    ctx.count(if server.is_some() { "sessions joined" } else { "sessions started" });
    ctx.distinct(hash_str(&format!("real {} {}", name, all.due.len())));
    ctx.sample(|| what.clone());
    Ok(())
}

impl Check for C26Check {
    fn id(&self) -> &'static str {
        "C26"
    }
    fn rule(&self) -> &'static str {
        "runs of the real program: script mode with 0 to 6 scripts (failing ones of every kind, standard input, shared state), standalone mode with 0 to 250 files and up to 150 lines cut into fragments, json mode between its standard streams and a fake server (generated messages and broken lines both ways, compared as values) or a real session; distinct by mode and content"
    }
    fn cases(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 4_000,
            Tier::Thorough => 60_000,
        }
    }
    fn required(&self) -> Vec<&'static str> {
        vec!["script runs", "standalone runs", "files shown", "relayed to the session", "relayed to the output", "sessions started", "sessions joined", "broken lines"]
    }
    fn stall_secs(&self) -> u64 {
        120
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["25 s without any output count as not ending", "in json mode identifiers are those the protocol can express"]
    }
    fn run(&self, case: u64, r: &mut Rng, ctx: &mut Ctx) -> CaseResult {
        let dir = ctx.scratch.join(format!("c{}", case));
        let _ = fs::remove_dir_all(&dir);
        fs::create_dir_all(dir.join("work")).map_err(|e| e.to_string())?;
        let res = match case % 4 {
            0 => script_mode(r, &dir, ctx),
            1 => standalone(r, &dir, ctx),
            2 => relay(r, &dir, ctx),
            _ => json_real(r, &dir, ctx),
        };
        let _ = fs::remove_dir_all(&dir);
        res
    }
}
