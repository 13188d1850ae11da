//! Sessions of several clients on the real editor, the events observed at its boundary, and the
//! operations they are made of.
pub mod gen;
pub mod model;

use crate::run::take_panic;
use ced::editor::verif::Snapshot;
use ced::editor::Editor;
use ced::server::BroadcastMessage;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::time::{Duration, SystemTime};

/// a client that never joins
pub const GHOST: usize = 777;
pub const EVERYONE: usize = usize::MAX / 2 - 7;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Dir {
    Left,
    Right,
    Up,
    Down,
    LineBegin,
    LineEnd,
    Begin,
    End,
}

pub const DIRS: [Dir; 8] = [
    Dir::Left,
    Dir::Right,
    Dir::Up,
    Dir::Down,
    Dir::LineBegin,
    Dir::LineEnd,
    Dir::Begin,
    Dir::End,
];

impl Dir {
    pub fn lua(self) -> &'static str {
        match self {
            Dir::Left => "move_left",
            Dir::Right => "move_right",
            Dir::Up => "move_up",
            Dir::Down => "move_down",
            Dir::LineBegin => "move_to_line_begin",
            Dir::LineEnd => "move_to_line_end",
            Dir::Begin => "move_to_begin",
            Dir::End => "move_to_end",
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum KeyKind {
    Char(char),
    Named(&'static str),
}

/// a key as sent on the wire
#[derive(Clone, Debug, PartialEq)]
pub struct KeyPress {
    pub ctrl: bool,
    pub alt: bool,
    pub shift: bool,
    pub kind: KeyKind,
}

impl KeyPress {
    pub fn plain(c: char) -> KeyPress {
        KeyPress {
            ctrl: false,
            alt: false,
            shift: false,
            kind: KeyKind::Char(c),
        }
    }

    pub fn json(&self) -> Value {
        let key = match &self.kind {
            KeyKind::Char(c) => json!({ "Char": c.to_string() }),
            KeyKind::Named(n) => json!(n),
        };
        json!({"ctrl": self.ctrl, "alt": self.alt, "shift": self.shift, "key": key})
    }

    /// how the key is displayed
    pub fn display(&self) -> String {
        let mut s = String::new();
        if self.ctrl {
            s.push_str("c-");
        }
        if self.alt {
            s.push_str("a-");
        }
        if self.shift {
            s.push_str("s-");
        }
        match &self.kind {
            KeyKind::Char(c) => s.push(c.to_ascii_lowercase()),
            KeyKind::Named(n) => s.push_str(match *n {
                "Backspace" => "bkspc",
                "Enter" => "ret",
                "Escape" => "esc",
                "Up" => "up",
                "Down" => "down",
                "Left" => "left",
                _ => "right",
            }),
        }
        s
    }
}

/// calls made by scripts
#[derive(Clone, Debug, PartialEq)]
pub enum Call {
    Move(usize, Dir, bool),
    Delete(usize),
    /// deletes and sends the deleted texts as a message
    DeleteReport(usize),
    Scratch(usize, String, String),
    Edit(usize, String, bool),
    Append(String, String),
    Message(usize, String),
    Error(usize, String),
    Debug(String),
    Hint(usize, Vec<String>, bool),
    PushStatus(usize),
    /// sends the context as a message to the client running the script
    Context(usize),
    /// sends "client@session" of the environment as a message to the running client
    Env,
    /// error('...')
    Fail(String),
}

impl Call {
    /// the client the call is about
    pub fn target(&self) -> Option<usize> {
        use Call::*;
        match self {
            Move(c, ..) | Delete(c) | DeleteReport(c) | Scratch(c, ..) | Edit(c, ..)
            | Message(c, _) | Error(c, _) | Hint(c, ..) | PushStatus(c) | Context(c) => Some(*c),
            Append(..) | Debug(_) | Env | Fail(_) => None,
        }
    }
}

pub fn lua_str(s: &str) -> String {
    let mut out = String::from("\"");
    for b in s.bytes() {
        if b.is_ascii_alphanumeric() || b == b' ' || b == b'_' || b == b'.' {
            out.push(b as char);
        } else {
            out.push_str(&format!("\\{:03}", b));
        }
    }
    out.push('"');
    out
}

/// what stands for a client in Lua and is none
pub const ODD_IDS: &[&str] = &["-1", "nil", "'x'", "{}", "true", "2^70", "''", "editor"];

pub fn call_lua(call: &Call, by: usize) -> String {
    use Call::*;
    let show = |c: &usize| match usize::MAX - c {
        n if n < ODD_IDS.len() => ODD_IDS[n].to_string(),
        _ => c.to_string(),
    };
    match call {
        Move(c, d, e) => format!("editor:{}({}, {})", d.lua(), show(c), e),
        Delete(c) => format!("editor:delete_selection({})", show(c)),
        DeleteReport(c) => format!(
            "local d = editor:delete_selection({}); table.sort(d); editor:message({}, table.concat(d, \"\\1\"))",
            show(c), show(c)
        ),
        // what is left out has its default
        Scratch(c, n, t) if t.is_empty() && n.len() % 2 == 0 => format!("editor:scratch({}, {})", show(c), lua_str(n)),
        Edit(c, n, false) if n.len() % 2 == 1 => format!("editor:edit({}, {})", show(c), lua_str(n)),
        Scratch(c, n, t) => format!("editor:scratch({}, {}, {})", show(c), lua_str(n), lua_str(t)),
        Edit(c, n, s) => format!("editor:edit({}, {}, {})", show(c), lua_str(n), s),
        Append(b, t) => format!("editor:append_to({}, {})", lua_str(b), lua_str(t)),
        Message(c, t) => format!("editor:message({}, {})", show(c), lua_str(t)),
        Error(c, t) => format!("editor:error({}, {})", show(c), lua_str(t)),
        Debug(t) => format!("editor:debug({})", lua_str(t)),
        Hint(c, lines, framed) => format!(
            "editor:show_hint({}, {{{}}}, {})",
            show(c),
            lines.iter().map(|l| lua_str(l)).collect::<Vec<_>>().join(", "),
            framed
        ),
        PushStatus(c) => format!("editor:push_status_line({})", show(c)),
        Context(c) => format!(
            "local x = editor:get_context({}); local o = {{}}; \
             for b, ss in pairs(x.selections) do for i, s in ipairs(ss) do \
             table.insert(o, b .. \"\\2\" .. i .. \"\\2\" .. s.anchor.offset .. \":\" .. s.anchor.pos.l .. \":\" .. s.anchor.pos.c \
             .. \"\\2\" .. s.cursor.offset .. \":\" .. s.cursor.pos.l .. \":\" .. s.cursor.pos.c .. \"\\2\" .. s.text) end end; \
             table.sort(o); if x.view.key then editor:message({}, x.view.key .. \"\\1\" .. table.concat(o, \"\\1\")) end",
            show(c), by
        ),
        Env => format!("editor:message({}, env.client .. \"@\" .. env.session)", by),
        Fail(t) => format!("error({})", lua_str(t)),
    }
}

/// a call, protected (failures are caught by the script) or not
#[derive(Clone, Debug, PartialEq)]
pub struct ScriptCall {
    pub call: Call,
    pub protected: bool,
}

pub fn script(calls: &[ScriptCall], by: usize) -> String {
    calls
        .iter()
        .map(|c| {
            let body = call_lua(&c.call, by);
            if c.protected {
                format!("pcall(function() {} end)", body)
            } else {
                format!("do {} end", body)
            }
        })
        .collect::<Vec<_>>()
        .join("\n")
}

#[derive(Clone, Debug, PartialEq)]
pub enum Req {
    Edit(String, bool),
    View(String),
    ViewDelete,
    ViewAdd(String),
    ViewRemove(String),
    Menu(String, String),
    /// command, choice, and the equivalent request if the entry exists
    MenuSelect(String, String, Option<Box<Req>>),
    Keys(Vec<KeyPress>),
    Exec(Vec<ScriptCall>),
    Quit,
    /// any line, with the identifier and error codes expected in the response
    Raw(String, Value, Vec<i64>),
}

impl Req {
    pub fn name(&self) -> &'static str {
        match self {
            Req::Edit(_, false) => "edit",
            Req::Edit(_, true) => "edit-scratch",
            Req::View(_) => "view",
            Req::ViewDelete => "view-delete",
            Req::ViewAdd(_) => "view-add",
            Req::ViewRemove(_) => "view-remove",
            Req::Menu(..) => "menu",
            Req::MenuSelect(..) => "menu-select",
            Req::Keys(_) => "keys",
            Req::Exec(_) => "exec",
            Req::Quit => "quit",
            Req::Raw(..) => "raw",
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Disk {
    Write(String, Vec<u8>),
    Remove(String),
    Mkdir(String),
    /// only changes the modification time
    Touch(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Join(usize),
    Leave(usize),
    Req(usize, Value, Req),
    Disk(Disk),
}

impl Op {
    pub fn kind(&self) -> &'static str {
        match self {
            Op::Join(_) => "join",
            Op::Leave(_) => "leave",
            Op::Req(_, _, r) => r.name(),
            Op::Disk(_) => "disk",
        }
    }

    pub fn client(&self) -> Option<usize> {
        match self {
            Op::Join(c) | Op::Leave(c) | Op::Req(c, _, _) => Some(*c),
            Op::Disk(_) => None,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Note {
    /// known clients (connected or gone) it is sent to
    pub to: Vec<usize>,
    pub everyone: bool,
    pub method: String,
    pub params: Value,
}

pub struct Step {
    pub op: Op,
    pub line: String,
    pub pre: Snapshot,
    pub post: Snapshot,
    /// Ok(response) or the error of `handle`
    pub resp: Option<Result<Value, String>>,
    pub notes: Vec<Note>,
    pub stopped: Vec<usize>,
}

pub struct Session {
    pub name: String,
    pub dir: PathBuf,
    ed: Option<Editor>,
    rx: async_channel::Receiver<BroadcastMessage>,
    pub snap: Snapshot,
    pub connected: BTreeSet<usize>,
    pub gone: BTreeSet<usize>,
    pub next_client: usize,
    /// last view, status received by client
    pub last_view: BTreeMap<usize, Value>,
    pub last_status: BTreeMap<usize, Value>,
    stamp: u64,
    /// modification time of the files written, as a stamp
    pub stamps: BTreeMap<String, u64>,
    old_dir: PathBuf,
}

fn request_line(id: &Value, c: usize, req: &Req) -> String {
    let line = |method: &str, params: Option<Value>| {
        let mut v = json!({"jsonrpc": "2.0", "id": id, "method": method});
        if let Some(p) = params {
            v["params"] = p;
        }
        v.to_string()
    };
    match req {
        Req::Edit(n, s) => line("edit", Some(json!({"name": n, "scratch": s}))),
        Req::View(n) => line("view", Some(json!(n))),
        Req::ViewDelete => line("view-delete", None),
        Req::ViewAdd(n) => line("view-add", Some(json!(n))),
        Req::ViewRemove(n) => line("view-remove", Some(json!(n))),
        Req::Menu(m, s) => line("menu", Some(json!({"command": m, "search": s}))),
        Req::MenuSelect(m, ch, _) => line("menu-select", Some(json!({"command": m, "choice": ch}))),
        Req::Keys(ks) => line(
            "keys",
            Some(Value::Array(ks.iter().map(KeyPress::json).collect())),
        ),
        Req::Exec(calls) => line("exec", Some(json!(script(calls, c)))),
        Req::Quit => line("quit", None),
        Req::Raw(l, _, _) => l.clone(),
    }
}

pub fn write_at(path: &Path, content: &[u8], stamp: u64) -> std::io::Result<()> {
    let mut f = fs::File::create(path)?;
    f.write_all(content)?;
    f.set_modified(SystemTime::UNIX_EPOCH + Duration::from_secs(1_500_000_000) + Duration::from_millis(stamp * 37))?;
    Ok(())
}

impl Session {
    /// a fresh editor in its own directory below `scratch`
    pub fn new(scratch: &Path, name: &str, files: &[(String, Vec<u8>)], dirs: &[&str]) -> Session {
        let dir = scratch.join("s");
        let _ = fs::remove_dir_all(&dir);
        fs::create_dir_all(&dir).expect("session dir");
        let old_dir = scratch.to_path_buf();
        std::env::set_current_dir(&dir).expect("chdir");
        for d in dirs {
            fs::create_dir_all(dir.join(d)).expect("mkdir");
        }
        let (tx, rx) = async_channel::unbounded();
        let mut s = Session {
            name: name.to_string(),
            dir,
            ed: None,
            rx,
            snap: Snapshot::default(),
            connected: BTreeSet::new(),
            gone: std::iter::once(GHOST).collect(),
            next_client: 1,
            last_view: BTreeMap::new(),
            last_status: BTreeMap::new(),
            stamp: 1000,
            stamps: BTreeMap::new(),
            old_dir,
        };
        for (n, c) in files {
            s.disk(&Disk::Write(n.clone(), c.clone()));
        }
        let ed = Editor::new(name, tx);
        s.snap = ed.verif_snapshot();
        s.ed = Some(ed);
        s
    }

    pub fn editor(&mut self) -> &mut Editor {
        self.ed.as_mut().unwrap()
    }

    fn next_stamp(&mut self) -> u64 {
        // later and earlier times, all distinct
        self.stamp += 1;
        if self.stamp % 3 == 0 {
            10_000 - self.stamp
        } else {
            10_000 + self.stamp
        }
    }

    fn disk(&mut self, op: &Disk) {
        match op {
            Disk::Write(n, c) => {
                let p = self.dir.join(n);
                if p.is_dir() {
                    let _ = fs::remove_dir_all(&p);
                }
                let st = self.next_stamp();
                if let Some(above) = p.parent() {
                    fs::create_dir_all(above).expect("directories");
                }
                if st % 4 == 1 && !p.exists() {
                    // a file reached through a symbolic link
                    let store = self.dir.join(".store");
                    let target = store.join(st.to_string());
                    let made = fs::create_dir_all(&store)
                        .and_then(|_| fs::write(&target, b""))
                        .and_then(|_| std::os::unix::fs::symlink(&target, &p));
                    made.expect("link file");
                }
                write_at(&p, c, st).expect("write file");
                self.stamps.insert(n.clone(), st);
            }
            Disk::Remove(n) => {
                let p = self.dir.join(n);
                let _ = if p.is_dir() {
                    fs::remove_dir_all(&p)
                } else {
                    fs::remove_file(&p)
                };
            }
            Disk::Mkdir(n) => {
                let p = self.dir.join(n);
                if p.is_file() {
                    let _ = fs::remove_file(&p);
                }
                fs::create_dir_all(&p).expect("mkdir");
            }
            Disk::Touch(n) => {
                let p = self.dir.join(n);
                if let Ok(c) = fs::read(&p) {
                    let st = self.next_stamp();
                    write_at(&p, &c, st).expect("touch");
                    self.stamps.insert(n.clone(), st);
                }
            }
        }
    }

    fn drain(&mut self) -> Vec<Note> {
        let mut notes = Vec::new();
        while let Ok(bm) = self.rx.try_recv() {
            let to = self
                .connected
                .iter()
                .chain(self.gone.iter())
                .copied()
                .filter(|c| bm.should_notify(*c))
                .collect();
            let v: Value = serde_json::from_str(&bm.message.to_string()).unwrap_or(Value::Null);
            notes.push(Note {
                to,
                everyone: bm.should_notify(EVERYONE),
                method: bm.message.method.clone(),
                params: v["params"].clone(),
            });
        }
        notes
    }

    /// runs the operation and observes; Err is a panic
    pub fn step(&mut self, op: Op) -> Result<Step, String> {
        let pre = self.snap.clone();
        let mut line = String::new();
        let mut resp = None;
        match &op {
            Op::Join(c) => {
                self.connected.insert(*c);
                self.next_client = self.next_client.max(*c + 1);
            }
            Op::Req(c, id, r) => line = request_line(id, *c, r),
            _ => {}
        }
        let mut stopped = Vec::new();
        if let Op::Disk(d) = &op {
            let d = d.clone();
            self.disk(&d);
        } else {
            let ed = self.ed.as_mut().unwrap();
            let r = catch_unwind(AssertUnwindSafe(|| {
                let resp = match &op {
                    Op::Join(c) => {
                        ed.add_client(*c);
                        None
                    }
                    Op::Leave(c) => {
                        ed.remove_client(*c);
                        None
                    }
                    Op::Req(c, _, _) => Some(ed.handle(*c, &line).map(|r| r.to_string())),
                    Op::Disk(_) => None,
                };
                (resp, ed.removed_clients(), ed.verif_snapshot())
            }));
            match r {
                Err(_) => {
                    // the state may be poisoned: never drop or use this editor again
                    std::mem::forget(self.ed.take());
                    return Err(take_panic());
                }
                Ok((r, st, snap)) => {
                    resp = r.map(|r| match r {
                        Ok(s) => match serde_json::from_str(&s) {
                            Ok(v) => Ok(v),
                            Err(e) => Err(format!("response is not JSON ({}): {}", e, s)),
                        },
                        Err(e) => Err(format!("no response: {}", e)),
                    });
                    stopped = st;
                    self.snap = snap;
                }
            }
        }
        let notes = self.drain();
        // as the server does: connections of clients that quit are closed, then reported as left
        if let Op::Leave(c) = &op {
            self.connected.remove(c);
            self.gone.insert(*c);
        }
        for c in &stopped {
            self.connected.remove(c);
            self.gone.insert(*c);
        }
        for n in &notes {
            for c in &n.to {
                if n.method == "view" {
                    self.last_view.insert(*c, n.params.clone());
                } else if n.method == "status" {
                    self.last_status.insert(*c, n.params.clone());
                }
            }
        }
        Ok(Step {
            op,
            line,
            pre,
            post: self.snap.clone(),
            resp,
            notes,
            stopped,
        })
    }
}

impl Drop for Session {
    fn drop(&mut self) {
        if let Some(ed) = self.ed.take() {
            let _ = catch_unwind(AssertUnwindSafe(|| drop(ed)));
        }
        let _ = std::env::set_current_dir(&self.old_dir);
        let _ = fs::remove_dir_all(&self.dir);
    }
}
