//! Generation of sessions: which operations, on what, with which contents.
use super::model::{FileState, Model, MENUS};
use super::*;
use crate::rng::Rng;
use crate::text::{gen_atom, gen_text};

/// relative weights of what a session is made of
#[derive(Clone)]
pub struct Profile {
    pub join: u32,
    pub leave: u32,
    pub quit: u32,
    pub edit: u32,
    pub edit_scratch: u32,
    pub view: u32,
    pub view_delete: u32,
    pub view_add: u32,
    pub view_remove: u32,
    pub menu: u32,
    pub menu_select: u32,
    pub keys: u32,
    pub exec: u32,
    pub raw: u32,
    pub disk: u32,
    /// of the calls of scripts
    pub c_move: u32,
    pub c_delete: u32,
    pub c_scratch: u32,
    pub c_edit: u32,
    pub c_append: u32,
    pub c_message: u32,
    pub c_log: u32,
    pub c_hint: u32,
    pub c_status: u32,
    pub c_context: u32,
    pub c_fail: u32,
    /// per thousand: a call names any client rather than the running one
    pub other_client: u64,
    /// per thousand: a call names an unknown client
    pub unknown_client: u64,
    pub protected: u64,
    /// per thousand: a request comes from a client that is gone or never came
    pub ghost: u64,
    /// keys are mostly movements
    pub move_keys: bool,
    pub max_clients: usize,
    /// lines and width of generated texts
    pub lines: usize,
    pub width: usize,
    /// per thousand: several operations that have to do with each other are begun
    pub plans: u64,
    /// many buffers and files, long messages and rows of keys
    pub many: bool,
    /// texts contain carriage returns and other line-end like characters
    pub cr: bool,
}

impl Profile {
    pub fn base() -> Profile {
        Profile {
            join: 4,
            leave: 3,
            quit: 1,
            edit: 10,
            edit_scratch: 6,
            view: 8,
            view_delete: 3,
            view_add: 8,
            view_remove: 5,
            menu: 4,
            menu_select: 5,
            keys: 20,
            exec: 25,
            raw: 3,
            disk: 6,
            c_move: 10,
            c_delete: 6,
            c_scratch: 4,
            c_edit: 3,
            c_append: 4,
            c_message: 3,
            c_log: 1,
            c_hint: 1,
            c_status: 1,
            c_context: 1,
            c_fail: 1,
            other_client: 150,
            unknown_client: 20,
            protected: 300,
            ghost: 15,
            move_keys: false,
            max_clients: 4,
            lines: 6,
            width: 8,
            plans: 40,
            many: false,
            cr: false,
        }
    }
}

pub const FILES: &[&str] = &[
    "a.txt",
    "b.txt",
    "sub/c.txt",
    "D e.txt",
    "é日.md",
    ".hidden",
    "sub/.hid",
    "ignored.txt",
    "sub/ignored2.txt",
    "bad.bin",
];

const ODD_NAMES: &[&str] = &[
    "", " ", "*", "a|b", "x\ny", "*scratch*", "*debug*", "*messages*", "*errors*", "nofile.txt",
    "sub", "..", ".", "/", "./sub", "a.txt/", "nul\u{0}", "日本", "[x]", "'\"\\", "a,b", "whole",
    "a:whole", "*debug*:*", "*scratch*|*debug*", "🦊",
    "a.txt ", " a.txt", "b.txt\n",
    "a", "b", "ab", "a{*}|b", "a{*}", "a\\", "a\\|b", "a{*}b", "|",
];

/// names that could be confused with others, or with several, once parts of the key of a view
const CLOSE_NAMES: &[&str] = &[
    "a|b", "a", "b", "ab", "a{*}|b", "a{*}", "a\\", "a\\|b", "a{*}b", "|", "a,b", "*scratch*|*debug*", "*debug*:*",
];

pub struct Gen {
    pub p: Profile,
    pub pending_leave: Vec<usize>,
    id: i64,
    /// what is left of it, the last one first
    plan: Vec<Op>,
    pub planned: u64,
}

/// a long text whose characters of several bytes lie across every likely limit
pub fn long_text(r: &mut Rng) -> String {
    let n = match r.below(8) {
        0 => r.range(20, 6000),
        1 => *r.pick(&[4096, 8192, 10_000, 16_384, 65_536]),
        _ => *r.pick(&[32, 50, 60, 64, 72, 80, 100, 120, 127, 128, 200, 255, 256, 300, 500, 512, 1000, 1024, 2048]),
    };
    let mut t = "x".repeat(r.below(4));
    let wide = ["é", "€", "🦊", "日", "e\u{301}"];
    let w = *r.pick(&wide);
    let mixed = r.chance(1, 3);
    while t.len() < n + 8 {
        t.push_str(if mixed { *r.pick(&wide) } else { w });
    }
    t
}

pub fn content(r: &mut Rng, p: &Profile) -> String {
    let t = if p.many && r.chance(1, 2) {
        // a few long lines, or many short ones
        if r.chance(1, 2) {
            gen_text(r, 5, 700)
        } else {
            gen_text(r, 700, 4)
        }
    } else if r.chance(1, 40) {
        let n = r.range(20, 60);
        gen_text(r, n, 12)
    } else {
        gen_text(r, p.lines, p.width)
    };
    if p.cr {
        t
    } else {
        t.replace('\r', "r")
    }
}

pub fn file_content(r: &mut Rng, p: &Profile) -> Vec<u8> {
    if r.chance(1, 12) {
        let mut b = content(r, p).into_bytes();
        let at = r.below(b.len() + 1);
        let bad: &[u8] = *r.pick(&[
            &b"\xff"[..],
            &b"\xc3"[..],
            &b"\xe2\x82"[..],
            &b"\xed\xa0\x80"[..],
            &b"\xf4\x90\x80\x80"[..],
            &b"\x80"[..],
        ]);
        b.splice(at..at, bad.iter().copied());
        if std::str::from_utf8(&b).is_err() {
            return b;
        }
    }
    if p.many && r.chance(1, 25) {
        // a large file, of long lines
        let (n, w) = (r.range(20, 260), r.range(300, 1200));
        let unit = if r.chance(1, 2) { "x" } else { "é" };
        return (0..n).map(|i| format!("{} {}\n", i, unit.repeat(w))).collect::<String>().into_bytes();
    }
    let c = content(r, p);
    if p.cr && r.chance(1, 2) {
        // lines ended by a carriage return and a newline, some or all of them
        let some = r.chance(1, 2);
        return c.split('\n').map(|l| if some && r.chance(1, 2) { l.to_string() } else { format!("{}\r", l) }).collect::<Vec<_>>().join("\n").into_bytes();
    }
    c.into_bytes()
}

pub fn initial_files(r: &mut Rng, p: &Profile) -> Vec<(String, Vec<u8>)> {
    let mut files = vec![(".ignore".to_string(), b"ignored*\n".to_vec())];
    if p.many {
        for i in 0..r.range(20, 300) {
            files.push((format!("{}f{}.txt", r.pick(&["", "sub/"]), i), format!("{}\n", i).into_bytes()));
        }
    }
    for n in FILES {
        if r.chance(2, 3) {
            let c = if *n == "bad.bin" {
                b"abc\xff\n".to_vec()
            } else {
                file_content(r, p)
            };
            files.push((n.to_string(), c));
        }
    }
    if r.chance(1, 5) {
        // further down, with all sorts of names
        for i in 0..r.range(1, 5) {
            let mut n = String::new();
            for _ in 0..r.range(0, 10) {
                n += r.pick(&["d", "src", "A b", "é", "-x", "x.y", "target", "node_modules", ".h", "build", "#"]);
                n.push('/');
            }
            n += r.pick(&["Makefile", "x.tar.gz", "core", "a~", "#a#", "UP.TXT", "\\", "a:1", "日本", ".dot", "-", "a|b{*}", "x.bak", "x.o", "tail ", " lead", "new\nline", "ctrl\u{1}"]);
            if files.iter().all(|(f, _)| *f != n && !f.starts_with(&format!("{}/", n)) && !n.starts_with(&format!("{}/", f))) {
                files.push((n, format!("{}\n", i).into_bytes()));
            }
        }
    }
    files
}

pub const DIRS0: &[&str] = &["sub", "empty"];

pub fn gen_id(r: &mut Rng, n: i64) -> Value {
    match r.weighted(&[10, 3, 1, 1, 1]) {
        0 => json!(n),
        1 => json!(format!("r{}", n)),
        2 => json!(-n),
        3 => r
            .pick(&[json!(""), json!("a\"b\\\n€"), json!(2147483647), json!(-2147483648)])
            .clone(),
        _ => Value::Null,
    }
}

impl Gen {
    pub fn new(p: Profile) -> Gen {
        Gen {
            p,
            pending_leave: Vec::new(),
            id: 0,
            plan: Vec::new(),
            planned: 0,
        }
    }

    fn buffer_name(&self, r: &mut Rng, s: &Session) -> String {
        if r.chance(1, 150) {
            return long_text(r);
        }
        let names: Vec<&String> = s.snap.buffers.keys().collect();
        match r.weighted(&[14, 4, 2]) {
            0 if !names.is_empty() => (*r.pick(&names)).clone(),
            1 => r.pick(FILES).to_string(),
            _ => r.pick(ODD_NAMES).to_string(),
        }
    }

    fn new_name(&self, r: &mut Rng, s: &Session) -> String {
        if r.chance(1, 60) {
            return long_text(r);
        }
        if r.chance(1, 2) && s.snap.buffers.keys().any(|n| CLOSE_NAMES.contains(&n.as_str())) {
            return r.pick(CLOSE_NAMES).to_string();
        }
        match r.weighted(&[8, 2]) {
            0 => format!("s{}", r.below(if self.p.many { 60 } else { 4 })),
            _ => {
                let n = *r.pick(ODD_NAMES);
                if is_log_name(n) {
                    "s0".to_string()
                } else {
                    n.to_string()
                }
            }
        }
    }

    fn file_name(&self, r: &mut Rng, s: &Session) -> String {
        let open = open_files(s);
        if !open.is_empty() && r.chance(2, 5) {
            return r.pick(&open).clone();
        }
        match r.weighted(&[14, 1, 1, 2, 2]) {
            0 => r.pick(FILES).to_string(),
            1 => format!("./{}", r.pick(FILES)),
            2 => format!("{}/{}", s.dir.display(), r.pick(FILES)),
            3 => self.buffer_name(r, s),
            _ => r.pick(ODD_NAMES).to_string(),
        }
    }

    fn view_name(&self, r: &mut Rng, s: &Session) -> String {
        let keys: Vec<&String> = s.snap.views.keys().collect();
        match r.weighted(&[8, 6, 1]) {
            0 if !keys.is_empty() => (*r.pick(&keys)).clone(),
            2 => r.pick(ODD_NAMES).to_string(),
            _ => self.buffer_name(r, s),
        }
    }

    pub fn key(&self, r: &mut Rng) -> KeyPress {
        let mut k = KeyPress::plain('h');
        if self.p.move_keys || r.chance(1, 3) {
            k = KeyPress::plain(*r.pick(&['h', 'j', 'k', 'l']));
            k.shift = r.chance(1, 3);
            if r.chance(1, 8) {
                k = KeyPress::plain('g');
                k.shift = r.chance(1, 2);
            }
            return k;
        }
        match r.weighted(&[12, 6, 2, 2]) {
            0 => {
                k = KeyPress::plain(*r.pick(&[
                    'h', 'j', 'k', 'l', 'g', 'i', 'd', 'm', 'e', 'd', 'g', 'i',
                ]));
                k.shift = r.chance(1, 4);
            }
            1 => {
                k.kind = KeyKind::Named("Escape");
            }
            2 => {
                k.kind = KeyKind::Named(*r.pick(&[
                    "Backspace", "Enter", "Escape", "Up", "Down", "Left", "Right",
                ]));
                k.ctrl = r.chance(1, 4);
                k.alt = r.chance(1, 4);
                k.shift = r.chance(1, 4);
            }
            _ => {
                k = KeyPress::plain(*r.pick(&[
                    'a', 'z', 'G', 'H', 'I', 'D', ' ', '-', '€', 'é', '🦊', '\n', '\u{0}', '1',
                    'h', 'g', 'i', 'd',
                ]));
                k.ctrl = r.chance(1, 3);
                k.alt = r.chance(1, 3);
                k.shift = r.chance(1, 3);
            }
        }
        k
    }

    fn target(&self, r: &mut Rng, s: &Session, by: usize) -> usize {
        if r.chance(self.p.unknown_client, 1000) {
            let mut gone: Vec<usize> = s.gone.iter().copied().collect();
            gone.extend([0, 4242, s.next_client + 7, usize::MAX - r.below(super::ODD_IDS.len())]);
            return *r.pick(&gone);
        }
        if r.chance(self.p.other_client, 1000) {
            let all: Vec<usize> = s.connected.iter().copied().collect();
            if !all.is_empty() {
                return *r.pick(&all);
            }
        }
        by
    }

    fn message_text(&self, r: &mut Rng) -> String {
        if r.chance(1, 30) {
            return long_text(r);
        }
        let n = if self.p.many && r.chance(1, 3) { r.range(20, 3000) } else { r.below(4) };
        let mut t = String::new();
        for i in 0..n {
            if i > 0 {
                t.push_str(*r.pick(&[" ", "\n", "  ", "\t", "|"]));
            }
            for _ in 0..r.below(5) {
                t.push_str(gen_atom(r));
            }
        }
        t.replace('\r', "r").replace('\u{1}', "1")
    }

    fn call(&self, r: &mut Rng, s: &Session, by: usize) -> Call {
        let p = &self.p;
        let w = [
            p.c_move, p.c_delete, p.c_scratch, p.c_edit, p.c_append, p.c_message, p.c_log, p.c_hint,
            p.c_status, p.c_context, p.c_fail,
        ];
        let t = self.target(r, s, by);
        match r.weighted(&w) {
            0 => Call::Move(t, *r.pick(&DIRS), r.chance(1, 2)),
            1 => {
                if r.chance(1, 2) {
                    Call::Delete(t)
                } else {
                    Call::DeleteReport(t)
                }
            }
            2 => {
                let name = if r.chance(1, 2) {
                    let n = self.buffer_name(r, s);
                    if is_log_name(&n) && r.chance(3, 4) {
                        "s1".to_string()
                    } else {
                        n
                    }
                } else {
                    self.new_name(r, s)
                };
                Call::Scratch(t, name, if r.chance(1, 8) { String::new() } else { content(r, p) })
            }
            3 => {
                let scratch = r.chance(1, 3);
                let name = if scratch {
                    if r.chance(1, 5) {
                        self.buffer_name(r, s)
                    } else {
                        self.new_name(r, s)
                    }
                } else {
                    self.file_name(r, s)
                };
                Call::Edit(t, name, scratch)
            }
            4 => {
                let mut name = if r.chance(4, 5) {
                    self.buffer_name(r, s)
                } else {
                    self.new_name(r, s)
                };
                if is_log_name(&name) {
                    name = "s2".to_string();
                }
                if name == "*scratch*" && !s.snap.buffers.contains_key(&name) {
                    name = "s3".to_string();
                }
                Call::Append(name, content(r, p))
            }
            5 => {
                if r.chance(3, 5) {
                    Call::Message(t, self.message_text(r))
                } else {
                    Call::Error(t, self.message_text(r))
                }
            }
            6 => Call::Debug(self.message_text(r)),
            7 => {
                let n = r.below(4);
                let lines = (0..n)
                    .map(|_| self.message_text(r).replace('\n', " "))
                    .collect();
                Call::Hint(t, lines, r.chance(1, 2))
            }
            8 => Call::PushStatus(t),
            9 => {
                if r.chance(1, 3) {
                    Call::Env
                } else {
                    Call::Context(t)
                }
            }
            _ => Call::Fail(self.message_text(r)),
        }
    }

    pub fn calls(&self, r: &mut Rng, s: &Session, by: usize) -> Vec<ScriptCall> {
        let n = match r.weighted(&[5, 3, 1]) {
            0 => 1,
            1 => r.range(2, 4),
            _ => r.range(5, 9),
        };
        (0..n)
            .map(|_| ScriptCall {
                call: self.call(r, s, by),
                protected: r.chance(self.p.protected, 1000),
            })
            .collect()
    }

    pub fn disk(&self, r: &mut Rng, s: &Session, m: &Model) -> Disk {
        let mut n = r.pick(FILES).to_string();
        let open: Vec<String> = open_files(s).iter().map(|b| m.file_of(b)).collect();
        if !open.is_empty() && r.chance(3, 5) {
            n = r.pick(&open).clone();
        }
        match r.weighted(&[10, 2, 1, 2]) {
            0 => {
                // often a variation of the current content
                let c = match m.files.get(&n) {
                    Some(FileState::Text(t, _)) if r.chance(1, 2) => vary(r, &self.p, t).into_bytes(),
                    _ => file_content(r, &self.p),
                };
                Disk::Write(n, c)
            }
            1 => Disk::Remove(n),
            2 => Disk::Mkdir(n),
            _ => Disk::Touch(n),
        }
    }

    fn raw(&self, r: &mut Rng, id: &Value) -> Req {
        let bad = |l: &str| Req::Raw(l.to_string(), Value::Null, vec![-32600]);
        match r.weighted(&[5, 3, 5, 2, 3]) {
            4 => {
                let t = long_text(r);
                match r.below(6) {
                    0 => bad(&t),
                    1 => bad(&format!("{{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"{}", t)),
                    2 => bad(&json!({"jsonrpc": "2.0", "id": 1, "params": t}).to_string()),
                    3 => bad(&format!("{} {}", json!({"jsonrpc": "2.0", "id": 1, "method": "quit"}), t)),
                    4 => Req::Raw(
                        json!({"jsonrpc": "2.0", "id": id, "method": t, "params": null}).to_string(),
                        id.clone(),
                        vec![-32601],
                    ),
                    _ => {
                        let m = *r.pick(&["edit", "menu", "menu-select", "keys"]);
                        Req::Raw(
                            json!({"jsonrpc": "2.0", "id": id, "method": m, "params": t}).to_string(),
                            id.clone(),
                            vec![-32602],
                        )
                    }
                }
            }
            0 => {
                let l = *r.pick(&[
                    "", " ", "{", "}", "null", "[]", "42", "\"x\"", "true", "{}", "[1,2]", "{\"jsonrpc\":\"2.0\"}",
                    "{\"jsonrpc\":\"2.0\",\"method\":\"quit\"}",
                    "{\"jsonrpc\":\"2.0\",\"id\":1}",
                    "{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":3}",
                    "{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":null}",
                    "{\"jsonrpc\":\"2.0\",\"id\":[1],\"method\":\"quit\"}",
                    "{\"jsonrpc\":\"2.0\",\"id\":{},\"method\":\"quit\"}",
                    "{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"quit\"} x",
                    "{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"quit\"",
                    "[{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"quit\"}]",
                    "quit", "\u{0}", "\u{feff}{}", "🦊🦊", "{\"a\":\"\u{1}\"}", "\\", "'", "{'jsonrpc':'2.0'}",
                    "{\"jsonrpc\":\"2.0\",\"id\":1,\"id\":2,\"method\":\"quit\"}",
                    "{\"id\":1,\"method\":\"quit\"}",
                    "{\"jsonrpc\":2.0,\"id\":1,\"method\":\"quit\"}",
                ]);
                bad(l)
            }
            1 => {
                let m = *r.pick(&[
                    "frobnicate", "Edit", "", "view_add", "quit ", "editor", "日本", "viewdelete", "Keys",
                    "menu_select", "exec\n",
                ]);
                Req::Raw(
                    json!({"jsonrpc": "2.0", "id": id, "method": m, "params": {"name": "x"}}).to_string(),
                    id.clone(),
                    vec![-32601],
                )
            }
            2 => {
                let cases: Vec<(&str, Value)> = vec![
                    ("edit", json!(3)),
                    ("edit", json!("a.txt")),
                    ("edit", json!({"name": 3, "scratch": true})),
                    ("edit", json!({"name": "a.txt"})),
                    ("edit", json!({"scratch": true})),
                    ("edit", json!({"name": "a.txt", "scratch": 1})),
                    ("edit", json!({"name": ["a.txt"], "scratch": true})),
                    ("view", json!(3)),
                    ("view", json!({"x": 1})),
                    ("view", json!(["a.txt"])),
                    ("view-add", json!(3)),
                    ("view-add", json!(true)),
                    ("view-remove", json!([])),
                    ("view-remove", json!({})),
                    ("menu", json!("x")),
                    ("menu", json!({"command": 3, "search": ""})),
                    ("menu", json!({"command": "open"})),
                    ("menu-select", json!({"command": "open"})),
                    ("menu-select", json!({"command": "open", "choice": 3})),
                    ("menu-select", json!(5)),
                    ("keys", json!("x")),
                    ("keys", json!(["x"])),
                    ("keys", json!([{"ctrl": false, "alt": false, "shift": false, "key": {"Char": "ab"}}])),
                    ("keys", json!([{"ctrl": false, "alt": false, "shift": false, "key": "Nope"}])),
                    ("keys", json!([{"ctrl": 1, "alt": false, "shift": false, "key": {"Char": "a"}}])),
                    ("keys", json!({"ctrl": false})),
                    ("exec", json!(3)),
                    ("exec", json!(["editor"])),
                    ("exec", json!({"source": ""})),
                ];
                let (m, p) = r.pick(&cases);
                Req::Raw(
                    json!({"jsonrpc": "2.0", "id": id, "method": m, "params": p}).to_string(),
                    id.clone(),
                    vec![-32602],
                )
            }
            _ => {
                let m = *r.pick(&[
                    "edit", "view", "view-add", "view-remove", "menu", "menu-select", "keys", "exec",
                ]);
                Req::Raw(
                    json!({"jsonrpc": "2.0", "id": id, "method": m}).to_string(),
                    id.clone(),
                    vec![-32600, -32602],
                )
            }
        }
    }

    pub fn search(&self, r: &mut Rng, m: &Model) -> String {
        let labels: Vec<&String> = m.menus.values().flatten().map(|e| &e.1).collect();
        gen_search(r, &labels)
    }

    fn menu(&self, r: &mut Rng, m: &Model) -> Req {
        let cmd = if r.chance(1, 15) {
            if r.chance(1, 4) {
                long_text(r)
            } else {
                (*r.pick(&["nope", "Open", "view-select", " ", "日"])).to_string()
            }
        } else {
            r.pick(&MENUS).to_string()
        };
        let search = if r.chance(1, 2) {
            String::new()
        } else {
            self.search(r, m)
        };
        Req::Menu(cmd, search)
    }

    fn menu_select(&self, r: &mut Rng, s: &Session, m: &Model, by: usize) -> Req {
        let cmd = if r.chance(1, 15) {
            (*r.pick(&["nope", "Open", "view-select", " "])).to_string()
        } else {
            let populated: Vec<&String> = m.menus.keys().collect();
            if !populated.is_empty() && r.chance(4, 5) {
                (*r.pick(&populated)).clone()
            } else {
                r.pick(&MENUS).to_string()
            }
        };
        let known: Vec<&(String, String)> = m.menus.get(&cmd).map(|l| l.iter().collect()).unwrap_or_default();
        let pick = |r: &mut Rng| -> String {
            if r.chance(1, 80) {
                long_text(r)
            } else if known.is_empty() || r.chance(1, 10) {
                (*r.pick(&["", "nope", "a.txt", "*scratch*", "quit ", "sub", "ignored.txt", ".hidden"])).to_string()
            } else {
                r.pick(&known).0.clone()
            }
        };
        match cmd.as_str() {
            "" => {
                let ch = (*r.pick(&[
                    "open", "scratch", "view_select", "view_delete", "view_add", "view_remove", "exec",
                    "open", "scratch", "view_select", "view_add", "view_remove", "exec", "nope", "", "Open file",
                    "quit",
                ]))
                .to_string();
                Req::MenuSelect(cmd, ch, None)
            }
            "open" => {
                let ch = pick(r);
                let eq = Req::Edit(ch.clone(), false);
                Req::MenuSelect(cmd, ch, Some(Box::new(eq)))
            }
            "scratch" => {
                let ch = self.new_name(r, s);
                let eq = Req::Edit(ch.clone(), true);
                Req::MenuSelect(cmd, ch, Some(Box::new(eq)))
            }
            "view_select" => {
                let ch = pick(r);
                let eq = Req::View(ch.clone());
                Req::MenuSelect(cmd, ch, Some(Box::new(eq)))
            }
            "view_add" => {
                let ch = pick(r);
                let eq = Req::ViewAdd(ch.clone());
                Req::MenuSelect(cmd, ch, Some(Box::new(eq)))
            }
            "view_remove" => {
                let ch = pick(r);
                let eq = Req::ViewRemove(ch.clone());
                Req::MenuSelect(cmd, ch, Some(Box::new(eq)))
            }
            "exec" => {
                let calls = self.calls(r, s, by);
                let ch = script(&calls, by);
                Req::MenuSelect(cmd, ch, Some(Box::new(Req::Exec(calls))))
            }
            _ => {
                let ch = pick(r);
                Req::MenuSelect(cmd, ch, None)
            }
        }
    }

    /// several operations on the same things, that random ones seldom bring about in this order
    fn make_plan(&mut self, r: &mut Rng, s: &Session, m: &Model) {
        let clients: Vec<usize> = s.connected.iter().copied().collect();
        if clients.is_empty() {
            return;
        }
        let c = *r.pick(&clients);
        let d = *r.pick(&clients);
        let open = open_files(s);
        let n = if !open.is_empty() && r.chance(2, 3) { m.file_of(r.pick(&open)) } else { r.pick(FILES).to_string() };
        let b = if r.chance(1, 4) { self.new_name(r, s) } else { self.buffer_name(r, s) };
        let b = if is_log_name(&b) { "s0".to_string() } else { b };
        let mut ops: Vec<(usize, Req)> = Vec::new();
        let mut disk: Option<(usize, Disk)> = None;
        let exec = |calls: Vec<Call>| Req::Exec(calls.into_iter().map(|call| ScriptCall { call, protected: false }).collect());
        // somewhere else in the buffers of the view
        let walk = |r: &mut Rng, c: usize| -> Req {
            let mut calls = vec![Call::Move(c, *r.pick(&[Dir::End, Dir::End, Dir::Begin]), r.chance(1, 4))];
            for _ in 0..r.below(3) {
                calls.push(Call::Move(c, *r.pick(&[Dir::Left, Dir::Right, Dir::Up, Dir::Down, Dir::LineBegin, Dir::LineEnd]), r.chance(1, 2)));
            }
            exec(calls)
        };
        // all of it goes, or a part
        let cut = |r: &mut Rng, c: usize| -> Req {
            let mut calls = Vec::new();
            if r.chance(1, 2) {
                calls.push(Call::Move(c, Dir::Begin, false));
            }
            calls.push(Call::Move(c, *r.pick(&[Dir::End, Dir::Down, Dir::LineEnd, Dir::Right]), true));
            calls.push(Call::DeleteReport(c));
            exec(calls)
        };
        let change = |r: &mut Rng, p: &Profile| -> Disk {
            match (r.below(6), m.files.get(&n)) {
                (0, _) => Disk::Touch(n.clone()),
                (1, _) => Disk::Remove(n.clone()),
                (2 | 3, Some(FileState::Text(t, _))) => {
                    let cs: Vec<char> = t.chars().collect();
                    let k = r.below(cs.len() + 1);
                    Disk::Write(n.clone(), cs[..k].iter().collect::<String>().into_bytes())
                }
                (4, Some(FileState::Text(t, _))) => Disk::Write(n.clone(), vary(r, p, t).into_bytes()),
                _ => Disk::Write(n.clone(), file_content(r, p)),
            }
        };
        match r.weighted(&[8, 8, 8, 8, 8, 8, 3, 8]) {
            0 => {
                // closed, changed, and opened again
                ops.push((c, Req::Edit(n.clone(), false)));
                if r.chance(1, 2) {
                    ops.push((d, Req::Edit(n.clone(), false)));
                }
                ops.push((c, walk(r, c)));
                ops.push((c, Req::ViewDelete));
                if r.chance(4, 5) {
                    disk = Some((ops.len(), change(r, &self.p)));
                }
                ops.push((if r.chance(2, 3) { c } else { d }, Req::Edit(n.clone(), false)));
                ops.push((c, cut(r, c)));
            }
            1 => {
                // reloaded under others
                ops.push((c, Req::Edit(n.clone(), false)));
                ops.push((d, if r.chance(1, 3) { Req::ViewAdd(n.clone()) } else { Req::Edit(n.clone(), false) }));
                ops.push((c, walk(r, c)));
                ops.push((d, walk(r, d)));
                disk = Some((ops.len(), change(r, &self.p)));
                ops.push((d, Req::Edit(n.clone(), false)));
                ops.push((c, if r.chance(1, 2) { cut(r, c) } else { walk(r, c) }));
                ops.push((c, Req::Edit(n.clone(), false)));
            }
            2 => {
                // deleted under others
                ops.push((c, exec(vec![Call::Scratch(c, b.clone(), content(r, &self.p))])));
                ops.push((d, if r.chance(1, 2) { Req::ViewAdd(b.clone()) } else { Req::Edit(b.clone(), true) }));
                ops.push((d, walk(r, d)));
                ops.push((c, walk(r, c)));
                ops.push((c, cut(r, c)));
                ops.push((d, if r.chance(1, 2) { cut(r, d) } else { walk(r, d) }));
                ops.push((d, exec(vec![Call::Scratch(d, b.clone(), content(r, &self.p))])));
                ops.push((c, walk(r, c)));
            }
            3 => {
                // put together, and taken apart
                ops.push((c, Req::ViewAdd(b.clone())));
                ops.push((c, walk(r, c)));
                if r.chance(1, 2) {
                    ops.push((c, cut(r, c)));
                }
                ops.push((c, Req::ViewRemove(b.clone())));
                if r.chance(1, 2) {
                    ops.push((d, Req::Edit(b.clone(), true)));
                    ops.push((d, cut(r, d)));
                }
                ops.push((c, Req::ViewAdd(b.clone())));
                ops.push((c, cut(r, c)));
            }
            4 => {
                // the view of another one, deleted
                let key = s.snap.clients.get(&c).map(|x| x.view.clone()).unwrap_or_default();
                ops.push((d, Req::View(key.clone())));
                ops.push((d, walk(r, d)));
                ops.push((c, Req::ViewDelete));
                ops.push((d, walk(r, d)));
                ops.push((d, if r.chance(1, 2) { Req::ViewAdd(b.clone()) } else { Req::ViewRemove(b.clone()) }));
                ops.push((c, Req::View(key)));
            }
            5 => {
                // a log on the screen
                let log = (*r.pick(&["*debug*", "*messages*", "*errors*"])).to_string();
                ops.push((c, if r.chance(1, 2) { Req::ViewAdd(log.clone()) } else { Req::View(log.clone()) }));
                ops.push((d, if r.chance(1, 2) { Req::ViewAdd(log.clone()) } else { Req::View(log) }));
                ops.push((c, exec(vec![Call::Debug(self.message_text(r)), Call::Message(c, self.message_text(r)), Call::Error(d, self.message_text(r))])));
                ops.push((d, walk(r, d)));
                ops.push((c, cut(r, c)));
                ops.push((c, exec(vec![Call::Error(c, self.message_text(r)), Call::Debug(self.message_text(r))])));
                ops.push((d, cut(r, d)));
            }
            6 => {
                // a view of many buffers
                let k = r.range(5, 20);
                for i in 0..k {
                    ops.push((d, exec(vec![Call::Scratch(d, format!("g{}", i), content(r, &self.p))])));
                }
                ops.push((c, Req::Edit("g0".into(), true)));
                for i in 1..k {
                    ops.push((c, Req::ViewAdd(format!("g{}", if r.chance(1, 8) { r.below(k) } else { i }))));
                }
                ops.push((c, walk(r, c)));
                ops.push((d, exec(vec![Call::Append(format!("g{}", r.below(k)), content(r, &self.p))])));
                ops.push((c, cut(r, c)));
                ops.push((c, Req::ViewAdd(format!("g{}", r.below(k)))));
                ops.push((c, Req::ViewRemove(format!("g{}", r.below(k)))));
                ops.push((c, if r.chance(1, 2) { Req::ViewDelete } else { walk(r, c) }));
                ops.push((c, cut(r, c)));
            }
            _ => {
                // a scratch buffer named like the file
                ops.push((c, Req::Edit(n.clone(), r.chance(1, 2))));
                ops.push((d, exec(vec![Call::Append(n.clone(), content(r, &self.p))])));
                ops.push((c, walk(r, c)));
                disk = Some((ops.len(), change(r, &self.p)));
                ops.push((d, Req::Edit(n.clone(), false)));
                ops.push((c, Req::Edit(n.clone(), r.chance(1, 2))));
                ops.push((c, cut(r, c)));
            }
        }
        let mut plan: Vec<Op> = Vec::new();
        for (i, (c, req)) in ops.into_iter().enumerate() {
            if let Some((_, d)) = disk.take_if(|x| x.0 == i) {
                plan.push(Op::Disk(d));
            }
            self.id += 1;
            plan.push(Op::Req(c, gen_id(r, self.id), req));
        }
        plan.reverse();
        self.plan = plan;
        self.planned += 1;
    }

    pub fn next(&mut self, r: &mut Rng, s: &Session, m: &Model) -> Op {
        self.id += 1;
        if self.plan.is_empty() && r.chance(self.p.plans, 1000) {
            self.make_plan(r, s, m);
        }
        if r.chance(7, 8) {
            if let Some(op) = self.plan.pop() {
                match op {
                    Op::Req(c, ..) if !s.connected.contains(&c) => self.plan.clear(),
                    _ => return op,
                }
            }
        }
        let p = self.p.clone();
        let clients: Vec<usize> = s.connected.iter().copied().collect();
        if clients.is_empty() {
            if r.chance(9, 10) {
                return Op::Join(s.next_client);
            }
        }
        // clients that quit are closed by the server some time later
        if !self.pending_leave.is_empty() && r.chance(1, 3) {
            let i = r.below(self.pending_leave.len());
            return Op::Leave(self.pending_leave.swap_remove(i));
        }
        let mut w = [
            p.join, p.leave, p.quit, p.edit, p.edit_scratch, p.view, p.view_delete, p.view_add, p.view_remove,
            p.menu, p.menu_select, p.keys, p.exec, p.raw, p.disk,
        ];
        if clients.len() >= p.max_clients {
            w[0] = 0;
        }
        if clients.len() <= 1 {
            w[0] *= 3;
            w[1] = (w[1] + 2) / 3;
            w[2] = (w[2] + 2) / 3;
        }
        let ghost = clients.is_empty() || r.chance(p.ghost, 1000);
        let c = if ghost {
            let g: Vec<usize> = s.gone.iter().copied().collect();
            *r.pick(&g)
        } else {
            *r.pick(&clients)
        };
        let id = gen_id(r, self.id);
        let req = match r.weighted(&w) {
            0 => return Op::Join(s.next_client),
            1 if !clients.is_empty() => {
                return Op::Leave(*r.pick(&clients));
            }
            2 => Req::Quit,
            3 => Req::Edit(self.file_name(r, s), false),
            4 => {
                let n = if r.chance(1, 3) {
                    self.buffer_name(r, s)
                } else {
                    self.new_name(r, s)
                };
                Req::Edit(n, true)
            }
            5 => Req::View(self.view_name(r, s)),
            6 => Req::ViewDelete,
            7 => Req::ViewAdd(self.buffer_name(r, s)),
            8 => {
                let shown = s.snap.clients.get(&c).map(|x| x.view_buffers.clone()).unwrap_or_default();
                if !shown.is_empty() && r.chance(2, 3) {
                    Req::ViewRemove(r.pick(&shown).clone())
                } else {
                    Req::ViewRemove(self.buffer_name(r, s))
                }
            }
            9 => self.menu(r, m),
            10 => self.menu_select(r, s, m, c),
            11 => {
                let n = match r.weighted(&[6, 3, 1, 1]) {
                    0 if self.p.many => r.range(20, 300),
                    0 => 1,
                    1 => r.range(2, 5),
                    2 => r.range(6, 12),
                    _ => 0,
                };
                Req::Keys((0..n).map(|_| self.key(r)).collect())
            }
            12 => Req::Exec(self.calls(r, s, c)),
            13 => self.raw(r, &id),
            14 => return Op::Disk(self.disk(r, s, m)),
            _ => Req::Keys(vec![self.key(r)]),
        };
        Op::Req(c, id, req)
    }
}

/// buffers named after the files of the pool
fn open_files(s: &Session) -> Vec<String> {
    let dir = format!("{}/", s.dir.display());
    s.snap
        .buffers
        .keys()
        .filter(|b| {
            let n = b.strip_prefix(dir.as_str()).unwrap_or(b);
            FILES.contains(&n.strip_prefix("./").unwrap_or(n))
        })
        .cloned()
        .collect()
}

pub fn is_log_name(n: &str) -> bool {
    matches!(n, "*debug*" | "*messages*" | "*errors*")
}

/// search texts related to the labels
pub fn gen_search(r: &mut Rng, labels: &[&String]) -> String {
    if r.chance(1, 60) {
        return long_text(r);
    }
    let n = r.weighted(&[1, 6, 4, 2]);
    let mut words = Vec::new();
    let base: Option<String> = if labels.is_empty() {
        None
    } else {
        Some((*r.pick(labels)).clone())
    };
    for _ in 0..n {
        let w: String = match (&base, r.weighted(&[6, 2, 2])) {
            (Some(b), 0) => {
                let cs: Vec<char> = b.chars().filter(|c| !c.is_whitespace()).collect();
                if cs.is_empty() {
                    "x".into()
                } else {
                    let a = r.below(cs.len());
                    let e = (a + r.range(1, 3)).min(cs.len());
                    let t: String = cs[a..e].iter().collect();
                    match r.below(4) {
                        0 => t.to_uppercase(),
                        1 => t.to_lowercase(),
                        _ => t,
                    }
                }
            }
            (_, 1) => (*r.pick(&[
                ".", "*", "(", ")", "[", "]", "\\", "?", "+", "^", "$", "|", "{", "}", "a{2}", "(?i)", "[a-z]",
                ".*", "\\d", "(a", "x|y", "\\", "a+", "#", "-", "\\b",
            ]))
            .to_string(),
            _ => (*r.pick(&["a", "b", "t", "txt", "s", "e", "é", "É", "日", "ß", "k", "q"])).to_string(),
        };
        words.push(w);
    }
    let sep = *r.pick(&[" ", "  ", "\t", " \n "]);
    let mut t = words.join(sep);
    if r.chance(1, 8) {
        t = format!("{}{}", sep, t);
    }
    if r.chance(1, 8) {
        t.push_str(sep);
    }
    t
}

/// a text close to another one
pub fn vary(r: &mut Rng, p: &Profile, t: &str) -> String {
    if r.chance(1, 3) {
        let t = crate::text::resemble(r, t);
        return if p.cr { t } else { t.replace('\r', "r") };
    }
    let mut lines: Vec<String> = t.split('\n').map(str::to_string).collect();
    for _ in 0..r.range(1, 3) {
        let i = r.below(lines.len() + 1);
        match r.below(4) {
            0 => lines.insert(i, content(r, p).replace('\n', "")),
            1 if i < lines.len() && lines.len() > 1 => {
                lines.remove(i);
            }
            2 if i < lines.len() => {
                let cs: Vec<char> = lines[i].chars().collect();
                let k = r.below(cs.len() + 1);
                let mut s: String = cs[..k].iter().collect();
                if r.chance(1, 2) {
                    s.push_str(gen_atom(r));
                }
                s.extend(&cs[(k + r.below(2)).min(cs.len())..]);
                lines[i] = s;
            }
            _ if i < lines.len() => {
                let a = gen_atom(r);
                lines[i].push_str(a);
            }
            _ => {}
        }
    }
    let t = lines.join("\n");
    if p.cr {
        t
    } else {
        t.replace('\r', "r")
    }
}
