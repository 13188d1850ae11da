//! The reference model: what each operation may do to buffers, views, clients, selections and
//! what it must send. Where the properties leave freedom the model only constrains (`Pos::Any`).
use super::*;
use crate::text::{show, Doc};
use std::cmp::min;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Area {
    Response,
    Text,
    Buffers,
    Views,
    Latest,
    ClientView,
    SelValid,
    /// selections of the client the operation is about, in its current view
    SelOwn,
    /// any other selection
    SelOther,
    JoinSel,
    Clients,
    ViewContent,
    Stale,
    Misdirected,
    Gone,
    Echo,
    Log,
    Status,
    Hint,
    Menu,
    Files,
}

#[derive(Clone, Debug)]
pub struct Issue {
    pub area: Area,
    pub msg: String,
}

pub type ViewId = BTreeMap<String, usize>;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pos {
    At(usize),
    /// unchanged if it is still the start of a character, else any valid one
    Keep(usize),
    /// anywhere on the line
    Line(usize),
    Any,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Col {
    Known(usize),
    Unknown,
    /// as the selection stands on adoption
    Fresh,
}

#[derive(Clone, Copy, Debug)]
pub struct Sel {
    pub a: Pos,
    pub c: Pos,
    /// anchor and cursor must coincide
    pub same: bool,
    /// min(anchor, cursor), after a deletion
    pub begin: Option<usize>,
    pub col: Col,
    /// the operation is about this selection
    pub own: bool,
}

impl Sel {
    fn fresh() -> Sel {
        Sel {
            a: Pos::Any,
            c: Pos::Any,
            same: false,
            begin: None,
            col: Col::Fresh,
            own: false,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Src {
    Scratch,
    /// file name below the directory, stamp at the last synchronisation
    File(String, Option<u64>),
}

#[derive(Clone, Debug)]
pub struct Buf {
    pub text: String,
    pub src: Src,
    /// whole entries may follow
    pub suffix: bool,
    /// not predicted
    pub unknown: bool,
    /// the text was replaced, cut or extended by something else than log entries
    pub touched: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    Normal,
    Insertion,
    MoveTo,
    ExtendTo,
}

impl Mode {
    pub fn name(self) -> &'static str {
        match self {
            Mode::Normal => "N",
            Mode::Insertion => "I",
            Mode::MoveTo => "g",
            Mode::ExtendTo => "G",
        }
    }
}

#[derive(Clone, Debug)]
pub struct Cl {
    pub id: usize,
    pub view: ViewId,
    pub sels: BTreeMap<ViewId, BTreeMap<String, Sel>>,
    pub mode: Mode,
    pub last_key: Option<String>,
    /// the status line was pushed with the mode and key
    pub handled: bool,
}

#[derive(Clone, Debug)]
pub enum FileState {
    Text(String, u64),
    Bad(u64),
    Dir,
    Absent,
}

#[derive(Clone, Debug, PartialEq)]
pub struct ExpEcho {
    pub to: usize,
    pub error: bool,
    pub text: Option<String>,
    /// the texts between \u{1} come in any order
    pub unordered: bool,
}

#[derive(Clone, Debug)]
pub enum ExpResp {
    Ok,
    Err(Vec<i64>),
    Any,
}

pub const MENUS: [&str; 7] = [
    "", "open", "scratch", "view_select", "view_add", "view_remove", "exec",
];

#[derive(Clone, Debug)]
pub struct ExpMenu {
    pub to: usize,
    pub command: String,
    pub search: String,
}

#[derive(Clone, Debug, Default)]
struct Out {
    echoes: Vec<ExpEcho>,
    /// echoes not predicted one by one
    echo_any: bool,
    hints: Vec<(usize, Vec<String>)>,
    menus: Vec<ExpMenu>,
    stopped: Vec<usize>,
}

pub struct Model {
    pub session: String,
    pub dir: String,
    pub bufs: BTreeMap<String, Buf>,
    /// latest first
    pub views: Vec<ViewId>,
    pub clients: Vec<Cl>,
    pub files: BTreeMap<String, FileState>,
    /// entries of the menus, once populated: (value, label)
    pub menus: BTreeMap<String, Vec<(String, String)>>,
    /// entries that must be listed by "open"
    out: Out,
    pub keys: BTreeMap<ViewId, String>,
    /// counts of what was checked
    pub seen: BTreeMap<&'static str, u64>,
}

pub fn view_id(lenses: &[(String, String)]) -> ViewId {
    let mut v = ViewId::new();
    for (b, _) in lenses {
        *v.entry(b.clone()).or_insert(0) += 1;
    }
    v
}

fn is_log(name: &str) -> bool {
    matches!(name, "*debug*" | "*messages*" | "*errors*")
}

fn squeeze(s: &str) -> String {
    s.chars()
        .filter(|c| !c.is_whitespace() && *c != '\\' && *c != 'n')
        .collect()
}

pub enum Outcome {
    Done,
    Refused(Vec<i64>),
}

use Outcome::*;

impl Model {
    pub fn new(s: &Session, files: &[(String, Vec<u8>)], dirs: &[&str]) -> Model {
        let mut m = Model {
            session: s.name.clone(),
            dir: s.dir.display().to_string(),
            bufs: BTreeMap::new(),
            views: Vec::new(),
            clients: Vec::new(),
            files: BTreeMap::new(),
            menus: BTreeMap::new(),
            out: Out::default(),
            keys: BTreeMap::new(),
            seen: BTreeMap::new(),
        };
        for d in dirs {
            m.files.insert(d.to_string(), FileState::Dir);
        }
        for (n, c) in files {
            m.file_write(n, c, s.stamps[n]);
        }
        for (n, t) in &s.snap.buffers {
            m.bufs.insert(
                n.clone(),
                Buf {
                    text: t.clone(),
                    src: Src::Scratch,
                    suffix: false,
                    unknown: false,
                    touched: false,
                },
            );
        }
        for (k, l) in &s.snap.views {
            let id = view_id(l);
            m.keys.insert(id.clone(), k.clone());
            m.views.push(id);
        }
        m
    }

    fn count(&mut self, what: &'static str) {
        *self.seen.entry(what).or_insert(0) += 1;
    }

    fn file_write(&mut self, n: &str, c: &[u8], stamp: u64) {
        let st = match std::str::from_utf8(c) {
            Ok(t) => FileState::Text(t.to_string(), stamp),
            Err(_) => FileState::Bad(stamp),
        };
        self.files.insert(n.to_string(), st);
    }

    /// the file a buffer name designates, below the session directory
    pub fn file_of(&self, name: &str) -> String {
        let n = name.strip_prefix(&format!("{}/", self.dir)).unwrap_or(name);
        let n = n.strip_prefix("./").unwrap_or(n);
        n.to_string()
    }

    fn file(&self, f: &str) -> FileState {
        if f.is_empty() || f == "." {
            return FileState::Dir;
        }
        self.files.get(f).cloned().unwrap_or(FileState::Absent)
    }

    pub fn client(&self, c: usize) -> Option<&Cl> {
        self.clients.iter().find(|x| x.id == c)
    }

    fn client_mut(&mut self, c: usize) -> &mut Cl {
        self.clients.iter_mut().find(|x| x.id == c).unwrap()
    }

    pub fn view_by_name(&self, name: &str) -> Option<ViewId> {
        self.keys
            .iter()
            .find(|(id, k)| k.as_str() == name && self.views.contains(id))
            .map(|(id, _)| id.clone())
    }

    fn debug(&mut self) {
        match self.bufs.get_mut("*debug*") {
            Some(b) => b.suffix = true,
            None => {
                self.bufs.insert(
                    "*debug*".into(),
                    Buf {
                        text: String::new(),
                        src: Src::Scratch,
                        suffix: true,
                        unknown: false,
                        touched: false,
                    },
                );
            }
        }
    }

    fn append(&mut self, name: &str, text: &str) {
        match self.bufs.get_mut(name) {
            Some(b) => {
                b.text.push_str(text);
                if b.suffix {
                    b.unknown = true;
                }
            }
            None => {
                self.bufs.insert(
                    name.to_string(),
                    Buf {
                        text: if text.is_empty() {
                            "\n".to_string()
                        } else {
                            text.to_string()
                        },
                        src: Src::Scratch,
                        suffix: false,
                        unknown: false,
                        touched: false,
                    },
                );
            }
        }
    }

    fn message(&mut self, c: usize, text: Option<String>, unordered: bool) {
        match &text {
            Some(t) if !unordered => {
                let e = format!("{}|{}\n", c, t);
                self.append("*messages*", &e);
            }
            _ => {
                self.append("*messages*", "");
                self.bufs.get_mut("*messages*").unwrap().unknown = true;
            }
        }
        self.out.echoes.push(ExpEcho {
            to: c,
            error: false,
            text,
            unordered,
        });
    }

    fn error(&mut self, c: usize, text: Option<String>) {
        match &text {
            Some(t) => {
                let e = format!("{}|{}\n", c, t);
                self.append("*errors*", &e);
            }
            None => {
                if !self.bufs.contains_key("*errors*") {
                    self.bufs.insert(
                        "*errors*".into(),
                        Buf {
                            text: String::new(),
                            src: Src::Scratch,
                            suffix: true,
                            unknown: false,
                            touched: false,
                        },
                    );
                }
                let b = self.bufs.get_mut("*errors*").unwrap();
                b.suffix = true;
            }
        }
        self.out.echoes.push(ExpEcho {
            to: c,
            error: true,
            text,
            unordered: false,
        });
    }

    /// after the text of a buffer changed: selections stay if they still can
    fn loosen(&mut self, name: &str) {
        let (text, known) = match self.bufs.get(name) {
            Some(b) => (b.text.clone(), !b.unknown),
            None => return,
        };
        let doc = Doc::new(&text);
        for cl in self.clients.iter_mut() {
            for by in cl.sels.values_mut() {
                if let Some(s) = by.get_mut(name) {
                    let keep = |p: Pos| match p {
                        Pos::At(o) | Pos::Keep(o) if known && doc.at(o).is_some() => Pos::Keep(o),
                        _ => Pos::Any,
                    };
                    s.a = keep(s.a);
                    s.c = keep(s.c);
                    s.same = false;
                    s.begin = None;
                    s.col = Col::Unknown;
                }
            }
        }
    }

    fn add_view(&mut self, v: &ViewId) {
        if let Some(i) = self.views.iter().position(|x| x == v) {
            self.views.remove(i);
        }
        self.views.insert(0, v.clone());
        for cl in self.clients.iter_mut() {
            let by = cl.sels.entry(v.clone()).or_default();
            for b in v.keys() {
                by.entry(b.clone()).or_insert_with(Sel::fresh);
            }
        }
    }

    fn delete_view(&mut self, v: &ViewId) {
        self.views.retain(|x| x != v);
        for cl in self.clients.iter_mut() {
            cl.sels.remove(v);
        }
        for b in v.keys() {
            if !self.views.iter().any(|x| x.contains_key(b)) {
                self.bufs.remove(b);
            }
        }
        if self.views.is_empty() {
            self.bufs.entry("*scratch*".into()).or_insert(Buf {
                text: "\n".into(),
                src: Src::Scratch,
                suffix: false,
                unknown: false,
                touched: true,
            });
            let id: ViewId = [("*scratch*".to_string(), 1)].into_iter().collect();
            self.add_view(&id);
        }
        let latest = self.views[0].clone();
        for cl in self.clients.iter_mut() {
            if cl.view == *v {
                cl.view = latest.clone();
            }
        }
        self.debug();
    }

    fn modify_view(&mut self, c: usize, new: ViewId) {
        let old = self.client(c).unwrap().view.clone();
        if old == new {
            return;
        }
        if !new.is_empty() {
            // the selections of the new view are only known to be valid
            self.add_view(&new);
            for cl in self.clients.iter_mut() {
                if let Some(by) = cl.sels.get_mut(&new) {
                    for (_, s) in by.iter_mut() {
                        if s.col == Col::Fresh {
                            s.col = Col::Unknown;
                        }
                    }
                }
            }
        }
        self.delete_view(&old);
    }

    pub fn join(&mut self, c: usize) {
        let (view, sels) = match self.clients.first() {
            Some(l) => (l.view.clone(), l.sels.clone()),
            None => {
                let sels = self
                    .views
                    .iter()
                    .map(|v| {
                        (
                            v.clone(),
                            v.keys().map(|b| (b.clone(), Sel::fresh())).collect(),
                        )
                    })
                    .collect();
                (self.views[0].clone(), sels)
            }
        };
        self.clients.insert(
            0,
            Cl {
                id: c,
                view,
                sels,
                mode: Mode::Normal,
                last_key: None,
                handled: false,
            },
        );
        self.debug();
    }

    fn leave(&mut self, c: usize) {
        if self.client(c).is_some() {
            self.clients.retain(|x| x.id != c);
            self.debug();
        }
    }

    fn view(&mut self, c: usize, name: &str) -> Outcome {
        let id = match self.view_by_name(name) {
            Some(id) => id,
            None if self.bufs.contains_key(name) => {
                let id: ViewId = [(name.to_string(), 1)].into_iter().collect();
                self.add_view(&id);
                id
            }
            None => return Refused(vec![-32600, -32602]),
        };
        self.client_mut(c).view = id;
        Done
    }

    fn edit(&mut self, c: usize, name: &str, scratch: bool) -> Outcome {
        let exists = self.bufs.contains_key(name);
        if scratch {
            if !exists {
                self.bufs.insert(
                    name.to_string(),
                    Buf {
                        text: "\n".into(),
                        src: Src::Scratch,
                        suffix: false,
                        unknown: false,
                        touched: true,
                    },
                );
            }
        } else if exists {
            if let Src::File(f, sync) = self.bufs[name].src.clone() {
                match self.file(&f) {
                    FileState::Text(t, st) => {
                        if sync != Some(st) {
                            let b = self.bufs.get_mut(name).unwrap();
                            b.text = t;
                            if !b.text.ends_with('\n') {
                                b.text.push('\n');
                            }
                            b.unknown = false;
                            b.touched = true;
                            b.src = Src::File(f, Some(st));
                            self.loosen(name);
                            self.count("reloads");
                        }
                    }
                    FileState::Bad(st) => {
                        if sync != Some(st) {
                            return Refused(vec![-32600, -32602]);
                        }
                    }
                    _ => return Refused(vec![-32600, -32602]),
                }
            }
        } else {
            let f = self.file_of(name);
            match self.file(&f) {
                FileState::Text(t, st) => {
                    let mut text = t;
                    if !text.ends_with('\n') {
                        text.push('\n');
                    }
                    self.bufs.insert(
                        name.to_string(),
                        Buf {
                            text,
                            src: Src::File(f, Some(st)),
                            suffix: false,
                            unknown: false,
                            touched: true,
                        },
                    );
                    self.count("opens");
                }
                _ => return Refused(vec![-32600, -32602]),
            }
        }
        let id: ViewId = [(name.to_string(), 1)].into_iter().collect();
        self.add_view(&id);
        self.client_mut(c).view = id;
        self.debug();
        Done
    }

    fn scratch(&mut self, c: usize, name: &str, content: &str) -> Outcome {
        let text = if content.is_empty() { "\n" } else { content };
        self.bufs.insert(
            name.to_string(),
            Buf {
                text: text.to_string(),
                src: Src::Scratch,
                suffix: false,
                unknown: false,
                touched: true,
            },
        );
        self.loosen(name);
        self.edit(c, name, true)
    }

    fn do_move(&mut self, c: usize, d: Dir, extend: bool) {
        let texts: BTreeMap<String, Option<String>> = {
            let cl = self.client(c).unwrap();
            cl.view
                .keys()
                .map(|b| {
                    let t = match self.bufs.get(b) {
                        Some(x) if !x.unknown && !x.suffix => Some(x.text.clone()),
                        _ => None,
                    };
                    (b.clone(), t)
                })
                .collect()
        };
        let cl = self.client_mut(c);
        let view = cl.view.clone();
        if let Some(by) = cl.sels.get_mut(&view) {
            for (b, s) in by.iter_mut() {
                s.own = true;
                s.begin = None;
                match texts.get(b).cloned().flatten() {
                    None => {
                        s.c = Pos::Any;
                        s.same = !extend;
                        if !extend {
                            s.a = Pos::Any;
                        }
                        s.col = Col::Unknown;
                    }
                    Some(t) => move_sel(s, &Doc::new(&t), d, extend),
                }
            }
        }
    }

    /// the texts deleted, or None if that is not known
    fn delete(&mut self, c: usize) -> Option<Vec<String>> {
        let cl = self.client(c).unwrap();
        let view = cl.view.clone();
        let sels = cl.sels.get(&view).cloned().unwrap_or_default();
        let mut deleted = Some(Vec::new());
        for b in view.keys() {
            let Some(s) = sels.get(b) else { continue };
            let buf = self.bufs.get_mut(b).unwrap();
            let range = match (s.a, s.c) {
                (Pos::At(x), Pos::At(y)) if !buf.unknown && !buf.suffix => {
                    let doc = Doc::new(&buf.text);
                    doc.at(x.max(y)).map(|i| (min(x, y), doc.chars[i].end()))
                }
                _ => None,
            };
            buf.touched = true;
            let mut begin = None;
            match range {
                Some((from, to)) => {
                    if let Some(d) = deleted.as_mut() {
                        d.push(buf.text[from..to].to_string());
                    }
                    buf.text.replace_range(from..to, "");
                    if buf.text.is_empty() {
                        buf.text.push('\n');
                    }
                    let doc = Doc::new(&buf.text);
                    let i = doc.containing(from).unwrap_or(doc.chars.len() - 1);
                    begin = Some(doc.chars[i].off);
                }
                None => {
                    buf.unknown = true;
                    deleted = None;
                }
            }
            self.loosen(b);
            let cl = self.client_mut(c);
            if let Some(s) = cl.sels.get_mut(&view).and_then(|by| by.get_mut(b)) {
                *s = Sel {
                    a: Pos::Any,
                    c: Pos::Any,
                    same: false,
                    begin,
                    col: Col::Unknown,
                    own: true,
                };
            }
        }
        deleted
    }

    fn quit(&mut self, c: usize) {
        self.leave(c);
        self.out.stopped.push(c);
    }

    /// populates and returns the expected entries of a menu
    fn populate(&mut self, m: &str) {
        let entries: Vec<(String, String)> = match m {
            "" => return self.menus.entry(String::new()).or_default().clear(),
            "open" => {
                let mut list: Vec<_> = self
                    .files
                    .iter()
                    .filter(|(n, s)| {
                        matches!(s, FileState::Text(..) | FileState::Bad(_))
                            && !n.split('/').any(|p| p.starts_with('.'))
                            && !n.contains("ignored")
                    })
                    .map(|(n, _)| (n.clone(), n.clone()))
                    .collect();
                list.sort();
                list
            }
            "scratch" | "exec" => vec![(String::new(), String::new())],
            "view_select" => {
                let mut list: Vec<String> = self
                    .views
                    .iter()
                    .map(|v| self.keys.get(v).cloned().unwrap_or_default())
                    .collect();
                for b in self.bufs.keys() {
                    let own: ViewId = [(b.clone(), 1)].into_iter().collect();
                    if !self.views.contains(&own) {
                        list.push(b.clone());
                    }
                }
                list.into_iter().map(|x| (x.clone(), x)).collect()
            }
            _ => self.bufs.keys().map(|b| (b.clone(), b.clone())).collect(),
        };
        self.menus.insert(m.to_string(), entries);
    }

    fn menu(&mut self, c: usize, m: &str, search: &str) -> Outcome {
        if !MENUS.contains(&m) {
            return Refused(vec![-32602, -32600]);
        }
        if search.is_empty() {
            self.populate(m);
        }
        self.out.menus.push(ExpMenu {
            to: c,
            command: m.to_string(),
            search: search.to_string(),
        });
        Done
    }

    fn menu_select(&mut self, c: usize, m: &str, choice: &str, eq: Option<&Req>) -> Outcome {
        let refused = Refused(vec![-32602, -32600]);
        if !MENUS.contains(&m) {
            return refused;
        }
        let Some(entries) = self.menus.get(m) else {
            return refused;
        };
        let prompt = m == "scratch" || m == "exec";
        if m.is_empty() {
            return match choice {
                "open" | "scratch" | "view_select" | "view_add" | "view_remove" | "exec" => {
                    self.menu(c, choice, "")
                }
                "quit" => {
                    self.quit(c);
                    Done
                }
                "view_delete" => {
                    let v = self.client(c).unwrap().view.clone();
                    self.delete_view(&v);
                    Done
                }
                _ => refused,
            };
        }
        if !prompt && !entries.iter().any(|(v, _)| v == choice) {
            return refused;
        }
        self.count("menu_selections");
        match eq {
            Some(r) => self.request(c, r),
            None => match m {
                "open" => self.edit(c, choice, false),
                "scratch" => self.edit(c, choice, true),
                "view_select" => self.view(c, choice),
                "view_add" => self.view_add(c, choice),
                "view_remove" => self.view_remove(c, choice),
                _ => Done,
            },
        }
    }

    fn view_add(&mut self, c: usize, b: &str) -> Outcome {
        if !self.bufs.contains_key(b) {
            return Refused(vec![-32600, -32602]);
        }
        let mut v = self.client(c).unwrap().view.clone();
        *v.entry(b.to_string()).or_insert(0) += 1;
        self.modify_view(c, v);
        Done
    }

    fn view_remove(&mut self, c: usize, b: &str) -> Outcome {
        if !self.bufs.contains_key(b) {
            return Refused(vec![-32600, -32602]);
        }
        let mut v = self.client(c).unwrap().view.clone();
        v.remove(b);
        self.modify_view(c, v);
        Done
    }

    fn key(&mut self, c: usize, k: &KeyPress) {
        let d = k.display();
        let mode = self.client(c).unwrap().mode;
        let mut handled = true;
        match (mode, d.as_str()) {
            (Mode::Normal, "i") => self.client_mut(c).mode = Mode::Insertion,
            (Mode::Normal, "g") => {
                self.client_mut(c).mode = Mode::MoveTo;
                self.out.hints.push((
                    c,
                    vec!["move to".into(), "h: line begin".into(), "l: line end".into()],
                ));
            }
            (Mode::Normal, "s-g") => {
                self.client_mut(c).mode = Mode::ExtendTo;
                self.out.hints.push((
                    c,
                    vec![
                        "extend to".into(),
                        "h: line begin".into(),
                        "l: line end".into(),
                    ],
                ));
            }
            (Mode::Normal, "h") => self.do_move(c, Dir::Left, false),
            (Mode::Normal, "j") => self.do_move(c, Dir::Down, false),
            (Mode::Normal, "k") => self.do_move(c, Dir::Up, false),
            (Mode::Normal, "l") => self.do_move(c, Dir::Right, false),
            (Mode::Normal, "s-h") => self.do_move(c, Dir::Left, true),
            (Mode::Normal, "s-j") => self.do_move(c, Dir::Down, true),
            (Mode::Normal, "s-k") => self.do_move(c, Dir::Up, true),
            (Mode::Normal, "s-l") => self.do_move(c, Dir::Right, true),
            (Mode::Normal, "m") => self.message(c, Some("hello!".into()), false),
            (Mode::Normal, "e") => self.error(c, Some("lua: oops!".into())),
            (Mode::Normal, "d") => {
                self.delete(c);
            }
            (Mode::Insertion, "esc") => self.client_mut(c).mode = Mode::Normal,
            (Mode::MoveTo, "h") | (Mode::ExtendTo, "h") => {
                self.client_mut(c).mode = Mode::Normal;
                self.do_move(c, Dir::LineBegin, mode == Mode::ExtendTo);
            }
            (Mode::MoveTo, "l") | (Mode::ExtendTo, "l") => {
                self.client_mut(c).mode = Mode::Normal;
                self.do_move(c, Dir::LineEnd, mode == Mode::ExtendTo);
            }
            (Mode::MoveTo, _) | (Mode::ExtendTo, _) => self.client_mut(c).mode = Mode::Normal,
            _ => handled = false,
        }
        if handled {
            let cl = self.client_mut(c);
            cl.last_key = Some(d);
            cl.handled = true;
            self.count("keys_handled");
        } else {
            self.count("keys_ignored");
        }
    }

    fn context_text(&self, c: usize) -> Option<String> {
        let cl = self.client(c)?;
        let key = self.keys.get(&cl.view)?.clone();
        let mut parts = Vec::new();
        for (b, s) in cl.sels.get(&cl.view)? {
            let buf = self.bufs.get(b)?;
            if buf.unknown || buf.suffix || b.contains('\u{0}') {
                return None;
            }
            let (Pos::At(a), Pos::At(cu)) = (s.a, s.c) else {
                return None;
            };
            let doc = Doc::new(&buf.text);
            let ca = doc.chars[doc.at(a)?];
            let cc = doc.chars[doc.at(cu)?];
            let (f, t) = if a <= cu { (ca, cc) } else { (cc, ca) };
            parts.push(format!(
                "{}\u{2}1\u{2}{}:{}:{}\u{2}{}:{}:{}\u{2}{}",
                b, a, ca.line, ca.col, cu, cc.line, cc.col, &buf.text[f.off..t.end()]
            ));
        }
        parts.sort_by(|a, b| a.as_bytes().cmp(b.as_bytes()));
        let mut out = key;
        out.push('\u{1}');
        out.push_str(&parts.join("\u{1}"));
        Some(out)
    }

    /// false if the call raises an error
    fn call(&mut self, by: usize, call: &Call) -> bool {
        if let Some(t) = call.target() {
            if self.client(t).is_none() {
                return false;
            }
        }
        match call {
            Call::Move(c, d, e) => self.do_move(*c, *d, *e),
            Call::Delete(c) => {
                self.delete(*c);
            }
            Call::DeleteReport(c) => {
                let t = self.delete(*c).map(|mut d| {
                    d.sort_by(|a, b| a.as_bytes().cmp(b.as_bytes()));
                    d.join("\u{1}")
                });
                self.count("deletions_reported");
                // in any order, unless there is a single text
                let one = t.as_ref().map_or(true, |t| !t.contains('\u{1}'));
                self.message(*c, t, !one);
            }
            Call::Scratch(c, n, t) => {
                self.scratch(*c, n, t);
            }
            Call::Edit(c, n, s) => {
                if let Refused(_) = self.edit(*c, n, *s) {
                    return false;
                }
            }
            Call::Append(b, t) => {
                self.append(b, t);
                self.bufs.get_mut(b).unwrap().touched = true;
                self.recheck_cols(b);
            }
            Call::Message(c, t) => self.message(*c, Some(t.clone()), false),
            Call::Error(c, t) => self.error(*c, Some(format!("lua: {}", t))),
            Call::Debug(t) => {
                let known = self.bufs.get("*debug*").map_or(true, |b| !b.suffix && !b.unknown);
                if known {
                    self.append("*debug*", &format!("{}\n", t));
                } else {
                    self.debug();
                }
            }
            Call::Hint(c, lines, _) => self.out.hints.push((*c, lines.clone())),
            Call::PushStatus(_) => {}
            Call::Context(c) => {
                if self.client(by).is_none() {
                    return false;
                }
                let t = self.context_text(*c);
                if t.is_some() {
                    self.count("contexts_known");
                }
                self.message(by, t, false);
            }
            Call::Env => {
                if self.client(by).is_none() {
                    return false;
                }
                let t = format!("{}@{}", by, self.session);
                self.message(by, Some(t), false);
            }
            Call::Fail(_) => return false,
        }
        true
    }

    /// appending can change the characters of the last line
    fn recheck_cols(&mut self, b: &str) {
        for cl in self.clients.iter_mut() {
            for by in cl.sels.values_mut() {
                if let Some(s) = by.get_mut(b) {
                    s.col = match s.col {
                        Col::Fresh => Col::Fresh,
                        _ => Col::Unknown,
                    };
                }
            }
        }
    }

    pub fn request(&mut self, c: usize, req: &Req) -> Outcome {
        match req {
            Req::Edit(n, s) => self.edit(c, n, *s),
            Req::View(n) => self.view(c, n),
            Req::ViewDelete => {
                let v = self.client(c).unwrap().view.clone();
                self.delete_view(&v);
                Done
            }
            Req::ViewAdd(b) => self.view_add(c, b),
            Req::ViewRemove(b) => self.view_remove(c, b),
            Req::Menu(m, s) => self.menu(c, m, s),
            Req::MenuSelect(m, ch, eq) => self.menu_select(c, m, ch, eq.as_deref()),
            Req::Keys(ks) => {
                for k in ks {
                    self.key(c, k);
                }
                Done
            }
            Req::Exec(calls) => {
                for sc in calls {
                    if !self.call(c, &sc.call) && !sc.protected {
                        self.debug();
                        self.error(c, None);
                        return Refused(vec![1]);
                    }
                }
                Done
            }
            Req::Quit => {
                self.quit(c);
                Done
            }
            Req::Raw(_, _, codes) => {
                if codes.is_empty() {
                    Done
                } else {
                    Refused(codes.clone())
                }
            }
        }
    }

    /// predicts the step, compares, and adopts the observed state
    pub fn check(&mut self, s: &Session, st: &Step) -> Vec<Issue> {
        let mut issues: Vec<Issue> = Vec::new();
        self.out = Out::default();
        for cl in self.clients.iter_mut() {
            for by in cl.sels.values_mut() {
                for x in by.values_mut() {
                    x.own = false;
                }
            }
        }
        for b in self.bufs.values_mut() {
            b.touched = false;
        }
        let logs: Vec<(&str, String)> = ["*messages*", "*errors*"]
            .into_iter()
            .map(|n| (n, st.pre.buffers.get(n).cloned().unwrap_or_default()))
            .collect();
        let mut exp_resp = None;
        let mut joined = None;
        let mut left = Vec::new();
        match &st.op {
            Op::Join(c) => {
                self.join(*c);
                joined = Some(*c);
            }
            Op::Leave(c) => {
                self.leave(*c);
                left.push(*c);
            }
            Op::Disk(d) => match d {
                Disk::Write(n, c) => {
                    let stamp = s.stamps[n];
                    self.files.retain(|k, _| !k.starts_with(&format!("{}/", n)));
                    self.file_write(n, c, stamp);
                }
                Disk::Remove(n) => {
                    self.files.retain(|k, _| k != n && !k.starts_with(&format!("{}/", n)));
                }
                Disk::Mkdir(n) => {
                    self.files.insert(n.clone(), FileState::Dir);
                }
                Disk::Touch(n) => {
                    let stamp = s.stamps.get(n).copied().unwrap_or(0);
                    match self.files.get_mut(n) {
                        Some(FileState::Text(_, st)) | Some(FileState::Bad(st)) => *st = stamp,
                        _ => {}
                    }
                }
            },
            Op::Req(c, id, r) => {
                if self.client(*c).is_none() {
                    let (id, codes) = match r {
                        Req::Raw(_, id, codes) if id.is_null() && !codes.is_empty() => {
                            // not even a request: it is logged whoever sent it
                            self.error_raw(*c);
                            let mut codes = codes.clone();
                            codes.push(-32600);
                            (id.clone(), codes)
                        }
                        Req::Raw(_, id, codes) => {
                            let mut codes = codes.clone();
                            codes.push(-32600);
                            (id.clone(), codes)
                        }
                        _ => (id.clone(), vec![-32600]),
                    };
                    exp_resp = Some((id, ExpResp::Err(codes)));
                } else if let Req::Raw(_, rid, codes) = r {
                    if codes.is_empty() {
                        exp_resp = Some((rid.clone(), ExpResp::Any));
                    } else {
                        exp_resp = Some((rid.clone(), ExpResp::Err(codes.clone())));
                        self.error_raw(*c);
                    }
                } else {
                    let o = self.request(*c, r);
                    exp_resp = Some((
                        id.clone(),
                        match o {
                            Done => ExpResp::Ok,
                            Refused(codes) => ExpResp::Err(codes),
                        },
                    ));
                }
            }
        }
        left.extend(self.out.stopped.clone());

        // --- response
        if let (Some((id, exp)), Some(got)) = (&exp_resp, &st.resp) {
            if let Err(e) = check_response(id, exp, got) {
                issues.push(Issue {
                    area: Area::Response,
                    msg: format!("{}: {}", st.op.kind(), e),
                });
            }
            self.count("responses");
        }
        if st.stopped != self.out.stopped {
            issues.push(Issue {
                area: Area::Clients,
                msg: format!(
                    "clients stopped by the request: {:?}, expected {:?}",
                    st.stopped, self.out.stopped
                ),
            });
        }
        self.compare_state(st, joined, &mut issues);
        self.compare_notes(s, st, joined, &left, &logs, &mut issues);
        self.adopt(st);
        issues
    }

    /// malformed lines and unknown methods: an error for the client (its text is not predicted)
    fn error_raw(&mut self, c: usize) {
        self.error(c, None);
        // some of them are only answered
        self.out.echoes.pop();
        self.out.echo_any = true;
    }

    fn compare_state(&mut self, st: &Step, joined: Option<usize>, issues: &mut Vec<Issue>) {
        let mut push = |area: Area, msg: String| issues.push(Issue { area, msg });
        let post = &st.post;
        // buffers
        for (n, b) in &self.bufs {
            match post.buffers.get(n) {
                None => {
                    // logs without any entry expected for sure do not have to exist
                    if !(is_log(n) && b.text.is_empty()) {
                        push(Area::Buffers, format!("buffer {:?} is gone", n));
                    }
                }
                Some(t) => {
                    if b.unknown {
                        continue;
                    }
                    let ok = if b.suffix {
                        t.strip_prefix(b.text.as_str())
                            .map_or(false, |r| r.is_empty() || r.ends_with('\n'))
                    } else {
                        *t == b.text
                    };
                    if !ok {
                        let area = if is_log(n) && !b.touched {
                            Area::Log
                        } else {
                            Area::Text
                        };
                        push(
                            area,
                            format!(
                                "text of buffer {:?} is {}, expected {}{}",
                                n,
                                show(t),
                                show(&b.text),
                                if b.suffix { " and whole entries" } else { "" }
                            ),
                        );
                    }
                }
            }
        }
        for n in post.buffers.keys() {
            if !self.bufs.contains_key(n) {
                push(Area::Buffers, format!("unexpected buffer {:?}", n));
            }
        }
        // views
        let mut ids: BTreeMap<&String, ViewId> = BTreeMap::new();
        let mut set: BTreeSet<ViewId> = BTreeSet::new();
        for (k, l) in &post.views {
            let id = view_id(l);
            if !set.insert(id.clone()) {
                push(Area::Views, format!("two views of the same buffers: {:?}", id));
            }
            for b in id.keys() {
                if !post.buffers.contains_key(b) {
                    push(
                        Area::Views,
                        format!("view {:?} lists the unknown buffer {:?}", k, b),
                    );
                }
            }
            if id.is_empty() {
                push(Area::Views, format!("view {:?} has no buffer", k));
            }
            ids.insert(k, id);
        }
        if set.is_empty() {
            push(Area::Views, "there is no view".into());
        }
        let want: BTreeSet<ViewId> = self.views.iter().cloned().collect();
        for v in want.difference(&set) {
            push(Area::Views, format!("view of {:?} is gone", v));
        }
        for v in set.difference(&want) {
            push(Area::Views, format!("unexpected view of {:?}", v));
        }
        let latest = post.latest_view.as_ref().and_then(|k| ids.get(k)).cloned();
        if latest.as_ref() != self.views.first() {
            push(
                Area::Latest,
                format!(
                    "the most recent view is {:?}, expected {:?}",
                    latest,
                    self.views.first()
                ),
            );
        }
        // clients
        for cl in &self.clients {
            if !post.clients.contains_key(&cl.id) {
                push(Area::Clients, format!("client {} is gone", cl.id));
            }
        }
        let mut n_sels = 0;
        for (id, pc) in &post.clients {
            let Some(cl) = self.clients.iter().find(|c| c.id == *id) else {
                push(Area::Clients, format!("unexpected client {}", id));
                continue;
            };
            match ids.get(&pc.view) {
                None => push(
                    Area::ClientView,
                    format!("client {} displays the unregistered view {:?}", id, pc.view),
                ),
                Some(v) => {
                    let mut shown = pc.view_buffers.clone();
                    shown.sort();
                    shown.dedup();
                    if shown != v.keys().cloned().collect::<Vec<_>>() {
                        push(
                            Area::ClientView,
                            format!(
                                "client {} displays {:?} under the key of the view of {:?}",
                                id, shown, v
                            ),
                        );
                    }
                    if *v != cl.view {
                        push(
                            if joined == Some(*id) {
                                Area::JoinSel
                            } else {
                                Area::ClientView
                            },
                            format!("client {} displays {:?}, expected {:?}", id, v, cl.view),
                        );
                    }
                }
            }
            // selections
            for (k, v) in &ids {
                let by = pc.selections.get(*k);
                for b in v.keys() {
                    let Some(text) = post.buffers.get(b) else { continue };
                    let sels = by.and_then(|by| by.get(b)).cloned().unwrap_or_default();
                    if sels.is_empty() {
                        push(
                            Area::SelValid,
                            format!("client {} has no selection for {:?} in view {:?}", id, b, k),
                        );
                        continue;
                    }
                    let doc = Doc::new(text);
                    n_sels += 1;
                    for x in &sels {
                        for (what, o) in [("anchor", x.anchor), ("cursor", x.cursor)] {
                            if doc.at(o).is_none() {
                                push(
                                    Area::SelValid,
                                    format!(
                                        "{} of client {} in buffer {:?} of view {:?} is at {}, where no character starts (text {})",
                                        what, id, b, k, o, show(text)
                                    ),
                                );
                            }
                        }
                    }
                    let exp = cl.sels.get(v).and_then(|by| by.get(b));
                    if let Some(e) = exp {
                        let x = sels[0];
                        let mut bad = None;
                        if sels.len() != 1 {
                            bad = Some(format!("{} selections", sels.len()));
                        }
                        let ok = |p: Pos, o: usize| match p {
                            Pos::At(w) => o == w,
                            Pos::Keep(w) => o == w || doc.at(w).is_none(),
                            Pos::Line(l) => {
                                doc.at(o).map_or(false, |i| doc.chars[i].line == l)
                            }
                            Pos::Any => true,
                        };
                        if !ok(e.a, x.anchor) {
                            bad = Some(format!("anchor at {}, expected {:?}", x.anchor, e.a));
                        } else if !ok(e.c, x.cursor) {
                            bad = Some(format!("cursor at {}, expected {:?}", x.cursor, e.c));
                        } else if e.same && x.anchor != x.cursor {
                            bad = Some(format!("anchor {} not on the cursor {}", x.anchor, x.cursor));
                        } else if let Some(bg) = e.begin {
                            if min(x.anchor, x.cursor) != bg {
                                bad = Some(format!(
                                    "selection starts at {}, expected {}",
                                    min(x.anchor, x.cursor),
                                    bg
                                ));
                            }
                        }
                        if let Some(m) = bad {
                            let area = if joined == Some(*id) {
                                Area::JoinSel
                            } else if e.own {
                                Area::SelOwn
                            } else {
                                Area::SelOther
                            };
                            push(
                                area,
                                format!(
                                    "selection of client {} in buffer {:?} of view {:?}: {} (text {})",
                                    id, b, k, m, show(text)
                                ),
                            );
                        }
                    }
                }
            }
        }
        *self.seen.entry("selections_checked").or_insert(0) += n_sels;
    }

    fn compare_notes(
        &mut self,
        s: &Session,
        st: &Step,
        joined: Option<usize>,
        left: &[usize],
        logs: &[(&str, String)],
        issues: &mut Vec<Issue>,
    ) {
        let mut push = |area: Area, msg: String| issues.push(Issue { area, msg });
        let mut echoes = Vec::new();
        let mut hints = Vec::new();
        let mut menus = Vec::new();
        let mut sent: BTreeMap<usize, &Value> = BTreeMap::new();
        let mut info = 0;
        for n in &st.notes {
            let connected_before: Vec<usize> = st.pre.clients.keys().copied().collect();
            for c in &n.to {
                // a client that leaves in this step may still be told things before it left
                let known = connected_before.contains(c) || joined == Some(*c);
                let raw_answer = n.method == "echo" && st.op.client() == Some(*c);
                if !known && !raw_answer {
                    push(
                        Area::Gone,
                        format!("client {} is gone but is sent {} {}", c, n.method, n.params),
                    );
                }
            }
            if n.everyone || n.to.len() != 1 {
                push(
                    Area::Misdirected,
                    format!("{} notification sent to {:?} (everyone: {})", n.method, n.to, n.everyone),
                );
                if n.method == "echo" {
                    push(
                        Area::Echo,
                        format!("message {} sent to {:?} (everyone: {})", n.params, n.to, n.everyone),
                    );
                }
                if n.method == "status" || n.method == "hint" {
                    push(Area::Status, format!("{} sent to {:?} (everyone: {})", n.method, n.to, n.everyone));
                }
                continue;
            }
            let to = n.to[0];
            match n.method.as_str() {
                "view" => {
                    sent.insert(to, &n.params);
                }
                "echo" => echoes.push((to, &n.params)),
                "hint" => hints.push((to, &n.params)),
                "menu" => menus.push((to, &n.params)),
                "status" => {}
                "info" => {
                    info += 1;
                    if joined != Some(to)
                        || n.params["client"] != json!(to.to_string())
                        || n.params["session"] != json!(s.name)
                        || n.params["cwd"] != json!(s.dir.display().to_string())
                    {
                        push(Area::Status, format!("info {} sent to {}", n.params, to));
                    }
                }
                m => push(Area::Misdirected, format!("unknown notification {}", m)),
            }
        }
        if joined.is_some() && info != 1 {
            push(Area::Status, format!("{} info notifications after joining", info));
        }
        // screens
        for (id, pc) in &st.post.clients {
            let now = sent.get(id).copied();
            if let Some(p) = now {
                *self.seen.entry("views_received").or_insert(0) += 1;
                if let Err(e) = check_view(p, &st.post, pc) {
                    push(
                        Area::ViewContent,
                        format!("view notification of client {}: {}", id, e),
                    );
                    push(
                        Area::Stale,
                        format!("last view received by client {} is not its view: {}", id, e),
                    );
                }
            } else if let Some(p) = s.last_view.get(id) {
                if let Err(e) = check_view(p, &st.post, pc) {
                    push(
                        Area::Stale,
                        format!("client {} is not told about its view: {}", id, e),
                    );
                }
            } else {
                push(Area::Stale, format!("client {} never received a view", id));
            }
        }
        // echoes
        if !self.out.echo_any {
            let mut want = self.out.echoes.clone();
            for (to, p) in &echoes {
                let (text, error) = echo_text(p);
                let i = want.iter().position(|w| w.to == *to);
                match i {
                    None => push(
                        Area::Echo,
                        format!("unexpected message {} to client {}", p, to),
                    ),
                    Some(i) => {
                        let w = want.remove(i);
                        let same = match (&w.text, w.error) {
                            (None, _) => true,
                            (Some(t), false) if w.unordered => {
                                let mut a: Vec<&str> = t.split('\u{1}').collect();
                                let mut b: Vec<&str> = text.split('\u{1}').collect();
                                a.sort();
                                b.sort();
                                a == b
                            }
                            (Some(t), false) => *t == text,
                            (Some(t), true) => squeeze(t) == squeeze(&text),
                        };
                        if !same || error != w.error {
                            push(
                                Area::Echo,
                                format!("message to client {} is {}, expected {:?}", to, p, w),
                            );
                        }
                    }
                }
            }
            for w in want {
                push(Area::Echo, format!("message not sent: {:?}", w));
            }
        } else {
            for (to, p) in &echoes {
                let (_, error) = echo_text(p);
                if Some(*to) != st.op.client() || !error {
                    push(
                        Area::Echo,
                        format!("unexpected message {} to client {}", p, to),
                    );
                }
            }
        }
        *self.seen.entry("messages_received").or_insert(0) += echoes.len() as u64;
        // logs: exactly the messages sent, in order
        for (name, before) in logs {
            let touched = self.bufs.get(*name).map_or(true, |b| b.touched);
            let existed = st.pre.buffers.contains_key(*name);
            let Some(after) = st.post.buffers.get(*name) else { continue };
            if touched && existed {
                continue;
            }
            // started and altered by a script
            let calls = match &st.op {
                Op::Req(_, _, Req::Exec(c)) => &c[..],
                Op::Req(_, _, Req::MenuSelect(_, _, Some(b))) => match &**b {
                    Req::Exec(c) => &c[..],
                    _ => &[],
                },
                _ => &[],
            };
            let alters = |c: &Call| match c {
                Call::Scratch(_, n, _) | Call::Append(n, _) => n == name,
                Call::Delete(_) | Call::DeleteReport(_) => true,
                _ => false,
            };
            if touched && calls.iter().any(|c| alters(&c.call)) {
                continue;
            }
            // the buffer may have been dropped with its view, and started again
            let Some(rest) = after.strip_prefix(before.as_str()) else {
                continue;
            };
            let is_err = *name == "*errors*";
            let entries: Vec<String> = echoes
                .iter()
                .map(|(to, p)| (to, echo_text(p)))
                .filter(|(_, (_, e))| *e == is_err)
                .map(|(to, (t, _))| format!("{}|{}\n", to, t))
                .collect();
            let want = entries.concat();
            let ok = if is_err {
                squeeze(&want) == squeeze(rest) && (rest.is_empty() || rest.ends_with('\n'))
            } else {
                want == rest
            };
            if !ok && !(touched && rest == "\n") {
                push(
                    Area::Log,
                    format!("{} grew by {}, messages sent: {}", name, show(rest), show(&want)),
                );
            }
        }
        // hints
        let mut want = self.out.hints.clone();
        for (to, p) in &hints {
            match want.iter().position(|w| w.0 == *to) {
                None => push(Area::Hint, format!("unexpected hint {} to client {}", p, to)),
                Some(i) => {
                    let w = want.remove(i);
                    let rows: Vec<String> = p["text"]
                        .as_array()
                        .map(|l| l.iter().map(text_of).collect())
                        .unwrap_or_default();
                    for l in &w.1 {
                        if !rows.iter().any(|r| r.contains(l.as_str())) {
                            push(Area::Hint, format!("hint {} does not show {:?}", p, l));
                        }
                    }
                    // at most a frame around it
                    if rows.len() > w.1.len() + 2 {
                        push(Area::Hint, format!("hint {} shows more than {:?}", p, w.1));
                    }
                    *self.seen.entry("hints").or_insert(0) += 1;
                }
            }
        }
        for w in want {
            push(Area::Hint, format!("hint not shown: {:?}", w));
        }
        // menus
        let want = self.out.menus.clone();
        if menus.len() != want.len() {
            push(
                Area::Menu,
                format!("{} menus sent, expected {:?}", menus.len(), want),
            );
        }
        for ((to, p), w) in menus.iter().zip(&want) {
            let entries = self.menus.get(&w.command).cloned();
            let mut e = check_menu(p, w, entries.as_deref());
            if *to != w.to {
                e = Err(format!("sent to client {}, expected {}", to, w.to));
            }
            if let Err(e) = e {
                push(Area::Menu, format!("menu {:?}: {}", w.command, e));
            } else if w.command.is_empty() && w.search.is_empty() {
                // the labels of the commands are not specified
                self.menus.insert(String::new(), menu_entries(p));
            }
            *self.seen.entry("menus").or_insert(0) += 1;
        }
        // status
        for cl in &self.clients {
            let mut want = vec![format!("[{}@{}]", cl.id, s.name)];
            if cl.handled {
                want.push(cl.last_key.clone().unwrap_or_default());
                want.push(cl.mode.name().to_string());
            }
            want.sort();
            match s.last_status.get(&cl.id) {
                None => push(Area::Status, format!("client {} has no status line", cl.id)),
                Some(p) => {
                    let mut got: Vec<String> = p
                        .as_array()
                        .map(|l| l.iter().map(|i| text_of(&i["text"])).collect())
                        .unwrap_or_default();
                    let order: Vec<i64> = p
                        .as_array()
                        .map(|l| l.iter().filter_map(|i| i["index"].as_i64()).collect())
                        .unwrap_or_default();
                    if order.windows(2).any(|w| w[0] > w[1]) {
                        push(Area::Status, format!("status line of client {} is out of order: {}", cl.id, p));
                    }
                    got.sort();
                    if got != want {
                        push(
                            Area::Status,
                            format!("status line of client {} is {:?}, expected {:?}", cl.id, got, want),
                        );
                    }
                }
            }
        }
        let _ = left;
    }

    /// the observed state becomes the reference of the next step
    fn adopt(&mut self, st: &Step) {
        let post = &st.post;
        let old = std::mem::take(&mut self.bufs);
        for (n, t) in &post.buffers {
            self.bufs.insert(
                n.clone(),
                Buf {
                    text: t.clone(),
                    src: old.get(n).map_or(Src::Scratch, |b| b.src.clone()),
                    suffix: false,
                    unknown: false,
                    touched: false,
                },
            );
        }
        let mut ids = BTreeMap::new();
        self.keys.clear();
        for (k, l) in &post.views {
            let id = view_id(l);
            ids.insert(k.clone(), id.clone());
            self.keys.insert(id, k.clone());
        }
        self.views.retain(|v| ids.values().any(|x| x == v));
        for v in ids.values() {
            if !self.views.contains(v) {
                self.views.push(v.clone());
            }
        }
        if let Some(l) = post.latest_view.as_ref().and_then(|k| ids.get(k)) {
            self.views.retain(|v| v != l);
            self.views.insert(0, l.clone());
        }
        let old = std::mem::take(&mut self.clients);
        for cl in old {
            let Some(pc) = post.clients.get(&cl.id) else { continue };
            let mut sels: BTreeMap<ViewId, BTreeMap<String, Sel>> = BTreeMap::new();
            for (k, v) in &ids {
                let mut by = BTreeMap::new();
                for b in v.keys() {
                    let x = pc
                        .selections
                        .get(k)
                        .and_then(|by| by.get(b))
                        .and_then(|l| l.first());
                    let Some(x) = x else { continue };
                    let e = cl.sels.get(v).and_then(|by| by.get(b));
                    let doc = Doc::new(&self.bufs[b].text);
                    let here = doc.at(x.cursor).map(|i| doc.chars[i].col);
                    let col = match e {
                        Some(e) => match (e.col, e.c, here) {
                            (Col::Known(n), Pos::At(o), _) if o == x.cursor => Col::Known(n),
                            (Col::Fresh, _, Some(n)) => Col::Known(n),
                            _ => Col::Unknown,
                        },
                        None => Col::Unknown,
                    };
                    by.insert(
                        b.clone(),
                        Sel {
                            a: Pos::At(x.anchor),
                            c: Pos::At(x.cursor),
                            same: false,
                            begin: None,
                            col,
                            own: false,
                        },
                    );
                }
                sels.insert(v.clone(), by);
            }
            self.clients.push(Cl {
                view: ids.get(&pc.view).cloned().unwrap_or_default(),
                sels,
                ..cl
            });
        }
    }
}

/// moves a selection as the documentation of movements says
pub fn move_sel(s: &mut Sel, doc: &Doc, d: Dir, extend: bool) {
    s.same = false;
    let before = s.col;
    let n = doc.chars.len();
    if n == 0 {
        return;
    }
    let last_line = doc.lines.len();
    let line_chars = |l: usize| -> (usize, usize) {
        let a = doc.chars.partition_point(|c| c.line < l);
        let b = doc.chars.partition_point(|c| c.line <= l);
        (a, b)
    };
    let cur = match s.c {
        Pos::At(o) => doc.at(o),
        _ => None,
    };
    let to = |i: usize, s: &mut Sel| {
        s.c = Pos::At(doc.chars[i].off);
        s.col = Col::Known(doc.chars[i].col);
    };
    match (d, cur) {
        (Dir::Begin, _) => to(0, s),
        (Dir::End, _) => to(n - 1, s),
        (_, None) => {
            s.c = Pos::Any;
            s.col = Col::Unknown;
        }
        (Dir::Left, Some(i)) => {
            if i > 0 {
                to(i - 1, s)
            }
        }
        (Dir::Right, Some(i)) => {
            if i + 1 < n {
                to(i + 1, s)
            }
        }
        (Dir::LineBegin, Some(i)) => {
            let (a, _) = line_chars(doc.chars[i].line);
            to(a, s)
        }
        (Dir::LineEnd, Some(i)) => {
            let (a, b) = line_chars(doc.chars[i].line);
            // the last character before the line break, if any
            let mut e = b - 1;
            if doc.chars[e].newline && e > a {
                e -= 1;
            }
            to(e, s)
        }
        (Dir::Up, Some(i)) | (Dir::Down, Some(i)) => {
            let l = doc.chars[i].line;
            let target = if d == Dir::Up {
                if l == 1 {
                    None
                } else {
                    Some(l - 1)
                }
            } else if l >= last_line {
                None
            } else {
                Some(l + 1)
            };
            if let Some(t) = target {
                let (a, b) = line_chars(t);
                match s.col {
                    Col::Known(c) => {
                        let i = min(a + c - 1, b - 1);
                        s.c = Pos::At(doc.chars[i].off);
                    }
                    _ => s.c = Pos::Line(t),
                }
            }
        }
    }
    if !extend {
        s.a = s.c;
        s.same = true;
    }
    // nowhere to go at all: whether that counts for the remembered column is not specified
    if n == 1 && s.col != before {
        s.col = Col::Unknown;
    }
}

pub fn text_of(t: &Value) -> String {
    fragments(t).into_iter().map(|f| f.0).collect()
}

/// (text, face) of the fragments
pub fn fragments(t: &Value) -> Vec<(String, String)> {
    t.as_array()
        .map(|l| {
            l.iter()
                .map(|f| {
                    (
                        f["text"].as_str().unwrap_or("").to_string(),
                        f["face"].as_str().unwrap_or("").to_string(),
                    )
                })
                .collect()
        })
        .unwrap_or_default()
}

fn echo_text(p: &Value) -> (String, bool) {
    let f = fragments(p);
    let error = f.iter().any(|(_, face)| face == "Error");
    (f.into_iter().map(|x| x.0).collect(), error)
}

pub fn check_response(id: &Value, exp: &ExpResp, got: &Result<Value, String>) -> Result<(), String> {
    let v = match got {
        Ok(v) => v,
        Err(e) => return Err(e.clone()),
    };
    if v["jsonrpc"] != json!("2.0") {
        return Err(format!("not JSON-RPC 2.0: {}", v));
    }
    if v["id"] != *id || v.get("id").is_none() {
        return Err(format!("response {} does not carry the identifier {}", v, id));
    }
    let (r, e) = (v.get("result"), v.get("error"));
    if r.is_some() == e.is_some() {
        return Err(format!("response {} needs exactly one of result and error", v));
    }
    match exp {
        ExpResp::Ok => {
            if r.is_none() {
                return Err(format!("error {} for a valid request", v));
            }
        }
        ExpResp::Err(codes) => match e {
            None => return Err(format!("result {} for a request that must be refused", v)),
            Some(e) => {
                let code = e["code"].as_i64();
                if !code.map_or(false, |c| codes.contains(&c)) || !e["message"].is_string() {
                    return Err(format!("error {}, expected a code in {:?}", e, codes));
                }
            }
        },
        ExpResp::Any => {}
    }
    Ok(())
}

/// compares a view notification with the rendering of the client's view
pub fn check_view(
    p: &Value,
    snap: &Snapshot,
    cl: &ced::editor::verif::ClientSnapshot,
) -> Result<(), String> {
    let Some(lenses) = snap.views.get(&cl.view) else {
        return Err(format!("view {:?} is not registered", cl.view));
    };
    let id = view_id(lenses);
    let items = p.as_array().ok_or("not a list")?;
    if items.len() != id.len() {
        return Err(format!(
            "{} buffers shown, expected {:?}",
            items.len(),
            id.keys()
        ));
    }
    let mut seen = BTreeSet::new();
    for it in items {
        let name = it["buffer"].as_str().ok_or("no buffer name")?;
        let Some(count) = id.get(name) else {
            return Err(format!("shows buffer {:?}, expected {:?}", name, id.keys()));
        };
        if !seen.insert(name) {
            return Err(format!("shows buffer {:?} twice", name));
        }
        let text = snap
            .buffers
            .get(name)
            .ok_or_else(|| format!("unknown buffer {:?}", name))?;
        let doc = Doc::new(text);
        if it["start"] != json!(1) || it["end"] != json!(doc.lines.len()) {
            return Err(format!(
                "buffer {:?} has lines {} to {}, expected 1 to {}",
                name,
                it["start"],
                it["end"],
                doc.lines.len()
            ));
        }
        let ls = it["lenses"].as_array().ok_or("no lenses")?;
        if ls.len() != *count {
            return Err(format!("buffer {:?} has {} lenses, expected {}", name, ls.len(), count));
        }
        let sel = cl
            .selections
            .get(&cl.view)
            .and_then(|b| b.get(name))
            .and_then(|l| l.first());
        let range = match sel {
            None => None,
            Some(s) => {
                let (a, c) = (min(s.anchor, s.cursor), s.anchor.max(s.cursor));
                match (doc.at(a), doc.at(c)) {
                    (Some(_), Some(j)) => Some((a, doc.chars[j].end())),
                    // judged by another property
                    _ => return Ok(()),
                }
            }
        };
        for l in ls {
            if l["first_line_num"] != json!(1) {
                return Err(format!("first line number {}", l["first_line_num"]));
            }
            let lines = l["lines"].as_array().ok_or("no lines")?;
            if lines.len() != doc.lines.len() {
                return Err(format!(
                    "buffer {:?}: {} lines shown, expected {}",
                    name,
                    lines.len(),
                    doc.lines.len()
                ));
            }
            let mut off = 0;
            for (i, line) in lines.iter().enumerate() {
                let want = doc.lines[i];
                let end = off + want.len();
                let next = end + 1;
                // a carriage return before the line feed belongs to the line end
                let cr = want.ends_with('\r') && end < text.len();
                let shown = text_of(line);
                let ok = match shown.strip_suffix(' ') {
                    Some(t) => t == want || (cr && t == &want[..want.len() - 1]),
                    None => false,
                };
                if !ok {
                    return Err(format!(
                        "buffer {:?} line {} is {}, expected {}",
                        name,
                        i + 1,
                        show(&shown),
                        show(want)
                    ));
                }
                if !cr {
                    // cells with the selection face
                    let mut at = off;
                    for (t, face) in fragments(line) {
                        for (k, ch) in t.char_indices() {
                            let o = at + k;
                            let selected = face == "Selection";
                            let want_sel = range.map_or(false, |(a, e)| o >= a && o < e);
                            if selected != want_sel {
                                return Err(format!(
                                    "buffer {:?} line {}: cell {:?} at byte {} is {}, selection is {:?} (line {})",
                                    name,
                                    i + 1,
                                    ch,
                                    o,
                                    if selected { "selected" } else { "not selected" },
                                    range,
                                    line
                                ));
                            }
                        }
                        at += t.len();
                    }
                }
                off = next;
            }
        }
    }
    Ok(())
}

/// the words of a search, in order
fn words(search: &str) -> Vec<String> {
    search.split_whitespace().map(str::to_string).collect()
}

/// characters considered the same when ignoring case
pub fn fold_eq(a: char, b: char) -> bool {
    a == b || a.to_lowercase().eq(b.to_lowercase()) || a.to_uppercase().eq(b.to_uppercase())
}

fn matches_at(label: &[char], at: usize, w: &[char]) -> bool {
    at + w.len() <= label.len() && w.iter().zip(&label[at..]).all(|(x, y)| fold_eq(*x, *y))
}

/// does the label contain the words one after the other
pub fn label_matches(label: &str, ws: &[String]) -> bool {
    let l: Vec<char> = label.chars().collect();
    let mut at = 0;
    for w in ws {
        let w: Vec<char> = w.chars().collect();
        match (at..=l.len()).find(|i| matches_at(&l, *i, &w)) {
            Some(i) => at = i + w.len(),
            None => return false,
        }
    }
    true
}

/// (value, label) of the entries shown
pub fn menu_entries(p: &Value) -> Vec<(String, String)> {
    p["entries"]
        .as_array()
        .map(|l| {
            l.iter()
                .map(|e| {
                    (
                        e["value"].as_str().unwrap_or("").to_string(),
                        text_of(&e["text"]),
                    )
                })
                .collect()
        })
        .unwrap_or_default()
}

/// compares a menu notification with the entries (value, label) it must be made of
pub fn check_menu(p: &Value, w: &ExpMenu, entries: Option<&[(String, String)]>) -> Result<(), String> {
    if p["command"] != json!(w.command) || p["search"] != json!(w.search) {
        return Err(format!("is {:?} {:?}", p["command"], p["search"]));
    }
    let got = p["entries"].as_array().ok_or("no entries")?;
    if w.command == "scratch" || w.command == "exec" {
        let n = usize::from(entries.is_some());
        if got.len() != n {
            return Err(format!("{} entries in a prompt, expected {}", got.len(), n));
        }
        for e in got {
            if fragments(&e["text"]).iter().any(|(_, f)| f != "Prompt") {
                return Err(format!("prompt without the prompt face: {}", e));
            }
        }
        return Ok(());
    }
    let entries = match entries {
        None => {
            if !got.is_empty() {
                return Err("entries in a menu never populated".into());
            }
            return Ok(());
        }
        Some(e) => e,
    };
    let shown = menu_entries(p);
    if w.command.is_empty() && w.search.is_empty() {
        let mut vals: Vec<&str> = shown.iter().map(|e| e.0.as_str()).collect();
        vals.sort_unstable();
        if vals
            != [
                "exec", "open", "quit", "scratch", "view_add", "view_delete", "view_remove", "view_select",
            ]
        {
            return Err(format!("commands {:?}", vals));
        }
    } else {
        let ws = words(&w.search);
        let mut want: Vec<(String, String)> = entries
            .iter()
            .filter(|e| label_matches(&e.1, &ws))
            .cloned()
            .collect();
        want.sort();
        let mut sorted = shown.clone();
        sorted.sort();
        if sorted != want {
            return Err(format!(
                "search {:?} shows {:?}, expected {:?}",
                w.search, sorted, want
            ));
        }
    }
    check_matches(got, &w.search)
}

/// fragments, faces and order of the entries shown
pub fn check_matches(got: &[Value], search: &str) -> Result<(), String> {
    let ws = words(search);
    let mut prev: Option<(usize, String)> = None;
    for e in got {
        let fr = fragments(&e["text"]);
        let label = text_of(&e["text"]);
        let marked: Vec<&(String, String)> = fr.iter().filter(|f| f.1 == "Match").collect();
        if fr.iter().any(|f| f.1 != "Match" && f.1 != "Default") {
            return Err(format!("odd face in {}", e));
        }
        if marked.len() != ws.len()
            || marked.iter().zip(&ws).any(|(m, w)| {
                m.0.chars().count() != w.chars().count()
                    || !m.0.chars().zip(w.chars()).all(|(a, b)| fold_eq(a, b))
            })
        {
            return Err(format!("search {:?} highlights {:?} in {:?}", search, marked, label));
        }
        let mut span = 0;
        if !ws.is_empty() {
            let (mut at, mut first, mut end) = (0, None, 0);
            for (t, f) in &fr {
                if f == "Match" {
                    first.get_or_insert(at);
                    end = at + t.len();
                }
                at += t.len();
            }
            span = end - first.unwrap_or(0);
        }
        if let Some((s, l)) = &prev {
            if span < *s || (span == *s && label < *l) {
                return Err(format!(
                    "search {:?}: {:?} (matched length {}) is listed after {:?} ({})",
                    search, label, span, l, s
                ));
            }
        }
        prev = Some((span, label));
    }
    Ok(())
}
