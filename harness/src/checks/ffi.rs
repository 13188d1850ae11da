//! C24: the C interface, called as a C program would, against a fake server.
//! Meant to run in the build instrumented by AddressSanitizer (see check).
use super::conn::{self, Want};
use crate::check::{CaseResult, Check, Ctx, Tier};
use crate::rng::{hash_str, Rng};
use cedffi as _;
use serde_json::Value;
use std::ffi::{CStr, CString};
use std::io::Write;
use std::os::raw::{c_char, c_int};
use std::os::unix::net::{UnixListener, UnixStream};
use std::time::{Duration, Instant};

/// the C declarations, written out again: what a program compiled against the header sees
pub mod c {
    use super::{c_char, c_int};
    pub enum Opaque {}
    #[repr(C)]
    pub struct Version {
        pub major: *const c_char,
        pub minor: *const c_char,
        pub patch: *const c_char,
        pub pre: *const c_char,
    }
    #[repr(C)]
    pub struct TextItem {
        pub text: *const c_char,
        pub face: *const c_char,
    }
    #[repr(C)]
    pub struct StatusItem {
        pub index: c_int,
        pub text: *mut Opaque,
    }
    #[repr(C)]
    pub struct ViewItem {
        pub buffer: *const c_char,
        pub start: u32,
        pub end: u32,
        pub lenses: *mut Opaque,
    }
    #[repr(C)]
    pub struct ViewLens {
        pub lines: *mut Opaque,
        pub first_line_num: u32,
    }
    #[repr(C)]
    #[derive(Clone, Copy)]
    pub struct Info {
        pub client: *const c_char,
        pub session: *const c_char,
    }
    #[repr(C)]
    #[derive(Clone, Copy)]
    pub struct Menu {
        pub command: *const c_char,
        pub title: *const c_char,
        pub search: *const c_char,
        pub items: *mut Opaque,
        pub selected: u32,
    }
    #[repr(C)]
    pub union Body {
        pub one: *mut Opaque,
        pub info: Info,
        pub menu: Menu,
    }
    #[repr(C)]
    pub struct Event {
        pub tag: c_int,
        pub body: Body,
    }
    extern "C" {
        pub fn ced_version() -> *mut Version;
        pub fn ced_version_destroy(p: *mut Version);
        pub fn ced_connection_create(session: *const c_char) -> *mut Opaque;
        pub fn ced_connection_destroy(p: *mut Opaque);
        pub fn ced_connection_next_event(p: *mut Opaque) -> *mut Event;
        pub fn ced_event_destroy(p: *mut Event);
        pub fn ced_text_next_item(p: *mut Opaque) -> *mut TextItem;
        pub fn ced_text_item_destroy(p: *mut TextItem);
        pub fn ced_text_iterator_destroy(p: *mut Opaque);
        pub fn ced_status_next_item(p: *mut Opaque) -> *mut StatusItem;
        pub fn ced_status_item_destroy(p: *mut StatusItem);
        pub fn ced_status_iterator_destroy(p: *mut Opaque);
        pub fn ced_view_next_item(p: *mut Opaque) -> *mut ViewItem;
        pub fn ced_view_item_destroy(p: *mut ViewItem);
        pub fn ced_view_iterator_destroy(p: *mut Opaque);
        pub fn ced_view_lens_next_item(p: *mut Opaque) -> *mut ViewLens;
        pub fn ced_view_lens_destroy(p: *mut ViewLens);
        pub fn ced_view_lens_iterator_destroy(p: *mut Opaque);
        pub fn ced_last_error_length() -> c_int;
        pub fn ced_last_error_message(buffer: *mut c_char, length: c_int) -> c_int;
    }
}

type Bytes = Vec<u8>;
type Frags = Vec<(Bytes, Bytes)>;

/// what a C program can get at
#[derive(Clone, Debug, PartialEq)]
enum Seen {
    Echo(Frags),
    Info(Bytes, Bytes),
    Menu(Bytes, Bytes, Bytes, u32),
    Status(Vec<(i64, Frags)>),
    /// buffer, first and last line, first line of each lens
    View(Vec<(Bytes, u64, u64, Vec<u64>)>),
}

fn plain(v: &Value) -> Bytes {
    let mut b = v.as_str().unwrap_or("").as_bytes().to_vec();
    b.retain(|&x| x != 0);
    b
}

fn frags_of(v: &Value) -> Frags {
    v.as_array().map(|a| a.iter().map(|f| (plain(&f["text"]), plain(&f["face"]))).collect()).unwrap_or_default()
}

/// what has to be seen of a line of the server
fn expected(line: &conn::Line) -> Option<Seen> {
    if !matches!(line.want, Want::Exact(_)) {
        return None;
    }
    let v: Value = serde_json::from_slice(&line.bytes).ok()?;
    let p = &v["params"];
    let list = |v: &Value| v.as_array().cloned().unwrap_or_default();
    Some(match v["method"].as_str()? {
        "echo" => Seen::Echo(frags_of(p)),
        "info" => Seen::Info(plain(&p["client"]), plain(&p["session"])),
        "menu" => Seen::Menu(plain(&p["command"]), plain(&p["title"]), plain(&p["search"]), 0),
        "status" => Seen::Status(list(p).iter().map(|i| (i["index"].as_i64().unwrap(), frags_of(&i["text"]))).collect()),
        "view" => Seen::View(
            list(p)
                .iter()
                .map(|i| {
                    let lenses = list(&i["lenses"]).iter().map(|l| l["first_line_num"].as_u64().unwrap()).collect();
                    (plain(&i["buffer"]), i["start"].as_u64().unwrap(), i["end"].as_u64().unwrap(), lenses)
                })
                .collect(),
        ),
        _ => return None,
    })
}

/// objects not yet released
enum Owned {
    Event(*mut c::Event),
    Text(*mut c::Opaque),
    TextItem(*mut c::TextItem),
    Status(*mut c::Opaque),
    StatusItem(*mut c::StatusItem),
    View(*mut c::Opaque),
    ViewItem(*mut c::ViewItem),
    Lenses(*mut c::Opaque),
    Lens(*mut c::ViewLens),
    Version(*mut c::Version),
}

struct Host {
    owned: Vec<Owned>,
    r: Rng,
    released: u64,
    nulls: u64,
}

impl Host {
    fn release(&mut self, o: Owned) {
        self.released += 1;
        unsafe {
            match o {
                Owned::Event(p) => c::ced_event_destroy(p),
                Owned::Text(p) => c::ced_text_iterator_destroy(p),
                Owned::TextItem(p) => c::ced_text_item_destroy(p),
                Owned::Status(p) => c::ced_status_iterator_destroy(p),
                Owned::StatusItem(p) => c::ced_status_item_destroy(p),
                Owned::View(p) => c::ced_view_iterator_destroy(p),
                Owned::ViewItem(p) => c::ced_view_item_destroy(p),
                Owned::Lenses(p) => c::ced_view_lens_iterator_destroy(p),
                Owned::Lens(p) => c::ced_view_lens_destroy(p),
                Owned::Version(p) => c::ced_version_destroy(p),
            }
        }
    }

    /// releases now, or later in any order, or never before the end
    fn done_with(&mut self, o: Owned) {
        if self.r.chance(1, 2) {
            self.release(o);
        } else {
            self.owned.push(o);
        }
        while !self.owned.is_empty() && (self.owned.len() > 200 || self.r.chance(1, 3)) {
            let i = self.r.below(self.owned.len());
            let o = self.owned.swap_remove(i);
            self.release(o);
        }
    }

    fn all(&mut self) {
        while !self.owned.is_empty() {
            let i = self.r.below(self.owned.len());
            let o = self.owned.swap_remove(i);
            self.release(o);
        }
    }

    fn string(&self, p: *const c_char, what: &str) -> Result<Bytes, String> {
        if p.is_null() {
            return Err(format!("null pointer as {}", what));
        }
        Ok(unsafe { CStr::from_ptr(p) }.to_bytes().to_vec())
    }

    fn text(&mut self, it: *mut c::Opaque) -> Result<Frags, String> {
        if it.is_null() {
            return Err("null pointer as text".into());
        }
        let mut frags = Vec::new();
        loop {
            let p = unsafe { c::ced_text_next_item(it) };
            if p.is_null() {
                break;
            }
            let item = unsafe { &*p };
            frags.push((self.string(item.text, "text")?, self.string(item.face, "face")?));
            self.done_with(Owned::TextItem(p));
        }
        for _ in 0..self.r.below(3) {
            if !unsafe { c::ced_text_next_item(it) }.is_null() {
                return Err("an ended text goes on".into());
            }
        }
        self.nulls += 1;
        self.done_with(Owned::Text(it));
        Ok(frags)
    }

    fn status(&mut self, it: *mut c::Opaque) -> Result<Seen, String> {
        let mut items = Vec::new();
        let mut later = Vec::new();
        loop {
            let p = unsafe { c::ced_status_next_item(it) };
            if p.is_null() {
                break;
            }
            let (index, text) = unsafe { ((*p).index as i64, (*p).text) };
            if self.r.chance(1, 3) {
                // the text is an object of its own
                self.release(Owned::StatusItem(p));
            } else {
                self.done_with(Owned::StatusItem(p));
            }
            if self.r.chance(1, 2) {
                items.push((index, self.text(text)?));
            } else {
                items.push((index, Vec::new()));
                later.push((items.len() - 1, text));
            }
        }
        if !unsafe { c::ced_status_next_item(it) }.is_null() {
            return Err("an ended status goes on".into());
        }
        self.nulls += 1;
        self.done_with(Owned::Status(it));
        while !later.is_empty() {
            let n = self.r.below(later.len());
            let (i, t) = later.swap_remove(n);
            items[i].1 = self.text(t)?;
        }
        Ok(Seen::Status(items))
    }

    fn lenses(&mut self, it: *mut c::Opaque) -> Result<Vec<u64>, String> {
        let mut list = Vec::new();
        loop {
            let p = unsafe { c::ced_view_lens_next_item(it) };
            if p.is_null() {
                break;
            }
            list.push(unsafe { (*p).first_line_num } as u64);
            if unsafe { (*p).lines }.is_null() {
                return Err("a lens without lines".into());
            }
            self.done_with(Owned::Lens(p));
        }
        if !unsafe { c::ced_view_lens_next_item(it) }.is_null() {
            return Err("ended lenses go on".into());
        }
        self.nulls += 1;
        self.done_with(Owned::Lenses(it));
        Ok(list)
    }

    fn view(&mut self, it: *mut c::Opaque) -> Result<Seen, String> {
        let mut items = Vec::new();
        let mut later = Vec::new();
        loop {
            let p = unsafe { c::ced_view_next_item(it) };
            if p.is_null() {
                break;
            }
            let item = unsafe { &*p };
            let (buffer, start, end, lenses) = (self.string(item.buffer, "buffer")?, item.start as u64, item.end as u64, item.lenses);
            self.done_with(Owned::ViewItem(p));
            items.push((buffer, start, end, Vec::new()));
            if self.r.chance(1, 2) {
                let l = self.lenses(lenses)?;
                items.last_mut().unwrap().3 = l;
            } else {
                later.push((items.len() - 1, lenses));
            }
        }
        if !unsafe { c::ced_view_next_item(it) }.is_null() {
            return Err("an ended view goes on".into());
        }
        self.nulls += 1;
        self.done_with(Owned::View(it));
        while !later.is_empty() {
            let n = self.r.below(later.len());
            let (i, l) = later.swap_remove(n);
            items[i].3 = self.lenses(l)?;
        }
        Ok(Seen::View(items))
    }

    /// everything that can be reached from an event
    fn event(&mut self, p: *mut c::Event) -> Result<Seen, String> {
        let ev = unsafe { &*p };
        let tag = ev.tag;
        // released before or after what it points to, which are objects of their own
        let early = self.r.chance(1, 2);
        let seen = unsafe {
            match tag {
                0 | 3 | 4 => {
                    let it = ev.body.one;
                    if it.is_null() {
                        return Err(format!("null pointer in an event {}", tag));
                    }
                    if early {
                        self.release(Owned::Event(p));
                    }
                    match tag {
                        0 => Seen::Echo(self.text(it)?),
                        3 => self.status(it)?,
                        _ => self.view(it)?,
                    }
                }
                1 => {
                    let i = ev.body.info;
                    if early {
                        self.release(Owned::Event(p));
                    }
                    Seen::Info(self.string(i.client, "client")?, self.string(i.session, "session")?)
                }
                2 => {
                    let m = ev.body.menu;
                    if early {
                        self.release(Owned::Event(p));
                    }
                    if m.items.is_null() {
                        return Err("a menu without items".into());
                    }
                    Seen::Menu(self.string(m.command, "command")?, self.string(m.title, "title")?, self.string(m.search, "search")?, m.selected)
                }
                t => return Err(format!("an event of the unknown kind {}", t)),
            }
        };
        if !early {
            self.done_with(Owned::Event(p));
        }
        Ok(seen)
    }
}

fn kind(s: &Seen) -> &'static str {
    match s {
        Seen::Echo(_) => "echo",
        Seen::Info(..) => "info",
        Seen::Menu(..) => "menu",
        Seen::Status(_) => "status",
        Seen::View(_) => "view",
    }
}

fn cut<T: std::fmt::Debug>(x: &T) -> String {
    format!("{:?}", x).chars().take(500).collect()
}

/// what one connection observed
#[derive(Default)]
struct Report {
    counts: Vec<(String, u64)>,
    kinds: String,
    log: Vec<String>,
}

struct Handle(*mut c::Opaque);
unsafe impl Send for Handle {}

fn session(mut r: Rng, dir: std::path::PathBuf) -> Result<Report, String> {
    let io = |e: std::io::Error| format!("harness: {}", e);
    let mut rep = Report::default();
    let name = format!("f{}é", r.next() % 1_000_000_000);
    let path = dir.join(&name);
    let listener = UnixListener::bind(&path).map_err(io)?;
    let cname = CString::new(name).unwrap();
    let conn = unsafe { c::ced_connection_create(cname.as_ptr()) };
    drop(cname);
    if conn.is_null() {
        return Err("no connection to a session that is there".into());
    }
    let (sock, _) = listener.accept().map_err(io)?;
    let _ = std::fs::remove_file(&path);
    // the lines, and what is to be seen of them
    let mut model = conn::Model::default();
    let mut chunks: Vec<(Bytes, bool)> = Vec::new();
    let mut want: Vec<Seen> = Vec::new();
    let mut skipped = 0;
    for _ in 0..r.range(1, 40) {
        let l = conn::gen_line(&mut r, &mut model);
        match expected(&l) {
            Some(e) => want.push(e),
            None => skipped += 1,
        }
        chunks.push((l.bytes, r.chance(1, 10)));
    }
    // the program may not wait for all of it
    let abandoned = r.chance(1, 6);
    let mut out: UnixStream = sock.try_clone().map_err(io)?;
    let writer = std::thread::spawn(move || {
        for (b, pause) in chunks {
            let n = if pause { b.len() / 2 } else { b.len() };
            if out.write_all(&b[..n]).is_err() {
                return;
            }
            if pause {
                std::thread::sleep(Duration::from_micros(300));
                if out.write_all(&b[n..]).is_err() {
                    return;
                }
            }
        }
        // half closed: the events end here
        let _ = out.shutdown(std::net::Shutdown::Write);
    });
    let seed = r.next();
    let stop = if abandoned { r.below(want.len() + 1) } else { want.len() };
    let conn = Handle(conn);
    let moved = r.chance(1, 4);
    let work = move || -> Result<(Report, Handle), String> {
        let conn = conn;
        let mut host = Host { owned: Vec::new(), r: Rng::new(seed), released: 0, nulls: 0 };
        for (i, w) in want.iter().take(stop).enumerate() {
            let t = Instant::now();
            let p = unsafe { c::ced_connection_next_event(conn.0) };
            if p.is_null() {
                if t.elapsed() > Duration::from_secs(4) {
                    return Err("slow".into());
                }
                return Err(format!("the events end after {} instead of giving {}", i, cut(w)));
            }
            let got = host.event(p)?;
            if got != *w {
                return Err(format!("event {}: {} instead of {}", i, cut(&got), cut(w)));
            }
            rep.kinds.push_str(kind(w));
            rep.counts.push((format!("event {}", kind(w)), 1));
        }
        if !abandoned {
            for _ in 0..2 {
                let t = Instant::now();
                let p = unsafe { c::ced_connection_next_event(conn.0) };
                if !p.is_null() {
                    return Err(format!("one event more than announced: {}", cut(&host.event(p)?)));
                }
                if t.elapsed() > Duration::from_secs(4) {
                    return Err("slow".into());
                }
            }
            rep.counts.push(("ends".into(), 1));
        } else {
            rep.counts.push(("abandoned".into(), 1));
        }
        host.all();
        rep.counts.push(("objects released".into(), host.released));
        rep.counts.push(("iterators ended".into(), host.nulls));
        rep.counts.push(("lines without an event".into(), skipped));
        Ok((rep, conn))
    };
    let (rep, conn) = if moved {
        // a program may hand the connection to another thread
        std::thread::spawn(work).join().map_err(|_| "panic in the calling thread")??
    } else {
        work()?
    };
    unsafe { c::ced_connection_destroy(conn.0) };
    if abandoned {
        // what still comes has nowhere to go
        std::thread::sleep(Duration::from_millis(1));
    }
    drop(sock);
    let _ = writer.join();
    Ok(rep)
}

fn version(r: &mut Rng) -> CaseResult {
    let mut host = Host { owned: Vec::new(), r: Rng::new(r.next()), released: 0, nulls: 0 };
    for _ in 0..r.range(1, 3) {
        let p = unsafe { c::ced_version() };
        let v = unsafe { &*p };
        let got: Vec<Bytes> = vec![host.string(v.major, "major")?, host.string(v.minor, "minor")?, host.string(v.patch, "patch")?, host.string(v.pre, "pre")?];
        let want: Vec<Bytes> = ["0", "1", "0", ""].iter().map(|s| s.as_bytes().to_vec()).collect();
        if got != want {
            return Err(format!("the version is {:?}, expected {:?}", got, want));
        }
        host.done_with(Owned::Version(p));
    }
    host.all();
    Ok(())
}

/// connections that cannot be made, and how they are told
fn failures(r: &mut Rng, dir: &std::path::Path, dead: Option<String>) -> Result<&'static str, String> {
    let length = || unsafe { c::ced_last_error_length() };
    let name = match (dead, r.below(16)) {
        (Some(n), _) => n.into_bytes(),
        // a file: refused connections are tried again for half a second
        (_, 0) => {
            let n = format!("file{}", r.next() % 1_000_000_000);
            std::fs::write(dir.join(&n), b"x").map_err(|e| format!("harness: {}", e))?;
            n.into_bytes()
        }
        // no server can be started
        _ => format!("none{}", r.next() % 1_000_000_000).into_bytes(),
    };
    let cname = CString::new(name.clone()).unwrap();
    let p = unsafe { c::ced_connection_create(cname.as_ptr()) };
    let _ = std::fs::remove_file(dir.join(String::from_utf8_lossy(&name).as_ref()));
    if !p.is_null() {
        return Err(format!("connected to {:?}, which is no session", String::from_utf8_lossy(&name)));
    }
    let n = length();
    if n < 1 || length() != n {
        return Err(format!("after a failure the last error has a length of {} then {}", n, length()));
    }
    // errors are of the thread that met them
    if r.chance(1, 3) {
        let other = std::thread::spawn(|| unsafe { c::ced_last_error_length() }).join().unwrap();
        if other != -1 {
            return Err(format!("another thread sees an error of length {}", other));
        }
    }
    if unsafe { c::ced_last_error_message(std::ptr::null_mut(), 10) } != -1 {
        return Err("a null buffer is accepted".into());
    }
    if length() != n {
        return Err("a null buffer loses the error".into());
    }
    if r.chance(1, 3) {
        // too small: nothing is written behind it (the sanitizer sees to it)
        let size = if r.chance(1, 2) { n as usize } else { r.range(1, n as usize) };
        let mut buf = vec![0x55u8; size].into_boxed_slice();
        let got = unsafe { c::ced_last_error_message(buf.as_mut_ptr() as *mut c_char, size as c_int) };
        if got != -2 {
            return Err(format!("a buffer of {} for an error of {} gives {}", size, n, got));
        }
        Ok("buffers too small")
    } else {
        let size = n as usize + 1 + if r.chance(1, 2) { 0 } else { r.below(50) };
        let mut buf = vec![0x55u8; size].into_boxed_slice();
        let got = unsafe { c::ced_last_error_message(buf.as_mut_ptr() as *mut c_char, size as c_int) };
        let end = buf.iter().position(|&b| b == 0);
        if got != n || end != Some(n as usize) || buf[n as usize + 1..].iter().any(|&b| b != 0x55) || std::str::from_utf8(&buf[..n as usize]).is_err() {
            return Err(format!("the message of an error of length {}: {} {:?}", n, got, String::from_utf8_lossy(&buf)));
        }
        if length() != -1 {
            return Err("an error is still there once taken".into());
        }
        let mut one = [0x55u8; 4];
        if unsafe { c::ced_last_error_message(one.as_mut_ptr() as *mut c_char, 4) } > 0 {
            return Err("an error is told twice".into());
        }
        Ok("errors told")
    }
}

pub struct C24Check;
pub static C24: C24Check = C24Check;

impl Check for C24Check {
    fn id(&self) -> &'static str {
        "C24"
    }
    fn rule(&self) -> &'static str {
        "a case is one to three connections made through the C functions, in parallel threads, to fake servers sending 1 to 40 lines of every kind (texts with zero bytes, events without a C counterpart, garbage), all reached objects compared with the lines and released in random order; or failing connections and their errors, or the version; under AddressSanitizer; distinct by sequence of event kinds"
    }
    fn cases(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 6000,
            Tier::Thorough => 60_000,
        }
    }
    fn required(&self) -> Vec<&'static str> {
        vec![
            "event echo", "event info", "event menu", "event status", "event view", "ends", "abandoned", "objects released",
            "iterators ended", "lines without an event", "errors told", "buffers too small", "versions", "parallel connections", "parallel failures",
        ]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the layout of the structures is the one cbindgen would write for the declarations of the tree under test", "memory not released by the destroy functions is not judged"]
    }
    fn run(&self, _case: u64, r: &mut Rng, ctx: &mut Ctx) -> CaseResult {
        let former: Vec<_> = ["TMPDIR", "CED_BIN"].iter().map(|&k| (k, std::env::var_os(k))).collect();
        let res = self.one(r, ctx);
        for (k, v) in former {
            match v {
                Some(v) => std::env::set_var(k, v),
                None => std::env::remove_var(k),
            }
        }
        res
    }
}

impl C24Check {
    fn one(&self, r: &mut Rng, ctx: &mut Ctx) -> CaseResult {
        // where sessions are looked for
        std::env::set_var("TMPDIR", &ctx.scratch);
        std::env::set_var("CED_BIN", ctx.scratch.join("no-such-program"));
        let dir = ctx.scratch.join(format!("ced-{}", std::env::var("USER").unwrap_or_default()));
        std::fs::create_dir_all(&dir).map_err(|e| format!("harness: {}", e))?;
        match r.below(12) {
            0 => {
                version(r)?;
                ctx.count("versions");
                return Ok(());
            }
            1 | 2 => {
                let n = if r.chance(1, 2) { r.range(2, 4) } else { 1 };
                // several errors in each of several threads
                let mut work = Vec::new();
                for _ in 0..n {
                    let mut tries = Vec::new();
                    for _ in 0..r.range(1, 5) {
                        tries.push(if r.chance(1, 20) {
                            // a socket nobody listens to, closed before any process is started that could inherit it
                            let n = format!("dead{}", r.next() % 1_000_000_000);
                            drop(UnixListener::bind(dir.join(&n)).map_err(|e| format!("harness: {}", e))?);
                            Some(n)
                        } else {
                            None
                        });
                    }
                    work.push(tries);
                }
                let hosts: Vec<_> = work
                    .into_iter()
                    .map(|tries| {
                        let (mut r, d) = (Rng::new(r.next()), dir.clone());
                        std::thread::spawn(move || tries.into_iter().map(|t| failures(&mut r, &d, t)).collect::<Result<Vec<_>, _>>())
                    })
                    .collect();
                let seen: Vec<_> = hosts.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("panic in a calling thread".into()))).collect();
                for s in seen {
                    for k in s? {
                        ctx.count(k);
                    }
                }
                if n > 1 {
                    ctx.count("parallel failures");
                }
                return Ok(());
            }
            _ => {}
        }
        let n = if r.chance(1, 4) { r.range(2, 3) } else { 1 };
        let reports: Vec<Result<Report, String>> = if n == 1 {
            vec![session(Rng::new(r.next()), dir)]
        } else {
            ctx.count("parallel connections");
            let hosts: Vec<_> = (0..n)
                .map(|_| {
                    let (r, d) = (Rng::new(r.next()), dir.clone());
                    std::thread::spawn(move || session(r, d))
                })
                .collect();
            hosts.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("panic in a calling thread".into()))).collect()
        };
        let mut kinds = String::new();
        for rep in reports {
            match rep {
                Ok(rep) => {
                    for (k, n) in rep.counts {
                        ctx.add(&k, n);
                    }
                    for l in rep.log {
                        ctx.log(l);
                    }
                    kinds += &rep.kinds;
                }
                Err(e) if e == "slow" => ctx.inconclusive = Some("an event took more than 4 s".into()),
                Err(e) => return Err(e),
            }
        }
        ctx.sample(|| format!("{} connections: {}", n, kinds));
        ctx.distinct(hash_str(&kinds));
        Ok(())
    }
}
