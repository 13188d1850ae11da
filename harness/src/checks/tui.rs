//! C25: the terminal client in a pseudo terminal, between a screen model and a fake server.
use super::wire::gen_string;
use crate::check::{CaseResult, Check, Ctx, Tier};
use crate::live::*;
use crate::rng::{hash_str, Rng};
use serde_json::{json, Value};
use std::collections::VecDeque;
use std::fs;
use std::net::Shutdown;
use std::os::fd::FromRawFd;
use std::os::unix::net::UnixListener;
use std::os::unix::process::CommandExt;
use std::path::Path;
use std::process::{Child, ExitStatus, Stdio};
use std::time::{Duration, Instant};

pub struct C25Check;
pub static C25: C25Check = C25Check;

// ------------------------------------------------------------------------------------ terminal

#[derive(Clone, Copy, Debug, PartialEq)]
struct Cell {
    c: char,
    reverse: bool,
}

const BLANK: Cell = Cell { c: ' ', reverse: false };

/// what a terminal shows for the bytes it is sent
struct Screen {
    w: usize,
    h: usize,
    cells: Vec<Vec<Cell>>,
    x: usize,
    y: usize,
    /// the last column was just written
    pending: bool,
    reverse: bool,
    alternate: bool,
    cursor_hidden: bool,
    scrolled: u64,
    cleared: u64,
    /// an unfinished sequence
    buf: Vec<u8>,
}

impl Screen {
    fn new(w: usize, h: usize) -> Screen {
        Screen {
            w,
            h,
            cells: vec![vec![BLANK; w]; h],
            x: 0,
            y: 0,
            pending: false,
            reverse: false,
            alternate: false,
            cursor_hidden: false,
            scrolled: 0,
            cleared: 0,
            buf: Vec::new(),
        }
    }

    fn resize(&mut self, w: usize, h: usize) {
        self.w = w;
        self.h = h;
        self.cells.resize(h, vec![BLANK; w]);
        for l in self.cells.iter_mut() {
            l.resize(w, BLANK);
        }
        self.x = self.x.min(w - 1);
        self.y = self.y.min(h - 1);
        self.pending = false;
    }

    fn line_feed(&mut self) {
        if self.y + 1 < self.h {
            self.y += 1;
        } else {
            self.cells.remove(0);
            self.cells.push(vec![BLANK; self.w]);
            self.scrolled += 1;
        }
    }

    fn put(&mut self, c: char) {
        if self.pending {
            self.pending = false;
            self.x = 0;
            self.line_feed();
        }
        self.cells[self.y][self.x] = Cell { c, reverse: self.reverse };
        if self.x + 1 == self.w {
            self.pending = true;
        } else {
            self.x += 1;
        }
    }

    fn feed(&mut self, bytes: &[u8]) {
        self.buf.extend_from_slice(bytes);
        let buf = std::mem::take(&mut self.buf);
        let mut i = 0;
        while i < buf.len() {
            let b = buf[i];
            match b {
                0x1b => match self.escape(&buf[i..]) {
                    Some(n) => i += n,
                    None => break,
                },
                b'\r' => {
                    self.x = 0;
                    self.pending = false;
                    i += 1;
                }
                b'\n' => {
                    self.pending = false;
                    self.line_feed();
                    i += 1;
                }
                0x08 => {
                    self.x = self.x.saturating_sub(1);
                    i += 1;
                }
                0x00..=0x1f | 0x7f => i += 1,
                _ => {
                    let n = match b {
                        0xc0..=0xdf => 2,
                        0xe0..=0xef => 3,
                        0xf0..=0xff => 4,
                        _ => 1,
                    };
                    if i + n > buf.len() {
                        break;
                    }
                    match std::str::from_utf8(&buf[i..i + n]).ok().and_then(|s| s.chars().next()) {
                        Some(c) => {
                            self.put(c);
                            i += n;
                        }
                        None => {
                            self.put('\u{fffd}');
                            i += 1;
                        }
                    }
                }
            }
        }
        self.buf = buf[i..].to_vec();
    }

    /// length of the sequence at the start, None when it is not complete
    fn escape(&mut self, s: &[u8]) -> Option<usize> {
        match s.get(1)? {
            b'[' => {
                let n = s[2..].iter().position(|b| (0x40..0x7f).contains(b))? + 2;
                let text = String::from_utf8_lossy(&s[2..n]).into_owned();
                self.csi(&text, s[n]);
                Some(n + 1)
            }
            _ => Some(2),
        }
    }

    fn csi(&mut self, text: &str, last: u8) {
        let nums: Vec<usize> = text.trim_start_matches('?').split(';').map(|t| t.parse().unwrap_or(0)).collect();
        let n = |i: usize| nums.get(i).copied().unwrap_or(0);
        match (text.starts_with('?'), last) {
            (false, b'H') | (false, b'f') => {
                self.y = n(0).max(1).min(self.h) - 1;
                self.x = n(1).max(1).min(self.w) - 1;
                self.pending = false;
            }
            (false, b'J') => {
                let all = n(0) >= 2;
                for (y, l) in self.cells.iter_mut().enumerate() {
                    if all || y > self.y {
                        l.fill(BLANK);
                    } else if n(0) == 0 && y == self.y {
                        l[self.x..].fill(BLANK);
                    } else if n(0) == 1 && y < self.y {
                        l.fill(BLANK);
                    }
                }
                if all {
                    self.cleared += 1;
                }
            }
            (false, b'K') => {
                let (x, l) = (self.x, &mut self.cells[self.y]);
                match n(0) {
                    0 => {
                        // terminals differ on the last column still holding the cursor
                        if !self.pending {
                            l[x..].fill(BLANK)
                        }
                    }
                    1 => l[..=x].fill(BLANK),
                    _ => l.fill(BLANK),
                }
            }
            (false, b'm') => {
                let mut i = 0;
                while i < nums.len().max(1) {
                    match n(i) {
                        0 => self.reverse = false,
                        7 => self.reverse = true,
                        27 => self.reverse = false,
                        38 | 48 => i += if n(i + 1) == 5 { 2 } else { 4 },
                        _ => {}
                    }
                    i += 1;
                }
            }
            (false, b'A') => self.y = self.y.saturating_sub(n(0).max(1)),
            (false, b'B') => self.y = (self.y + n(0).max(1)).min(self.h - 1),
            (false, b'C') => self.x = (self.x + n(0).max(1)).min(self.w - 1),
            (false, b'D') => self.x = self.x.saturating_sub(n(0).max(1)),
            (false, b'G') => self.x = n(0).max(1).min(self.w) - 1,
            (false, b'd') => self.y = n(0).max(1).min(self.h) - 1,
            (true, b'h') | (true, b'l') => {
                let on = last == b'h';
                for k in nums.iter() {
                    match k {
                        1049 | 1047 | 47 => self.alternate = on,
                        25 => self.cursor_hidden = !on,
                        _ => {}
                    }
                }
            }
            _ => {}
        }
    }

    fn row(&self, y: usize) -> String {
        self.cells[y].iter().map(|c| c.c).collect()
    }

    fn dump(&self) -> String {
        (0..self.h.min(12)).map(|y| self.row(y).chars().take(60).collect::<String>()).map(|l| format!("|{}|", l)).collect::<Vec<_>>().join(" ")
    }
}

pub(super) struct Pty {
    master: i32,
    pub(super) slave: i32,
    start: libc::termios,
}

impl Pty {
    pub(super) fn new(w: usize, h: usize) -> Result<Pty, String> {
        let (mut m, mut s) = (0, 0);
        let size = libc::winsize { ws_row: h as u16, ws_col: w as u16, ws_xpixel: 0, ws_ypixel: 0 };
        unsafe {
            if libc::openpty(&mut m, &mut s, std::ptr::null_mut(), std::ptr::null(), &size) != 0 {
                return Err(format!("openpty: {}", std::io::Error::last_os_error()));
            }
            for fd in [m, s] {
                libc::fcntl(fd, libc::F_SETFD, libc::FD_CLOEXEC);
            }
            let f = libc::fcntl(m, libc::F_GETFL);
            libc::fcntl(m, libc::F_SETFL, f | libc::O_NONBLOCK);
        }
        let mut p = Pty { master: m, slave: s, start: unsafe { std::mem::zeroed() } };
        p.start = p.modes();
        Ok(p)
    }

    fn modes(&self) -> libc::termios {
        unsafe {
            let mut t: libc::termios = std::mem::zeroed();
            libc::tcgetattr(self.slave, &mut t);
            t
        }
    }

    fn restored(&self) -> bool {
        let (a, b) = (self.modes(), self.start);
        a.c_iflag == b.c_iflag && a.c_oflag == b.c_oflag && a.c_lflag == b.c_lflag && a.c_cflag == b.c_cflag && a.c_cc == b.c_cc
    }

    fn resize(&self, w: usize, h: usize) {
        let size = libc::winsize { ws_row: h as u16, ws_col: w as u16, ws_xpixel: 0, ws_ypixel: 0 };
        unsafe {
            libc::ioctl(self.master, libc::TIOCSWINSZ, &size);
        }
    }

    pub(super) fn read(&self) -> Vec<u8> {
        let mut out = Vec::new();
        let mut buf = [0u8; 65536];
        for _ in 0..64 {
            let n = unsafe { libc::read(self.master, buf.as_mut_ptr() as *mut libc::c_void, buf.len()) };
            if n <= 0 {
                break;
            }
            out.extend_from_slice(&buf[..n as usize]);
        }
        out
    }

    pub(super) fn write(&self, b: &[u8]) -> bool {
        let n = unsafe { libc::write(self.master, b.as_ptr() as *const libc::c_void, b.len()) };
        n == b.len() as isize
    }
}

impl Drop for Pty {
    fn drop(&mut self) {
        unsafe {
            libc::close(self.master);
            libc::close(self.slave);
        }
    }
}

struct Prog {
    child: Child,
}

impl Drop for Prog {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

// --------------------------------------------------------------------------------- what is shown

#[derive(Clone, Debug, Default)]
struct Frag {
    text: String,
    face: &'static str,
}

fn frags_json(t: &[Frag]) -> Value {
    Value::Array(t.iter().map(|f| json!({"text": f.text, "face": f.face})).collect())
}

fn plain(t: &[Frag]) -> String {
    t.iter().map(|f| f.text.as_str()).collect()
}

#[derive(Clone, Debug, Default)]
struct Item {
    buffer: String,
    start: usize,
    end: usize,
    lenses: Vec<Vec<Vec<Frag>>>,
}

#[derive(Clone, Debug)]
struct MenuState {
    command: String,
    title: String,
    search: String,
    entries: Vec<(String, Vec<Frag>)>,
    selected: usize,
}

/// what the server announced last
#[derive(Clone, Debug, Default)]
struct World {
    view: Vec<Item>,
    status: Vec<Vec<Frag>>,
    echo: Vec<Frag>,
    /// a menu came since: the message may be gone
    echo_unsure: bool,
    menu: Option<MenuState>,
    /// hint lines drawn over the rest, until the next full drawing
    hint: Option<Vec<Vec<Frag>>>,
    /// the status line was drawn over the menu
    status_over: bool,
    /// rows at the bottom that former hints may cover
    covered: usize,
    /// nothing was drawn yet
    fresh: bool,
    /// status line drawn after the hint
    status_last: bool,
}

fn cut(s: &str, w: usize) -> String {
    s.chars().take(w).collect()
}

fn padded(s: &str, w: usize) -> String {
    let s = cut(s, w);
    let n = s.chars().count();
    s + &" ".repeat(w - n)
}

impl World {
    /// the rows of the buffers, each with its faces when known
    fn rows(&self, w: usize, h: usize) -> Vec<(String, Option<Vec<Frag>>)> {
        let mut rows = Vec::new();
        for item in &self.view {
            rows.push((format!("-[{}][{}:{}]", item.buffer, item.start, item.end), None));
            for lens in &item.lenses {
                for line in lens {
                    rows.push((plain(line), Some(line.clone())));
                }
            }
        }
        rows.truncate(h.saturating_sub(1));
        for r in rows.iter_mut() {
            r.0 = cut(&r.0, w);
        }
        rows
    }

    fn status_row(&self, got: &str, w: usize, y: usize) -> CaseResult {
        let err = |what: String| Err(format!("the status line (row {}) is {:?}: {}", y, got, what));
        let echo = plain(&self.echo);
        let items: Vec<String> = self.status.iter().map(|t| plain(t)).collect();
        let status_len: usize = items.iter().map(|s| s.chars().count()).sum::<usize>() + items.len().saturating_sub(1);
        let mut last = String::new();
        let echoes = if self.echo_unsure { vec![echo, String::new()] } else { vec![echo] };
        for echo in echoes {
            let n = echo.chars().count();
            if !got.starts_with(&cut(&echo, w)) {
                last = format!("it does not start with the message {:?}", echo);
                continue;
            }
            if n + status_len < w {
                // everything has room: items in order up to the right edge, nothing else
                let rest: String = got.chars().skip(n).collect();
                let tail: String = got.chars().skip(w - status_len).collect();
                let gap: String = rest.chars().take(w - status_len - n).collect();
                let mut t = tail.as_str();
                let mut ok = gap.trim().is_empty();
                for (i, it) in items.iter().enumerate() {
                    if i > 0 {
                        let mut cs = t.chars();
                        cs.next();
                        t = cs.as_str();
                    }
                    match t.strip_prefix(it.as_str()) {
                        Some(r) => t = r,
                        None => {
                            ok = false;
                            break;
                        }
                    }
                }
                if ok {
                    return Ok(());
                }
                last = format!("message {:?} and items {:?} have room", echo, items);
            } else {
                return Ok(());
            }
        }
        err(last)
    }

    /// does the screen show it?
    fn judge(&self, s: &Screen) -> CaseResult {
        if self.fresh {
            return Ok(());
        }
        let (w, h) = (s.w, s.h);
        if let Some(m) = &self.menu {
            return self.judge_menu(m, s);
        }
        let rows = self.rows(w, h);
        // the hint covers some of the rows
        let hint_rows = self.hint.as_ref().map_or(0, |h| h.len().min(s.h));
        let hint_from = h - hint_rows;
        for y in 0..h.saturating_sub(1) {
            if y >= hint_from || y + self.covered >= h {
                continue;
            }
            let got = s.row(y);
            match rows.get(y) {
                Some((text, faces)) => {
                    let header = faces.is_none();
                    let n = text.chars().count();
                    let rest: String = got.chars().skip(n).collect();
                    let rest_ok = if header { rest.chars().all(|c| c == '-' || c == ' ') } else { rest.trim().is_empty() };
                    if !got.starts_with(text.as_str()) || !rest_ok {
                        return Err(format!("row {} shows {:?}, expected {:?}", y, got, text));
                    }
                    if let Some(fs) = faces {
                        let mut x = 0;
                        for f in fs {
                            for _ in f.text.chars() {
                                if x >= w {
                                    break;
                                }
                                let rev = s.cells[y][x].reverse;
                                if (f.face == "Selection") != rev && (f.face == "Selection" || f.face == "Default") {
                                    return Err(format!("row {} column {} ({:?}) is {} as selected, face {}", y, x, got, if rev { "shown" } else { "not shown" }, f.face));
                                }
                                x += 1;
                            }
                        }
                    }
                }
                None if !got.trim().is_empty() => return Err(format!("row {} shows {:?}, expected nothing", y, got)),
                None => {}
            }
        }
        if self.hint.is_none() || self.status_last {
            self.status_row(&s.row(h - 1), w, h - 1)?;
        }
        if let Some(hint) = &self.hint {
            let wide = hint.iter().map(|l| plain(l).chars().count()).max().unwrap_or(0).min(w);
            for (i, line) in hint.iter().take(h).enumerate() {
                let y = hint_from + i;
                if y == h - 1 && self.status_last {
                    continue;
                }
                let text = cut(&plain(line), w);
                let got = s.row(y);
                // to the right, in a box as wide as the widest line
                let area: String = got.chars().skip(w - wide).collect();
                if !area.contains(text.trim_end()) {
                    return Err(format!("row {} shows {:?}, expected the hint line {:?} to the right", y, got, text));
                }
                let (left, want) = (cut(&got, w - wide), rows.get(y).filter(|_| y + 1 < h));
                let under = match want {
                    Some((t, f)) => {
                        let mut t = t.clone();
                        if f.is_none() {
                            t += &"-".repeat(w);
                        }
                        padded(&t, w - wide)
                    }
                    None => " ".repeat(w - wide),
                };
                if left != under && y + 1 < h && y + self.covered < h && !(want.map_or(false, |x| x.1.is_none()) && left.trim_end_matches('-') == under.trim_end_matches('-')) {
                    return Err(format!("row {} shows {:?} besides the hint, expected {:?}", y, left, under));
                }
            }
        }
        Ok(())
    }

    fn judge_menu(&self, m: &MenuState, s: &Screen) -> CaseResult {
        let (w, h) = (s.w, s.h);
        let title = format!("{}:{}", m.title, m.search);
        let got = s.row(0);
        let hidden = self.hint.as_ref().map_or(0, Vec::len).max(self.covered) >= h;
        if !hidden && !(h == 1 && self.status_over) && got != padded(&title, w) {
            return Err(format!("the first row shows {:?}, expected the menu {:?}", got, cut(&title, w)));
        }
        for y in 1..h {
            let hint = self.hint.as_ref().map_or(0, Vec::len);
            if y + hint.max(self.covered) >= h {
                continue;
            }
            if y == h - 1 && self.status_over {
                continue;
            }
            let got = s.row(y);
            let i = y - 1;
            match m.entries.get(i) {
                Some((_, text)) => {
                    let text = plain(text);
                    if got != padded(&text, w) {
                        return Err(format!("row {} shows {:?}, expected the entry {:?}", y, got, text));
                    }
                    let lit = s.cells[y].iter().any(|c| c.reverse);
                    if lit != (i == m.selected) && !text.is_empty() {
                        return Err(format!("row {} ({:?}) is {} as selected, entry {} is", y, got, if lit { "shown" } else { "not shown" }, m.selected));
                    }
                }
                // nothing left of what was there before
                None if y == h - 1 => {}
                None if !got.trim().is_empty() => return Err(format!("row {} shows {:?} under the menu", y, got)),
                None => {}
            }
        }
        Ok(())
    }

    /// the whole screen is drawn
    fn full(&mut self) {
        self.fresh = false;
        self.hint = None;
        self.covered = 0;
        self.status_over = false;
        self.status_last = false;
    }
}

// --------------------------------------------------------------------------------- generation

fn word(r: &mut Rng, hostile: bool) -> String {
    if hostile && r.chance(1, 2) {
        return match r.below(4) {
            0 => (*r.pick(&[
                "\u{1b}[2J", "\u{1b}[?1049l", "\u{1b}]0;t", "\t", "\n", "\r", "\u{8}", "\u{0}", "\u{7}", "世界", "e\u{301}", "\u{200d}", "\u{1F468}\u{200d}\u{1F469}", "\u{202e}",
                "\u{feff}", "\u{ad}",
            ]))
            .to_string(),
            1 => gen_string(r).chars().take(300).collect(),
            2 => "x".repeat(r.below(2000)),
            _ => "世".repeat(r.below(300)),
        };
    }
    match r.weighted(&[4, 4, 2, 2, 1]) {
        0 => (*r.pick(&["", "a", "line", "été", "x = [1]", "──│", "ñandú", "{}", "~#", "λ"])).to_string(),
        1 => (0..r.below(12)).map(|_| *r.pick(&['a', 'b', 'Z', ' ', 'é', '-', '1', 'ж', '[', ':'])).collect(),
        2 => "long text ".repeat(r.below(12)),
        3 => " ".repeat(r.below(4)),
        _ => "w".repeat(r.below(260)),
    }
}

const FACES: &[&str] = &["Default", "Error", "Match", "Prompt", "Selection"];

fn frags(r: &mut Rng, hostile: bool) -> Vec<Frag> {
    let n = r.weighted(&[1, 6, 4, 2, 1]);
    (0..n)
        .map(|_| Frag { text: word(r, hostile), face: if r.chance(1, 2) { "Default" } else { *r.pick(FACES) } })
        .collect()
}

fn gen_view(r: &mut Rng, h: usize, hostile: bool) -> Vec<Item> {
    let n = r.weighted(&[1, 6, 4, 2, 1]);
    (0..n)
        .map(|_| {
            let lenses = (0..r.weighted(&[1, 6, 3, 1]))
                .map(|_| {
                    let k = match r.below(5) {
                        0 => r.below(3),
                        1 => r.below(2 * h + 3),
                        2 => (h + r.below(4)).saturating_sub(3),
                        _ => r.below(8),
                    };
                    (0..k).map(|_| frags(r, hostile)).collect()
                })
                .collect();
            Item { buffer: word(r, hostile), start: r.below(2000), end: r.below(100_000), lenses }
        })
        .collect()
}

fn view_json(v: &[Item]) -> Value {
    Value::Array(
        v.iter()
            .map(|i| {
                let lenses: Vec<Value> = i
                    .lenses
                    .iter()
                    .map(|l| json!({"first_line_num": 1, "lines": l.iter().map(|t| frags_json(t)).collect::<Vec<_>>()}))
                    .collect();
                json!({"buffer": i.buffer, "start": i.start, "end": i.end, "lenses": lenses})
            })
            .collect(),
    )
}

fn gen_size(r: &mut Rng) -> (usize, usize) {
    match r.below(7) {
        0 => (r.range(1, 4), r.range(1, 4)),
        1 => (r.range(1, 200), 1),
        2 => (1, r.range(1, 60)),
        3 => (r.range(2, 20), r.range(2, 10)),
        4 => (80, 24),
        5 => (r.range(100, 500), r.range(30, 200)),
        _ => (r.range(20, 120), r.range(5, 50)),
    }
}

// ------------------------------------------------------------------------------------- the stage

struct Stage {
    prog: Prog,
    pty: Pty,
    screen: Screen,
    conn: Conn,
    /// requests received, not yet matched
    requests: VecDeque<(String, Value)>,
    ids: Vec<i64>,
    raw: Vec<u8>,
    ended: Option<ExitStatus>,
    bytes: u64,
    lives: u64,
}

impl Stage {
    fn step(&mut self, wait: u64) -> CaseResult {
        pump(&mut [&mut self.conn], Duration::from_millis(wait));
        let got = self.pty.read();
        self.bytes += got.len() as u64;
        self.screen.feed(&got);
        self.raw.extend_from_slice(&got);
        let n = self.raw.len().saturating_sub(4096);
        self.raw.drain(..n);
        while let Some(l) = self.conn.lines.pop_front() {
            let v: Value = serde_json::from_slice(&l).map_err(|e| format!("the client sends {:?}: {}", String::from_utf8_lossy(&l), e))?;
            if let Some(i) = v["id"].as_i64() {
                self.ids.push(i);
            }
            self.requests.push_back((v["method"].as_str().unwrap_or("?").to_string(), v.get("params").cloned().unwrap_or(Value::Null)));
        }
        if self.ended.is_none() {
            if let Ok(Some(st)) = self.prog.child.try_wait() {
                self.ended = Some(st);
                let got = self.pty.read();
                self.screen.feed(&got);
                self.raw.extend_from_slice(&got);
            }
        }
        Ok(())
    }

    fn died(&self) -> Option<String> {
        self.ended.map(|st| {
            let n = self.raw.len().saturating_sub(300);
            format!("the client ended ({}): {:?}", describe(st), String::from_utf8_lossy(&self.raw[n..]))
        })
    }

    fn until(&mut self, mut done: impl FnMut(&mut Stage) -> CaseResult) -> CaseResult {
        let end = Instant::now() + PATIENCE;
        loop {
            self.step(1)?;
            let res = done(self);
            if res.is_ok() {
                return Ok(());
            }
            if let Some(d) = self.died() {
                return Err(d);
            }
            if Instant::now() > end {
                return res;
            }
        }
    }

    fn shows(&mut self, world: &World, what: &str) -> CaseResult {
        self.until(|s| world.judge(&s.screen))
            .map_err(|e| format!("after {} on {}x{}: {}; screen: {}", what, self.screen.w, self.screen.h, e, self.screen.dump()))
    }

    fn asked(&mut self, method: &str, what: &str) -> Result<Value, String> {
        self.until(|s| if s.requests.is_empty() { Err("no request comes".into()) } else { Ok(()) })
            .map_err(|e| format!("after {}: {}, expected {}", what, e, method))?;
        let (m, p) = self.requests.pop_front().unwrap();
        if m != method {
            return Err(format!("after {}: the client asks for {} {}, expected {}", what, m, p, method));
        }
        Ok(p)
    }

    fn send(&mut self, method: &str, params: Value) {
        let l = json!({"jsonrpc": "2.0", "method": method, "params": params});
        self.conn.send_line(l.to_string().as_bytes());
    }
}

/// a key: what is typed, and what it is to the editor
fn gen_key(r: &mut Rng) -> (Vec<u8>, char, bool, bool) {
    match r.below(8) {
        0 => {
            // not those of the terminal client itself, nor those that are other keys
            let c = *r.pick(&['a', 'b', 'c', 'g', 'k', 'l', 'n', 'o', 'r', 's', 't', 'u', 'w', 'y', 'z']);
            (vec![c as u8 - b'a' + 1], c, true, false)
        }
        1 => {
            let c = *r.pick(&['a', 'x', 'z', 'j', '1', '+']);
            (vec![0x1b, c as u8], c, false, true)
        }
        _ => {
            let c = *r.pick(&['h', 'j', 'k', 'l', 'i', 'q', 'x', 'A', 'Z', ' ', '~', '[', '0', '"', '\\', 'é', 'É', 'ж', '世', '\u{1F600}', '€', '{']);
            (c.to_string().into_bytes(), c, false, false)
        }
    }
}

fn key_is(v: &Value, c: char, ctrl: bool, alt: bool) -> bool {
    let a = match v.as_array() {
        Some(a) if a.len() == 1 => &a[0],
        _ => return false,
    };
    let shift = a["shift"] == json!(true);
    a["key"] == json!({"Char": c.to_string()}) && a["ctrl"] == json!(ctrl) && a["alt"] == json!(alt) && if c.is_ascii() { shift == c.is_ascii_uppercase() } else { !shift || c.is_uppercase() }
}

fn gen_menu(r: &mut Rng, h: usize, hostile: bool) -> MenuState {
    let n = match r.below(5) {
        0 => 0,
        1 => 1,
        2 => r.below(2 * h + 2),
        _ => r.range(2, 8),
    };
    let entries = (0..n)
        .map(|_| (if r.chance(1, 5) { String::new() } else { word(r, hostile) }, frags(r, hostile)))
        .collect();
    MenuState { command: word(r, hostile), title: word(r, hostile), search: word(r, hostile), entries, selected: 0 }
}

fn menu_json(m: &MenuState) -> Value {
    let entries: Vec<Value> = m.entries.iter().map(|(v, t)| json!({"value": v, "text": frags_json(t), "description": null})).collect();
    json!({"command": m.command, "title": m.title, "search": m.search, "entries": entries})
}

fn start(r: &mut Rng, dir: &Path, ctx: &mut Ctx) -> Result<(Stage, usize, usize, Vec<String>), String> {
    let (w, h) = gen_size(r);
    let name = *r.pick(&["s", "été 1", "a.b"]);
    fs::create_dir_all(dir.join("ced-verif")).map_err(|e| e.to_string())?;
    let listener = UnixListener::bind(dir.join("ced-verif").join(name)).map_err(|e| e.to_string())?;
    listener.set_nonblocking(true).map_err(|e| e.to_string())?;
    let pty = Pty::new(w, h)?;
    let mut c = ced(dir);
    let files: Vec<String> = (0..r.weighted(&[3, 2, 1, 1])).map(|i| format!("{}{}", r.pick(&["f", "été ", "a/b"]), i)).collect();
    c.arg("--mode=term").arg(format!("--session={}", name)).args(&files);
    let dup = |fd: i32| unsafe { Stdio::from_raw_fd(libc::dup(fd)) };
    c.stdin(dup(pty.slave)).stdout(dup(pty.slave)).stderr(dup(pty.slave));
    unsafe {
        c.pre_exec(|| {
            if libc::setsid() < 0 || libc::ioctl(0, libc::TIOCSCTTY, 0) < 0 {
                return Err(std::io::Error::last_os_error());
            }
            Ok(())
        });
    }
    let mut prog = Prog { child: c.spawn().map_err(|e| format!("spawn: {}", e))? };
    ctx.log(format!("terminal {}x{}, files {:?}", w, h, files));
    let end = Instant::now() + PATIENCE;
    let mut early = Vec::new();
    let conn = loop {
        match listener.accept() {
            Ok((s, _)) => break Conn::new(Sock::Unix(s))?,
            Err(_) => {
                early.extend(pty.read());
                if let Ok(Some(st)) = prog.child.try_wait() {
                    early.extend(pty.read());
                    return Err(format!("the client ended before it connected ({}) on {}x{}: {}", describe(st), w, h, String::from_utf8_lossy(&early)));
                }
                if Instant::now() > end {
                    return Err(format!("the client does not connect on {}x{}: {}", w, h, String::from_utf8_lossy(&early)));
                }
                std::thread::sleep(Duration::from_millis(1));
            }
        }
    };
    let mut screen = Screen::new(w, h);
    screen.feed(&early);
    Ok((
        Stage { prog, pty, screen, conn, requests: VecDeque::new(), ids: Vec::new(), raw: early, ended: None, bytes: 0, lives: 0 },
        w,
        h,
        files,
    ))
}

impl C25Check {
    fn play(&self, r: &mut Rng, dir: &Path, ctx: &mut Ctx) -> CaseResult {
        let (mut st, mut w, mut h, files) = start(r, dir, ctx)?;
        for f in &files {
            let p = st.asked("edit", "starting with files")?;
            if p["name"] != json!(f) || p["scratch"] != json!(false) {
                return Err(format!("started with {:?}, the client asks to edit {}", files, p));
            }
        }
        let mut world = World { fresh: true, ..World::default() };
        let hostile = r.chance(1, 3);
        ctx.count(if hostile { "hostile contents" } else { "judged contents" });
        // something on the screen
        world.view = gen_view(r, h, false);
        let v = view_json(&world.view);
        st.send("view", v);
        world.full();
        st.shows(&world, "the first view")?;
        if !(st.screen.alternate && st.screen.cursor_hidden) {
            ctx.count("screens not alternate");
        }
        let steps = r.range(4, 30);
        // hostile contents may leave anything on the screen
        let mut spoilt = false;
        let mut tag = 0u64;
        for _ in 0..steps {
            let menu_open = world.menu.is_some();
            let op = r.weighted(&[4, 3, 3, 2, 2, 1, 1, if menu_open { 10 } else { 5 }, 2]);
            let what;
            match op {
                0 => {
                    world.view = gen_view(r, h, hostile);
                    what = "a view".to_string();
                    ctx.count("views");
                    let v = view_json(&world.view);
                    st.send("view", v);
                    world.full();
                }
                1 => {
                    let items: Vec<(i64, Vec<Frag>)> = (0..r.below(4)).map(|i| (i as i64 * 10, frags(r, hostile))).collect();
                    world.status = items.iter().map(|i| i.1.clone()).collect();
                    what = "a status".to_string();
                    ctx.count("statuses");
                    let v = Value::Array(items.iter().map(|(i, t)| json!({"index": i, "text": frags_json(t)})).collect());
                    st.send("status", v);
                    if world.menu.is_some() {
                        world.status_over = true;
                    }
                    world.status_last = true;
                    self.flush(&mut st, &what)?;
                }
                2 => {
                    world.echo = frags(r, hostile);
                    world.echo_unsure = false;
                    what = "a message".to_string();
                    ctx.count("messages");
                    let v = frags_json(&world.echo);
                    st.send("echo", v);
                    world.full();
                }
                3 => {
                    let m = gen_menu(r, h, hostile);
                    what = format!("a menu of {} entries", m.entries.len());
                    ctx.count("menus");
                    st.send("menu", menu_json(&m));
                    world.menu = Some(m);
                    world.echo_unsure = true;
                    world.full();
                }
                4 => {
                    let mut n = r.weighted(&[1, 3, 3, 2, 1]);
                    if r.chance(1, 8) {
                        n = r.below(2 * h + 2);
                    }
                    let lines: Vec<Vec<Frag>> = (0..n).map(|_| frags(r, hostile)).collect();
                    what = format!("a hint of {} lines", n);
                    ctx.count("hints");
                    st.send("hint", json!({"text": lines.iter().map(|t| frags_json(t)).collect::<Vec<_>>()}));
                    if n > 0 {
                        // over another one: what is left of it is not told
                        if let Some(former) = &world.hint {
                            world.covered = world.covered.max(former.len());
                        }
                        world.hint = Some(lines);
                        world.status_last = false;
                    }
                    if world.menu.is_some() {
                        world.status_over = true;
                    }
                    self.flush(&mut st, &what)?;
                    // judged on a clean screen only
                    let v = view_json(&world.view);
                    if r.chance(1, 2) {
                        if !hostile {
                            st.shows(&world, &what)?;
                        }
                        st.send("view", v);
                        world.full();
                    }
                }
                5 => {
                    what = "lines that say nothing new".to_string();
                    ctx.count("junk");
                    for _ in 0..r.range(1, 4) {
                        match r.below(5) {
                            0 => st.send("info", json!({"client": "1", "session": word(r, hostile), "cwd": "/"})),
                            1 => st.send("unknown", json!([1, 2])),
                            2 => st.conn.send_line(b"{\"jsonrpc\":\"2.0\",\"id\":0,\"result\":null}"),
                            3 => st.send("menu", json!({"odd": 1})),
                            _ => st.conn.send_line(b"{\"jsonrpc\":\"2.0\",\"id\":1,\"error\":{\"code\":-32600,\"message\":\"no\"}}"),
                        }
                    }
                }
                6 => {
                    what = "a broken line".to_string();
                    ctx.count("broken lines");
                    st.conn.send_line(r.pick::<&[u8]>(&[b"{", b"", b"\xff", b"null", b"{\"jsonrpc\":\"2.0\",\"method\":\"echo\",\"params\":["]));
                    // reported to the server
                    let p = st.asked("exec", &what)?;
                    if !p.as_str().map_or(false, |s| s.contains("editor:error")) {
                        return Err(format!("after {}: the client asks to execute {}", what, p));
                    }
                }
                7 => {
                    what = self.type_keys(r, &mut st, &mut world, h, hostile, ctx)?;
                }
                _ => {
                    let (w2, h2) = gen_size(r);
                    what = format!("a resize from {}x{} to {}x{}", w, h, w2, h2);
                    ctx.count("resizes");
                    if (w2, h2) != (w, h) {
                        w = w2;
                        h = h2;
                        // all that comes before is for the former size; and no key is typed at the
                        // same time, which the terminal library may keep until the next one
                        self.settle(&mut st, &mut world, &what, hostile, ctx)?;
                        let before = st.screen.cleared;
                        st.screen.resize(w, h);
                        st.pty.resize(w, h);
                        world.full();
                        self.redrawn(&mut st, before, &what)?;
                    }
                }
            }
            ctx.log(what.clone());
            tag = tag.wrapping_mul(31).wrapping_add(op as u64 + 1);
            if hostile {
                spoilt = true;
                // alive: a key is heard
                if r.chance(1, 3) {
                    self.alive(&mut st, &mut world, &what, ctx)?;
                }
                if r.chance(1, 4) {
                    // plain contents again: everything is in its place again
                    if world.menu.is_some() {
                        self.escape(&mut st, &mut world, &what, true, ctx)?;
                    }
                    st.send("status", json!([]));
                    world.status.clear();
                    st.send("echo", json!([]));
                    world.echo.clear();
                    world.echo_unsure = false;
                    world.view = gen_view(r, h, false);
                    let v = view_json(&world.view);
                    st.screen.buf.clear();
                    st.send("view", v);
                    world.full();
                    self.alive(&mut st, &mut world, &what, ctx)?;
                }
            } else {
                st.shows(&world, &what)?;
                ctx.count("screens compared");
            }
            if let Some(d) = st.died() {
                return Err(format!("after {}: {}", what, d));
            }
            if let Some((m, p)) = st.requests.front() {
                return Err(format!("after {}: the client asks for {} {} by itself", what, m, p));
            }
        }
        let mut ids = st.ids.clone();
        ids.sort_unstable();
        ids.dedup();
        if ids.len() != st.ids.len() {
            return Err(format!("identifiers of requests are used again: {:?}", st.ids));
        }
        // the end
        let how = r.below(3);
        match how {
            0 => {
                if world.menu.is_some() {
                    self.escape(&mut st, &mut world, "the end", hostile, ctx)?;
                }
                st.pty.write(b"\x1bq");
            }
            1 => st.conn.sock.shutdown(Shutdown::Both),
            _ => {
                // in the middle of a line
                st.conn.out.push_back(b"{\"jsonrpc\":\"2.0\",\"method\":\"ec".to_vec());
                while !st.conn.out.is_empty() && !st.conn.broken {
                    st.step(1)?;
                }
                st.conn.sock.shutdown(Shutdown::Both);
            }
        }
        let end = Instant::now() + PATIENCE;
        while st.ended.is_none() && Instant::now() < end {
            if st.conn.eof {
                // nothing to pump: give way
                std::thread::sleep(Duration::from_millis(1));
            }
            st.step(1)?;
        }
        let way = ["its key", "the end of the session", "a cut connection"][how];
        match st.ended {
            None => return Err(format!("the client does not end after {}", way)),
            Some(s) if !s.success() => return Err(format!("at the end, after {}: {}", way, st.died().unwrap_or_default())),
            Some(_) => {}
        }
        if !st.pty.restored() {
            return Err(format!("the modes of the terminal are not restored after {}", way));
        }
        if !spoilt && (st.screen.alternate || st.screen.cursor_hidden) {
            return Err(format!("the terminal is not restored after {}: alternate screen {}, cursor hidden {}", way, st.screen.alternate, st.screen.cursor_hidden));
        }
        let tail = String::from_utf8_lossy(&st.raw).into_owned();
        if spoilt && !(tail.contains("\u{1b}[?1049l") && tail.contains("\u{1b}[?25h")) {
            return Err(format!("the terminal is not restored after {}: {:?}", way, cut(&tail, 200)));
        }
        ctx.count(&format!("ended by {}", way));
        ctx.add("terminal bytes", st.bytes);
        ctx.distinct(hash_str(&format!("{}x{} {} {}", w, h, tag, hostile)));
        ctx.sample(|| format!("{}x{}, {} steps, {} bytes to the terminal, ended by {}", w, h, steps, st.bytes, way));
        Ok(())
    }

    /// what was sent may not be seen, but has to come before what follows
    fn flush(&self, st: &mut Stage, what: &str) -> CaseResult {
        st.conn.send_line(b"{");
        st.asked("exec", &format!("{} and a broken line", what))?;
        Ok(())
    }

    /// all that was under way is drawn once a key is answered
    fn settle(&self, st: &mut Stage, world: &mut World, what: &str, hostile: bool, ctx: &mut Ctx) -> CaseResult {
        if hostile {
            return self.alive(st, world, what, ctx);
        }
        self.flush(st, what)?;
        st.pty.write(b"z");
        st.asked(if world.menu.is_some() { "menu" } else { "keys" }, what)?;
        Ok(())
    }

    /// closes the menu
    fn escape(&self, st: &mut Stage, world: &mut World, what: &str, hostile: bool, ctx: &mut Ctx) -> CaseResult {
        self.settle(st, world, what, hostile, ctx)?;
        let before = st.screen.cleared;
        st.pty.write(b"\x1b");
        world.menu = None;
        world.full();
        // it is drawn again
        st.until(|s| if s.screen.cleared > before { Ok(()) } else { Err("nothing is drawn".into()) })
            .map_err(|e| format!("after {} and escape in a menu: {}", what, e))
    }

    /// a key is heard
    fn alive(&self, st: &mut Stage, world: &mut World, what: &str, ctx: &mut Ctx) -> CaseResult {
        let (mut s, mut command) = (String::new(), String::new());
        // a state known to be the latest: the screen can not tell
        st.lives += 1;
        let token = format!("alive{}", st.lives);
        let m = MenuState { command: token.clone(), title: "t".into(), search: "s".into(), entries: vec![], selected: 0 };
        st.send("menu", menu_json(&m));
        world.menu = Some(m);
        world.echo_unsure = true;
        world.full();
        // asked again until the menu was seen: before, keys are keys
        let end = Instant::now() + PATIENCE;
        while command != token {
            st.pty.write(b"z");
            st.until(|s| if s.requests.is_empty() { Err("no request comes".into()) } else { Ok(()) })
                .map_err(|e| format!("after {}: a key is typed and {}", what, e))?;
            let (_, p) = st.requests.pop_front().unwrap();
            command = p["command"].as_str().unwrap_or("").to_string();
            s = p["search"].as_str().unwrap_or("").to_string();
            if Instant::now() > end {
                return Err(format!("after {}: a menu is never seen", what));
            }
        }
        // and once more, when all that was under way is drawn
        st.pty.write(b"z");
        st.asked("menu", &format!("{} and a character typed in a menu", what))?;
        if s != "sz" {
            return Err(format!("after {}: z typed in a menu searching for s asks for {:?}", what, s));
        }
        ctx.count("signs of life");
        Ok(())
    }

    fn type_keys(&self, r: &mut Rng, st: &mut Stage, world: &mut World, h: usize, hostile: bool, ctx: &mut Ctx) -> Result<String, String> {
        let _ = h;
        // on a tiny screen a menu may look like what was there before: be sure it was seen
        self.flush(st, "what was sent before keys")?;
        if world.menu.is_none() {
            return match r.below(8) {
                0 => {
                    ctx.count("commands");
                    let (b, method, want): (u8, &str, Value) = match r.below(3) {
                        0 => (6, "menu", json!({"command": "open", "search": ""})),
                        1 => (16, "menu", json!({"command": "", "search": ""})),
                        _ => (22, "menu", json!({"command": "view_select", "search": ""})),
                    };
                    st.pty.write(&[b]);
                    let p = st.asked(method, "a command key")?;
                    if p != want {
                        return Err(format!("the command key {} asks for {}, expected {}", b, p, want));
                    }
                    Ok("a command key".into())
                }
                1 => {
                    ctx.count("escapes");
                    st.pty.write(b"\x1b");
                    let p = st.asked("keys", "escape")?;
                    let a = p.as_array().filter(|a| a.len() == 1).map(|a| a[0].clone()).unwrap_or(Value::Null);
                    if a["key"] != json!("Escape") || a["ctrl"] != json!(false) || a["alt"] != json!(false) {
                        return Err(format!("escape is sent as {}", p));
                    }
                    Ok("escape".into())
                }
                k => {
                    // one or several at once, or a text pasted
                    let pasted = k == 7 && r.chance(1, 4);
                    let n = if pasted { r.range(100, 1200) } else if k < 5 { 1 } else { r.range(2, 40) };
                    if pasted {
                        ctx.count("texts pasted");
                    }
                    let mut keys = Vec::new();
                    let mut bytes = Vec::new();
                    for _ in 0..n {
                        let mut k = gen_key(r);
                        while pasted && (k.3 || k.0.len() > 2) {
                            k = gen_key(r);
                        }
                        // what is beyond the first 1024 bytes at once waits for the next key in crossterm
                        if bytes.len() + k.0.len() > 1000 {
                            break;
                        }
                        bytes.extend_from_slice(&k.0);
                        keys.push(k);
                    }
                    ctx.add("keys", keys.len() as u64);
                    if !st.pty.write(&bytes) {
                        return Err("the terminal does not take the keys".into());
                    }
                    for (i, k) in keys.iter().enumerate() {
                        let p = st.asked("keys", &format!("key {} of {:?}", i, String::from_utf8_lossy(&bytes)))?;
                        if !key_is(&p, k.1, k.2, k.3) {
                            return Err(format!("key {} of {:?} ({:?} ctrl {} alt {}) is sent as {}", i, String::from_utf8_lossy(&bytes), k.1, k.2, k.3, p));
                        }
                    }
                    Ok(format!("{} keys", n))
                }
            };
        }
        // the menu has to be seen first
        if hostile {
            self.alive(st, world, "keys", ctx)?;
        }
        let m = world.menu.clone().unwrap();
        ctx.count("menu keys");
        match r.weighted(&[3, 4, 2, 3, 2, 2]) {
            0 => {
                st.pty.write(b"\x1b[A");
                let w = world.menu.as_mut().unwrap();
                let before = st.screen.cleared;
                w.selected = w.selected.saturating_sub(1);
                world.full();
                self.redrawn(st, before, "up in a menu")?;
                Ok("up in a menu".into())
            }
            1 => {
                let k = r.range(1, 4);
                for _ in 0..k {
                    let before = st.screen.cleared;
                    st.pty.write(b"\x1b[B");
                    let w = world.menu.as_mut().unwrap();
                    if w.selected + 1 < w.entries.len() {
                        w.selected += 1;
                    }
                    self.redrawn(st, before, "down in a menu")?;
                }
                world.full();
                Ok(format!("{} times down in a menu", k))
            }
            2 => {
                self.escape(st, world, "keys", hostile, ctx)?;
                Ok("escape in a menu".into())
            }
            3 => {
                let c = *r.pick(&['a', 'é', ' ', 'Z', '世', '/', '"', '0']);
                st.pty.write(c.to_string().as_bytes());
                let p = st.asked("menu", "a character typed in a menu")?;
                let want = json!({"command": m.command, "search": format!("{}{}", m.search, c)});
                if p != want {
                    return Err(format!("{:?} typed in a menu asks for {}, expected {}", c, p, want));
                }
                Ok(format!("{:?} in a menu", c))
            }
            4 => {
                st.pty.write(b"\x7f");
                let p = st.asked("menu", "backspace in a menu")?;
                let mut s = m.search.clone();
                s.pop();
                let want = json!({"command": m.command, "search": s});
                if p != want {
                    return Err(format!("backspace in a menu asks for {}, expected {}", p, want));
                }
                Ok("backspace in a menu".into())
            }
            _ => {
                let before = st.screen.cleared;
                st.pty.write(b"\r");
                if let Some(e) = m.entries.get(m.selected) {
                    let p = st.asked("menu-select", "enter in a menu")?;
                    let choice = if e.0.is_empty() { &m.search } else { &e.0 };
                    let want = json!({"command": m.command, "choice": choice});
                    if p != want {
                        return Err(format!("enter on entry {} of the menu asks for {}, expected {}", m.selected, p, want));
                    }
                    ctx.count("menu selections");
                }
                world.menu = None;
                world.full();
                self.redrawn(st, before, "enter in a menu")?;
                Ok("enter in a menu".into())
            }
        }
    }

    fn redrawn(&self, st: &mut Stage, before: u64, what: &str) -> CaseResult {
        st.until(|s| if s.screen.cleared > before { Ok(()) } else { Err("nothing is drawn".into()) })
            .map_err(|e| format!("after {}: {}", what, e))
    }

    /// nobody to connect to
    fn nobody(&self, r: &mut Rng, dir: &Path, ctx: &mut Ctx) -> CaseResult {
        let (w, h) = gen_size(r);
        let pty = Pty::new(w, h)?;
        let mut c = ced(dir);
        c.arg("--mode=term").arg(format!("--session=@:{}", free_port()));
        let dup = |fd: i32| unsafe { Stdio::from_raw_fd(libc::dup(fd)) };
        c.stdin(dup(pty.slave)).stdout(dup(pty.slave)).stderr(dup(pty.slave));
        unsafe {
            c.pre_exec(|| {
                libc::setsid();
                libc::ioctl(0, libc::TIOCSCTTY, 0);
                Ok(())
            });
        }
        let mut prog = Prog { child: c.spawn().map_err(|e| format!("spawn: {}", e))? };
        let end = Instant::now() + PATIENCE;
        let mut out = Vec::new();
        let st = loop {
            out.extend(pty.read());
            if let Ok(Some(st)) = prog.child.try_wait() {
                break st;
            }
            if Instant::now() > end {
                return Err("the client does not end when there is no session".into());
            }
            std::thread::sleep(Duration::from_millis(1));
        };
        out.extend(pty.read());
        let text = String::from_utf8_lossy(&out).into_owned();
        if st.success() || st.code().is_none() || st.code() == Some(101) {
            return Err(format!("without a session: {}: {}", describe(st), text));
        }
        if !pty.restored() || !text.contains("\u{1b}[?1049l") || !text.contains("\u{1b}[?25h") {
            return Err(format!("without a session, the terminal is not restored: {:?}", text));
        }
        ctx.count("no session");
        ctx.distinct(hash_str(&format!("nobody {}x{}", w, h)));
        Ok(())
    }
}

impl Check for C25Check {
    fn id(&self) -> &'static str {
        "C25"
    }
    fn rule(&self) -> &'static str {
        "the real terminal client in a pseudo terminal of 1x1 to 500x200, between a screen model and a fake server: random views, statuses, messages, menus, hints, broken lines, resizes and keys; after each step the model's screen is compared with what the server announced (contents of printable single-cell characters) and each key with the request received; hostile contents (control sequences, wide and combining characters, huge texts) must leave it alive; at its end the terminal is restored; distinct by final size and step kinds"
    }
    fn cases(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 5_000,
            Tier::Thorough => 80_000,
        }
    }
    fn required(&self) -> Vec<&'static str> {
        vec!["screens compared", "keys", "menu keys", "menu selections", "resizes", "signs of life", "hints", "texts pasted", "no session", "ended by its key", "ended by the end of the session"]
    }
    fn stall_secs(&self) -> u64 {
        120
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "25 s without the expected screen or request count as a failure",
            "keys in a menu are typed once the menu is shown and one at a time",
            "colours are not judged, except selections being shown in reverse",
        ]
    }
    fn run(&self, case: u64, r: &mut Rng, ctx: &mut Ctx) -> CaseResult {
        let dir = ctx.scratch.join(format!("c{}", case));
        let _ = fs::remove_dir_all(&dir);
        fs::create_dir_all(dir.join("work")).map_err(|e| e.to_string())?;
        let res = if case % 20 == 19 { self.nobody(r, &dir, ctx) } else { self.play(r, &dir, ctx) };
        let _ = fs::remove_dir_all(&dir);
        res
    }
}
