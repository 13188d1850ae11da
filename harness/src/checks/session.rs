//! C20: session names; C21: key descriptions.
use crate::check::{CaseResult, Check, Ctx, Tier};
use crate::rng::{hash_str, Rng};
use remote::protocol::{requests, requests::Request as _, Key, KeyEvent};
use remote::{ConnectionMode, Id, Session};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};
use std::os::unix::net::UnixListener;
use std::path::PathBuf;
use std::process::{Command, Stdio};

pub struct C20Check;
pub static C20: C20Check = C20Check;

const NAME_PARTS: &[&str] = &[
    "a", "B", "foo", "1", "42", "@", ":", "@:", "@@", ".", "..", "-", "_", " ", "é", "日本", "🍺", "e\u{301}", "\t",
    "\n", "[", "]", "[::1]", "::", "%", "127.0.0.1", "0.0.0.0", "localhost", "8080", "65536", "99999999999999999999",
    "*", "?", "\\", "\"", "'", "$", "~", "#", "=", "--session", "+80", "0x50", "8o", "١٢", "\u{a0}", "\u{200b}",
];

enum Want {
    Tcp(SocketAddr),
    Socket,
    /// only required not to crash and to be stable
    Any,
}

fn gen_ip(r: &mut Rng) -> IpAddr {
    if r.chance(1, 2) {
        let v4 = [
            Ipv4Addr::new(127, 0, 0, 1),
            Ipv4Addr::new(0, 0, 0, 0),
            Ipv4Addr::new(255, 255, 255, 255),
            Ipv4Addr::new(1, 2, 3, 4),
            Ipv4Addr::from(r.next() as u32),
        ];
        IpAddr::V4(*r.pick(&v4))
    } else {
        let wide = (u128::from(r.next()) << 64) | u128::from(r.next());
        let v6 = [
            Ipv6Addr::LOCALHOST,
            Ipv6Addr::UNSPECIFIED,
            Ipv6Addr::from(wide),
            Ipv6Addr::from(wide & 0xffff_0000_0000_0000_0000_0000_ffff_0000),
            Ipv4Addr::from(r.next() as u32).to_ipv6_mapped(),
            Ipv6Addr::new(0xfe80, 0, 0, 0, 0, 0, 0, 1),
        ];
        IpAddr::V6(*r.pick(&v6))
    }
}

fn gen_port(r: &mut Rng) -> u16 {
    *r.pick(&[0, 1, 9, 80, 443, 8888, 9999, 10000, 32768, 65535, r.clone().next() as u16])
}

/// a name and what it has to denote
fn gen_name(r: &mut Rng) -> (String, Want) {
    match r.weighted(&[6, 8, 3, 4, 3, 8, 3]) {
        0 => {
            let p = gen_port(r);
            (format!("@:{}", p), Want::Tcp(SocketAddr::new(IpAddr::V4(Ipv4Addr::LOCALHOST), p)))
        }
        1 => {
            let a = SocketAddr::new(gen_ip(r), gen_port(r));
            (format!("@{}", a), Want::Tcp(a))
        }
        2 => {
            // the long form of an IPv6 address
            if let IpAddr::V6(ip) = gen_ip(r) {
                let p = gen_port(r);
                let s: Vec<String> = ip.segments().iter().map(|s| format!("{:x}", s)).collect();
                let mut s = s.join(":");
                if r.chance(1, 2) {
                    s = s.to_uppercase();
                }
                (format!("@[{}]:{}", s, p), Want::Tcp(SocketAddr::new(IpAddr::V6(ip), p)))
            } else {
                let p = gen_port(r);
                (format!("@localhost:{}", p), Want::Tcp(SocketAddr::new(IpAddr::V4(Ipv4Addr::LOCALHOST), p)))
            }
        }
        3 => {
            // nearly an address
            let a = SocketAddr::new(gen_ip(r), gen_port(r));
            let ip = match a {
                SocketAddr::V4(x) => x.ip().to_string(),
                SocketAddr::V6(x) => format!("[{}]", x.ip()),
            };
            let p = a.port();
            let s = match r.below(12) {
                0 => format!("{}:{}", ip, p),
                1 => format!("@{}", ip),
                2 => format!("@{}:", ip),
                3 => format!("@{}:{}", ip, u32::from(p) + 65536),
                4 => format!("@{}:{}x", ip, p),
                5 => format!("@{}:-{}", ip, p),
                6 => format!("@{}: {}", ip, p),
                7 => format!(" @{}:{}", ip, p),
                8 => format!("@{}:{} ", ip, p),
                9 => format!("@{}:{}\n", ip, p),
                10 => format!("@{}:+{}", ip, p),
                _ => format!("x@{}:{}", ip, p),
            };
            (s, Want::Socket)
        }
        4 => {
            // addresses that can not be
            let s = r.pick(&[
                "@256.1.1.1:80", "@[:::]:80", "@[1:2]:80", "@[::g]:80", "@::1:80", "@[::1:80", "@::1]:80",
                "@1.2.3.4.5:80", "@ :80", "@a b:80", "@:", "@", "@::", "@:99999999999999999999999", "@[]:80",
                "@..:80", "@-:80", "@é:80", "@[fe80::1%eth0]:80", "@[fe80::1%1]:80", "@:65536", "@\u{0661}:80", "@:\u{0661}",
                "@1.2.3.4:\u{0668}\u{0660}",
            ]);
            (s.to_string(), Want::Any)
        }
        5 => {
            let n = r.range(1, 5);
            let s: String = (0..n).map(|_| *r.pick(NAME_PARTS)).collect();
            let addr_like = s.starts_with('@') && s.contains(':');
            if s == "." || s == ".." {
                (s, Want::Any)
            } else if addr_like {
                (s, Want::Any)
            } else {
                (s, Want::Socket)
            }
        }
        _ => {
            let s = r.pick(&["", "/", "a/b", "../x", "/etc/passwd", "..", ".", "a/", "//", "\u{0}", "a\u{0}b"]);
            (s.to_string(), Want::Any)
        }
    }
}

fn root() -> PathBuf {
    std::env::temp_dir().join(format!("ced-{}", std::env::var("USER").unwrap()))
}

fn check_name(name: &str, want: &Want, ctx: &mut Ctx) -> CaseResult {
    let session = Session::from_name(name);
    let bad = |what: &str, got: String| Err(format!("name {:?}: {}: {}", name, what, got));
    match want {
        Want::Tcp(a) => {
            ctx.count("tcp_names");
            if session.mode != ConnectionMode::Tcp(*a) {
                return bad(&format!("should denote the TCP endpoint {}", a), format!("{:?}", session.mode));
            }
        }
        Want::Socket => {
            ctx.count("socket_names");
            let path = root().join(name);
            if session.mode != ConnectionMode::Socket(path.clone()) {
                return bad(&format!("should denote the socket {:?}", path), format!("{:?}", session.mode));
            }
            if session.to_string() != name {
                return bad("printed differently", session.to_string());
            }
        }
        Want::Any => {
            ctx.count("odd_names");
            // the same name always denotes the same session
            if Session::from_name(name).mode != session.mode {
                return bad("denotes two sessions", format!("{:?}", session.mode));
            }
            if matches!(session.mode, ConnectionMode::Socket(_)) && (name.is_empty() || name.contains('/') || name == "." || name == "..") {
                return Ok(());
            }
        }
    }
    let printed = session.to_string();
    let again = Session::from_name(&printed);
    if again.mode != session.mode {
        return bad("printing and parsing gives another session", format!("{:?} -> {:?} -> {:?}", session.mode, printed, again.mode));
    }
    // the connection mode by itself: what a daemon is started with
    let mode: ConnectionMode = match printed.parse() {
        Ok(m) => m,
        Err(_) => return bad("printed form is refused", printed),
    };
    if let ConnectionMode::Tcp(_) = session.mode {
        if mode != session.mode {
            return bad("the printed connection mode denotes another one", format!("{:?}", mode));
        }
    } else if mode != ConnectionMode::Socket(printed.clone().into()) {
        return bad("the printed connection mode denotes another one", format!("{:?}", mode));
    }
    ctx.count("round_trips");
    Ok(())
}

fn list_case(r: &mut Rng, ctx: &mut Ctx) -> CaseResult {
    let tmp = ctx.scratch.join(format!("tmp{}", r.next() % 1_000_000));
    std::fs::create_dir_all(&tmp).map_err(|e| e.to_string())?;
    std::env::set_var("TMPDIR", &tmp);
    let res = list_in(r, ctx);
    std::env::set_var("TMPDIR", &ctx.scratch);
    let _ = std::fs::remove_dir_all(&tmp);
    res
}

fn list_in(r: &mut Rng, ctx: &mut Ctx) -> CaseResult {
    let dir = root();
    let mut names = Vec::new();
    let mut keep = Vec::new();
    let with_dir = !r.chance(1, 12);
    if with_dir {
        std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
        for _ in 0..r.below(7) {
            let n = r.range(1, 3);
            let name: String = (0..n).map(|_| *r.pick(NAME_PARTS)).collect();
            if name == "." || name == ".." || name.contains('\n') || name.len() > 60 || names.contains(&name) {
                continue;
            }
            // names of TCP sessions never are in this directory
            if let ConnectionMode::Tcp(_) = Session::from_name(&name).mode {
                continue;
            }
            match UnixListener::bind(dir.join(&name)) {
                Ok(l) => keep.push(l),
                // path too long for a socket
                Err(_) => continue,
            }
            names.push(name);
        }
    }
    names.sort();
    let mut got = Session::list();
    got.sort();
    if got != names {
        return Err(format!("listed sessions {:?}, existing {:?}", got, names));
    }
    ctx.add("listed_sessions", names.len() as u64);
    if let Ok(bin) = std::env::var("CED_BIN") {
        let out = Command::new(bin)
            .arg(if r.chance(1, 2) { "--list" } else { "-l" })
            .stdin(Stdio::null())
            .output()
            .map_err(|e| format!("run ced: {}", e))?;
        if !out.status.success() {
            return Err(format!("ced --list failed: {:?} {}", out.status, String::from_utf8_lossy(&out.stderr)));
        }
        let text = String::from_utf8_lossy(&out.stdout).to_string();
        let mut lines: Vec<String> = text.split_terminator('\n').map(str::to_string).collect();
        lines.sort();
        if lines != names {
            return Err(format!("ced --list printed {:?}, existing sessions {:?}", lines, names));
        }
        ctx.count("ced_list_runs");
    }
    for n in &names {
        let s = Session::from_name(n);
        if s.mode != ConnectionMode::Socket(dir.join(n)) {
            return Err(format!("listed name {:?} denotes {:?}", n, s.mode));
        }
    }
    ctx.distinct(hash_str(&format!("{:?}", names)));
    Ok(())
}

impl Check for C20Check {
    fn id(&self) -> &'static str {
        "C20"
    }
    fn rule(&self) -> &'static str {
        "a case is 60 names (every address form, near-addresses, plain and odd file names), each parsed, printed and parsed again, or one session directory with up to 7 real sockets listed by the library and by ced --list; distinct by name or directory content"
    }
    fn cases(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 20_000,
            Tier::Thorough => 300_000,
        }
    }
    fn required(&self) -> Vec<&'static str> {
        vec!["tcp_names", "socket_names", "odd_names", "round_trips", "listed_sessions", "ced_list_runs"]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["host names other than localhost are not resolvable here and are only required not to crash", "USER is set"]
    }
    fn run(&self, case: u64, r: &mut Rng, ctx: &mut Ctx) -> CaseResult {
        if case % 5 == 4 {
            return list_case(r, ctx);
        }
        std::env::set_var("TMPDIR", &ctx.scratch);
        for _ in 0..60 {
            let (name, want) = gen_name(r);
            ctx.log(format!("{:?}", name));
            check_name(&name, &want, ctx)?;
            ctx.distinct(hash_str(&name));
        }
        Ok(())
    }
}

pub struct C21Check;
pub static C21: C21Check = C21Check;

fn named() -> Vec<(fn() -> Key, &'static str)> {
    vec![
        (|| Key::Backspace, "Backspace"),
        (|| Key::Enter, "Enter"),
        (|| Key::Escape, "Escape"),
        (|| Key::Up, "Up"),
        (|| Key::Down, "Down"),
        (|| Key::Left, "Left"),
        (|| Key::Right, "Right"),
    ]
}

fn clone_key(k: &Key) -> Key {
    match k {
        Key::Char(c) => Key::Char(*c),
        Key::Backspace => Key::Backspace,
        Key::Enter => Key::Enter,
        Key::Escape => Key::Escape,
        Key::Up => Key::Up,
        Key::Down => Key::Down,
        Key::Left => Key::Left,
        Key::Right => Key::Right,
    }
}

fn event(k: &Key, m: usize) -> KeyEvent {
    KeyEvent {
        ctrl: m & 1 != 0,
        alt: m & 2 != 0,
        shift: m & 4 != 0,
        key: clone_key(k),
    }
}

fn lower(k: &Key) -> Key {
    match k {
        Key::Char(c) => Key::Char(c.to_ascii_lowercase()),
        k => clone_key(k),
    }
}

/// all the code points of a chunk, every modifier
fn check_keys(keys: &[Key], ctx: &mut Ctx) -> CaseResult {
    for k in keys {
        // the key alone
        let printed = k.to_string();
        match printed.parse::<Key>() {
            Ok(k2) if k2 == lower(k) => {}
            other => return Err(format!("key {:?} printed {:?} parsed as {:?}", k, printed, other.map_err(|e| format!("{:?}", e)))),
        }
        let mut batch = Vec::new();
        for m in 0..8 {
            let e = event(k, m);
            let printed = e.to_string();
            let back = std::panic::catch_unwind(|| KeyEvent::from(printed.as_str()));
            match back {
                Ok(b) if b == event(&lower(k), m) => {}
                Ok(b) => return Err(format!("event {:?} printed {:?} parsed as {:?}", e, printed, b)),
                Err(_) => return Err(format!("event {:?} printed {:?}: not parsed: {}", e, printed, crate::run::take_panic())),
            }
            batch.push(e);
            ctx.count("events");
        }
        // over the wire, through the request of the protocol
        let sent: Vec<KeyEvent> = (0..8).map(|m| event(k, m)).collect();
        let req = requests::Keys::new(Id::Number(1), sent);
        let line = req.to_string();
        if line.contains('\n') {
            return Err(format!("keys request {:?} is not one line", line));
        }
        let dec: remote::Request = line.parse().map_err(|e| format!("keys request {:?} refused: {}", line, e))?;
        match dec.params::<Vec<KeyEvent>>() {
            Ok(Some(v)) if v == batch => {}
            other => return Err(format!("keys {:?} on the wire {:?} decoded as {:?}", batch, line, other)),
        }
        if let Key::Char(c) = k {
            let e = KeyEvent::from(*c);
            let want = KeyEvent {
                shift: c.is_ascii_uppercase(),
                key: Key::Char(c.to_ascii_lowercase()),
                ..KeyEvent::default()
            };
            if e != want {
                return Err(format!("character {:?} converted to {:?}", c, e));
            }
        }
    }
    Ok(())
}

const CHUNK: u32 = 2048;

impl Check for C21Check {
    fn id(&self) -> &'static str {
        "C21"
    }
    fn rule(&self) -> &'static str {
        "exhaustive: every Unicode scalar value in chunks of 2048 and every named key, each under all 8 modifier combinations, printed, parsed and sent through a keys request; plus random batches; distinct by printed form of samples, the injectivity following from the exhaustive round trip"
    }
    fn cases(&self, tier: Tier) -> u64 {
        let chunks = u64::from(0x11_0000 / CHUNK);
        match tier {
            Tier::Quick => chunks + 200,
            Tier::Thorough => chunks + 8000,
        }
    }
    fn required(&self) -> Vec<&'static str> {
        vec!["events", "batches", "named_keys"]
    }
    fn run(&self, case: u64, r: &mut Rng, ctx: &mut Ctx) -> CaseResult {
        let chunks = u64::from(0x11_0000 / CHUNK);
        if case < chunks {
            let first = case as u32 * CHUNK;
            let keys: Vec<Key> = (first..first + CHUNK).filter_map(char::from_u32).map(Key::Char).collect();
            check_keys(&keys, ctx)?;
            for k in keys.iter().step_by(97) {
                ctx.distinct(hash_str(&k.to_string()));
            }
            return Ok(());
        }
        let all: Vec<Key> = named().iter().map(|(f, _)| f()).collect();
        check_keys(&all, ctx)?;
        ctx.add("named_keys", all.len() as u64);
        // random batches keep their order and length
        for _ in 0..20 {
            let n = r.below(40);
            let make = |r: &mut Rng| -> Vec<KeyEvent> {
                (0..n)
                    .map(|_| {
                        let k = if r.chance(1, 3) {
                            (r.pick(&named()).0)()
                        } else if r.chance(1, 2) {
                            Key::Char((r.range(0, 127) as u8) as char)
                        } else {
                            Key::Char(char::from_u32(r.below(0x11_0000) as u32).unwrap_or('x'))
                        };
                        event(&k, r.below(8))
                    })
                    .collect()
            };
            let mut r2 = r.clone();
            let sent = make(r);
            let same = make(&mut r2);
            let printed: Vec<String> = sent.iter().map(|e| e.to_string()).collect();
            for (i, a) in sent.iter().enumerate() {
                for (j, b) in sent.iter().enumerate() {
                    let eq = event(&lower(&a.key), 0).key == lower(&b.key)
                        && (a.ctrl, a.alt, a.shift) == (b.ctrl, b.alt, b.shift);
                    if eq != (printed[i] == printed[j]) {
                        return Err(format!("events {:?} and {:?} print as {:?} and {:?}", a, b, printed[i], printed[j]));
                    }
                }
            }
            let line = requests::Keys::new(Id::Number(1), sent).to_string();
            let dec: remote::Request = line.parse().map_err(|e| format!("{:?} refused: {}", line, e))?;
            match dec.params::<Vec<KeyEvent>>() {
                Ok(Some(v)) if v == same => {}
                other => return Err(format!("keys {:?} decoded as {:?}", same, other)),
            }
            ctx.distinct(hash_str(&printed.join(" ")));
            ctx.sample(|| printed.join(" "));
            ctx.count("batches");
        }
        Ok(())
    }
}
