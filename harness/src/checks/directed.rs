//! Directed sessions: situations that were once mishandled or that are rare in random sessions.
use crate::engine::{Call, Dir, Disk, KeyKind, KeyPress, Op, Req, ScriptCall};
use serde_json::json;

pub struct Scenario {
    pub name: &'static str,
    pub session: Option<&'static str>,
    pub files: Vec<(String, Vec<u8>)>,
    pub ops: Vec<Op>,
}

fn req(c: usize, r: Req) -> Op {
    Op::Req(c, json!(1), r)
}

fn ex(c: usize, calls: Vec<Call>) -> Op {
    req(
        c,
        Req::Exec(
            calls
                .into_iter()
                .map(|call| ScriptCall {
                    call,
                    protected: false,
                })
                .collect(),
        ),
    )
}

fn keys(c: usize, ks: &str) -> Op {
    req(
        c,
        Req::Keys(
            ks.split(' ')
                .map(|k| {
                    if k == "esc" {
                        return KeyPress {
                            ctrl: false,
                            alt: false,
                            shift: false,
                            kind: KeyKind::Named("Escape"),
                        };
                    }
                    let shift = k.starts_with("s-");
                    let ch = k.chars().last().unwrap();
                    KeyPress {
                        shift,
                        ..KeyPress::plain(ch)
                    }
                })
                .collect(),
        ),
    )
}

fn sc(name: &'static str, ops: Vec<Op>) -> Scenario {
    Scenario {
        name,
        session: None,
        files: Vec::new(),
        ops,
    }
}

fn scr(c: usize, n: &str, t: &str) -> Op {
    ex(c, vec![Call::Scratch(c, n.into(), t.into())])
}

fn file(n: &str, c: &[u8]) -> (String, Vec<u8>) {
    (n.to_string(), c.to_vec())
}

fn all() -> Vec<Scenario> {
    use Dir::*;
    let mut v = vec![
        sc(
            "moves over multi-byte text",
            vec![
                Op::Join(1),
                scr(1, "s", "aé日\n🦊e\u{301}x\n\nlast"),
                keys(1, "l l l l l s-j s-k j j k g l g h s-g l s-g h"),
                keys(1, "j j j j k k k k h h"),
                ex(
                    1,
                    [Left, Right, Up, Down, LineBegin, LineEnd, Begin, End]
                        .iter()
                        .flat_map(|d| vec![Call::Move(1, *d, true), Call::Move(1, *d, false), Call::Context(1)])
                        .collect(),
                ),
            ],
        ),
        sc(
            "remembered column",
            vec![
                Op::Join(1),
                scr(1, "s", "abcdef\nab\n\nabcdefgh\n"),
                keys(1, "l l l l j j j k k k"),
                keys(1, "j j j j g l j j"),
            ],
        ),
        sc(
            "nowhere to go after the text changed under the cursor",
            vec![
                Op::Join(1),
                scr(1, "s", "abc\n"),
                ex(1, vec![Call::Move(1, End, false)]),
                Op::Join(2),
                ex(2, vec![Call::Scratch(2, "s".into(), "xy\nabcdefghij".into())]),
                keys(1, "j"),
                keys(1, "l l l l l l l l l l l l l l j l"),
                ex(2, vec![Call::Scratch(2, "s".into(), "x".into())]),
                keys(1, "j l h k"),
                ex(2, vec![Call::Scratch(2, "s".into(), "line\nabcdefgh".into())]),
                ex(1, vec![Call::Move(1, Begin, false)]),
                ex(2, vec![Call::Append("s".into(), "\u{301}x\nmore".into())]),
                keys(1, "j l h k"),
            ],
        ),
        sc(
            "delete everything, twice",
            vec![
                Op::Join(1),
                scr(1, "s", "aé\n日🦊"),
                ex(
                    1,
                    vec![
                        Call::Move(1, Begin, false),
                        Call::Move(1, End, true),
                        Call::DeleteReport(1),
                        Call::DeleteReport(1),
                        Call::DeleteReport(1),
                    ],
                ),
                keys(1, "d d"),
            ],
        ),
        sc(
            "delete in a view of several buffers shared with another client",
            vec![
                Op::Join(1),
                scr(1, "s", "one\ntwo\n"),
                scr(1, "t", "é\n日本\n"),
                req(1, Req::ViewAdd("s".into())),
                Op::Join(2),
                keys(2, "s-l s-j"),
                ex(2, vec![Call::Move(2, End, false)]),
                ex(1, vec![Call::DeleteReport(1), Call::Context(1), Call::Context(2)]),
                keys(1, "s-l s-l s-l d"),
                ex(2, vec![Call::Context(2)]),
            ],
        ),
        Scenario {
            name: "a file that shrinks, vanishes, becomes unreadable",
            session: None,
            files: vec![file("a.txt", "one\ntwo\nthrée\n".as_bytes()), file("bad.bin", b"x\xff\n")],
            ops: vec![
                Op::Join(1),
                Op::Join(2),
                req(1, Req::Edit("a.txt".into(), false)),
                req(2, Req::Edit("a.txt".into(), false)),
                ex(2, vec![Call::Move(2, End, false)]),
                Op::Disk(Disk::Write("a.txt".into(), b"x".to_vec())),
                req(1, Req::Edit("a.txt".into(), false)),
                keys(2, "h l j k d"),
                Op::Disk(Disk::Write("a.txt".into(), Vec::new())),
                req(1, Req::Edit("a.txt".into(), false)),
                keys(2, "h l j k d"),
                Op::Disk(Disk::Write("a.txt".into(), b"\xff".to_vec())),
                req(1, Req::Edit("a.txt".into(), false)),
                Op::Disk(Disk::Remove("a.txt".into())),
                req(1, Req::Edit("a.txt".into(), false)),
                Op::Disk(Disk::Mkdir("a.txt".into())),
                req(1, Req::Edit("a.txt".into(), false)),
                Op::Disk(Disk::Write("a.txt".into(), "é".as_bytes().to_vec())),
                req(1, Req::Edit("a.txt".into(), false)),
                req(1, Req::Edit("bad.bin".into(), false)),
                req(1, Req::Edit("nofile".into(), false)),
                req(1, Req::Edit("sub".into(), false)),
                req(1, Req::Edit("".into(), false)),
                keys(1, "l"),
            ],
        },
        Scenario {
            name: "files with a final newline, without, empty",
            session: None,
            files: vec![file("a.txt", b"a"), file("b.txt", b"b\n"), file("c.txt", b""), file("d.txt", b"\n\n")],
            ops: vec![
                Op::Join(1),
                req(1, Req::Edit("a.txt".into(), false)),
                req(1, Req::Edit("b.txt".into(), false)),
                req(1, Req::Edit("c.txt".into(), false)),
                req(1, Req::Edit("d.txt".into(), false)),
                keys(1, "j l k"),
                Op::Disk(Disk::Touch("a.txt".into())),
                req(1, Req::Edit("a.txt".into(), false)),
                Op::Disk(Disk::Touch("b.txt".into())),
                keys(1, "d"),
                req(1, Req::Edit("a.txt".into(), false)),
            ],
        },
        sc(
            "deleting views shown by others",
            vec![
                Op::Join(1),
                Op::Join(2),
                Op::Join(3),
                req(1, Req::Edit("s".into(), true)),
                req(2, Req::View("s".into())),
                req(3, Req::Edit("t".into(), true)),
                req(2, Req::ViewDelete),
                req(3, Req::ViewDelete),
                req(1, Req::ViewDelete),
                req(1, Req::ViewDelete),
                req(2, Req::ViewDelete),
                keys(3, "l d"),
                keys(1, "l d"),
                req(1, Req::View("*debug*".into())),
                keys(1, "l d"),
            ],
        ),
        sc(
            "recombining views",
            vec![
                Op::Join(1),
                scr(1, "s", "one\n"),
                Op::Join(2),
                scr(1, "t", "two\nthree"),
                req(1, Req::ViewAdd("s".into())),
                keys(1, "j l s-l d"),
                req(1, Req::ViewRemove("t".into())),
                keys(1, "l d"),
                req(2, Req::View("s".into())),
                req(1, Req::ViewRemove("s".into())),
                req(1, Req::ViewRemove("nope".into())),
                req(1, Req::ViewAdd("nope".into())),
                req(1, Req::View("nope".into())),
                req(2, Req::ViewAdd("s".into())),
                req(2, Req::ViewAdd("*scratch*".into())),
                keys(2, "l l d"),
                keys(1, "l l d"),
            ],
        ),
        sc(
            "a view opened by the name of its buffer",
            vec![
                Op::Join(1),
                req(1, Req::View("*scratch*".into())),
                keys(1, "l d j"),
                ex(1, vec![Call::Append("fresh".into(), "text\n".into())]),
                req(1, Req::View("fresh".into())),
                keys(1, "l s-l d j"),
                Op::Join(2),
                keys(2, "l d"),
            ],
        ),
        sc(
            "distinct views with odd names",
            vec![
                Op::Join(1),
                req(1, Req::Edit("a".into(), true)),
                req(1, Req::Edit("b".into(), true)),
                req(1, Req::Edit("a:*|b".into(), true)),
                req(1, Req::Edit("a|b".into(), true)),
                req(1, Req::Edit("a,b".into(), true)),
                req(1, Req::Edit("a:whole|b".into(), true)),
                req(1, Req::View("a".into())),
                req(1, Req::ViewAdd("b".into())),
                keys(1, "l d"),
            ],
        ),
        sc(
            "joining: views and selections are copies",
            vec![
                Op::Join(1),
                scr(1, "s", "one\ntwo\nthree\n"),
                keys(1, "j s-l"),
                Op::Join(2),
                ex(2, vec![Call::Context(2), Call::Context(1)]),
                keys(2, "j l l i"),
                ex(1, vec![Call::Context(2), Call::Context(1), Call::PushStatus(2)]),
                req(1, Req::View("*scratch*".into())),
                Op::Join(3),
                Op::Leave(3),
                Op::Leave(2),
                Op::Join(4),
                keys(4, "l"),
                req(4, Req::Quit),
                req(4, Req::ViewDelete),
                keys(4, "l"),
                Op::Leave(4),
                keys(1, "m"),
                Op::Leave(1),
                Op::Join(5),
                keys(5, "m"),
            ],
        ),
        sc(
            "scripts naming clients that do not exist",
            vec![
                Op::Join(1),
                Op::Join(2),
                Op::Leave(2),
                ex(1, vec![Call::Move(2, Left, false)]),
                ex(1, vec![Call::Delete(9)]),
                ex(1, vec![Call::Message(2, "x".into())]),
                ex(1, vec![Call::Error(2, "x".into())]),
                ex(1, vec![Call::Hint(2, vec!["x".into()], true)]),
                ex(1, vec![Call::PushStatus(2)]),
                ex(1, vec![Call::Context(2)]),
                ex(1, vec![Call::Edit(2, "s".into(), true)]),
                ex(1, vec![Call::Scratch(2, "s".into(), "x".into())]),
                ex(1, vec![Call::Edit(1, "nofile".into(), false)]),
                req(
                    1,
                    Req::Exec(vec![
                        ScriptCall {
                            call: Call::Move(77, Left, false),
                            protected: true,
                        },
                        ScriptCall {
                            call: Call::Edit(1, "nofile".into(), false),
                            protected: true,
                        },
                        ScriptCall {
                            call: Call::Env,
                            protected: false,
                        },
                    ]),
                ),
                keys(1, "l m e"),
            ],
        ),
        sc(
            "status of another client pushed by a script",
            vec![
                Op::Join(1),
                Op::Join(2),
                keys(2, "i"),
                ex(1, vec![Call::PushStatus(2), Call::PushStatus(1)]),
                ex(2, vec![Call::PushStatus(1)]),
            ],
        ),
        sc(
            "modes",
            vec![
                Op::Join(1),
                Op::Join(2),
                scr(1, "s", "abc\ndef\n"),
                keys(1, "g"),
                keys(2, "i h j d m"),
                keys(1, "l s-g h g x h"),
                keys(2, "esc esc h"),
                keys(1, "i i esc esc g esc s-g i i esc"),
                keys(1, "i"),
                keys(1, "g"),
                keys(1, "esc"),
                keys(1, "z x e m d s-d s-m s-i"),
            ],
        ),
        sc(
            "hostile menus",
            vec![
                Op::Join(1),
                req(1, Req::Menu("view_select".into(), "(".into())),
                req(1, Req::Menu("view_select".into(), "".into())),
                req(1, Req::Menu("view_select".into(), "[ * ? \\".into())),
                req(1, Req::Menu("view_select".into(), "*deb ug*".into())),
                req(1, Req::Menu("".into(), "".into())),
                req(1, Req::Menu("".into(), "op FI".into())),
                req(1, Req::Menu("open".into(), "".into())),
                req(1, Req::Menu("scratch".into(), "".into())),
                req(1, Req::Menu("scratch".into(), "x".into())),
                req(1, Req::Menu("view_add".into(), "x".repeat(3000))),
                req(1, Req::Menu("view_add".into(), "a ".repeat(500))),
                req(1, Req::Menu("nope".into(), "".into())),
                req(1, Req::MenuSelect("nope".into(), "x".into(), None)),
                req(1, Req::MenuSelect("view_select".into(), "nope".into(), None)),
                req(
                    1,
                    Req::MenuSelect("scratch".into(), "fresh".into(), Some(Box::new(Req::Edit("fresh".into(), true)))),
                ),
                keys(1, "l"),
            ],
        ),
    ];
    for (i, n) in ["q\"uo'te", "]]..x", "back\\slash", "new\nline", "%s%d"].iter().enumerate() {
        let mut s = sc(
            ["session \"", "session ]]", "session \\", "session newline", "session %"][i],
            vec![
                Op::Join(1),
                ex(1, vec![Call::Env, Call::Fail("x".into())]),
                keys(1, "l m"),
                Op::Join(2),
                ex(2, vec![Call::Env]),
            ],
        );
        s.session = Some(n);
        v.push(s);
    }
    v
}

pub fn scenario(case: u64) -> Option<Scenario> {
    all().into_iter().nth(case as usize)
}
