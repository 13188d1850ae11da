//! The properties of the editor: one monitor of hostile multi-client sessions, projected on each
//! property by the operations it is about and by what it says of them.
use crate::check::{CaseResult, Check, Ctx, Tier};
use crate::engine::gen::{self, Gen, Profile};
use crate::engine::model::{Area, Issue, Model};
use crate::engine::{Call, Disk, Op, Req, ScriptCall, Session, Step};
use crate::rng::{hash_str, Rng};
use std::collections::BTreeMap;
use std::fs;
use std::path::Path;

pub struct Proj {
    pub id: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub steps: (usize, usize),
    pub profile: fn(&mut Rng) -> Profile,
    /// is the issue a violation of this property
    pub judge: fn(&Issue, &Step) -> bool,
    /// operations this property is about: a panic there is a violation
    pub focus: fn(&Op) -> bool,
    pub required: &'static [&'static str],
    pub files: bool,
}

/// calls made by a request, through scripts
pub fn calls(op: &Op) -> Vec<&Call> {
    match op {
        Op::Req(_, _, Req::Exec(c)) => c.iter().map(|c| &c.call).collect(),
        Op::Req(_, _, Req::MenuSelect(_, _, Some(b))) => match &**b {
            Req::Exec(c) => c.iter().map(|c| &c.call).collect(),
            _ => Vec::new(),
        },
        _ => Vec::new(),
    }
}

fn has_call(op: &Op, f: fn(&Call) -> bool) -> bool {
    calls(op).into_iter().any(f)
}

fn is_move(op: &Op) -> bool {
    matches!(op, Op::Req(_, _, Req::Keys(_))) || has_call(op, |c| matches!(c, Call::Move(..)))
}

fn is_delete(op: &Op) -> bool {
    let keyed = match op {
        Op::Req(_, _, Req::Keys(k)) => k.iter().any(|k| k.display() == "d"),
        _ => false,
    };
    keyed || has_call(op, |c| matches!(c, Call::Delete(_) | Call::DeleteReport(_)))
}

fn is_edit(op: &Op) -> bool {
    match op {
        Op::Req(_, _, Req::Edit(..)) => true,
        Op::Req(_, _, Req::MenuSelect(m, _, _)) if m == "open" || m == "scratch" => true,
        _ => has_call(op, |c| matches!(c, Call::Edit(..))),
    }
}

fn is_view_op(op: &Op) -> bool {
    match op {
        Op::Req(_, _, r) => match r {
            Req::Edit(..) | Req::View(_) | Req::ViewDelete | Req::ViewAdd(_) | Req::ViewRemove(_) => true,
            Req::MenuSelect(m, ch, _) => m != "exec" && !(m.is_empty() && ch != "view_delete"),
            Req::Exec(_) => has_call(op, |c| matches!(c, Call::Edit(..) | Call::Scratch(..))),
            _ => false,
        },
        _ => false,
    }
}

fn is_keys(op: &Op) -> bool {
    matches!(op, Op::Req(_, _, Req::Keys(_)))
}

fn is_exec(op: &Op) -> bool {
    matches!(op, Op::Req(_, _, Req::Exec(_)))
}

fn is_member_op(op: &Op) -> bool {
    match op {
        Op::Join(_) | Op::Leave(_) | Op::Req(_, _, Req::Quit) => true,
        Op::Req(_, _, Req::MenuSelect(m, ch, _)) => m.is_empty() && ch == "quit",
        _ => false,
    }
}

fn any(_: &Op) -> bool {
    true
}

pub static C04: Proj = Proj {
    id: "C04",
    rule: "sessions of 1-4 clients over generated texts (multi-byte, combined characters, empty lines, with and without \
           final newline), mostly movements by keys and scripts, mixed with edits, joins and view changes; after every step \
           the cursor, anchor, remembered column of every selection of every client is compared with the model of the \
           movements; a case is non-trivial when its operations were not seen before and it moved",
    quick: 4200,
    thorough: 40_000,
    steps: (20, 45),
    profile: |r| Profile {
        keys: 40,
        exec: 50,
        c_move: 60,
        c_scratch: 6,
        c_delete: 2,
        c_append: 2,
        c_context: 3,
        move_keys: r.chance(2, 3),
        menu: 0,
        menu_select: 0,
        raw: 0,
        disk: 1,
        other_client: 300,
        ..Profile::base()
    },
    judge: |i, st| {
        is_move(&st.op) && matches!(i.area, Area::SelOwn | Area::SelOther | Area::Text | Area::SelValid)
            && !is_delete(&st.op)
            && !has_call(&st.op, |c| matches!(c, Call::Scratch(..) | Call::Append(..) | Call::Edit(..)))
    },
    focus: is_move,
    required: &["steps", "selections_checked", "op_keys", "op_exec"],
    files: false,
};

pub static C05: Proj = Proj {
    id: "C05",
    rule: "as C04, mostly extending movements followed by deletions (keys and scripts reporting what was deleted), up to \
           whole buffers, in views of several buffers and with other clients in the same buffers; texts, reported deletions \
           and the resulting selections compared with the model; a case is non-trivial when new and it deleted",
    quick: 4200,
    thorough: 40_000,
    steps: (20, 45),
    profile: |r| Profile {
        keys: 30,
        exec: 50,
        c_move: 30,
        c_delete: 22,
        c_scratch: 8,
        c_append: 3,
        view_add: 10,
        move_keys: r.chance(1, 2),
        menu: 0,
        menu_select: 0,
        raw: 0,
        disk: 2,
        ..Profile::base()
    },
    judge: |i, st| is_delete(&st.op) && matches!(i.area, Area::SelOwn | Area::Text | Area::Echo | Area::Buffers),
    focus: is_delete,
    required: &["steps", "deletions_reported", "op_exec"],
    files: false,
};

pub static C06: Proj = Proj {
    id: "C06",
    rule: "sessions of up to 5 clients sharing buffers, deleting, replacing scratch buffers, reloading shrunk files, \
           recombining and deleting views; after every step every selection of every client in every view must start on \
           characters of the current text; a case is non-trivial when new",
    quick: 4200,
    thorough: 40_000,
    steps: (25, 55),
    profile: |_| Profile {
        join: 8,
        max_clients: 5,
        keys: 25,
        exec: 35,
        c_delete: 12,
        c_scratch: 10,
        c_move: 14,
        view_add: 12,
        view_remove: 8,
        view_delete: 5,
        edit: 16,
        disk: 12,
        menu: 1,
        menu_select: 4,
        raw: 0,
        other_client: 300,
        ..Profile::base()
    },
    judge: |i, _| i.area == Area::SelValid,
    focus: any,
    required: &["steps", "selections_checked", "reloads", "op_view-add"],
    files: false,
};

pub static C07: Proj = Proj {
    id: "C07",
    rule: "sessions of up to 5 clients opening, combining, removing from, deleting and switching views by request, menu and \
           script, with known, unknown and odd names; after every step the registered views, their buffers, every \
           client's view, the most recent view and the buffers are compared with the model; non-trivial when new",
    quick: 4500,
    thorough: 40_000,
    steps: (25, 55),
    profile: |_| Profile {
        join: 6,
        max_clients: 5,
        edit: 16,
        edit_scratch: 14,
        view: 20,
        view_delete: 10,
        view_add: 24,
        view_remove: 16,
        menu: 3,
        menu_select: 10,
        keys: 6,
        exec: 14,
        raw: 1,
        ..Profile::base()
    },
    judge: |i, st| {
        matches!(i.area, Area::Views | Area::Latest | Area::Buffers | Area::ClientView)
            || (is_view_op(&st.op) && matches!(i.area, Area::Text | Area::Response))
    },
    focus: is_view_op,
    required: &["steps", "op_view-add", "op_view-remove", "op_view-delete", "op_view"],
    files: false,
};

pub static C08: Proj = Proj {
    id: "C08",
    rule: "sessions over texts of every kind (multi-byte and combined characters, empty lines, carriage returns, no final \
           newline), selections extended within and across lines; every view notification received by anyone is compared \
           with the texts: buffers, line numbers, every line, and the exact cells with the selection face; non-trivial when new",
    quick: 4200,
    thorough: 40_000,
    steps: (20, 45),
    profile: |r| Profile {
        keys: 30,
        exec: 40,
        c_move: 30,
        c_scratch: 12,
        c_append: 4,
        c_delete: 6,
        view_add: 10,
        move_keys: true,
        menu: 0,
        menu_select: 0,
        raw: 0,
        cr: r.chance(1, 3),
        ..Profile::base()
    },
    judge: |i, _| i.area == Area::ViewContent,
    focus: any,
    required: &["steps", "views_received"],
    files: false,
};

pub static C09: Proj = Proj {
    id: "C09",
    rule: "sessions of up to 6 clients in shared and separate views, any request including logs shown on screen, reloads, \
           scratch replacements through scripts and view recombination; after every step the last view received by every \
           client is compared with its view, and addressees of notifications are checked; non-trivial when new",
    quick: 4200,
    thorough: 40_000,
    steps: (25, 55),
    profile: |_| Profile {
        join: 8,
        max_clients: 6,
        edit: 14,
        disk: 10,
        view_add: 12,
        exec: 35,
        c_append: 10,
        c_scratch: 8,
        c_message: 8,
        c_log: 4,
        other_client: 300,
        raw: 2,
        ..Profile::base()
    },
    judge: |i, _| matches!(i.area, Area::Stale | Area::Misdirected),
    focus: any,
    required: &["steps", "views_received", "reloads"],
    files: false,
};

pub static C10: Proj = Proj {
    id: "C10",
    rule: "sessions in which every kind of request is sent with valid, unknown, missing and ill-typed parameters and every \
           kind of identifier, with malformed lines and lines of unknown clients in between; every response is checked for \
           identifier, shape, outcome and code; non-trivial when new",
    quick: 4500,
    thorough: 40_000,
    steps: (25, 55),
    profile: |_| Profile {
        raw: 40,
        menu: 10,
        menu_select: 14,
        edit: 14,
        view: 12,
        ghost: 40,
        c_fail: 5,
        unknown_client: 60,
        ..Profile::base()
    },
    judge: |i, _| i.area == Area::Response,
    focus: |op| matches!(op, Op::Req(..)),
    required: &["steps", "responses", "op_raw", "op_menu-select", "op_edit"],
    files: false,
};

pub static C11: Proj = Proj {
    id: "C11",
    rule: "sessions of up to 5 clients sending malformed, hostile and valid lines in any order: odd names, huge and odd \
           searches, script calls naming unknown clients, unreadable and vanished files, odd keys; a panic, a missing response, \
           or a later valid request that is not processed normally is a violation; non-trivial when new",
    quick: 4500,
    thorough: 50_000,
    steps: (30, 70),
    profile: |r| Profile {
        join: 6,
        max_clients: 5,
        raw: 15,
        menu: 12,
        menu_select: 14,
        disk: 12,
        edit: 20,
        edit_scratch: 12,
        ghost: 40,
        unknown_client: 150,
        c_fail: 4,
        c_append: 8,
        cr: r.chance(1, 3),
        ..Profile::base()
    },
    judge: |i, _| i.area == Area::Response,
    focus: any,
    required: &["steps", "op_raw", "op_menu", "op_exec", "op_edit", "probes"],
    files: false,
};

pub static C13: Proj = Proj {
    id: "C13",
    rule: "sessions opening every menu with and without a search, over changing files (hidden, ignored, in directories), \
           views and buffers, and selecting listed, vanished and unknown choices; the entries are compared with the model \
           and every selection must do exactly what the equivalent request does to the model; non-trivial when it selected",
    quick: 4200,
    thorough: 40_000,
    steps: (25, 55),
    profile: |_| Profile {
        menu: 30,
        menu_select: 50,
        disk: 10,
        edit: 10,
        edit_scratch: 8,
        view_add: 8,
        keys: 4,
        exec: 8,
        raw: 0,
        c_append: 8,
        ..Profile::base()
    },
    judge: |i, st| {
        let sel = matches!(st.op, Op::Req(_, _, Req::MenuSelect(..)));
        let opening = match &st.op {
            Op::Req(_, _, Req::Menu(m, s)) => s.is_empty() || !crate::engine::model::MENUS.contains(&m.as_str()),
            _ => false,
        };
        (opening && matches!(i.area, Area::Menu | Area::Response))
            || (sel
                && !matches!(
                    i.area,
                    Area::SelOwn | Area::SelOther | Area::SelValid | Area::ViewContent | Area::Log | Area::Hint
                ))
    },
    focus: |op| matches!(op, Op::Req(_, _, Req::Menu(..)) | Op::Req(_, _, Req::MenuSelect(..))),
    required: &["steps", "menus", "menu_selections", "op_menu-select"],
    files: false,
};

pub static C14: Proj = Proj {
    id: "C14",
    rule: "sessions of up to 5 clients sending keys of every kind (documented ones in every mode with every modifier, named \
           keys, other characters, several per request), interleaved between clients; status lines, hints, movements, \
           deletions and messages compared with the model of the modal state machine of each client; non-trivial when new",
    quick: 4500,
    thorough: 40_000,
    steps: (25, 60),
    profile: |_| Profile {
        join: 6,
        max_clients: 5,
        keys: 120,
        exec: 10,
        c_status: 6,
        menu: 0,
        menu_select: 0,
        raw: 2,
        ..Profile::base()
    },
    judge: |i, st| match i.area {
        Area::Status => true,
        Area::SelOwn | Area::SelOther | Area::Text | Area::Echo | Area::Hint | Area::Response => is_keys(&st.op),
        _ => false,
    },
    focus: is_keys,
    required: &["steps", "keys_handled", "keys_ignored", "hints"],
    files: false,
};

pub static C15: Proj = Proj {
    id: "C15",
    rule: "sessions of up to 5 clients with messages and errors sent by keys, scripts (to any client), failures and malformed \
           lines; every echo is checked for addressee, number, text and styling, and the logs must have grown by exactly the \
           entries of the events in order; non-trivial when new",
    quick: 4500,
    thorough: 40_000,
    steps: (25, 55),
    profile: |_| Profile {
        join: 6,
        max_clients: 5,
        exec: 60,
        c_message: 40,
        c_log: 10,
        c_fail: 8,
        other_client: 500,
        unknown_client: 60,
        raw: 12,
        keys: 25,
        ..Profile::base()
    },
    judge: |i, _| matches!(i.area, Area::Echo | Area::Log),
    focus: |op| is_keys(op) || has_call(op, |c| matches!(c, Call::Message(..) | Call::Error(..) | Call::Debug(_))),
    required: &["steps", "messages_received", "op_exec", "op_raw"],
    files: false,
};

pub static C16: Proj = Proj {
    id: "C16",
    rule: "sessions of up to 4 clients opening, editing and re-opening files that change, shrink, become invalid, directories or \
           vanish between requests (later, earlier and unchanged modification times, several names for a file); texts, views, \
           screens and outcomes compared with the model, and the directory compared after every step; non-trivial when a \
           file was opened or reloaded",
    quick: 4200,
    thorough: 40_000,
    steps: (25, 55),
    profile: |r| Profile {
        cr: r.chance(1, 2),
        edit: 60,
        disk: 45,
        exec: 14,
        keys: 14,
        c_delete: 10,
        c_edit: 14,
        c_append: 8,
        menu: 2,
        menu_select: 4,
        raw: 0,
        ..Profile::base()
    },
    judge: |i, st| match i.area {
        Area::Files => true,
        Area::Text | Area::Buffers | Area::Views | Area::ClientView | Area::Response | Area::Stale => is_edit(&st.op),
        _ => false,
    },
    focus: is_edit,
    required: &["steps", "opens", "reloads", "op_edit", "op_disk"],
    files: true,
};

pub static C27: Proj = Proj {
    id: "C27",
    rule: "sessions of up to 5 clients with odd session names whose scripts use every function of the editor on themselves \
           and other clients, protected or not, naming unknown clients and unreadable files, failing halfway; effects, \
           outcomes, environment and reported errors compared with the model; non-trivial when new",
    quick: 4500,
    thorough: 40_000,
    steps: (20, 45),
    profile: |_| Profile {
        join: 6,
        max_clients: 5,
        exec: 120,
        c_status: 6,
        c_hint: 5,
        c_context: 14,
        c_fail: 6,
        c_edit: 8,
        c_message: 8,
        other_client: 350,
        unknown_client: 120,
        menu: 0,
        menu_select: 3,
        raw: 0,
        ..Profile::base()
    },
    judge: |i, st| {
        is_exec(&st.op)
            && matches!(
                i.area,
                Area::Response
                    | Area::Text
                    | Area::Buffers
                    | Area::Views
                    | Area::ClientView
                    | Area::SelOwn
                    | Area::SelOther
                    | Area::Echo
                    | Area::Hint
                    | Area::Status
                    | Area::Clients
            )
    },
    focus: is_exec,
    required: &["steps", "op_exec", "contexts_known", "hints", "messages_received"],
    files: false,
};

pub static C29: Proj = Proj {
    id: "C29",
    rule: "sessions with constant joining, leaving and quitting, up to 6 clients, requests of gone and unknown clients, and \
           independent movements of the members; identity, view, copied selections, status of those who join, and absence of \
           any trace or influence of those who left compared with the model; non-trivial when someone joined after another left",
    quick: 4200,
    thorough: 40_000,
    steps: (30, 60),
    profile: |_| Profile {
        join: 26,
        leave: 14,
        quit: 10,
        max_clients: 6,
        ghost: 80,
        keys: 30,
        exec: 20,
        c_move: 20,
        view_add: 10,
        menu: 0,
        menu_select: 2,
        raw: 2,
        other_client: 350,
        unknown_client: 40,
        ..Profile::base()
    },
    judge: |i, st| match i.area {
        Area::JoinSel | Area::Clients | Area::Gone | Area::SelOther => true,
        Area::ClientView | Area::Status | Area::Latest | Area::Views => is_member_op(&st.op),
        Area::Response => st
            .op
            .client()
            .map_or(false, |c| !st.pre.clients.contains_key(&c) || is_member_op(&st.op)),
        _ => false,
    },
    focus: is_member_op,
    required: &["steps", "op_join", "op_leave", "op_quit", "ghost_requests"],
    files: false,
};

fn tree(dir: &Path, base: &Path, out: &mut BTreeMap<String, Vec<u8>>) {
    if let Ok(rd) = fs::read_dir(dir) {
        for e in rd.flatten() {
            let p = e.path();
            let n = p.strip_prefix(base).unwrap().to_string_lossy().to_string();
            if p.is_dir() {
                out.insert(format!("{}/", n), Vec::new());
                tree(&p, base, out);
            } else {
                out.insert(n, fs::read(&p).unwrap_or_default());
            }
        }
    }
}

const SESSIONS: &[&str] = &["main", "s", "a b", "q\"uo'te", "back\\slash", "日本", "@:1234", "x%sy", "]]", "new\nline", ""];

impl Check for Proj {
    fn id(&self) -> &'static str {
        self.id
    }
    fn rule(&self) -> &'static str {
        self.rule
    }
    fn cases(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => self.quick,
            Tier::Thorough => self.thorough,
        }
    }
    fn required(&self) -> Vec<&'static str> {
        self.required.to_vec()
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "the editor is driven through Editor::handle/add_client/remove_client exactly as the server loop drives it",
            "the state is read through the guarded snapshot hook",
        ]
    }
    fn run(&self, case: u64, r: &mut Rng, ctx: &mut Ctx) -> CaseResult {
        let directed = super::directed::scenario(case);
        let mut p = (self.profile)(r);
        p.cr |= r.chance(1, 4);
        p.many |= directed.is_none() && r.chance(1, 50);
        let mut files = gen::initial_files(r, &p);
        let mut dirs: Vec<&str> = gen::DIRS0.to_vec();
        let mut ops: Option<std::vec::IntoIter<Op>> = None;
        let mut name = "main".to_string();
        if let Some(sc) = directed {
            ctx.log(format!("directed: {}", sc.name));
            ctx.count("directed_sessions");
            files = sc.files;
            dirs = vec!["sub"];
            ops = Some(sc.ops.into_iter());
            if let Some(n) = sc.session {
                name = n.to_string();
            }
        } else if r.chance(1, 3) {
            name = (*r.pick(SESSIONS)).to_string();
        }
        let scratch = ctx.scratch.clone();
        let mut s = Session::new(&scratch, &name, &files, &dirs);
        if ops.is_none() && r.chance(1, 8) {
            // clients numbered from further on
            s.next_client = *r.pick(&[100, 250, 65_530, 2_147_483_640, 4_294_967_290]);
        }
        let mut m = Model::new(&s, &files, &dirs);
        ctx.log(format!("session {:?} in {}", name, s.dir.display()));
        for (n, c) in &files {
            ctx.log(format!("file {:?}: {:?}", n, String::from_utf8_lossy(c)));
        }
        let mut g = Gen::new(p);
        let n = r.range(self.steps.0, self.steps.1);
        let mut h = 7u64;
        let mut focused = 0u64;
        let mut expected_tree = BTreeMap::new();
        if self.files {
            tree(&s.dir, &s.dir, &mut expected_tree);
        }
        let mut i = 0;
        loop {
            let op = match ops.as_mut() {
                Some(it) => match it.next() {
                    Some(op) => op,
                    None => break,
                },
                None => {
                    if i >= n {
                        break;
                    }
                    if self.id == "C11" && i > 0 && i % 6 == 0 && !s.connected.is_empty() {
                        // a valid request of some connected client
                        ctx.count("probes");
                        let cs: Vec<usize> = s.connected.iter().copied().collect();
                        Op::Req(
                            *r.pick(&cs),
                            serde_json::json!(900_000 + i),
                            Req::Exec(vec![ScriptCall {
                                call: Call::Env,
                                protected: false,
                            }]),
                        )
                    } else {
                        g.next(r, &s, &m)
                    }
                }
            };
            i += 1;
            ctx.log(format!("{}: {:?}", i, op));
            let focus = (self.focus)(&op);
            if focus {
                focused += 1;
                h = h.wrapping_mul(0x100_0000_01b3) ^ hash_str(&format!("{:?}", op));
            }
            if let Some(c) = op.client() {
                if !matches!(op, Op::Join(_)) && !s.snap.clients.contains_key(&c) {
                    ctx.count("ghost_requests");
                }
            }
            let st = match s.step(op.clone()) {
                Ok(st) => st,
                Err(p) => {
                    if focus {
                        return Err(format!("{} panicked: {}", op.kind(), p));
                    }
                    ctx.count("abandoned_after_a_panic_elsewhere");
                    ctx.inconclusive
                        .get_or_insert_with(|| format!("panic outside of the property: {}", p));
                    return Ok(());
                }
            };
            ctx.count("steps");
            ctx.count(match op.kind() {
                "join" => "op_join",
                "leave" => "op_leave",
                "edit" => "op_edit",
                "edit-scratch" => "op_edit-scratch",
                "view" => "op_view",
                "view-delete" => "op_view-delete",
                "view-add" => "op_view-add",
                "view-remove" => "op_view-remove",
                "menu" => "op_menu",
                "menu-select" => "op_menu-select",
                "keys" => "op_keys",
                "exec" => "op_exec",
                "quit" => "op_quit",
                "raw" => "op_raw",
                _ => "op_disk",
            });
            for c in &st.stopped {
                g.pending_leave.push(*c);
            }
            let mut issues = m.check(&s, &st);
            if self.files {
                let mut now = BTreeMap::new();
                tree(&s.dir, &s.dir, &mut now);
                if matches!(op, Op::Disk(_)) {
                    expected_tree = now;
                } else if now != expected_tree {
                    let mut what: Vec<&String> = now
                        .keys()
                        .chain(expected_tree.keys())
                        .filter(|k| now.get(*k) != expected_tree.get(*k))
                        .collect();
                    what.sort();
                    what.dedup();
                    issues.push(Issue {
                        area: Area::Files,
                        msg: format!("files changed by the editor: {:?}", what),
                    });
                } else {
                    ctx.count("directory_comparisons");
                }
            }
            if let Some(is) = issues.iter().find(|is| (self.judge)(is, &st)) {
                ctx.log(format!("line: {}", st.line));
                ctx.log(format!("response: {:?}", st.resp));
                for n in &st.notes {
                    ctx.log(format!("  -> {:?} {} {}", n.to, n.method, n.params));
                }
                ctx.log(format!("before: {:?}", st.pre));
                ctx.log(format!("after: {:?}", st.post));
                return Err(format!("{:?} after {}: {}", is.area, op.kind(), is.msg));
            }
            for _ in &issues {
                ctx.count("issues_of_other_properties");
            }
            ctx.add("notifications", st.notes.len() as u64);
        }
        for (k, v) in &m.seen {
            ctx.add(k, *v);
        }
        ctx.count("sessions");
        if g.p.many {
            ctx.count("large_sessions");
        }
        ctx.add("plans", g.planned);
        if focused > 0 {
            ctx.distinct(h);
            let t = ctx.trace.iter().skip(files.len() + 1).cloned().collect::<Vec<_>>().join("; ");
            ctx.sample(|| t);
        }
        let _ = Disk::Touch(String::new());
        Ok(())
    }
}
