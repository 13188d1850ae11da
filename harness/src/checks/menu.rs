//! C12: menu searches over odd labels, through the requests of a client.
use super::engine::Proj;
use crate::check::{CaseResult, Check, Ctx, Tier};
use crate::engine::gen::{gen_search, Profile};
use crate::engine::model::{check_menu, label_matches, Area, ExpMenu};
use crate::engine::{Call, Op, Req, ScriptCall, Session};
use crate::rng::{hash_str, Rng};
use serde_json::json;

static SESSIONS: Proj = Proj {
    id: "C12",
    rule: "",
    quick: 0,
    thorough: 0,
    steps: (25, 50),
    profile: |_| Profile {
        menu: 80,
        menu_select: 6,
        disk: 8,
        edit: 14,
        edit_scratch: 14,
        keys: 4,
        exec: 8,
        raw: 0,
        ..Profile::base()
    },
    judge: |i, st| {
        matches!(st.op, Op::Req(_, _, Req::Menu(..))) && matches!(i.area, Area::Menu | Area::Response)
    },
    focus: |op| matches!(op, Op::Req(_, _, Req::Menu(..))),
    required: &[],
    files: false,
};

const PARTS: &[&str] = &[
    "a", "b", "ab", "A", "B", "src", "Src", "lib", "main", "mod", ".rs", ".RS", "/", "//", "_", "-", " ", "  ", ".",
    "*", "(", ")", "[x]", "{2}", "^", "$", "|", "\\", "\\d", "?", "+", "#", "\n", "\t", "é", "É", "ß", "ẞ", "日本",
    "Σ", "σ", "ς", "🦊", "e\u{301}", "K", "k", "ſ", "s", "S", "0", "1", "\u{0}", "\r", "ǆ", "Ǆ", "ж", "Ж",
];

fn label(r: &mut Rng) -> String {
    let n = match r.weighted(&[10, 2, 1]) {
        0 => r.range(1, 5),
        1 => r.range(6, 12),
        _ => r.range(30, 200),
    };
    (0..n).map(|_| *r.pick(PARTS)).collect()
}

/// labels close to others: same letters in another case, prefixes, permutations
fn related(r: &mut Rng, l: &str) -> String {
    let cs: Vec<char> = l.chars().collect();
    match r.below(5) {
        0 => l.to_uppercase(),
        1 => l.to_lowercase(),
        2 => format!("{}{}", l, r.pick(PARTS)),
        3 => format!("{}{}", r.pick(PARTS), l),
        _ => {
            let mut cs = cs;
            if cs.len() > 1 {
                let (i, j) = (r.below(cs.len()), r.below(cs.len()));
                cs.swap(i, j);
            }
            cs.into_iter().collect()
        }
    }
}

pub struct C12;

impl Check for C12 {
    fn id(&self) -> &'static str {
        "C12"
    }
    fn rule(&self) -> &'static str {
        "buffers with odd, related and long names, listed by the menu adding to the view, searched with words taken from \
         the labels in any case, regular-expression syntax, whitespace of all kinds, up to hundreds of words; plus sessions \
         searching all menus; the shown set is compared with an independent matcher, the highlighted fragments with the \
         words, the order with the highlighted stretches; a case is non-trivial when a search kept some labels and not others"
    }
    fn cases(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 7200,
            Tier::Thorough => 80_000,
        }
    }
    fn required(&self) -> Vec<&'static str> {
        vec!["searches", "partial_searches", "ordered_pairs", "case_changed_matches", "menus"]
    }
    fn run(&self, case: u64, r: &mut Rng, ctx: &mut Ctx) -> CaseResult {
        if case % 4 == 0 {
            return SESSIONS.run(case / 4, r, ctx);
        }
        let scratch = ctx.scratch.clone();
        let mut s = Session::new(&scratch, "main", &[], &[]);
        let step = |s: &mut Session, op: Op| s.step(op).map_err(|p| format!("panic: {}", p));
        step(&mut s, Op::Join(1))?;
        let n = r.range(1, 25);
        let mut labels: Vec<String> = Vec::new();
        for _ in 0..n {
            let l = if !labels.is_empty() && r.chance(1, 2) {
                let b = r.pick(&labels).clone();
                related(r, &b)
            } else {
                label(r)
            };
            if !labels.contains(&l) && !l.starts_with('*') {
                labels.push(l);
            }
        }
        let calls = labels
            .iter()
            .map(|l| ScriptCall {
                call: Call::Append(l.clone(), "x".into()),
                protected: false,
            })
            .collect();
        let st = step(&mut s, Op::Req(1, json!(1), Req::Exec(calls)))?;
        if st.resp.as_ref().map_or(true, |x| x.as_ref().map_or(true, |v| v.get("result").is_none())) {
            ctx.inconclusive = Some("could not create the buffers".into());
            return Ok(());
        }
        let mut entries: Vec<(String, String)> = s.snap.buffers.keys().map(|b| (b.clone(), b.clone())).collect();
        entries.sort();
        ctx.log(format!("labels: {:?}", entries.iter().map(|e| &e.0).collect::<Vec<_>>()));
        let menu = *r.pick(&["view_add", "view_remove"]);
        let mut h = hash_str(&format!("{:?}", entries));
        let mut partial = false;
        let searches = r.range(4, 10);
        for i in 0..searches {
            let search = if i == 0 {
                String::new()
            } else if r.chance(1, 60) {
                // more than a regular expression can be compiled for, less than what stalls it
                let w = r.pick(PARTS).repeat(r.range(1, 40));
                vec![w; r.range(10, 100)].join(" ")
            } else {
                let ls: Vec<&String> = labels.iter().collect();
                gen_search(r, &ls)
            };
            ctx.log(format!("search {:?}", search));
            let st = step(&mut s, Op::Req(1, json!(i + 2), Req::Menu(menu.into(), search.clone())))?;
            ctx.count("searches");
            let menus: Vec<_> = st.notes.iter().filter(|n| n.method == "menu").collect();
            if menus.len() != 1 || menus[0].to != [1] {
                return Err(format!("{} menu notifications for a search, response {:?}", menus.len(), st.resp));
            }
            let p = &menus[0].params;
            let w = ExpMenu {
                to: 1,
                command: menu.into(),
                search: search.clone(),
            };
            check_menu(p, &w, Some(&entries)).map_err(|e| format!("{} (notification {})", e, p))?;
            let shown = p["entries"].as_array().map_or(0, |l| l.len());
            ctx.count("menus");
            ctx.add("entries_shown", shown as u64);
            ctx.add("ordered_pairs", shown.saturating_sub(1) as u64);
            if shown > 0 && shown < entries.len() {
                partial = true;
                ctx.count("partial_searches");
                let ws: Vec<String> = search.split_whitespace().map(str::to_string).collect();
                let exact = entries
                    .iter()
                    .filter(|e| {
                        let mut at = 0;
                        ws.iter().all(|w| match e.1[at..].find(w.as_str()) {
                            Some(k) => {
                                at += k + w.len();
                                true
                            }
                            None => false,
                        })
                    })
                    .count();
                let folded = entries.iter().filter(|e| label_matches(&e.1, &ws)).count();
                ctx.add("case_changed_matches", (folded - exact) as u64);
                h = h.wrapping_mul(31) ^ hash_str(&search);
            }
        }
        if partial {
            ctx.distinct(h);
            let t = ctx.trace.join("; ");
            ctx.sample(|| t);
        }
        Ok(())
    }
}
