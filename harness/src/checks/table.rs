//! C01, C02, C03, C17: the piece table and the diff against a plain string.
use crate::check::{CaseResult, Check, Ctx, Tier};
use crate::rng::{hash_str, Rng};
use crate::text::*;
use ced::editor::verif::{diff, Coords, Diff, OffsetRange, PieceTable};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Insert,
    Delete,
    Bulk,
}

/// the real table next to its plain-string model
pub struct Pair {
    pub table: PieceTable,
    pub text: String,
    undos: Vec<String>,
    redos: Vec<String>,
    last: Option<Kind>,
}

fn eq_text(what: &str, got: &str, want: &str) -> CaseResult {
    if got == want {
        Ok(())
    } else {
        Err(format!("{} is {}, expected {}", what, show(got), show(want)))
    }
}

impl Pair {
    pub fn new(initial: Option<String>) -> Pair {
        match initial {
            Some(t) => Pair {
                table: PieceTable::with_text(t.clone()),
                text: t,
                undos: vec![],
                redos: vec![],
                last: None,
            },
            None => Pair {
                table: PieceTable::new(),
                text: String::new(),
                undos: vec![],
                redos: vec![],
                last: None,
            },
        }
    }

    fn group(&mut self, kind: Kind) {
        if kind == Kind::Bulk || self.last != Some(kind) {
            self.undos.push(self.text.clone());
            self.redos.clear();
        }
        self.last = if kind == Kind::Bulk { None } else { Some(kind) };
    }

    pub fn insert(&mut self, off: usize, t: &str) {
        self.group(Kind::Insert);
        self.table.insert(off, t.to_string());
        self.text.insert_str(off, t);
    }

    pub fn append(&mut self, t: &str) {
        self.group(Kind::Insert);
        self.table.append(t.to_string());
        self.text.push_str(t);
    }

    pub fn delete(&mut self, a: usize, b: usize) {
        self.group(Kind::Delete);
        if (a + b) % 2 == 0 {
            self.table.delete(&OffsetRange::new(a, b - a));
        } else {
            self.table.delete(&(a..b));
        }
        self.text.replace_range(a..b, "");
    }

    pub fn replace(&mut self, a: usize, b: usize, t: &str) {
        self.group(Kind::Bulk);
        self.table.replace(OffsetRange::new(a, b - a), t.to_string());
        self.text.replace_range(a..b, t);
    }

    pub fn apply(&mut self, t: &str) {
        self.group(Kind::Bulk);
        self.table.apply_diff(t);
        self.text = t.to_string();
    }

    /// None when the answer of the table about being able to undo is wrong
    pub fn undo(&mut self) -> CaseResult {
        let got = self.table.verif_undo();
        match self.undos.pop() {
            Some(t) => {
                self.redos.push(std::mem::replace(&mut self.text, t));
                self.last = None;
                if !got {
                    return Err("undo refused although there is an edit to undo".into());
                }
            }
            None => {
                if got {
                    return Err("undo accepted although there is nothing to undo".into());
                }
            }
        }
        Ok(())
    }

    pub fn redo(&mut self) -> CaseResult {
        let got = self.table.verif_redo();
        match self.redos.pop() {
            Some(t) => {
                self.undos.push(std::mem::replace(&mut self.text, t));
                self.last = None;
                if !got {
                    return Err("redo refused although there is an undone edit".into());
                }
            }
            None => {
                if got {
                    return Err("redo accepted although there is nothing to redo".into());
                }
            }
        }
        Ok(())
    }

    pub fn can_undo(&self) -> bool {
        !self.undos.is_empty()
    }
}

fn check_text(p: &Pair, r: &mut Rng, ctx: &mut Ctx) -> CaseResult {
    eq_text("text", &p.table.text(), &p.text)?;
    if p.table.len() != p.text.len() {
        return Err(format!("len is {}, expected {}", p.table.len(), p.text.len()));
    }
    if p.table.is_empty() != p.text.is_empty() {
        return Err(format!("is_empty is {}", p.table.is_empty()));
    }
    if p.text.is_empty() {
        return Ok(());
    }
    for i in 0..4 {
        let (mut a, mut b) = if i == 0 {
            (0, p.text.len())
        } else {
            (gen_boundary(r, &p.text), gen_boundary(r, &p.text))
        };
        if a > b {
            std::mem::swap(&mut a, &mut b);
        }
        if a == p.text.len() {
            continue;
        }
        let got = p.table.text_range(&(a..b));
        ctx.count("range_reads");
        if got.as_deref() != Some(&p.text[a..b]) {
            return Err(format!(
                "text_range({}..{}) is {:?}, expected {:?}",
                a,
                b,
                got.map(|g| show(&g)),
                show(&p.text[a..b])
            ));
        }
    }
    Ok(())
}

/// every line and coordinate query against the flat model
pub fn check_queries(t: &PieceTable, text: &str, r: &mut Rng, ctx: &mut Ctx) -> CaseResult {
    if text.is_empty() {
        return Ok(());
    }
    let doc = Doc::new(text);
    let nl = doc.lines.len();
    ctx.count("query_rounds");
    if t.line_count() != nl {
        return Err(format!("line_count is {}, expected {} for {}", t.line_count(), nl, show(text)));
    }
    let want: Vec<&str> = text.lines().collect();
    if t.lines() != want {
        return Err(format!("lines() is {:?}, expected {:?}", t.lines(), want));
    }
    let some: Vec<usize> = if nl <= 12 {
        (0..=nl + 2).collect()
    } else {
        let mut v = vec![0, 1, 2, nl - 1, nl, nl + 1];
        v.extend((0..6).map(|_| r.range(1, nl)));
        v
    };
    for &n in &some {
        let want = if n >= 1 && n <= nl { Some(doc.lines[n - 1].to_string()) } else { None };
        let got = t.line_text(n);
        if got != want {
            return Err(format!("line_text({}) is {:?}, expected {:?} for {}", n, got, want, show(text)));
        }
        if t.line_bytes(n) != want.map(String::into_bytes) {
            return Err(format!("line_bytes({}) differs from the line's text", n));
        }
        if n > 0 && t.line_length(n) != doc.line_len(n) {
            return Err(format!(
                "line_length({}) is {}, expected {} for {}",
                n,
                t.line_length(n),
                doc.line_len(n),
                show(text)
            ));
        }
    }
    let lens: Vec<usize> = (1..=nl).map(|n| doc.line_len(n)).collect();
    let max = *lens.iter().max().unwrap();
    let first = lens.iter().position(|l| *l == max).unwrap() + 1;
    let got = t.longest_line();
    if got.1 != max || (max > 0 && got.0 != first) {
        return Err(format!("longest_line is {:?}, expected {:?} for {}", got, (first, max), show(text)));
    }
    if t.max_offset() != text.len() - 1 {
        return Err(format!("max_offset is {}, expected {}", t.max_offset(), text.len() - 1));
    }
    let last = doc.chars.last().unwrap();
    if t.max_coord() != Coords::from((last.line, last.col)) {
        return Err(format!("max_coord is {:?}, expected {:?} for {}", t.max_coord(), (last.line, last.col), show(text)));
    }
    let picks: Vec<usize> = if doc.chars.len() <= 60 {
        (0..doc.chars.len()).collect()
    } else {
        let mut v: Vec<usize> = (0..40).map(|_| r.below(doc.chars.len())).collect();
        v.push(0);
        v.push(doc.chars.len() - 1);
        v
    };
    for i in picks {
        let c = doc.chars[i];
        let coords = Coords { l: c.line, c: c.col };
        ctx.count("characters_queried");
        let got = t.offset_to_coord(c.off);
        if got != Some(coords) {
            return Err(format!("offset_to_coord({}) is {:?}, expected {:?} for {}", c.off, got, coords, show(text)));
        }
        let got = t.coord_to_offset(coords);
        if got != Some(c.off) {
            return Err(format!("coord_to_offset({:?}) is {:?}, expected {} for {}", coords, got, c.off, show(text)));
        }
        let got = t.char_at_offset(c.off);
        if got.as_deref() != Some(doc.slice(&c)) {
            return Err(format!("char_at_offset({}) is {:?}, expected {:?} for {}", c.off, got, doc.slice(&c), show(text)));
        }
        let got = t.char_at(coords);
        if got.as_deref() != Some(doc.slice(&c)) {
            return Err(format!("char_at({:?}) is {:?}, expected {:?} for {}", coords, got, doc.slice(&c), show(text)));
        }
    }
    // outside
    for off in [text.len(), text.len() + 1, text.len() + 1 + r.below(50)] {
        if let Some(c) = t.offset_to_coord(off) {
            return Err(format!("offset_to_coord({}) is {:?} beyond the text of {} bytes {}", off, c, text.len(), show(text)));
        }
    }
    let l = r.range(1, nl);
    let beyond = doc.chars.iter().filter(|c| c.line == l).count() + 1;
    for (l, c) in [(nl + 1, 1), (nl + 1 + r.below(9), r.range(1, 9)), (l, beyond), (l, beyond + r.below(20)), (l, 0), (0, r.range(1, 3))] {
        if let Some(o) = t.coord_to_offset(Coords { l, c }) {
            return Err(format!("coord_to_offset({:?}) is {} outside of {}", (l, c), o, show(text)));
        }
        if let Some(o) = t.char_at((l, c)) {
            return Err(format!("char_at({:?}) is {:?} outside of {}", (l, c), o, show(text)));
        }
        ctx.count("outside_queried");
    }
    // stretches between two coordinates
    let (mut i, mut j) = (r.below(doc.chars.len()), r.below(doc.chars.len()));
    if i > j {
        std::mem::swap(&mut i, &mut j);
    }
    let (a, b) = (doc.chars[i], doc.chars[j]);
    let got = t.lines_range((a.line, a.col), (b.line, b.col));
    let want: Vec<&str> = text[a.off..b.off].lines().collect();
    if got != want {
        return Err(format!("lines_range({:?}, {:?}) is {:?}, expected {:?}", (a.line, a.col), (b.line, b.col), got, want));
    }
    Ok(())
}

fn gen_initial(r: &mut Rng, ctx: &mut Ctx) -> Pair {
    let p = match r.below(6) {
        // large texts: long lines, many lines
        _ if r.chance(1, 600) => {
            ctx.count("large_texts");
            Pair::new(Some(if r.chance(1, 2) { gen_nonempty(r, 4, 3000) } else { gen_nonempty(r, 3000, 4) }))
        }
        0 => Pair::new(None),
        1 => Pair::new(Some(gen_nonempty(r, 40, 20))),
        _ => Pair::new(Some(gen_nonempty(r, 5, 6))),
    };
    ctx.log(format!("start {}", show(&p.text)));
    p
}

fn gen_piece(r: &mut Rng) -> String {
    match r.weighted(&[20, 12, 4, 4, 1]) {
        4 => String::new(),
        0 => gen_atom(r).to_string(),
        1 => gen_nonempty(r, 3, 4),
        2 => "\n".repeat(r.range(1, 3)),
        _ => gen_nonempty(r, 8, 30),
    }
}

/// positions cluster around recent edits, so that pieces are cut exactly at their ends
struct Spots(Vec<usize>);

impl Spots {
    fn gen(&mut self, r: &mut Rng, text: &str) -> usize {
        let mut o = if !self.0.is_empty() && r.chance(1, 2) {
            let base = *r.pick(&self.0);
            match r.below(4) {
                0 => base.saturating_sub(1),
                1 => base + 1,
                _ => base,
            }
            .min(text.len())
        } else {
            gen_boundary(r, text)
        };
        while !text.is_char_boundary(o) {
            o -= 1;
        }
        if self.0.len() > 8 {
            self.0.remove(0);
        }
        self.0.push(o);
        o
    }
}

/// one random edit of the pair; returns its name
fn edit(p: &mut Pair, r: &mut Rng, spots: &mut Spots, ctx: &mut Ctx, weights: &[u32; 7]) -> Result<&'static str, String> {
    let big = p.text.len() > 4000;
    let mut op = r.weighted(weights);
    if p.text.is_empty() && matches!(op, 2 | 3) {
        op = 0;
    }
    if big && op < 2 {
        op = 2;
    }
    let name = match op {
        0 => {
            let off = spots.gen(r, &p.text);
            let t = gen_piece(r);
            ctx.log(format!("insert({}, {})", off, show(&t)));
            p.insert(off, &t);
            spots.0.push(off + t.len());
            "insert"
        }
        1 => {
            let t = gen_piece(r);
            ctx.log(format!("append({})", show(&t)));
            p.append(&t);
            "append"
        }
        2 | 3 => {
            let (mut a, mut b) = if r.chance(1, 25) {
                (0, p.text.len())
            } else {
                let a = spots.gen(r, &p.text);
                let b = if r.chance(1, 2) {
                    spots.gen(r, &p.text)
                } else {
                    let mut b = (a + r.range(1, 6)).min(p.text.len());
                    while !p.text.is_char_boundary(b) {
                        b += 1;
                    }
                    b
                };
                (a, b)
            };
            if a > b {
                std::mem::swap(&mut a, &mut b);
            }
            if a == b {
                if a == 0 {
                    b = p.text.chars().next().unwrap().len_utf8();
                } else {
                    a -= 1;
                    while !p.text.is_char_boundary(a) {
                        a -= 1;
                    }
                }
            }
            if op == 2 {
                ctx.log(format!("delete({}..{})", a, b));
                p.delete(a, b);
                "delete"
            } else {
                let t = gen_piece(r);
                ctx.log(format!("replace({}..{}, {})", a, b, show(&t)));
                p.replace(a, b, &t);
                "replace"
            }
        }
        4 => {
            let t = mutate(r, &p.text);
            ctx.log(format!("apply_diff({})", show(&t)));
            p.apply(&t);
            "apply_diff"
        }
        5 => {
            ctx.log("undo".into());
            p.undo()?;
            "undo"
        }
        _ => {
            ctx.log("redo".into());
            p.redo()?;
            "redo"
        }
    };
    ctx.count(name);
    Ok(name)
}

/// an edit whose own correctness is not judged here: the model takes over whatever text results;
/// None when the edit itself crashed
fn edit_unjudged(
    p: &mut Pair,
    r: &mut Rng,
    spots: &mut Spots,
    ctx: &mut Ctx,
    weights: &[u32; 7],
) -> Option<&'static str> {
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let name = edit(p, r, spots, ctx, weights);
        p.text = p.table.text();
        name
    }));
    match res {
        Ok(Ok(name)) => Some(name),
        _ => {
            ctx.inconclusive = Some("an edit failed".into());
            None
        }
    }
}

/// a variation of the text
pub fn mutate(r: &mut Rng, text: &str) -> String {
    if r.chance(1, 4) {
        return crate::text::resemble(r, text);
    }
    let mut t = text.to_string();
    for _ in 0..r.range(0, 5) {
        let (mut a, mut b) = (gen_boundary(r, &t), gen_boundary(r, &t));
        if a > b {
            std::mem::swap(&mut a, &mut b);
        }
        match r.below(4) {
            0 => t.insert_str(a, &gen_piece(r)),
            1 => {
                let mut e = (a + r.below(8)).min(t.len());
                while !t.is_char_boundary(e) {
                    e += 1;
                }
                t.replace_range(a..e, "");
            }
            2 => {
                let mut e = (a + r.below(5)).min(t.len());
                while !t.is_char_boundary(e) {
                    e += 1;
                }
                let x = gen_piece(r);
                t.replace_range(a..e, &x);
            }
            _ => {
                // move a stretch
                let cut: String = t[a..b].to_string();
                t.replace_range(a..b, "");
                let at = gen_boundary(r, &t);
                t.insert_str(at, &cut);
            }
        }
    }
    t
}

pub struct C01;
impl Check for C01 {
    fn id(&self) -> &'static str {
        "C01"
    }
    fn rule(&self) -> &'static str {
        "random sequences of insert, append, delete, replace, undo and redo on a piece table, positions clustered on the \
         ends of earlier edits; after every operation text, length, emptiness and several sub-ranges are compared with the \
         same edits of a String. A case is non-trivial when it has at least 3 edits of at least 2 kinds; distinct by hash of all its texts"
    }
    fn cases(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 250_000,
            Tier::Thorough => 1_500_000,
        }
    }
    fn required(&self) -> Vec<&'static str> {
        vec!["insert", "append", "delete", "replace", "range_reads"]
    }
    fn run(&self, _case: u64, r: &mut Rng, ctx: &mut Ctx) -> CaseResult {
        let mut p = gen_initial(r, ctx);
        let mut spots = Spots(vec![]);
        let n = if r.chance(1, 400) {
            ctx.count("long_histories");
            r.range(300, 1500)
        } else if r.chance(1, 20) {
            r.range(50, 250)
        } else {
            r.range(1, 30)
        };
        let mut h = 0u64;
        let mut kinds = std::collections::HashSet::new();
        check_text(&p, r, ctx)?;
        let undoing = u32::from(r.chance(1, 3));
        for _ in 0..n {
            kinds.insert(edit(&mut p, r, &mut spots, ctx, &[6, 2, 6, 2, 0, undoing, undoing])?);
            check_text(&p, r, ctx)?;
            h = h.wrapping_mul(0x100_0000_01b3) ^ hash_str(&p.text);
        }
        if n >= 3 && kinds.len() >= 2 {
            ctx.distinct(h);
            let t = ctx.trace.join("; ");
            ctx.sample(|| t);
        }
        Ok(())
    }
}

pub struct C02;
impl Check for C02 {
    fn id(&self) -> &'static str {
        "C02"
    }
    fn rule(&self) -> &'static str {
        "random sequences of edits of all kinds (insert, append, delete, replace, whole-text reload) and runs of undo and redo; \
         after every operation the text is compared with a model keeping one text per undo group, and after every undo and redo \
         all line and coordinate queries are compared with the flat text. Non-trivial: at least 2 undos that changed the text and 1 redo"
    }
    fn cases(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 50_000,
            Tier::Thorough => 1_500_000,
        }
    }
    fn required(&self) -> Vec<&'static str> {
        vec!["undo", "redo", "insert", "delete", "replace", "apply_diff", "query_rounds"]
    }
    fn run(&self, _case: u64, r: &mut Rng, ctx: &mut Ctx) -> CaseResult {
        let mut p = gen_initial(r, ctx);
        let mut spots = Spots(vec![]);
        let mut h = 0u64;
        let (mut undone, mut redone) = (0, 0);
        let n = if r.chance(1, 250) {
            ctx.count("long_histories");
            r.range(150, 1500)
        } else {
            r.range(2, 40)
        };
        // all is undone less often in long ones
        let all = if n > 40 { 100 } else { 8 };
        for _ in 0..n {
            let name = if r.chance(1, all) && p.can_undo() {
                // undo everything, then redo everything
                let mut k = 0;
                while p.can_undo() {
                    ctx.log("undo".into());
                    p.undo()?;
                    eq_text("text after undo", &p.table.text(), &p.text)?;
                    k += 1;
                }
                check_queries(&p.table, &p.text, r, ctx)?;
                if p.table.verif_undo() {
                    return Err("undo accepted although there is nothing to undo".into());
                }
                for _ in 0..r.range(0, k) {
                    ctx.log("redo".into());
                    p.redo()?;
                    eq_text("text after redo", &p.table.text(), &p.text)?;
                }
                undone += 2;
                redone += 1;
                "redo"
            } else {
                let before = p.text.clone();
                let w = if r.chance(1, 3) { [0, 0, 0, 0, 0, 1, 1] } else { [4, 2, 4, 2, 1, 4, 3] };
                let name = match r.weighted(&[w[..5].iter().sum::<u32>(), w[5], w[6]]) {
                    0 => {
                        let w = [w[0], w[1], w[2], w[3], w[4], 0, 0];
                        match edit_unjudged(&mut p, r, &mut spots, ctx, &w) {
                            Some(name) => name,
                            None => return Ok(()),
                        }
                    }
                    1 => edit(&mut p, r, &mut spots, ctx, &[0, 0, 0, 0, 0, 1, 0])?,
                    _ => edit(&mut p, r, &mut spots, ctx, &[0, 0, 0, 0, 0, 0, 1])?,
                };
                if name == "undo" && before != p.text {
                    undone += 1;
                }
                if name == "redo" && before != p.text {
                    redone += 1;
                }
                name
            };
            eq_text(&format!("text after {}", name), &p.table.text(), &p.text)?;
            if p.table.len() != p.text.len() {
                return Err(format!("length after {} is {}, expected {}", name, p.table.len(), p.text.len()));
            }
            if name == "undo" || name == "redo" || r.chance(1, 4) {
                check_queries(&p.table, &p.text, r, ctx).map_err(|e| format!("after {}: {}", name, e))?;
            }
            h = h.wrapping_mul(0x100_0000_01b3) ^ hash_str(&p.text);
        }
        if undone >= 2 && redone >= 1 {
            ctx.distinct(h);
            let t = ctx.trace.join("; ");
            ctx.sample(|| t);
        }
        Ok(())
    }
}

pub struct C03;
impl Check for C03 {
    fn id(&self) -> &'static str {
        "C03"
    }
    fn rule(&self) -> &'static str {
        "texts of all shapes (empty lines, missing final newline, combining marks, emoji sequences, control characters), fresh or \
         after random edits, undos and reloads; all line queries, both coordinate conversions and the character queries are compared \
         with a flat model for every (or 40 sampled) characters and for positions outside. Non-trivial: at least 2 lines and one \
         non-ASCII character; distinct by text"
    }
    fn cases(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 100_000,
            Tier::Thorough => 1_500_000,
        }
    }
    fn required(&self) -> Vec<&'static str> {
        vec!["query_rounds", "characters_queried", "outside_queried"]
    }
    fn run(&self, _case: u64, r: &mut Rng, ctx: &mut Ctx) -> CaseResult {
        let mut p = gen_initial(r, ctx);
        let mut spots = Spots(vec![]);
        check_queries(&p.table, &p.text, r, ctx)?;
        for _ in 0..r.below(16) {
            if edit_unjudged(&mut p, r, &mut spots, ctx, &[6, 2, 6, 2, 1, 1, 1]).is_none() {
                return Ok(());
            }
            // judge the queries against the text the table really has
            let text = p.text.clone();
            check_queries(&p.table, &text, r, ctx)?;
            if text.matches('\n').count() >= 1 && !text.is_ascii() {
                ctx.distinct(hash_str(&text));
            }
        }
        let t = p.text.clone();
        ctx.sample(|| show(&t));
        Ok(())
    }
}

fn check_diff(left: &str, right: &str, diffs: &[Diff]) -> CaseResult {
    let (mut i, mut j) = (0usize, 0usize);
    let bad = |what: &str| {
        Err(format!("{}: diff({}, {}) = {:?}", what, show(left), show(right), &diffs[..diffs.len().min(40)]))
    };
    for d in diffs {
        let (dl, dr) = match d {
            Diff::Left(n) => (*n, 0),
            Diff::Right(n) => (0, *n),
            Diff::Both(n) => (*n, *n),
        };
        if i + dl > left.len() || j + dr > right.len() {
            return bad("a stretch goes beyond the text");
        }
        if !left.is_char_boundary(i + dl) || !right.is_char_boundary(j + dr) {
            return bad("a stretch ends inside a character");
        }
        if matches!(d, Diff::Both(_)) && left[i..i + dl] != right[j..j + dr] {
            return bad("a kept stretch differs between the texts");
        }
        i += dl;
        j += dr;
    }
    if i != left.len() || j != right.len() {
        return bad("the stretches do not cover both texts");
    }
    Ok(())
}

pub struct C17;
impl Check for C17 {
    fn id(&self) -> &'static str {
        "C17"
    }
    fn rule(&self) -> &'static str {
        "pairs of texts (unrelated, one a variation of the other, empty, repetitive, sharing prefix, suffix or bytes of \
         characters): the stretches of the comparison are checked for coverage, boundaries and identity of kept ones; the \
         difference is applied to a table with a random history and text, queries and the one-step undo are checked. \
         Non-trivial: texts differ and share something; distinct by hash of both"
    }
    fn cases(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 100_000,
            Tier::Thorough => 1_500_000,
        }
    }
    fn required(&self) -> Vec<&'static str> {
        vec!["diffs", "applied", "undone"]
    }
    fn run(&self, case: u64, r: &mut Rng, ctx: &mut Ctx) -> CaseResult {
        let fixed: &[(&str, &str)] = &[
            ("", ""), ("", "a"), ("a", ""), ("a", "b"), ("ab", "a"), ("a", "ab"), ("ab", "b"), ("b", "ab"),
            ("abc", "ac"), ("ac", "abc"), ("é", "è"), ("aé", "aè"), ("éa", "èa"), ("€", "é"), ("aaa", "aa"), ("aa", "aaa"),
            ("ab", "ba"), ("abcd", "bd"), ("a\n", "a\nb\n"), ("a\nb\n", "a\n"), ("x\n", "\n"), ("\n", "x\n"),
            ("aXb", "aYb"), ("abX", "abY"), ("Xab", "Yab"), ("🦊", "🐶"), ("🦊🐶", "🐶🦊"), ("ab", "abab"), ("abab", "ab"),
        ];
        let mut p = gen_initial(r, ctx);
        let mut spots = Spots(vec![]);
        let right;
        if (case as usize) < fixed.len() * 2 {
            let (l, rt) = fixed[case as usize / 2];
            if case % 2 == 0 {
                p = Pair::new(Some(l.to_string()));
            } else {
                p = Pair::new(None);
                p.append(l);
            }
            if l.is_empty() {
                // only the comparison is defined for an empty text
                check_diff(l, rt, &diff(l, rt))?;
                ctx.count("diffs");
                return Ok(());
            }
            right = rt.to_string();
        } else {
            for _ in 0..r.below(8) {
                if edit_unjudged(&mut p, r, &mut spots, ctx, &[6, 2, 6, 2, 0, 1, 1]).is_none() {
                    return Ok(());
                }
            }
            if r.chance(1, 400) {
                // more than is worth being compared in detail
                p = Pair::new(Some(gen_nonempty(r, 3000, 6)));
                ctx.count("large_pairs");
            }
            right = match r.weighted(&[6, 2, 1, 1, 2]) {
                _ if p.text.len() > 6000 && r.chance(1, 2) => gen_nonempty(r, 3000, 6),
                0 => mutate(r, &p.text),
                1 => gen_text(r, 5, 8),
                2 => p.text.clone(),
                3 => {
                    // same bytes structure, different characters
                    p.text.chars().map(|c| if c.len_utf8() == 2 && r.chance(1, 2) { 'è' } else { c }).collect()
                }
                _ => {
                    // repetitive
                    let unit = gen_nonempty(r, 1, 2);
                    unit.repeat(r.range(1, 6))
                }
            };
        }
        let left = p.text.clone();
        ctx.log(format!("reload {} -> {}", show(&left), show(&right)));
        let d = diff(&left, &right);
        check_diff(&left, &right, &d)?;
        ctx.count("diffs");
        let d2 = diff(&right, &left);
        check_diff(&right, &left, &d2)?;
        ctx.count("diffs");
        if left.is_empty() {
            return Ok(());
        }
        p.apply(&right);
        ctx.count("applied");
        eq_text("text after applying the difference", &p.table.text(), &right)?;
        if p.table.len() != right.len() {
            return Err(format!("length is {}, expected {}", p.table.len(), right.len()));
        }
        check_queries(&p.table, &right, r, ctx)?;
        p.undo()?;
        ctx.count("undone");
        eq_text("text after undoing the replacement", &p.table.text(), &left)?;
        check_queries(&p.table, &left, r, ctx)?;
        p.redo()?;
        eq_text("text after redoing the replacement", &p.table.text(), &right)?;
        if left != right && d.iter().any(|x| matches!(x, Diff::Both(_))) {
            ctx.distinct(hash_str(&left) ^ hash_str(&right).rotate_left(1));
            ctx.sample(|| format!("{} -> {}: {:?}", show(&left), show(&right), &d[..d.len().min(20)]));
        }
        Ok(())
    }
}
