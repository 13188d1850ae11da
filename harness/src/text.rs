//! Independent flat model of a text: lines, characters (graphemes per line) and generators.
use crate::rng::Rng;
use bstr::ByteSlice;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Ch {
    pub off: usize,
    pub len: usize,
    pub line: usize,
    pub col: usize,
    pub newline: bool,
}

impl Ch {
    pub fn end(&self) -> usize {
        self.off + self.len
    }
}

pub struct Doc<'a> {
    pub text: &'a str,
    pub lines: Vec<&'a str>,
    pub chars: Vec<Ch>,
}

pub fn graphemes(line: &str) -> Vec<(usize, usize)> {
    line.as_bytes()
        .grapheme_indices()
        .map(|(s, e, _)| (s, e))
        .collect()
}

pub fn doc_lines(text: &str) -> Vec<&str> {
    let mut lines: Vec<&str> = text.split('\n').collect();
    if text.ends_with('\n') {
        lines.pop();
    }
    lines
}

impl<'a> Doc<'a> {
    pub fn new(text: &'a str) -> Doc<'a> {
        let lines = doc_lines(text);
        let mut chars = Vec::new();
        let mut off = 0;
        for (i, line) in lines.iter().enumerate() {
            let mut col = 1;
            for (s, e) in graphemes(line) {
                chars.push(Ch {
                    off: off + s,
                    len: e - s,
                    line: i + 1,
                    col,
                    newline: false,
                });
                col += 1;
            }
            off += line.len();
            if off < text.len() {
                chars.push(Ch {
                    off,
                    len: 1,
                    line: i + 1,
                    col,
                    newline: true,
                });
                off += 1;
            }
        }
        Doc { text, lines, chars }
    }

    /// index in `chars` of the character starting at the offset
    pub fn at(&self, off: usize) -> Option<usize> {
        self.chars.binary_search_by(|c| c.off.cmp(&off)).ok()
    }

    /// index in `chars` of the character containing the offset
    pub fn containing(&self, off: usize) -> Option<usize> {
        if off >= self.text.len() {
            return None;
        }
        match self.chars.binary_search_by(|c| c.off.cmp(&off)) {
            Ok(i) => Some(i),
            Err(i) => Some(i - 1),
        }
    }

    pub fn coord(&self, line: usize, col: usize) -> Option<&Ch> {
        self.chars.iter().find(|c| c.line == line && c.col == col)
    }

    /// number of graphemes of a line, newline not included
    pub fn line_len(&self, line: usize) -> usize {
        if line == 0 || line > self.lines.len() {
            0
        } else {
            graphemes(self.lines[line - 1]).len()
        }
    }

    pub fn slice(&self, c: &Ch) -> &'a str {
        &self.text[c.off..c.end()]
    }
}

/// single generated characters: 1 to 4 byte ones, combining marks, emoji sequences, controls
pub const ATOMS: &[&str] = &[
    "a", "b", "c", "d", "e", "x", "y", "z", "A", "B", " ", "  ", "\t", "0", "1", ".", "{", "}",
    "|", "\\", "\"", "'", "*", "é", "ß", "Ø", "λ", "ж", "日", "本", "語", "€", "한", "∂", "Ⓩ",
    "🦊", "🐶", "🚀", "e\u{301}", "o\u{308}\u{301}", "\u{301}", "👨‍👩‍👧", "👍🏽", "🇫🇷", "🇯🇵", "1️⃣", "\r",
    "\u{0}", "\u{7f}", "\u{200d}", "\u{feff}", "ก็", "\u{a0}", "\u{2028}", "ǆ", "İ", "ﬀ",
];

pub fn gen_atom(r: &mut Rng) -> &'static str {
    match r.weighted(&[6, 3, 1]) {
        0 => ATOMS[r.below(18)],
        1 => ATOMS[23 + r.below(15)],
        _ => ATOMS[r.below(ATOMS.len())],
    }
}

pub fn gen_line(r: &mut Rng, max: usize) -> String {
    let n = match r.weighted(&[2, 2, 5]) {
        0 => 0,
        1 => r.below(3),
        _ => r.below(max + 1),
    };
    let ascii = r.chance(1, 3);
    (0..n)
        .map(|_| {
            if ascii {
                ATOMS[r.below(18)]
            } else {
                gen_atom(r)
            }
        })
        .collect()
}

/// a text of up to `lines` lines; with or without a final newline; possibly empty
pub fn gen_text(r: &mut Rng, lines: usize, width: usize) -> String {
    let n = r.below(lines + 1);
    let mut t = String::new();
    for i in 0..n {
        t.push_str(&gen_line(r, width));
        if i + 1 < n || r.chance(1, 2) {
            t.push('\n');
        }
    }
    t
}

pub fn gen_nonempty(r: &mut Rng, lines: usize, width: usize) -> String {
    let t = gen_text(r, lines.max(1), width);
    if t.is_empty() {
        gen_atom(r).to_string()
    } else {
        t
    }
}

/// a char boundary of the text in 0..=len
pub fn gen_boundary(r: &mut Rng, text: &str) -> usize {
    let mut o = match r.weighted(&[1, 1, 8]) {
        0 => 0,
        1 => text.len(),
        _ => r.below(text.len() + 1),
    };
    while !text.is_char_boundary(o) {
        o -= 1;
    }
    o
}

/// an escaped rendition for messages, bounded
pub fn show(s: &str) -> String {
    let q = format!("{:?}", s);
    if q.len() <= 400 {
        q
    } else {
        let cut = |mut n: usize| {
            while !q.is_char_boundary(n) {
                n -= 1;
            }
            n
        };
        format!(
            "{}...[{} bytes]...{}",
            &q[..cut(200)],
            s.len(),
            &q[cut(q.len() - 100)..]
        )
    }
}

/// a text a shortcut of a comparison could take for the given one: same length, same lines, same
/// letters, same words...
pub fn resemble(r: &mut Rng, text: &str) -> String {
    let mut t = text.to_string();
    let mut lines: Vec<String> = text.split('\n').map(str::to_string).collect();
    let n = lines.len();
    for _ in 0..r.range(1, 2) {
        match r.below(9) {
            // line ends
            0 | 1 => {
                let (has, not): (Vec<usize>, Vec<usize>) = (0..n.max(2) - 1).partition(|&i| lines[i].ends_with('\r'));
                if !has.is_empty() && r.chance(3, 4) {
                    lines[has[r.below(has.len())]].pop();
                }
                if !not.is_empty() && (has.is_empty() || r.chance(3, 4)) {
                    lines[not[r.below(not.len())]].push('\r');
                }
                return lines.join("\n");
            }
            // order of the lines
            2 if n > 1 => {
                let (i, j) = (r.below(n), r.below(n));
                lines.swap(i, j);
                t = lines.join("\n");
            }
            // the same line again, or not again
            3 if n > 1 => {
                let i = r.below(n);
                if r.chance(1, 2) && i > 0 && lines[i] == lines[i - 1] {
                    lines.remove(i);
                } else {
                    let l = lines[i].clone();
                    lines.insert(i, l);
                }
                return lines.join("\n");
            }
            // order of the characters
            4 => {
                let mut cs: Vec<char> = t.chars().collect();
                if cs.len() > 1 {
                    let i = r.below(cs.len() - 1);
                    let j = if r.chance(1, 2) { i + 1 } else { r.below(cs.len()) };
                    cs.swap(i, j);
                }
                return cs.into_iter().collect();
            }
            // blanks
            5 => {
                let at = gen_boundary(r, &t);
                t.insert_str(at, *r.pick(&[" ", "\t", "\n", " \n", "\u{a0}"]));
                return t;
            }
            6 => {
                let from = *r.pick(&[" ", "\t", "\n\n", "  ", "\r"]);
                let to = *r.pick(&[" ", "\t", "", "\n"]);
                return t.replacen(from, to, r.range(1, 2));
            }
            // case, or another character of the same length
            _ => {
                let cs: Vec<char> = t.chars().collect();
                if cs.is_empty() {
                    return t;
                }
                let i = r.below(cs.len());
                let c = cs[i];
                let other = if c.is_lowercase() && r.chance(1, 2) {
                    c.to_uppercase().next().unwrap_or(c)
                } else if c == '\n' {
                    c
                } else {
                    match c.len_utf8() {
                        1 => *r.pick(&['a', 'x', ' ', '0']),
                        2 => *r.pick(&['é', 'ж', '\u{301}']),
                        3 => *r.pick(&['日', '€', '\u{feff}']),
                        _ => *r.pick(&['🦊', '🐶']),
                    }
                };
                return cs.iter().enumerate().map(|(k, &c)| if k == i { other } else { c }).collect();
            }
        }
    }
    t
}
