//! Grammar texts: layouts of well-formed ones, edits that may break them, random content.
use crate::choices::Choices;
use crate::gen::grammar::{GSpec, Piece};
use crate::gen::regex::{regex, Alpha, RxOpts};
use crate::refs::rx::Rx;

const WS: &[&str] = &[" ", "\n", "  ", "\t", "\r\n", "\n\n    ", "\u{a0}", "\u{2003}", "\u{b}", "\u{2028}", "\u{3000}", "\u{85}"];

/// Lay the pieces out with arbitrary white space, keeping the meaning: a code fragment runs to the
/// last ')' on its line, so nothing containing ')' may follow it before a line break.
pub fn layout(c: &mut Choices, pieces: &[Piece]) -> String {
    let style = c.below(4); // 0: single spaces, 1: minimal, 2: mixed, 3: exotic
    let mut s = String::new();
    let mut pending = false;
    let mut prev_word = false;
    for (i, p) in pieces.iter().enumerate() {
        let t = p.text();
        let word = match p {
            Piece::Word(_) => true,
            Piece::P(x) => x.chars().all(|c| c.is_ascii_alphabetic()),
            _ => false,
        };
        let mut sep = match style {
            0 => " ".to_string(),
            1 => String::new(),
            2 => c.pick(&["", " ", "\n", "  "]).to_string(),
            _ => {
                let n = c.below(3);
                (0..n).map(|_| *c.pick(WS)).collect()
            }
        };
        if i == 0 && style == 0 {
            sep.clear();
        }
        let head = t.split('\n').next().unwrap();
        if pending && head.contains(')') && !sep.contains('\n') {
            sep.push('\n');
        }
        if prev_word && word && sep.is_empty() {
            sep.push(' ');
        }
        if sep.contains('\n') {
            pending = false;
        }
        s.push_str(&sep);
        s.push_str(&t);
        match p {
            Piece::Code(_) => pending = true,
            _ if t.contains('\n') => pending = false,
            _ => {}
        }
        prev_word = word;
    }
    if c.chance(1, 2) {
        s.push_str(c.pick(WS));
    }
    s
}

const CODE_BITS: &[&str] = &[
    "x", " ", "(", ")", "[", "]", "{", "}", "\"", "'", "`", "=>", "=", ",", ":", "\\", "export", "start", "r", "\"a\"",
    "...y", "é", "中", "\t", "\r", "<", ">", "|", "42", ";", "//", "${x}", "\u{2028}", "))", "((", "\u{85}",
];

/// content of a code fragment: anything without a line break
pub fn code(c: &mut Choices) -> String {
    match c.below(4) {
        0 => String::new(),
        1 => "{ kind: \"k\", v: x }".into(),
        _ => {
            let n = c.below(8);
            (0..n).map(|_| *c.pick(CODE_BITS)).collect()
        }
    }
}

const STR_BITS: &[&str] = &[
    "a", "b", " ", "\\\"", "\\\\", "(", ")", "=>", "[", "]", ",", "\n", "é", "中", "r", "export", "<", ">", "'", "`", "0",
    ":", "\t", "=", "😀",
];

/// raw text between the quotes of a literal
pub fn string(c: &mut Choices) -> String {
    let n = c.below(6);
    (0..n).map(|_| *c.pick(STR_BITS)).collect()
}

const NAMES: &[&str] = &[
    "S", "A", "Expr", "exported", "starts", "rr", "R", "_", "__a", "a1", "Start", "EXPORT", "r1", "export_", "_r", "Z9_", "x",
];

pub fn name(c: &mut Choices) -> String {
    c.pick(NAMES).to_string()
}

const ODD: &[&str] = &[
    ",", ":", "<", ">", "=", "=>", "[", "]", "export", "start", "r", "\"", "\"a\"", "(", ")", "(x)", "A", "_", "\\", "\n", ";",
    "'", "0", "=>>", "==", "()", "<A:", "-", "é", "\"\\n\"", "//c", "r\"x\"", "rr", "\u{feff}",
];

/// An edit of a piece list that usually breaks it.
pub fn edit(c: &mut Choices, v: &mut Vec<String>) {
    if v.is_empty() {
        v.push(c.pick(ODD).to_string());
        return;
    }
    let i = c.below(v.len());
    match c.below(7) {
        0 => {
            v.remove(i);
        }
        1 => {
            let x = v[i].clone();
            v.insert(i, x);
        }
        2 => v.insert(i, c.pick(ODD).to_string()),
        3 => v[i] = c.pick(ODD).to_string(),
        4 => {
            let j = c.below(v.len());
            v.swap(i, j)
        }
        5 => {
            let n = c.range(1, 4).min(v.len() - i);
            v.drain(i..i + n);
        }
        _ => {
            // an edit inside a piece
            let mut cs: Vec<char> = v[i].chars().collect();
            if !cs.is_empty() {
                let k = c.below(cs.len());
                match c.below(3) {
                    0 => {
                        cs.remove(k);
                    }
                    1 => cs.insert(k, *c.pick(&['"', '\\', '(', ')', 'x', ' ', '=', '\n', '>', '0'])),
                    _ => cs[k] = *c.pick(&['"', '\\', '(', ')', 'x', ' ', '=', '\n', '>', '0']),
                }
            }
            v[i] = cs.into_iter().collect();
        }
    }
}

/// a regex that may begin or end with white space or other easily lost characters
fn odd_regex(c: &mut Choices) -> Rx {
    let o = RxOpts { alpha: Alpha::Ascii, unsupported: false, depth: 2, empties: true };
    let edge = |c: &mut Choices| *c.pick(&[' ', '\n', '\t', 'a', 'é', '\\', '\'']);
    let mut v = vec![];
    if c.chance(1, 2) {
        v.push(Rx::Ch(edge(c)));
    }
    let x = regex(c, &o, 2);
    v.push(if x.writable() { x } else { Rx::Dot });
    if c.chance(1, 2) {
        v.push(Rx::Ch(edge(c)));
    }
    Rx::Cat(v)
}

/// Replace names, codes, types and literal texts of a grammar by arbitrary ones.
pub fn scramble(c: &mut Choices, s: &mut GSpec) {
    use crate::gen::grammar::GSym;
    for r in s.rules.iter_mut() {
        if c.chance(1, 4) {
            r.name = name(c);
        }
        r.ty = code(c);
        if c.chance(1, 15) {
            r.start = !r.start;
        }
        if c.chance(1, 15) {
            r.bodies.clear();
            // a trailing comma needs something to trail
            r.trailing = false;
        }
        for b in r.bodies.iter_mut() {
            b.code = code(c);
            for (l, x) in b.syms.iter_mut() {
                if c.chance(1, 5) {
                    *l = if c.chance(1, 2) { Some(name(c)) } else { None };
                }
                if c.chance(1, 6) {
                    *x = match c.below(3) {
                        0 => GSym::L(string(c)),
                        1 => GSym::N(name(c)),
                        _ if c.chance(3, 4) => GSym::R(odd_regex(c)),
                        _ => GSym::L(String::new()),
                    };
                }
            }
        }
    }
}
