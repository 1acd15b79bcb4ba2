//! Reference regexes: syntax tree, rendering, and an obviously correct matcher
//! (sets of end positions, computed structurally).
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Rx {
    Empty,
    Ch(char),
    /// character class: negated?, ranges
    Set(bool, Vec<(char, char)>),
    /// an ASCII class compiled by regex-syntax to a byte class
    ByteSet(Vec<(char, char)>),
    Dot,
    /// class escape: d, D, w, W, s or S
    Perl(char),
    Cat(Vec<Rx>),
    Alt(Vec<Rx>),
    /// '?', '*' or '+'; lazy?
    Rep(Box<Rx>, char, bool),
    /// explicit group: 0 capturing, 1 non-capturing, 2 named
    Grp(Box<Rx>, u8),
    /// counted repetition: not supported by the code, it has to refuse it (or get it right)
    Count(Box<Rx>, u8, u8),
    /// anchor: '^' or '$': same
    Anchor(char),
}

/// How characters may be written.
#[derive(Clone, Copy, PartialEq)]
pub enum Esc {
    /// backslash escapes available
    Full,
    /// text inside a quoted string of the grammar language: only `\\` may follow a backslash
    Grammar,
}

/// The characters of a class escape, as Unicode (by way of regex-syntax) has them.
pub fn perl(k: char) -> &'static [(char, char)] {
    use std::sync::OnceLock;
    static T: OnceLock<Vec<Vec<(char, char)>>> = OnceLock::new();
    const KINDS: &str = "dDwWsS";
    let t = T.get_or_init(|| {
        KINDS
            .chars()
            .map(|k| match regex_syntax::Parser::new().parse(&format!("\\{}", k)).unwrap().into_kind() {
                regex_syntax::hir::HirKind::Class(regex_syntax::hir::Class::Unicode(u)) => {
                    u.ranges().iter().map(|r| (r.start(), r.end())).collect()
                }
                x => panic!("class escape {}: {:?}", k, x),
            })
            .collect()
    });
    &t[KINDS.find(k).unwrap()]
}

fn in_ranges(rs: &[(char, char)], c: char) -> bool {
    rs.iter().any(|&(a, b)| a <= c && c <= b)
}

const META: &str = "\\.+*?()|[]{}^$#&-~/";

impl Rx {
    pub fn lit(s: &str) -> Rx {
        Rx::Cat(s.chars().map(Rx::Ch).collect())
    }

    pub fn render(&self, esc: Esc) -> String {
        let mut s = String::new();
        self.go(&mut s, 0, esc);
        s
    }

    fn ch(c: char, out: &mut String, esc: Esc) {
        match esc {
            Esc::Full => {
                if c == '\n' {
                    out.push_str("\\n");
                } else {
                    if META.contains(c) && c != '/' {
                        out.push('\\');
                    }
                    out.push(c);
                }
            }
            Esc::Grammar => {
                assert!(c != '"' && c != '^', "not writable in a grammar: {:?}", c);
                if c == '\\' {
                    out.push_str("\\\\");
                } else if META.contains(c) {
                    out.push('[');
                    out.push(c);
                    out.push(']');
                } else {
                    out.push(c);
                }
            }
        }
    }

    fn set_ch(c: char, out: &mut String, esc: Esc) {
        match esc {
            Esc::Full => {
                if "\\]^-[&~".contains(c) {
                    out.push('\\');
                }
                if c == '\n' {
                    out.push_str("\\n");
                } else {
                    out.push(c);
                }
            }
            Esc::Grammar => {
                assert!(!"\"]^-[&~".contains(c), "not writable in a grammar class: {:?}", c);
                if c == '\\' {
                    out.push_str("\\\\");
                } else {
                    out.push(c);
                }
            }
        }
    }

    fn ranges(neg: bool, rs: &[(char, char)], out: &mut String, esc: Esc) {
        out.push('[');
        if neg {
            out.push('^');
        }
        for &(a, b) in rs {
            Self::set_ch(a, out, esc);
            if b > a {
                if b as u32 > a as u32 + 1 {
                    out.push('-');
                }
                Self::set_ch(b, out, esc);
            }
        }
        out.push(']');
    }

    /// prec: 0 alternation allowed, 1 concatenation allowed, 2 atom required
    fn go(&self, out: &mut String, prec: u8, esc: Esc) {
        let wrap = |out: &mut String, f: &dyn Fn(&mut String)| {
            out.push_str("(?:");
            f(out);
            out.push(')');
        };
        match self {
            Rx::Empty => {
                if prec == 2 {
                    out.push_str("(?:)")
                }
            }
            Rx::Ch(c) => Self::ch(*c, out, esc),
            Rx::Set(neg, rs) => Self::ranges(*neg, rs, out, esc),
            Rx::ByteSet(rs) => {
                out.push_str("(?-u:");
                Self::ranges(false, rs, out, esc);
                out.push(')');
            }
            Rx::Dot => out.push('.'),
            Rx::Perl(k) => {
                out.push('\\');
                out.push(*k);
            }
            Rx::Cat(xs) => {
                if prec == 2 && xs.len() != 1 {
                    wrap(out, &|o| {
                        for x in xs {
                            x.go(o, 1, esc)
                        }
                    })
                } else {
                    for x in xs {
                        x.go(out, if xs.len() == 1 { prec } else { 1 }, esc)
                    }
                }
            }
            Rx::Alt(xs) => {
                let body = |o: &mut String| {
                    for (i, x) in xs.iter().enumerate() {
                        if i > 0 {
                            o.push('|');
                        }
                        x.go(o, 1, esc);
                    }
                };
                if prec == 0 {
                    body(out)
                } else {
                    wrap(out, &body)
                }
            }
            Rx::Rep(x, k, lazy) => {
                let body = |o: &mut String| {
                    x.go(o, 2, esc);
                    o.push(*k);
                    if *lazy {
                        o.push('?');
                    }
                };
                // a repetition of a repetition needs a group
                if prec == 2 {
                    wrap(out, &body)
                } else {
                    body(out)
                }
            }
            Rx::Grp(x, style) => {
                out.push_str(match style {
                    0 => "(",
                    1 => "(?:",
                    // names must be unique in a regex: derived from the output position
                    _ => "",
                });
                if *style == 2 {
                    let n = out.len();
                    out.push_str(&format!("(?P<g{}>", n));
                }
                x.go(out, 0, esc);
                out.push(')');
            }
            Rx::Count(x, m, n) => {
                let body = |o: &mut String| {
                    x.go(o, 2, esc);
                    o.push_str(&format!("{{{},{}}}", m, n));
                };
                if prec == 2 {
                    wrap(out, &body)
                } else {
                    body(out)
                }
            }
            Rx::Anchor(c) => {
                if prec == 2 {
                    out.push_str("(?:");
                    out.push(*c);
                    out.push(')');
                } else {
                    out.push(*c)
                }
            }
        }
    }

    /// uses a construct the code documents (by todo!()) as unsupported
    pub fn unsupported(&self) -> bool {
        match self {
            Rx::Count(..) | Rx::Anchor(_) => true,
            Rx::Cat(xs) | Rx::Alt(xs) => xs.iter().any(Rx::unsupported),
            Rx::Rep(x, _, _) | Rx::Grp(x, _) => x.unsupported(),
            _ => false,
        }
    }

    /// positions reachable from the positions `from` (bit i = position i), len(s) <= 127
    pub fn ends(&self, s: &[char], from: u128) -> u128 {
        if from == 0 {
            return 0;
        }
        let one = |pred: &dyn Fn(char) -> bool| {
            let mut m = 0u128;
            for (i, c) in s.iter().enumerate() {
                if from >> i & 1 == 1 && pred(*c) {
                    m |= 1 << (i + 1);
                }
            }
            m
        };
        match self {
            Rx::Empty => from,
            Rx::Ch(c) => one(&|x| x == *c),
            Rx::Set(neg, rs) => one(&|x| rs.iter().any(|&(a, b)| a <= x && x <= b) != *neg),
            Rx::ByteSet(rs) => one(&|x| rs.iter().any(|&(a, b)| a <= x && x <= b)),
            Rx::Dot => one(&|x| x != '\n'),
            Rx::Perl(k) => one(&|x| in_ranges(perl(*k), x)),
            Rx::Cat(xs) => xs.iter().fold(from, |f, x| x.ends(s, f)),
            Rx::Alt(xs) => xs.iter().fold(0, |f, x| f | x.ends(s, from)),
            Rx::Rep(x, k, _) => match k {
                '?' => from | x.ends(s, from),
                _ => {
                    let mut acc = if *k == '*' { from } else { x.ends(s, from) };
                    loop {
                        let n = acc | x.ends(s, acc);
                        if n == acc {
                            break acc;
                        }
                        acc = n;
                    }
                }
            },
            Rx::Grp(x, _) => x.ends(s, from),
            Rx::Count(x, m, n) => {
                let mut f = from;
                for _ in 0..*m {
                    f = x.ends(s, f);
                }
                let mut acc = f;
                for _ in *m..*n {
                    f = x.ends(s, f);
                    acc |= f;
                }
                acc
            }
            Rx::Anchor('^') => from & 1,
            Rx::Anchor(_) => from & (1 << s.len()),
        }
    }

    pub fn matches(&self, s: &[char]) -> bool {
        assert!(s.len() <= 126);
        self.ends(s, 1) >> s.len() & 1 == 1
    }

    fn empty_ok(&self) -> bool {
        match self {
            Rx::Empty => true,
            Rx::Ch(_) | Rx::Set(..) | Rx::ByteSet(_) | Rx::Dot | Rx::Perl(_) => false,
            Rx::Cat(xs) => xs.iter().all(Rx::empty_ok),
            Rx::Alt(xs) => xs.iter().any(Rx::empty_ok),
            Rx::Rep(x, k, _) => *k != '+' || x.empty_ok(),
            Rx::Grp(x, _) => x.empty_ok(),
            Rx::Count(..) | Rx::Anchor(_) => unreachable!("not a lexer regex"),
        }
    }

    /// what is left to match after `c`, followed by `rest` (partial derivatives)
    fn after(&self, c: char, rest: &[Rx], out: &mut Vec<Vec<Rx>>) {
        let hit = match self {
            Rx::Empty => false,
            Rx::Ch(d) => c == *d,
            Rx::Set(neg, rs) => rs.iter().any(|&(a, b)| a <= c && c <= b) != *neg,
            Rx::ByteSet(rs) => rs.iter().any(|&(a, b)| a <= c && c <= b),
            Rx::Dot => c != '\n',
            Rx::Perl(k) => in_ranges(perl(*k), c),
            Rx::Cat(xs) => {
                for (i, x) in xs.iter().enumerate() {
                    let mut r: Vec<Rx> = xs[i + 1..].to_vec();
                    r.extend_from_slice(rest);
                    x.after(c, &r, out);
                    if !x.empty_ok() {
                        break;
                    }
                }
                return;
            }
            Rx::Alt(xs) => return xs.iter().for_each(|x| x.after(c, rest, out)),
            Rx::Grp(x, _) => return x.after(c, rest, out),
            Rx::Rep(x, '?', _) => return x.after(c, rest, out),
            Rx::Rep(x, _, l) => {
                let mut r = vec![Rx::Rep(x.clone(), '*', *l)];
                r.extend_from_slice(rest);
                return x.after(c, &r, out);
            }
            Rx::Count(..) | Rx::Anchor(_) => unreachable!("not a lexer regex"),
        };
        if hit {
            out.push(rest.to_vec());
        }
    }

    /// `longest` without a limit on the length
    fn longest_far(&self, s: &[char]) -> Option<usize> {
        let ok = |v: &Vec<Vec<Rx>>| v.iter().any(|p| p.iter().all(Rx::empty_ok));
        let mut now = vec![vec![self.clone()]];
        let mut best = if ok(&now) { Some(0) } else { None };
        for (i, c) in s.iter().enumerate() {
            let mut next = vec![];
            for p in &now {
                for (k, x) in p.iter().enumerate() {
                    x.after(*c, &p[k + 1..], &mut next);
                    if !x.empty_ok() {
                        break;
                    }
                }
            }
            let mut now2: Vec<Vec<Rx>> = vec![];
            for p in next {
                if !now2.contains(&p) {
                    now2.push(p);
                }
            }
            now = now2;
            if now.is_empty() {
                break;
            }
            if ok(&now) {
                best = Some(i + 1);
            }
        }
        best
    }

    /// length of the longest match starting at the beginning of s (0 counts)
    pub fn longest(&self, s: &[char]) -> Option<usize> {
        if s.len() > 126 {
            return self.longest_far(s);
        }
        let e = self.ends(s, 1);
        if e == 0 {
            None
        } else {
            Some(127 - e.leading_zeros() as usize)
        }
    }

    /// characters worth trying: boundaries of every range, and one step outside
    pub fn alphabet(&self, out: &mut Vec<char>) {
        let mut push = |c: u32| {
            if let Some(c) = char::from_u32(c) {
                out.push(c)
            }
        };
        match self {
            Rx::Ch(c) => push(*c as u32),
            Rx::Set(_, rs) | Rx::ByteSet(rs) => {
                for &(a, b) in rs {
                    push(a as u32);
                    push(b as u32);
                    push((a as u32).saturating_sub(1));
                    push(b as u32 + 1);
                    push((a as u32 + b as u32) / 2);
                }
            }
            Rx::Perl(k) => {
                for &(a, b) in perl(*k).iter().take(8) {
                    push(a as u32);
                    push(b as u32);
                    push((a as u32).saturating_sub(1));
                    push(b as u32 + 1);
                }
                push(0x660);
                push(0x2028);
                push('中' as u32);
            }
            Rx::Dot => {
                push('x' as u32);
                push('\n' as u32);
            }
            Rx::Cat(xs) | Rx::Alt(xs) => xs.iter().for_each(|x| x.alphabet(out)),
            Rx::Rep(x, _, _) | Rx::Grp(x, _) | Rx::Count(x, _, _) => x.alphabet(out),
            _ => {}
        }
    }

    /// can the text be written between the quotes of a grammar?
    pub fn writable(&self) -> bool {
        let ok = |c: char| c != '"' && c != '^' && c != '[';
        let set = |rs: &[(char, char)]| rs.iter().all(|&(a, b)| !"\"]^-[&~".contains(a) && !"\"]^-[&~".contains(b));
        match self {
            Rx::Ch(c) => ok(*c),
            Rx::Set(_, rs) => set(rs),
            Rx::ByteSet(_) | Rx::Count(..) | Rx::Anchor(_) | Rx::Perl(_) => false,
            Rx::Cat(xs) | Rx::Alt(xs) => xs.iter().all(Rx::writable),
            Rx::Rep(x, _, _) => x.writable(),
            Rx::Grp(x, _) => x.writable(),
            _ => true,
        }
    }

    pub fn nullable(&self) -> bool {
        self.matches(&[])
    }

    pub fn size(&self) -> usize {
        1 + match self {
            Rx::Cat(xs) | Rx::Alt(xs) => xs.iter().map(Rx::size).sum(),
            Rx::Rep(x, _, _) | Rx::Grp(x, _) | Rx::Count(x, _, _) => x.size(),
            _ => 0,
        }
    }
}
