use crate::choices::Choices;
use crate::refs::rx::Rx;

/// Which characters a generated regex may use.
#[derive(Clone, Copy, PartialEq)]
pub enum Alpha {
    /// few letters: dense interaction between tokens
    Small,
    /// ASCII with metacharacters
    Ascii,
    /// non-ASCII as well
    Uni,
}

const SMALL: &[char] = &['a', 'b', 'c'];
const ASCII: &[char] = &[
    'a', 'b', 'c', 'z', 'A', 'Z', '0', '1', '9', '_', ' ', '\n', '+', '*', '.', '(', ')', '[', ']', '{', '}', '^',
    '$', '|', '?', '\\', '"', '\'', '-', '&', '#', '~', '/', '\t',
];
const UNI: &[char] = &[
    'a', 'b', 'é', 'λ', 'ω', 'Z', '中', '文', '😀', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}',
    '\u{10ffff}', '\u{0}', '\u{2028}', '\u{d7fe}', '\u{e000}',
];

pub fn chr(c: &mut Choices, al: Alpha) -> char {
    *match al {
        Alpha::Small => c.pick(SMALL),
        Alpha::Ascii => c.pick(ASCII),
        Alpha::Uni => c.pick(UNI),
    }
}

pub fn ranges(c: &mut Choices, al: Alpha) -> Vec<(char, char)> {
    if c.chance(1, 30) {
        return many_ranges(c, al);
    }
    let n = c.range(1, 3);
    (0..n)
        .map(|_| {
            let a = chr(c, al);
            if c.chance(1, 2) {
                let b = chr(c, al);
                if a <= b {
                    (a, b)
                } else {
                    (b, a)
                }
            } else {
                (a, a)
            }
        })
        .collect()
}

/// A class of 8 to 40 separate ranges.
pub fn many_ranges(c: &mut Choices, al: Alpha) -> Vec<(char, char)> {
    let n = c.range(8, 40);
    let wide = al == Alpha::Uni;
    let mut v = vec![];
    let mut at = *c.pick(&[0x21u32, 0x2c, 0x30, 0x41]);
    let max_gap = if wide { 300 } else { 4 };
    while v.len() < n {
        at += 1 + c.below(max_gap) as u32;
        let end = at + c.weighted(&[6, 2, 1, 1]) as u32;
        if !wide && end > 0x7d {
            break;
        }
        // characters with a meaning in a class are left out
        let plain = |x: u32| char::from_u32(x).filter(|x| !"\"\\]^-[&~".contains(*x));
        if let (Some(a), Some(b)) = (plain(at), plain(end)) {
            v.push((a, b));
        }
        at = end + 1;
    }
    if v.is_empty() {
        v.push(('k', 'k'));
    }
    // the order in which they are written does not matter
    if c.chance(1, 3) {
        v.reverse();
    }
    v
}

pub struct RxOpts {
    pub alpha: Alpha,
    pub unsupported: bool,
    pub depth: usize,
    pub empties: bool,
}

pub fn regex(c: &mut Choices, o: &RxOpts, depth: usize) -> Rx {
    if depth == 0 {
        return leaf(c, o);
    }
    match c.weighted(&[6, 7, 5, 7, 2, if o.unsupported { 1 } else { 0 }]) {
        0 => leaf(c, o),
        1 => {
            let n = c.range(2, 4);
            Rx::Cat((0..n).map(|_| regex(c, o, depth - 1)).collect())
        }
        2 => {
            let n = c.range(2, 3);
            let mut v: Vec<Rx> = (0..n).map(|_| regex(c, o, depth - 1)).collect();
            if o.empties && c.chance(1, 6) {
                let i = c.below(v.len());
                v[i] = Rx::Empty;
            }
            Rx::Alt(v)
        }
        3 => {
            let k = *c.pick(&['*', '+', '?']);
            let lazy = c.chance(1, 12);
            Rx::Rep(Box::new(regex(c, o, depth - 1)), k, lazy)
        }
        4 => {
            let style = c.below(3) as u8;
            Rx::Grp(Box::new(regex(c, o, depth - 1)), style)
        }
        _ => {
            if c.chance(2, 3) {
                let m = c.range(0, 3) as u8;
                let n = m + c.range(0, 2) as u8;
                Rx::Count(Box::new(regex(c, o, depth - 1)), m, n)
            } else {
                Rx::Anchor(*c.pick(&['^', '$']))
            }
        }
    }
}

fn leaf(c: &mut Choices, o: &RxOpts) -> Rx {
    match c.weighted(&[48, 24, 12, 6, if o.empties { 6 } else { 0 }, 6, if o.alpha == Alpha::Small { 0 } else { 1 }]) {
        0 => Rx::Ch(chr(c, o.alpha)),
        1 => Rx::Set(false, ranges(c, o.alpha)),
        2 => Rx::Set(true, ranges(c, o.alpha)),
        3 => Rx::Dot,
        4 => Rx::Empty,
        6 => Rx::Perl(['d', 'D', 's', 'S', 'w', 'W'][c.weighted(&[6, 6, 6, 6, 1, 1])]),
        _ => {
            let a = *c.pick(&['a', 'b', '0', ' ']);
            let b = *c.pick(&['a', 'c', '9', '~']);
            Rx::ByteSet(vec![if a <= b { (a, b) } else { (b, a) }])
        }
    }
}

fn class_member(c: &mut Choices, rs: &[(char, char)]) -> char {
    let &(a, b) = c.pick(rs);
    match c.below(4) {
        0 | 1 => a,
        2 => b,
        _ => {
            let v = a as u32 + c.below((b as u32 - a as u32 + 1) as usize) as u32;
            char::from_u32(v).unwrap_or(a)
        }
    }
}

/// A string of the language (approximately: anchors are ignored).
pub fn sample(c: &mut Choices, rx: &Rx, out: &mut Vec<char>) {
    if out.len() > 60 {
        return;
    }
    match rx {
        Rx::Empty | Rx::Anchor(_) => {}
        Rx::Ch(x) => out.push(*x),
        Rx::Set(false, rs) | Rx::ByteSet(rs) => out.push(class_member(c, rs)),
        Rx::Set(true, rs) => {
            let cands = ['x', 'a', 'é', '0', ' ', '中', 'b', 'q'];
            let k = c.below(cands.len());
            for i in 0..cands.len() {
                let x = cands[(i + k) % cands.len()];
                if !rs.iter().any(|&(a, b)| a <= x && x <= b) {
                    out.push(x);
                    return;
                }
            }
        }
        Rx::Perl(k) => {
            let rs = crate::refs::rx::perl(*k);
            let n = c.weighted(&[3, 3, 2]);
            let r = match n {
                0 => &rs[..1],
                1 => &rs[..rs.len().min(6)],
                _ => rs,
            };
            let x = class_member(c, r);
            out.push(x)
        }
        Rx::Dot => out.push(*c.pick(&['x', 'a', '0', ' ', 'b'])),
        Rx::Cat(xs) => xs.iter().for_each(|x| sample(c, x, out)),
        Rx::Alt(xs) => {
            let i = c.below(xs.len());
            sample(c, &xs[i], out)
        }
        Rx::Rep(x, k, _) => {
            let n = match k {
                '?' => c.below(2),
                '*' => c.below(4),
                _ => c.range(1, 3),
            };
            for _ in 0..n {
                sample(c, x, out)
            }
        }
        Rx::Grp(x, _) => sample(c, x, out),
        Rx::Count(x, m, n) => {
            let k = c.range(*m as usize, *n as usize);
            for _ in 0..k {
                sample(c, x, out)
            }
        }
    }
}

/// Strings to try against a regex: members, mutated members, prefixes, random ones.
pub fn strings(c: &mut Choices, rx: &Rx, n: usize) -> Vec<String> {
    let mut al = vec![];
    rx.alphabet(&mut al);
    al.push('a');
    al.push('é');
    let mut v = vec![];
    for i in 0..n {
        let mut s = vec![];
        if i == 0 {
            v.push(String::new());
            continue;
        }
        match c.weighted(&[4, 3, 2, 3, 1]) {
            0 => sample(c, rx, &mut s),
            1 => {
                sample(c, rx, &mut s);
                mutate(c, &mut s, &al);
            }
            2 => {
                sample(c, rx, &mut s);
                let k = c.below(s.len() + 1);
                s.truncate(k);
            }
            3 => {
                let k = c.below(6);
                for _ in 0..k {
                    s.push(*c.pick(&al));
                }
            }
            _ => {
                sample(c, rx, &mut s);
                sample(c, rx, &mut s);
            }
        }
        s.truncate(60);
        v.push(s.into_iter().collect());
    }
    v
}

pub fn mutate(c: &mut Choices, s: &mut Vec<char>, al: &[char]) {
    let x = *c.pick(al);
    if s.is_empty() {
        s.push(x);
        return;
    }
    let i = c.below(s.len());
    match c.below(4) {
        0 => {
            s.remove(i);
        }
        1 => s[i] = x,
        2 => s.insert(i, x),
        _ => {
            let j = c.below(s.len());
            s.swap(i, j)
        }
    }
}
