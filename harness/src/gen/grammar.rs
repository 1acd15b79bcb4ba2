//! Generated grammars: templates, mutations and random ones; rendering; reference view.
use crate::choices::Choices;
use crate::gen::regex::sample;
use crate::refs::cfg::{Cfg, Tree, S};
use crate::refs::lexer::RefLex;
use crate::refs::mapping::M;
use crate::refs::reader::{RBody, RRule, RSym};
use crate::refs::rx::{Esc, Rx};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum GSym {
    /// literal: raw text between the quotes
    L(String),
    R(Rx),
    N(String),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct GBody {
    pub syms: Vec<(Option<String>, GSym)>,
    pub code: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub m: Option<M>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct GRule {
    pub export: bool,
    pub start: bool,
    pub name: String,
    pub ty: String,
    pub bodies: Vec<GBody>,
    pub trailing: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct GSpec {
    pub rules: Vec<GRule>,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Term {
    Eof,
    L(String),
    R(Rx),
}

impl Term {
    pub fn text(&self) -> String {
        match self {
            Term::Eof => "<end>".into(),
            Term::L(s) => s.clone(),
            Term::R(r) => r.render(Esc::Grammar),
        }
    }
    pub fn rx(&self) -> Rx {
        match self {
            Term::Eof => unreachable!(),
            Term::L(s) => Rx::lit(s),
            Term::R(r) => r.clone(),
        }
    }
}

/// Reference view of a grammar.
pub struct Built {
    pub cfg: Cfg,
    pub nts: Vec<String>,
    pub terms: Vec<Term>,
}

impl GSym {
    fn write(&self) -> String {
        match self {
            GSym::L(s) => format!("\"{}\"", s),
            GSym::R(r) => format!("r\"{}\"", r.render(Esc::Grammar)),
            GSym::N(n) => n.clone(),
        }
    }
    pub fn rsym(&self) -> RSym {
        match self {
            GSym::L(s) => RSym::Lit(s.clone()),
            GSym::R(r) => RSym::Re(r.render(Esc::Grammar)),
            GSym::N(n) => RSym::Nt(n.clone()),
        }
    }
}

/// a piece of grammar text
#[derive(Clone, Debug, PartialEq)]
pub enum Piece {
    P(&'static str),
    Word(String),
    Str(String),
    Code(String),
}

impl Piece {
    pub fn text(&self) -> String {
        match self {
            Piece::P(s) => s.to_string(),
            Piece::Word(s) => s.clone(),
            Piece::Str(s) => format!("\"{}\"", s),
            Piece::Code(s) => format!("({})", s),
        }
    }
}

impl GSpec {
    pub fn pieces(&self) -> Vec<Piece> {
        let mut v = vec![];
        for r in &self.rules {
            if r.export || r.start {
                v.push(Piece::P("export"));
            }
            if r.start {
                v.push(Piece::P("start"));
            }
            v.push(Piece::Word(r.name.clone()));
            v.push(Piece::P(":"));
            v.push(Piece::Code(r.ty.clone()));
            v.push(Piece::P("="));
            v.push(Piece::P("["));
            for (i, b) in r.bodies.iter().enumerate() {
                for (label, s) in &b.syms {
                    if let Some(l) = label {
                        v.push(Piece::P("<"));
                        v.push(Piece::Word(l.clone()));
                        v.push(Piece::P(":"));
                    }
                    match s {
                        GSym::L(t) => v.push(Piece::Str(t.clone())),
                        GSym::R(r) => {
                            v.push(Piece::P("r"));
                            v.push(Piece::Str(r.render(Esc::Grammar)));
                        }
                        GSym::N(n) => v.push(Piece::Word(n.clone())),
                    }
                    if label.is_some() {
                        v.push(Piece::P(">"));
                    }
                }
                v.push(Piece::P("=>"));
                v.push(Piece::Code(b.code.clone()));
                if i + 1 < r.bodies.len() || r.trailing {
                    v.push(Piece::P(","));
                }
            }
            v.push(Piece::P("]"));
        }
        v
    }

    pub fn render(&self) -> String {
        let mut s = String::new();
        for r in &self.rules {
            if r.export || r.start {
                s.push_str("export ");
            }
            if r.start {
                s.push_str("start ");
            }
            s.push_str(&format!("{}: ({}) = [\n", r.name, r.ty));
            for (i, b) in r.bodies.iter().enumerate() {
                s.push_str("    ");
                for (label, sym) in &b.syms {
                    match label {
                        Some(l) => s.push_str(&format!("<{}: {}> ", l, sym.write())),
                        None => s.push_str(&format!("{} ", sym.write())),
                    }
                }
                s.push_str(&format!("=> ({})", b.code));
                s.push_str(if i + 1 < r.bodies.len() || r.trailing { ",\n" } else { "\n" });
            }
            s.push_str("]\n\n");
        }
        s
    }

    /// how many LR(1) sets are worth going through: long rules have many cheap ones
    pub fn lr1_limit(&self) -> usize {
        let len: usize = self.rules.iter().flat_map(|r| r.bodies.iter()).map(|b| b.syms.len()).sum();
        crate::props::lalr::MAX_LR1 + len
    }

    pub fn model(&self) -> Vec<RRule> {
        self.rules
            .iter()
            .map(|r| RRule {
                name: r.name.clone(),
                start: r.start,
                ty: r.ty.clone(),
                bodies: r
                    .bodies
                    .iter()
                    .map(|b| RBody {
                        syms: b.syms.iter().map(|(l, s)| (l.clone(), s.rsym())).collect(),
                        code: b.code.clone(),
                    })
                    .collect(),
            })
            .collect()
    }

    pub fn build(&self) -> Built {
        let mut nts: Vec<String> = vec![];
        let mut terms = vec![Term::Eof];
        for r in &self.rules {
            if !nts.contains(&r.name) {
                nts.push(r.name.clone());
            }
        }
        let mut prods = vec![];
        for r in &self.rules {
            let lhs = nts.iter().position(|n| *n == r.name).unwrap();
            for b in &r.bodies {
                let rhs = b
                    .syms
                    .iter()
                    .map(|(_, s)| {
                        let t = match s {
                            GSym::N(n) => return S::N(nts.iter().position(|m| m == n).expect("undefined nonterminal")),
                            GSym::L(t) => Term::L(t.clone()),
                            GSym::R(r) => Term::R(r.clone()),
                        };
                        S::T(match terms.iter().position(|u| *u == t) {
                            Some(i) => i,
                            None => {
                                terms.push(t);
                                terms.len() - 1
                            }
                        })
                    })
                    .collect();
                prods.push((lhs, rhs));
            }
        }
        let start = self.rules.iter().find(|r| r.start).expect("no start rule");
        let start = nts.iter().position(|n| *n == start.name).unwrap();
        Built {
            cfg: Cfg::new(nts.len(), terms.len(), start, prods),
            nts,
            terms,
        }
    }

    /// the alternative of production index p (1-based textual order)
    pub fn body_of(&self, p: usize) -> (&GRule, &GBody) {
        let mut k = 1;
        for r in &self.rules {
            for b in &r.bodies {
                if k == p {
                    return (r, b);
                }
                k += 1;
            }
        }
        panic!("no production {}", p)
    }
}

impl Built {
    /// Reference lexer of the grammar. Literals come before regexes; regexes in the order given
    /// (the order among equal-length regex matches is taken from the code's symbol table).
    /// Returns the lexer and the terminal of each definition.
    pub fn lexer(&self, regex_order: &[String]) -> (RefLex, Vec<usize>) {
        let mut idx: Vec<usize> = (1..self.terms.len()).collect();
        idx.sort_by_key(|&i| match &self.terms[i] {
            Term::R(r) => {
                let t = r.render(Esc::Grammar);
                (1, regex_order.iter().position(|o| *o == t).unwrap_or(usize::MAX))
            }
            _ => (0, 0),
        });
        (
            RefLex {
                defs: idx.iter().map(|&i| self.terms[i].rx()).collect(),
            },
            idx,
        )
    }
}

// ---------------------------------------------------------------- generation

#[derive(Clone, Copy, PartialEq)]
pub enum Terms {
    Letters,
    Words,
    Mixed,
    Weird,
}

#[derive(Clone)]
pub struct GOpts {
    /// only characters and names the TypeScript side can carry
    pub ts: bool,
    /// allowed terminal styles with weights [letters, words, mixed, weird]
    pub styles: [usize; 4],
    /// percentage of templates (the rest are random)
    pub templates: usize,
    /// two rules of one name, unused rules
    pub split: bool,
    /// allow grammars in which some terminals share their text or are called EOF
    pub collisions: bool,
    pub max_nts: usize,
    /// one grammar in so many is wide, long, deep or large (0: none)
    pub shapes: usize,
    /// now and then a grammar with more than 256 symbols
    pub huge: bool,
    /// now and then a grammar with more than 256 parser states
    pub tall: bool,
}

impl Default for GOpts {
    fn default() -> Self {
        GOpts {
            ts: false,
            styles: [5, 3, 4, 2],
            templates: 55,
            split: true,
            collisions: true,
            max_nts: 5,
            shapes: 12,
            huge: false,
            tall: false,
        }
    }
}

const TEMPLATES: &[&str] = &[
    "E: E + T | T; T: T * F | F; F: ( E ) | i",
    "E: T + E | T; T: F * T | F; F: ( E ) | i",
    "S: C C; C: c C | d",
    "L: L i | i",
    "L: i L | i",
    "L: L , i | i",
    "S: ( L ) | x; L: L , S | S",
    "S: ( X ); X: E X | E; E: i | s | S",
    "P: ( ) | ( L ); L: P L | P",
    // LALR(1), not SLR(1)
    "S: L = R | R; L: * R | i; R: L",
    "S: A a | b A c | d c | b d a; A: d",
    // LR(1), not LALR(1)
    "S: a A d | b B d | a B e | b A e; A: c; B: c",
    "S: a E a | b E b | a F b | b F a; E: e; F: e",
    // ambiguous
    "E: E + E | i",
    "S: i S | i S e S | x",
    "E: E + E | E * E | ( E ) | i",
    "S: A | B; A: a; B: a",
    "S: S S | a",
    "S: S | a",
    // common prefixes
    "S: i = E ; | i ( E ) ; | i ;; E: i | n",
    "S: a b c | a b d | a e",
    "S: a | a b | a b c | a b c d",
    "S: i f | i g h | i g j; ",
    // partial merges: LALR states merging some LR(1) states
    "S: a X d | b X e | c X f; X: ( X ) | i",
    "S: a X d | b X e | c X f | g Y d; X: ( X ) | i; Y: [ X ]",
    "S: a A d | b A e | c B d; A: x A | y; B: z A",
    // palindromes (not LR) and marked ones (LR)
    "S: a S a | b S b | a | b",
    "S: a S a | b S b | c",
    "S: a S b | a b",
    // indirect left recursion
    "A: B x | a; B: C y | b; C: A z | c",
    "A: B x | B y; B: A z | b",
    // JSON-like
    "V: O | A | s | n; O: { } | { M }; M: P | P , M; P: s : V; A: [ ] | [ E ]; E: V | V , E",
    // statements
    "P: S ; P | S ;; S: v = E | p E; E: E + T | T; T: v | n",
    "S: w E d S | { L } | v = E; L: S ; | S ; L; E: v | E + v",
    // unit chains
    "A: B; B: C; C: D; D: d | ( A )",
    // nonterminal used in contexts with different followers
    "S: A B A C; A: a | a A; B: b; C: c",
    "S: X Y | Y X; X: x | x y; Y: y",
    // useless symbols
    "S: a | a U; U: u U",
    "S: a b | N b; N: N a",
    // deep right context
    "S: A x y | B x z; A: a; B: b | a a",
    "S: A x | B y; A: a; B: a",
    "S: i | S . i | S ( S ) | S [ S ]",
    "T: T -> | P; P: i | ( T )",
];

pub struct Abs {
    nts: Vec<String>,
    rules: Vec<(usize, Vec<Vec<S>>)>, // S::T(k): abstract terminal k
    terms: usize,
}

fn template(text: &str) -> Abs {
    // terminals may contain ';' only as a token of its own followed by another one: rules are
    // separated by "; " before an upper-case word and a colon
    let mut nts: Vec<String> = vec![];
    let mut raw: Vec<(String, Vec<Vec<String>>)> = vec![];
    let words: Vec<String> = text
        .split_whitespace()
        .flat_map(|w| {
            // "x;" ends a rule; ";;" is the terminal ';' ending a rule
            if w == ";" || w == ":" || !w.ends_with(';') {
                vec![w.to_string()]
            } else {
                let head = &w[..w.len() - 1];
                vec![head.to_string(), "\u{1}".to_string()]
            }
        })
        .collect();
    let mut i = 0;
    while i < words.len() {
        let name = words[i].trim_end_matches(':').to_string();
        i += 1;
        let mut bodies = vec![vec![]];
        while i < words.len() && words[i] != "\u{1}" {
            if words[i] == "|" {
                bodies.push(vec![]);
            } else {
                bodies.last_mut().unwrap().push(words[i].clone());
            }
            i += 1;
        }
        i += 1;
        bodies.retain(|b| !b.is_empty());
        if !bodies.is_empty() {
            nts.push(name.clone());
            raw.push((name, bodies));
        }
    }
    let mut terms: Vec<String> = vec![];
    let rules = raw
        .iter()
        .enumerate()
        .map(|(k, (_, bs))| {
            (
                k,
                bs.iter()
                    .map(|b| {
                        b.iter()
                            .map(|w| match nts.iter().position(|n| n == w) {
                                Some(n) => S::N(n),
                                None => {
                                    assert!(w.len() > 1 || !w.chars().all(|c| c.is_uppercase()), "template {} symbol {}", text, w);
                                    S::T(match terms.iter().position(|t| t == w) {
                                        Some(t) => t,
                                        None => {
                                            terms.push(w.clone());
                                            terms.len() - 1
                                        }
                                    })
                                }
                            })
                            .collect()
                    })
                    .collect(),
            )
        })
        .collect();
    Abs {
        nts,
        rules,
        terms: terms.len(),
    }
}

const NT_NAMES: &[&str] = &["S", "A", "B", "C", "D", "E", "Expr", "List", "Foo_1", "T9", "Item", "Stmt", "X"];

fn random_abs(c: &mut Choices, o: &GOpts) -> Abs {
    let n = c.range(1, o.max_nts);
    let terms = c.range(1, 5);
    let nts: Vec<String> = (0..n).map(|i| NT_NAMES[i].to_string()).collect();
    let rules = (0..n)
        .map(|i| {
            let nb = c.range(1, 3);
            let bodies = (0..nb)
                .map(|b| {
                    let len = c.weighted(&[4, 5, 4, 2]) + 1;
                    let productive = b == 0 && !c.chance(1, 4);
                    (0..len)
                        .map(|_| {
                            if productive || c.chance(1, 2) {
                                S::T(c.below(terms))
                            } else {
                                // forward references keep every rule reachable more often
                                if i + 1 < n && c.chance(1, 2) {
                                    S::N(i + 1)
                                } else {
                                    S::N(c.below(n))
                                }
                            }
                        })
                        .collect()
                })
                .collect();
            (i, bodies)
        })
        .collect();
    Abs { nts, rules, terms }
}

fn mutate_abs(c: &mut Choices, a: &mut Abs) {
    let r = c.below(a.rules.len());
    let sym = |c: &mut Choices, a: &Abs| {
        if c.chance(1, 2) {
            S::N(c.below(a.nts.len()))
        } else {
            S::T(c.below(a.terms))
        }
    };
    let b = c.below(a.rules[r].1.len());
    let len = a.rules[r].1[b].len();
    match c.below(7) {
        0 => {
            let s = sym(c, a);
            let k = c.below(len + 1);
            if len < 5 {
                a.rules[r].1[b].insert(k, s);
            }
        }
        1 => {
            if len > 1 {
                let k = c.below(len);
                a.rules[r].1[b].remove(k);
            }
        }
        2 => {
            let s = sym(c, a);
            let k = c.below(len);
            a.rules[r].1[b][k] = s;
        }
        3 => {
            let s = sym(c, a);
            a.rules[r].1.push(vec![s]);
        }
        4 => {
            // a fresh terminal in front or at the end: often repairs a conflict
            a.terms += 1;
            let t = S::T(a.terms - 1);
            let at = if c.chance(1, 2) { 0 } else { len };
            if len < 5 {
                a.rules[r].1[b].insert(at, t);
            }
        }
        5 => {
            // wrap: copy an alternative with an extra symbol (common prefix)
            let mut body = a.rules[r].1[b].clone();
            let s = sym(c, a);
            if body.len() < 5 {
                body.push(s);
                a.rules[r].1.push(body);
            }
        }
        _ => {
            if a.rules[r].1.len() > 1 {
                a.rules[r].1.remove(b);
            }
        }
    }
}

/// Grammars out of the ordinary size: wide (a rule with many alternatives), long (an alternative
/// of many symbols), deep (a chain of rules), large (many rules), huge (more than 256 terminals).
fn shape_abs(c: &mut Choices, a: &mut Abs, o: &GOpts) {
    let kind = if o.huge && c.chance(1, 12) {
        4
    } else if o.tall && c.chance(1, 12) {
        5
    } else {
        c.below(4)
    };
    let r = c.below(a.rules.len());
    let fresh = |a: &mut Abs| {
        a.terms += 1;
        S::T(a.terms - 1)
    };
    match kind {
        0 => {
            let n = if c.chance(1, 8) { c.range(30, 44) } else { c.range(12, 24) };
            let tails = c.chance(1, 2);
            for i in 0..n {
                let mut body = vec![fresh(a)];
                if tails && i % 3 == 0 {
                    body.push(S::N(c.below(a.nts.len())));
                }
                a.rules[r].1.push(body);
            }
        }
        1 => {
            let n = c.range(8, 36);
            let mut body = vec![fresh(a)];
            let terms = c.chance(1, 2);
            while body.len() < n {
                let s = match c.below(4) {
                    0 => S::N(c.below(a.nts.len())),
                    1 if !terms => S::N(c.below(a.nts.len())),
                    2 if !terms => fresh(a),
                    _ => S::T(c.below(a.terms)),
                };
                body.push(s);
            }
            a.rules[r].1.push(body);
        }
        2 => {
            // K0: K1 | K0 t K1 (or t K0); ... ending in a rule of the grammar or a terminal
            let n = c.range(5, 22);
            let base = a.nts.len();
            let style = c.below(4);
            for i in 0..n {
                a.nts.push(format!("K{}", i));
                let next = if i + 1 < n { S::N(base + i + 1) } else { fresh(a) };
                let mut bodies = vec![vec![next]];
                let here = S::N(base + i);
                match style {
                    0 => {}
                    1 if i % 3 == 0 => bodies.insert(0, vec![here, fresh(a), next]),
                    2 if i % 2 == 0 => bodies.push(vec![fresh(a), here]),
                    3 => bodies.push(vec![fresh(a)]),
                    _ => {}
                }
                a.rules.push((base + i, bodies));
            }
            let t = fresh(a);
            a.rules[r].1.push(if c.chance(1, 2) { vec![t, S::N(base)] } else { vec![S::N(base), t] });
        }
        3 => {
            let n = c.range(18, 60);
            let base = a.nts.len();
            for i in 0..n {
                a.nts.push(format!("R{}", i));
                let t = fresh(a);
                let mut bodies = vec![vec![t]];
                if i + 1 < n {
                    bodies.push(vec![t, S::N(base + i + 1)]);
                }
                if c.chance(1, 6) {
                    bodies.push(vec![S::N(c.below(a.nts.len())), t]);
                }
                a.rules.push((base + i, bodies));
            }
            a.rules[r].1.push(vec![S::N(base)]);
        }
        5 => {
            // a few alternatives of a hundred symbols
            let n = c.range(2, 3);
            let len = 270 / n + c.below(20);
            let own = a.terms;
            for _ in 0..n {
                let mut body = vec![fresh(a)];
                let dense = c.chance(1, 4);
                let data = crate::choices::expand(c.raw(), 3 * len);
                let mut c = Choices::new(&data);
                while body.len() < len {
                    body.push(if dense && c.chance(1, 12) { S::N(c.below(a.nts.len())) } else { S::T(c.below(own)) });
                }
                let k = c.below(a.rules.len());
                a.rules[if dense { k } else { r }].1.push(body);
            }
        }
        _ => {
            let n = c.range(250, 310);
            for i in 0..n {
                let t = fresh(a);
                let k = (r + i) % a.rules.len();
                a.rules[k].1.push(vec![t]);
            }
        }
    }
}

pub fn rx_pool(ts: bool) -> Vec<Rx> {
    let set = |rs: &[(char, char)]| Rx::Set(false, rs.to_vec());
    let neg = |rs: &[(char, char)]| Rx::Set(true, rs.to_vec());
    let rep = |x: Rx, k: char| Rx::Rep(Box::new(x), k, false);
    let mut v = vec![
        rep(set(&[('0', '9')]), '+'),
        Rx::Cat(vec![set(&[('1', '9')]), rep(set(&[('0', '9')]), '*')]),
        rep(set(&[('a', 'z')]), '+'),
        Rx::Cat(vec![set(&[('a', 'z')]), rep(set(&[('a', 'z'), ('0', '9')]), '*')]),
        Rx::Cat(vec![Rx::Ch('\''), rep(neg(&[('\'', '\'')]), '*'), Rx::Ch('\'')]),
        Rx::Cat(vec![
            rep(set(&[('0', '9')]), '+'),
            Rx::Ch('.'),
            rep(set(&[('0', '9')]), '+'),
        ]),
        Rx::Cat(vec![rep(Rx::Ch('a'), '*'), rep(Rx::Ch('b'), '+')]),
        rep(Rx::Grp(Box::new(Rx::lit("ab")), 0), '+'),
        Rx::Alt(vec![Rx::lit("x"), Rx::lit("xy"), Rx::lit("xyz")]),
        rep(set(&[('A', 'Z'), ('_', '_')]), '+'),
        Rx::Cat(vec![rep(Rx::Ch('-'), '?'), rep(set(&[('0', '9')]), '+')]),
        Rx::Cat(vec![Rx::lit("/"), rep(neg(&[('/', '/'), ('\n', '\n')]), '*'), Rx::lit("/")]),
        rep(neg(&[('(', ')'), (' ', ' ')]), '+'),
        Rx::Cat(vec![Rx::lit("a"), Rx::Dot, Rx::lit("c")]),
        Rx::Cat(vec![Rx::Ch('\\'), set(&[('a', 'z')])]),
        rep(Rx::Alt(vec![Rx::lit("ab"), Rx::lit("ba")]), '*'),
        Rx::Cat(vec![set(&[('c', 'd')]), rep(Rx::lit(" c"), '*')]),
        rep(set(&[('0', '9'), ('a', 'f')]), '+'),
    ];
    if !ts {
        v.push(rep(set(&[('α', 'ω')]), '+'));
        v.push(rep(Rx::Ch('中'), '+'));
        v.push(Rx::Cat(vec![Rx::Ch('é'), rep(Rx::Dot, '?')]));
    } else {
        v.push(rep(set(&[('à', 'ÿ')]), '+'));
        v.push(Rx::Cat(vec![rep(set(&[('α', 'ω'), ('a', 'c')]), '+')]));
        v.push(rep(set(&[('b', 'd'), ('中', '中')]), '+'));
    }
    v
}

const LETTERS: &[&str] = &["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p"];
const WORDS: &[&str] = &[
    "let", "in", "int", "=", "==", "=>", "+", "*", "(", ")", "if", "iff", "[", "]", "{", "}", ";", ",", ":", ".", "..",
    "...", "<", "<=", "|", "add", "a", "ab", "abb", "ba", "b", "0", "42", "-", "->", "-->", "?", "^", "$", "#", "in int",
];
const WEIRD: &[&str] = &[
    "\\\"", "\\\\", "'", "`", "${x}", "\\\\n", "a\nb", "\n", " ", "a b", "  ", "//", "/*", "*/", "</script>", "\\\"\\\"",
    "'\\\\'", "constructor", "__proto__", "0", "1e3", "[", "]", "(", ")", ".*", "a+", "string", "never", "é", "ÿ", "«",
    "{", "}", ";", "`${", "\\\\\\\"", "%", "'a", "a'", "=>", "-0", "EOF ", " EOF", "toString", "undefined",
];
const WEIRD_UNI: &[&str] = &["λ", "→", "中文", "😀", "\t", "\r", "é́", "\u{2028}", "\u{feff}", "ß", "\u{0}", "ab\tc"];

pub fn style(c: &mut Choices, o: &GOpts) -> Terms {
    [Terms::Letters, Terms::Words, Terms::Mixed, Terms::Weird][c.weighted(&o.styles)]
}

/// a regex that can be written in a grammar, often of many ranges
fn any_regex(c: &mut Choices, ts: bool) -> Rx {
    use crate::gen::regex::{many_ranges, regex, Alpha, RxOpts};
    if c.chance(1, 3) {
        let x = Rx::Set(c.chance(1, 6), many_ranges(c, Alpha::Ascii));
        let x = if c.chance(1, 2) { Rx::Rep(Box::new(x), '+', false) } else { x };
        return if c.chance(1, 3) { Rx::Cat(vec![Rx::Ch('@'), x]) } else { x };
    }
    let alpha = if c.chance(1, 2) {
        Alpha::Small
    } else if ts || c.chance(2, 3) {
        Alpha::Ascii
    } else {
        Alpha::Uni
    };
    let x = regex(c, &RxOpts { alpha, unsupported: false, depth: 2, empties: false }, 2);
    let valid = |x: &Rx| regex_syntax::Parser::new().parse(&x.render(Esc::Grammar)).is_ok();
    if x.writable() && valid(&x) && x.render(Esc::Grammar).chars().all(|k| !ts || (k as u32) < 256 && k != '\t') {
        x
    } else {
        Rx::Rep(Box::new(Rx::Ch('k')), '+', false)
    }
}

/// a literal made of arbitrary pieces
fn any_literal(c: &mut Choices, ts: bool) -> String {
    let s = crate::gen::layout::string(c);
    if s.is_empty() || s == "EOF" || (ts && s.chars().any(|x| x as u32 > 255 || x == '\t' || x == '\r')) {
        "q".into()
    } else {
        s
    }
}

pub fn concrete_terms(c: &mut Choices, n: usize, style: Terms, o: &GOpts) -> Vec<GSym> {
    let rxs = rx_pool(o.ts);
    let mut v: Vec<GSym> = vec![];
    let mut k = 0;
    while v.len() < n {
        k += 1;
        // many terminals: mostly fresh words
        let s = if v.len() > 24 {
            GSym::L(format!("w{}", v.len()))
        } else {
            match style {
            Terms::Letters => GSym::L(LETTERS[(v.len() + k - 1 - v.len()) % LETTERS.len()].to_string()),
            Terms::Words => GSym::L(c.pick(WORDS).to_string()),
            Terms::Mixed => {
                if c.chance(1, 10) {
                    GSym::R(any_regex(c, o.ts))
                } else if c.chance(2, 5) {
                    GSym::R(c.pick(&rxs).clone())
                } else {
                    GSym::L(c.pick(WORDS).to_string())
                }
            }
            Terms::Weird => match c.below(10) {
                8 => GSym::R(any_regex(c, o.ts)),
                9 => GSym::L(any_literal(c, o.ts)),
                0 => GSym::R(c.pick(&rxs).clone()),
                1 if o.collisions => match c.below(4) {
                    0 => GSym::L("EOF".into()),
                    1 => GSym::R(Rx::lit("EOF")),
                    2 => GSym::L("[a-z]+".into()),
                    _ => GSym::R(Rx::Rep(Box::new(Rx::Set(false, vec![('a', 'z')])), '+', false)),
                },
                2 if !o.ts => GSym::L(c.pick(WEIRD_UNI).to_string()),
                3 => GSym::L(c.pick(WORDS).to_string()),
                _ => GSym::L(c.pick(WEIRD).to_string()),
            },
            }
        };
        // choices may have run out: fall back to a fresh word
        let s = if k > 40 { GSym::L(format!("w{}", v.len())) } else { s };
        let dup = v.iter().any(|t| match (t, &s) {
            (GSym::R(a), GSym::R(b)) => a.render(Esc::Grammar) == b.render(Esc::Grammar),
            (GSym::R(a), GSym::L(b)) | (GSym::L(b), GSym::R(a)) if !o.collisions => a.render(Esc::Grammar) == *b,
            _ => *t == s,
        });
        if !dup {
            v.push(s);
        }
    }
    v
}

const LABELS: &[&str] = &["x", "y", "left", "right", "a_1", "_v", "exprs", "kind", "c1", "c2"];

/// Symbols, names and start flag; codes and types are placeholders.
pub fn gspec(c: &mut Choices, o: &GOpts) -> GSpec {
    let mut abs = if c.chance(o.templates, 100) {
        let k = c.below(TEMPLATES.len());
        let mut a = template(TEMPLATES[k]);
        let m = c.weighted(&[5, 4, 3, 1]);
        for _ in 0..m {
            mutate_abs(c, &mut a);
        }
        a
    } else {
        let mut a = random_abs(c, o);
        if c.chance(1, 3) {
            mutate_abs(c, &mut a);
        }
        a
    };
    if c.chance(1, 12) {
        // a second start-like wrapper: nested rule names, unreachable rules
        let n = abs.nts.len();
        abs.nts.push("Wrap".into());
        abs.rules.push((n, vec![vec![S::N(0), S::N(0)], vec![S::T(0)]]));
    }
    if o.shapes > 0 && c.chance(1, o.shapes) {
        shape_abs(c, &mut abs, o);
    }
    let style = style(c, o);
    let terms = concrete_terms(c, abs.terms.max(1), style, o);
    let start = if c.chance(1, 8) { c.below(abs.rules.len()) } else { 0 };
    let label_mode = c.below(3);
    let mut rules: Vec<GRule> = abs
        .rules
        .iter()
        .enumerate()
        .map(|(i, (n, bodies))| GRule {
            export: c.chance(2, 3),
            start: i == start,
            name: abs.nts[*n].clone(),
            ty: "any".into(),
            bodies: bodies
                .iter()
                .map(|b| {
                    let mut used = 0;
                    GBody {
                        syms: b
                            .iter()
                            .map(|s| {
                                let g = match s {
                                    S::T(t) => terms[*t].clone(),
                                    S::N(n) => GSym::N(abs.nts[*n].clone()),
                                };
                                let l = match label_mode {
                                    0 => c.chance(1, 2),
                                    1 => matches!(s, S::N(_)),
                                    _ => true,
                                };
                                let label = if l {
                                    used += 1;
                                    let l = LABELS[(used + i) % LABELS.len()];
                                    // labels of one alternative differ
                                    Some(if used > LABELS.len() { format!("{}{}", l, used) } else { l.to_string() })
                                } else {
                                    None
                                };
                                (label, g)
                            })
                            .collect(),
                        code: "null".into(),
                        m: None,
                    }
                })
                .collect(),
            trailing: c.chance(1, 3),
        })
        .collect();
    if o.split && c.chance(1, 5) {
        // split one rule into two definitions of the same name
        let r = c.below(rules.len());
        if rules[r].bodies.len() > 1 {
            let k = c.range(1, rules[r].bodies.len() - 1);
            let mut second = rules[r].clone();
            second.bodies = rules[r].bodies.split_off(k);
            // a rule marked as start may be repeated without the mark
            second.start = second.start && c.chance(1, 2);
            let at = c.range(r + 1, rules.len());
            rules.insert(at, second);
        }
    }
    if c.chance(1, 6) {
        // the order of the rules does not matter
        let r = c.below(rules.len());
        let x = rules.remove(r);
        // keep the first start rule first among start rules of different names
        rules.push(x);
    }
    let mut spec = GSpec { rules };
    if !o.ts && c.chance(1, 6) {
        close_names(c, &mut spec);
    }
    spec
}

/// Rule names that differ in little: case, underscores, a prefix, a digit.
fn close_names(c: &mut Choices, s: &mut GSpec) {
    const NAMES: &[&str] = &["S", "S_", "_S", "s", "SS", "S1", "S_1", "S1_", "start_", "export1", "__S", "rS", "R", "S0", "ss", "sS", "Start", "S11"];
    let mut old: Vec<String> = vec![];
    for r in &s.rules {
        if !old.contains(&r.name) {
            old.push(r.name.clone());
        }
    }
    let k = c.below(NAMES.len());
    let map: BTreeMap<String, String> = old
        .into_iter()
        .enumerate()
        .map(|(i, n)| (n, if i < NAMES.len() { NAMES[(k + i) % NAMES.len()].to_string() } else { format!("S__{}", i) }))
        .collect();
    for r in s.rules.iter_mut() {
        r.name = map[&r.name].clone();
        for b in r.bodies.iter_mut() {
            for (_, x) in b.syms.iter_mut() {
                if let GSym::N(n) = x {
                    if let Some(m) = map.get(n) {
                        *n = m.clone();
                    }
                }
            }
        }
    }
}

/// Random derivation tree of a nonterminal.
pub fn tree(c: &mut Choices, b: &Built, h: &[Option<usize>], nt: usize, budget: &mut isize) -> Option<Tree> {
    h[nt]?;
    let ok: Vec<usize> = b.cfg.by_nt[nt]
        .iter()
        .copied()
        .filter(|&p| b.cfg.prods[p].1.iter().all(|s| matches!(s, S::T(_)) || matches!(s, S::N(n) if h[*n].is_some())))
        .collect();
    *budget -= 1;
    let p = if *budget > 0 {
        *c.pick(&ok)
    } else {
        // cheapest production
        *ok.iter()
            .min_by_key(|&&p| {
                b.cfg.prods[p]
                    .1
                    .iter()
                    .map(|s| match s {
                        S::T(_) => 0,
                        S::N(n) => h[*n].unwrap(),
                    })
                    .max()
            })
            .unwrap()
    };
    if *budget < -400 {
        return None;
    }
    let kids = b.cfg.prods[p]
        .1
        .iter()
        .map(|s| match s {
            S::T(t) => Some(Tree::Leaf(*t)),
            S::N(n) => tree(c, b, h, *n, budget),
        })
        .collect::<Option<Vec<_>>>()?;
    Some(Tree::Node(p, kids))
}

/// Leaves of a random derivation with many productions.
fn long_leaves(c: &mut Choices, b: &Built, h: &[Option<usize>]) -> Option<Vec<usize>> {
    let mut budget = c.range(60, 700) as isize;
    let data = crate::choices::expand(c.raw(), 4000);
    let mut c = Choices::new(&data);
    let bias = c.below(4);
    let mut out = vec![];
    h[b.cfg.start()]?;
    let mut stack = vec![S::N(b.cfg.start())];
    while let Some(s) = stack.pop() {
        let n = match s {
            S::T(t) => {
                out.push(t);
                continue;
            }
            S::N(n) => n,
        };
        budget -= 1;
        if budget < -3000 {
            return None;
        }
        let height = |p: usize| b.cfg.prods[p].1.iter().map(|s| match s { S::T(_) => Some(0), S::N(m) => h[*m] }).try_fold(0, |a, x| x.map(|x| a.max(x)));
        let ok: Vec<usize> = b.cfg.by_nt[n].iter().copied().filter(|p| height(*p).is_some()).collect();
        let rec: Vec<usize> = ok.iter().copied().filter(|&p| b.cfg.prods[p].1.iter().any(|s| matches!(s, S::N(_)))).collect();
        let p = if budget <= stack.len() as isize {
            *ok.iter().min_by_key(|p| height(**p)).unwrap()
        } else if !rec.is_empty() && (stack.len() < 3 || c.below(4) <= bias) {
            *c.pick(&rec)
        } else {
            *c.pick(&ok)
        };
        stack.extend(b.cfg.prods[p].1.iter().rev());
    }
    Some(out)
}

/// A long input: a sentence from a derivation with up to 700 productions, or one with an error
/// somewhere.
pub fn long_input(c: &mut Choices, b: &Built) -> String {
    let h = b.cfg.heights();
    let mut toks = long_leaves(c, b, &h).unwrap_or_default();
    toks.truncate(900);
    if c.chance(1, 3) && b.terms.len() > 1 {
        let t = 1 + c.below(b.terms.len() - 1);
        let i = c.below(toks.len() + 1);
        match c.below(3) {
            0 => toks.insert(i, t),
            1 => toks.truncate(i),
            _ => {
                toks.push(t);
            }
        }
    }
    let words: Vec<String> = toks.iter().map(|t| term_text(c, &b.terms[*t])).collect();
    if c.chance(1, 4) {
        words.concat()
    } else {
        words.join(" ")
    }
}

/// Text of a terminal.
pub fn term_text(c: &mut Choices, t: &Term) -> String {
    let mut v = vec![];
    for _ in 0..4 {
        v.clear();
        sample(c, &t.rx(), &mut v);
        if !v.is_empty() {
            break;
        }
    }
    v.truncate(12);
    v.into_iter().collect()
}

pub fn join(c: &mut Choices, words: &[String]) -> String {
    let style = c.weighted(&[4, 2, 2]);
    let mut s = String::new();
    for (i, w) in words.iter().enumerate() {
        if i > 0 {
            match style {
                0 => s.push(' '),
                1 => {}
                _ => s.push_str(c.pick(&["", " ", "\n", "  ", " \n "])),
            }
        }
        s.push_str(w);
    }
    if c.chance(1, 10) {
        s.insert(0, ' ');
    }
    if c.chance(1, 10) {
        s.push('\n');
    }
    s
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum InputKind {
    Sentence,
    TokenMutation,
    RandomTokens,
    CharMutation,
    RandomText,
}

/// Inputs to try on the parser of a grammar.
pub fn input(c: &mut Choices, b: &Built, budget: isize, ts: bool) -> (InputKind, String) {
    let h = b.cfg.heights();
    let kind = [
        InputKind::Sentence,
        InputKind::TokenMutation,
        InputKind::RandomTokens,
        InputKind::CharMutation,
        InputKind::RandomText,
    ][c.weighted(&[6, 6, 3, 3, 1])];
    let mut toks = vec![];
    if kind != InputKind::RandomTokens && kind != InputKind::RandomText {
        let mut bud = c.range(1, budget.max(1) as usize) as isize;
        if let Some(t) = tree(c, b, &h, b.cfg.start(), &mut bud) {
            t.leaves(&mut toks);
        }
        toks.truncate(40);
    }
    let nt = b.terms.len();
    if kind == InputKind::TokenMutation && nt > 1 {
        let n = c.weighted(&[6, 2, 1]) + 1;
        for _ in 0..n {
            let t = 1 + c.below(nt - 1);
            if toks.is_empty() {
                toks.push(t);
                continue;
            }
            let i = c.below(toks.len());
            match c.below(5) {
                0 => {
                    toks.remove(i);
                }
                1 => toks.insert(i, t),
                2 => toks[i] = t,
                3 => toks.truncate(i),
                _ => toks.push(t),
            }
        }
    }
    if kind == InputKind::RandomTokens && nt > 1 {
        let n = c.below(8);
        toks = (0..n).map(|_| 1 + c.below(nt - 1)).collect();
    }
    let words: Vec<String> = toks.iter().map(|t| term_text(c, &b.terms[*t])).collect();
    let mut s = join(c, &words);
    let pool: Vec<char> = if ts {
        "ab01+(' \n\\\"éA=".chars().collect()
    } else {
        "ab01+(' \n\\\"éA=\t中😀\u{0}\r".chars().collect()
    };
    if kind == InputKind::CharMutation {
        let mut v: Vec<char> = s.chars().collect();
        let n = c.range(1, 2);
        for _ in 0..n {
            let mut al = pool.clone();
            if let Some(w) = words.first().and_then(|w| w.chars().next()) {
                al.push(w);
            }
            crate::gen::regex::mutate(c, &mut v, &al);
        }
        s = v.into_iter().collect();
    }
    if kind == InputKind::RandomText {
        let n = c.below(8);
        s = (0..n).map(|_| *c.pick(&pool)).collect();
    }
    let s: String = s.chars().take(110).collect();
    (kind, s)
}

pub fn show(spec: &GSpec) -> serde_json::Value {
    serde_json::Value::String(spec.render())
}

pub fn stats(spec: &GSpec) -> BTreeMap<&'static str, usize> {
    let mut m = BTreeMap::new();
    m.insert("rules", spec.rules.len());
    m.insert("alternatives", spec.rules.iter().map(|r| r.bodies.len()).sum());
    m
}
