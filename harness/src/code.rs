//! The code under test, as the checks see it.
use crate::engine::guard;
use crate::gen::grammar::{Built, GSpec, Term};
use crate::refs::cfg::{Bits, Set};
use crate::refs::reader::{RBody, RRule, RSym};
use crate::refs::rx::Esc;
use bumpalo::Bump;
use std::collections::BTreeMap;
use typelalr::lalr::item::{ItemSet, TokenIdx};
use typelalr::lex::lex::Token;
use typelalr::parser::ast::{self, Ident, InputSymbol};
use typelalr::parser::{Grammar, Symbol};

fn sym(s: &InputSymbol) -> RSym {
    match s {
        InputSymbol::StrLit(t) => RSym::Lit(t.to_string()),
        InputSymbol::Regex(t) => RSym::Re(t.to_string()),
        InputSymbol::NonTerminal(n) => RSym::Nt(n.0.to_string()),
        other => RSym::Nt(format!("<unexpected {:?}>", other)),
    }
}

pub fn norm_ast(ast: &[ast::Production]) -> Vec<RRule> {
    ast.iter()
        .map(|p| RRule {
            name: p.name.0.to_string(),
            start: p.is_start,
            ty: p.ts_code.to_string(),
            bodies: p
                .bodies
                .iter()
                .map(|b| RBody {
                    syms: b
                        .input_tokens
                        .iter()
                        .map(|s| match s {
                            InputSymbol::Named(n) => (n.name.map(|i| i.0.to_string()), sym(n.ty)),
                            s => (None, sym(s)),
                        })
                        .collect(),
                    code: b.mapping_fn.to_string(),
                })
                .collect(),
        })
        .collect()
}

/// Parse a grammar text with the code under test; Err = rejected.
pub fn parse_text(text: &str) -> Result<Vec<RRule>, String> {
    guard(|| {
        let bump = Bump::new();
        let ast = typelalr::parse_grammar(&bump, text);
        norm_ast(&ast)
    })
}

/// Run f on the grammar built from the text. Err: a panic, in the code under test or in f.
pub fn with_grammar<T>(
    text: &str,
    f: impl for<'a> FnOnce(&'a Bump, &'a [ast::Production<'a>], Grammar<'a>) -> T,
) -> Result<T, String> {
    guard(|| {
        let bump = Bump::new();
        let ast = typelalr::parse_grammar(&bump, text);
        let g = Grammar::grammar_from_ast_productions(&bump, &ast);
        f(&bump, &ast, g)
    })
}

/// Correspondence between the code's symbol numbers and the reference's.
pub struct Map {
    pub term: BTreeMap<u32, usize>,
    pub term_back: Vec<TokenIdx>,
    pub nt: BTreeMap<String, usize>,
}

pub fn symbol_of<'a>(t: &'a Term, store: &'a str) -> Symbol<'a> {
    match t {
        Term::Eof => Symbol::Eof,
        Term::L(s) => Symbol::StrLit(s),
        Term::R(_) => Symbol::Regex(store),
    }
}

pub fn map_symbols(b: &Built, g: &Grammar) -> Result<Map, String> {
    let mut m = Map {
        term: BTreeMap::new(),
        term_back: vec![],
        nt: BTreeMap::new(),
    };
    for (i, t) in b.terms.iter().enumerate() {
        let text = t.text();
        let s = symbol_of(t, &text);
        match g.get_token_idx(&s) {
            Some(ti) => {
                if let Some(j) = m.term.insert(ti.0, i) {
                    return Err(format!("terminals {:?} and {:?} share number {}", b.terms[j], t, ti.0));
                }
                m.term_back.push(ti);
            }
            None => return Err(format!("terminal {:?} has no number", t)),
        }
    }
    for (i, n) in b.nts.iter().enumerate() {
        m.nt.insert(n.clone(), i);
    }
    Ok(m)
}

pub fn regex_order(g: &Grammar) -> Vec<String> {
    g.tokens()
        .filter_map(|s| match s {
            Symbol::Regex(r) => Some(r.to_string()),
            _ => None,
        })
        .collect()
}

/// an item set of the code in reference numbering
pub fn conv_set(m: &Map, s: &ItemSet) -> Result<Set, String> {
    let mut r = Set::new();
    for (item, las) in s.iter() {
        let mut bits = Bits::default();
        for la in las {
            match m.term.get(&la.0) {
                Some(t) => bits.set(*t),
                None => return Err(format!("lookahead {} is not a terminal", la.0)),
            }
        }
        r.insert((item.production_idx().0, item.dot()), bits);
    }
    Ok(r)
}

pub fn ident<'a>(s: &'a str) -> Ident<'a> {
    Ident(s)
}

pub fn tok(name: &str, val: Option<&str>) -> Token {
    match val {
        Some(v) => Token::new_with_val(name.to_string(), v),
        None => Token::new(name.to_string()),
    }
}

/// text under which a terminal is reported (meaningful when no two terminals share their text
/// and none is called EOF)
pub fn kind(t: &Term) -> String {
    match t {
        Term::Eof => "EOF".into(),
        Term::L(s) => s.clone(),
        Term::R(r) => r.render(Esc::Grammar),
    }
}

/// do two terminals share their text, or is one called like the end marker?
pub fn collides(b: &Built) -> bool {
    let mut v: Vec<String> = b.terms.iter().map(kind).collect();
    v.sort();
    v.windows(2).any(|w| w[0] == w[1])
}

pub fn spec_text(s: &GSpec) -> String {
    s.render()
}

pub fn short(s: &str) -> String {
    let mut t: String = s.chars().take(400).collect();
    if t.len() < s.len() {
        t.push('…');
    }
    t
}
