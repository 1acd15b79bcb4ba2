//! The generated modules, read as data.
use crate::choices::Choices;
use crate::code::{collides, kind, map_symbols, short, with_grammar};
use crate::engine::{guard, Cx, Outcome, Prop};
use crate::gen::grammar::{gspec, Built, GOpts, GSpec, Term};
use crate::props::lalr::MAX_LR1;
use crate::props::lexing::{text_for, universal};
use crate::refs::rx::Rx;
use crate::refs::tslit::{decls, Decls, T};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use typelalr::codegen::parse_gen::generate;
use typelalr::lalr::item::TokenIdx;
use typelalr::lalr::table::{make_tables, Action};
use typelalr::lalr::Lalr;
use typelalr::lex::lex::{Lex, Token};
use typelalr::parser::{Grammar, Symbol};

/// code points the type-level lexer is meant to handle are among these
pub const SUPPORTED_MAX: u32 = 255;

pub fn generated(text: &str) -> Result<(String, String), String> {
    with_grammar(text, |bump, ast, g| {
        let lalr = Lalr::new(g);
        generate(bump, ast, &lalr).map_err(|e| format!("generate: {}", e))
    })?
}

// ------------------------------------------------------------------- C17

/// the lexer a generated module describes, as the type-level lexer reads it
pub struct Machine {
    /// per state: (from, to, target)*, accepting
    pub states: Vec<(Vec<(u32, u32, usize)>, bool)>,
    pub nfa: BTreeMap<usize, Vec<usize>>,
    /// kind, has value
    pub tokens: BTreeMap<usize, (String, bool)>,
}

fn resolve<'a>(d: &'a Decls, t: &'a T) -> Result<&'a T, String> {
    let mut t = t;
    for _ in 0..8 {
        match t {
            T::Name(n) => t = d.types.get(n).ok_or_else(|| format!("type {} is not declared", n))?,
            _ => return Ok(t),
        }
    }
    Err("types defined in a circle".into())
}

pub fn read_machine(src: &str) -> Result<Machine, String> {
    let d = decls(src, None)?;
    if let Some(n) = d.twice.first() {
        return Err(format!("type {} is declared twice", n));
    }
    let ty = |n: &str| d.types.get(n).ok_or_else(|| format!("no type {}", n));
    let mut states = vec![];
    for s in ty("States")?.tup()? {
        let s = resolve(&d, s)?;
        let f = |k: &str| -> Result<&T, String> { resolve(&d, s.get(k).ok_or_else(|| format!("state without {}", k))?) };
        let to = f("to")?.tup()?;
        let labels = f("labels")?.tup()?;
        if to.len() != labels.len() {
            return Err(format!("a state has {} labels and {} targets", labels.len(), to.len()));
        }
        let edges = to
            .iter()
            .zip(labels)
            .map(|(t, l)| {
                let l = resolve(&d, l)?;
                let n = |k: &str| l.get(k).and_then(T::num).ok_or_else(|| format!("bad label {:?}", l));
                Ok((n("from")? as u32, n("to")? as u32, t.num().ok_or("bad target")? as usize))
            })
            .collect::<Result<Vec<_>, String>>()?;
        let acc = match f("accepting")? {
            T::Bool(b) => *b,
            t => return Err(format!("accepting: {:?}", t)),
        };
        states.push((edges, acc));
    }
    let mut nfa = BTreeMap::new();
    for (k, v) in ty("DFAtoNFA")?.obj()? {
        let k: usize = k.parse().map_err(|_| format!("DFAtoNFA key {}", k))?;
        let v = v
            .tup()?
            .iter()
            .map(|n| n.num().map(|n| n as usize).ok_or("DFAtoNFA member"))
            .collect::<Result<Vec<_>, _>>()?;
        nfa.insert(k, v);
    }
    let mut tokens = BTreeMap::new();
    for (k, v) in ty("Tokens")?.obj()? {
        let k: usize = k.parse().map_err(|_| format!("Tokens key {}", k))?;
        let v = resolve(&d, v)?;
        let kind = v.get("kind").ok_or("token without kind")?.str()?.to_string();
        let has = match v.get("hasValue") {
            Some(T::Bool(b)) => *b,
            t => return Err(format!("hasValue: {:?}", t)),
        };
        tokens.insert(k, (kind, has));
    }
    for (i, (edges, _)) in states.iter().enumerate() {
        for (a, b, t) in edges {
            if *t >= states.len() {
                return Err(format!("state {} leads to state {} of {}", i, t, states.len()));
            }
            if a >= b {
                return Err(format!("empty label {}..{} in state {}", a, b, i));
            }
        }
    }
    Ok(Machine { states, nfa, tokens })
}

impl Machine {
    fn next(&self, s: usize, c: char) -> Option<usize> {
        let c = c as u32;
        self.states[s].0.iter().find(|(a, b, _)| *a <= c && c < *b).map(|e| e.2)
    }
    fn def(&self, s: usize) -> Result<&(String, bool), String> {
        self.nfa
            .get(&s)
            .ok_or_else(|| format!("accepting state {} is not in DFAtoNFA", s))?
            .iter()
            .find_map(|n| self.tokens.get(n))
            .ok_or_else(|| format!("accepting state {} has no token", s))
    }
    pub fn run(&self, cs: &[char]) -> Result<Vec<Token>, String> {
        let v = self.run_kinds(cs)?;
        Ok(v.into_iter()
            .map(|(kind, v)| match v {
                Some(v) => Token::new_with_val(kind, v),
                None => Token::new(kind),
            })
            .collect())
    }
    /// tokens up to where nothing matches
    pub fn run_kinds(&self, cs: &[char]) -> Result<Vec<(String, Option<String>)>, String> {
        let mut toks = vec![];
        let mut i = 0;
        while i < cs.len() {
            let mut s = 0;
            let mut last = None;
            let mut k = i;
            while k < cs.len() {
                match self.next(s, cs[k]) {
                    Some(n) => s = n,
                    None => break,
                }
                k += 1;
                if self.states[s].1 {
                    last = Some((k, s));
                }
            }
            match last {
                Some((e, s)) => {
                    let (kind, has) = self.def(s)?;
                    toks.push((kind.clone(), has.then(|| cs[i..e].iter().collect::<String>())));
                    i = e;
                }
                None if cs[i] == ' ' || cs[i] == '\n' => i += 1,
                None => break,
            }
        }
        Ok(toks)
    }
    /// texts that take every edge of every state, at the ends of its label and just outside
    pub fn edge_texts(&self, max: usize) -> Vec<String> {
        let sup = |c: u32| c <= SUPPORTED_MAX;
        let mut path: BTreeMap<usize, Vec<char>> = BTreeMap::from([(0, vec![])]);
        let mut q = VecDeque::from([0]);
        while let Some(s) = q.pop_front() {
            for &(a, b, t) in &self.states[s].0 {
                let c = if a <= 32 && b > 97 { 97 } else { a };
                if !path.contains_key(&t) && sup(c) {
                    let mut p = path[&s].clone();
                    p.push(char::from_u32(c).unwrap());
                    path.insert(t, p);
                    q.push_back(t);
                }
            }
        }
        let mut v = BTreeSet::new();
        for (s, p) in &path {
            for &(a, b, _) in &self.states[*s].0 {
                for c in [a, b - 1, a.wrapping_sub(1), b] {
                    if sup(c) {
                        let mut t: String = p.iter().collect();
                        t.push(char::from_u32(c).unwrap());
                        v.insert(t);
                    }
                }
            }
        }
        let n = v.len();
        let step = (n / max.max(1)).max(1);
        v.into_iter().step_by(step).collect()
    }
}

#[derive(Serialize, Deserialize, Clone)]
pub struct LexMod {
    pub spec: GSpec,
    pub inputs: Vec<String>,
}

pub const NOISE_TS: &[char] = &['a', 'b', ' ', '\n', 'é', '0', '(', '"', '\\', 'ÿ', '\u{0}', '~'];

pub fn supported_text(s: &str) -> String {
    s.chars().filter(|c| (*c as u32) <= SUPPORTED_MAX).take(110).collect()
}

pub struct C17;

impl Prop for C17 {
    type Case = LexMod;
    const ID: &'static str = "C17";
    const RULE: &'static str = "a grammar over 1-8 literals and regexes (any text, Unicode included, literals spelled like a regex or the end marker) or a generated grammar; the generated lexer module is read as data and run with longest match, reading states, labels and token definitions the way the type-level lexer does, on generated texts and on texts that take every edge of every state at the ends of its label and just outside; the tokens must be those of the lexer. Non-trivial: at least four states and a token list with at least two tokens.";
    const ASSUMPTIONS: &'static [&'static str] = &["texts are over code points 0-255, which include everything the type-level lexer supports"];
    const QUICK: u32 = 12_000;
    const THOROUGH: u32 = 1_000_000;
    const CHOICES: usize = 400;
    fn gen(c: &mut Choices) -> LexMod {
        let o = GOpts { styles: [1, 2, 5, 3], huge: true, ..GOpts::default() };
        let spec = if c.chance(2, 3) { universal(c, &o) } else { gspec(c, &o) };
        let b = spec.build();
        let rx: Vec<Rx> = b.terms.iter().skip(1).map(Term::rx).collect();
        let inputs = (0..4).map(|_| supported_text(&text_for(c, &rx, NOISE_TS))).collect();
        LexMod { spec, inputs }
    }
    fn show(case: &LexMod) -> Value {
        json!({"grammar": case.spec.render(), "inputs": case.inputs})
    }
    fn check(case: &LexMod, cx: &mut Cx) -> Outcome {
        let r = with_grammar(&case.spec.render(), |_, _, g| -> Outcome {
            let lexer = Lex::from_grammar(&g);
            let src = guard(|| typelalr::codegen::lex_gen::generate(&lexer)).map_err(|e| format!("generate: {}", e))?;
            let m = read_machine(&src)?;
            let edges = m.edge_texts(60);
            for (i, (_, acc)) in m.states.iter().enumerate() {
                if *acc {
                    m.def(i)?;
                }
            }
            cx.label_n("edge texts", edges.len() as u64);
            for input in case.inputs.iter().chain(&edges) {
                let cs: Vec<char> = input.chars().collect();
                let want = guard(|| lexer.lex(input)).map_err(|e| format!("lex({:?}): {}", input, e))?;
                let got = m.run(&cs).map_err(|e| format!("{:?}: {}", input, e))?;
                cx.eval();
                cx.nontrivial_if(m.states.len() >= 4 && want.len() >= 2);
                if got != want {
                    return Err(format!("{:?}: the module gives {:?}, the lexer {:?}", input, got, want));
                }
            }
            Ok(())
        });
        match r {
            Ok(r) => r,
            Err(e) => Err(format!("panic: {}", short(&e))),
        }
    }
}

// ------------------------------------------------------------------- C18

#[derive(Serialize, Deserialize, Clone)]
pub struct ParseMod {
    pub spec: GSpec,
}

/// is the grammar LALR(1)? None: too large to tell
pub fn lalr1(b: &Built) -> Option<bool> {
    let lr1 = b.cfg.lr1(MAX_LR1)?;
    Some(b.cfg.lalr(&lr1).is_ok())
}

fn num_map(t: &T) -> Result<BTreeMap<u64, &T>, String> {
    t.obj()?
        .into_iter()
        .map(|(k, v)| Ok((k.parse::<u64>().map_err(|_| format!("key {:?} is not a number", k))?, v)))
        .collect()
}

/// compare the module with the grammar and its tables
fn same_tables(src: &str, lex_src: &str, b: &Built, g: &Grammar, spec: &GSpec, cx: &mut Cx) -> Outcome {
    let lexer = Lex::from_grammar(g);
    let (action, goto_table, sets) = make_tables(g);
    cx.nontrivial_if(sets.len() >= 8 && b.cfg.prods.len() > 4);
    let d = decls(src, Some("type_defs"))?;
    let ty = |n: &str| d.types.get(n).ok_or_else(|| format!("no type {}", n));
    // symbols
    let toks = num_map(ty("Tokens")?)?;
    let n = g.tokens().count();
    if toks.len() != n {
        return Err(format!("{} symbols listed, the grammar has {}", toks.len(), n));
    }
    let expect = |idx: u32, k: &str, v: Option<&str>| -> Outcome {
        let t = toks.get(&(idx as u64)).ok_or_else(|| format!("symbol {} is not listed", idx))?;
        let kind = t.get("kind").ok_or("symbol without kind")?.str()?;
        let value = match t.get("value") {
            Some(t) => Some(t.str()?),
            None => None,
        };
        if kind != k || value != v {
            return Err(format!("symbol {} is listed as {} {:?}, should be {} {:?}", idx, kind, value, k, v));
        }
        Ok(())
    };
    let m = map_symbols(b, g)?;
    for (num, t) in &m.term {
        match &b.terms[*t] {
            Term::Eof => expect(*num, "eof", None)?,
            t @ Term::L(_) => expect(*num, "strlit", Some(&t.text()))?,
            t @ Term::R(_) => expect(*num, "regex", Some(&t.text()))?,
        }
    }
    let mut num_of = BTreeMap::new();
    for (i, s) in g.tokens().enumerate() {
        if let Symbol::NonTerminal(n) = s {
            expect(i as u32, "nonterminal", Some(n.0))?;
            num_of.insert(n.0.to_string(), i as u64);
        }
    }
    // productions
    let prods = num_map(ty("Productions")?)?;
    let want: usize = spec.rules.iter().map(|r| r.bodies.len()).sum::<usize>() + 1;
    if prods.len() != want {
        return Err(format!("{} productions listed, the grammar has {}", prods.len(), want));
    }
    for (p, (lhs, rhs)) in b.cfg.prods.iter().enumerate() {
        let t = prods.get(&(p as u64)).ok_or_else(|| format!("production {} is not listed", p))?;
        let name = t.get("name").ok_or("production without name")?.str()?;
        let syms = t
            .get("tokens")
            .ok_or("production without tokens")?
            .tup()?
            .iter()
            .map(|t| t.num().ok_or("production member".to_string()))
            .collect::<Result<Vec<_>, _>>()?;
        if p == 0 {
            // the augmented start production has a name of its own
            if syms.len() != rhs.len() {
                return Err(format!("production 0 lists {:?}", syms));
            }
        } else if name != b.nts[*lhs] {
            return Err(format!("production {} is one of {}, should be {}", p, name, b.nts[*lhs]));
        }
        let want: Vec<u64> = rhs
            .iter()
            .map(|s| match s {
                crate::refs::cfg::S::T(t) => m.term_back[*t].0 as u64,
                crate::refs::cfg::S::N(n) => num_of[&b.nts[*n]],
            })
            .collect();
        if syms != want {
            return Err(format!("production {} ({}) lists symbols {:?}, should be {:?}", p, name, syms, want));
        }
    }
    // tables
    let act = num_map(ty("Action")?)?;
    let mut got: BTreeSet<(u64, u64, String)> = BTreeSet::new();
    for (s, row) in &act {
        for (t, a) in num_map(row)? {
            let o = a.obj()?;
            if o.len() != 1 {
                return Err(format!("action of state {} on {} is {:?}", s, t, a));
            }
            let (k, v) = o.into_iter().next().unwrap();
            let x = match (k.as_str(), v) {
                ("shift", T::Num(n)) => format!("shift {}", n),
                ("reduce", T::Num(n)) => format!("reduce {}", n),
                ("accept", T::Bool(true)) => "accept".to_string(),
                _ => return Err(format!("action of state {} on {} is {:?}", s, t, a)),
            };
            got.insert((*s, t, x));
        }
    }
    let mut want = BTreeSet::new();
    for (s, row) in action.iter() {
        for (t, a) in row {
            let x = match a {
                Action::Shift(n) => format!("shift {}", n),
                Action::Reduce(p) => format!("reduce {}", p.0),
                Action::Accept => "accept".to_string(),
            };
            want.insert((*s as u64, t.0 as u64, x));
        }
    }
    if let Some(x) = got.symmetric_difference(&want).next() {
        return Err(format!("action entry {:?}: {}", x, if got.contains(x) { "not in the tables" } else { "missing from the module" }));
    }
    let goto = num_map(ty("Goto")?)?;
    let mut got: BTreeSet<(u64, String, u64)> = BTreeSet::new();
    for (s, row) in &goto {
        for (n, t) in row.obj()? {
            got.insert((*s, n, t.num().ok_or("goto target")?));
        }
    }
    let mut want = BTreeSet::new();
    for (s, row) in goto_table.iter() {
        for (n, t) in row {
            want.insert((*s as u64, n.0.to_string(), *t as u64));
        }
    }
    if let Some(x) = got.symmetric_difference(&want).next() {
        return Err(format!("goto entry {:?}: {}", x, if got.contains(x) { "not in the tables" } else { "missing from the module" }));
    }
    // kinds
    let kinds = ty("TokenKindToIdx")?.obj()?;
    if kinds.len() != b.terms.len() {
        return Err(format!("{} token kinds listed for {} terminals", kinds.len(), b.terms.len()));
    }
    let idx = |k: &str| -> Result<u64, String> {
        kinds
            .get(k)
            .ok_or_else(|| format!("kind {:?} has no symbol number", k))?
            .num()
            .ok_or_else(|| format!("number of kind {:?}", k))
    };
    if idx("EOF")? != Grammar::EOF_TOKEN_IDX.0 as u64 {
        return Err(format!("the end marker has number {}", idx("EOF")?));
    }
    let mach = read_machine(lex_src)?;
    let mut seen = BTreeSet::new();
    for (k, _) in mach.tokens.values() {
        let conv = guard(|| lexer.convert_tokens(vec![Token::new(k.clone())])).map_err(|e| format!("kind {:?}: {}", k, e))?;
        let want: TokenIdx = conv[0].1;
        if idx(k)? != want.0 as u64 {
            return Err(format!("kind {:?} has number {}, the lexer's is {}", k, idx(k)?, want.0));
        }
        seen.insert(want.0);
    }
    if !collides(b) {
        for (i, t) in b.terms.iter().enumerate() {
            if idx(&kind(t))? != m.term_back[i].0 as u64 {
                return Err(format!("{:?} has number {}, should be {}", t, idx(&kind(t))?, m.term_back[i].0));
            }
        }
    }
    Ok(())
}

pub struct C18;

impl Prop for C18 {
    type Case = ParseMod;
    const ID: &'static str = "C18";
    const RULE: &'static str = "random and template grammars with arbitrary literal and regex text; for those that are LALR(1) by the reference the generated parser module is read as data and compared entry by entry with the written grammar (symbols, productions), with the tables of the parser (actions, gotos) and with the kinds of the generated lexer module. Non-trivial: LALR(1), at least 8 states and 4 productions.";
    const QUICK: u32 = 20_000;
    const THOROUGH: u32 = 1_500_000;
    const CHOICES: usize = 300;
    fn gen(c: &mut Choices) -> ParseMod {
        let o = GOpts { styles: [3, 2, 4, 5], huge: true, ..GOpts::default() };
        ParseMod { spec: gspec(c, &o) }
    }
    fn show(case: &ParseMod) -> Value {
        json!(case.spec.render())
    }
    fn check(case: &ParseMod, cx: &mut Cx) -> Outcome {
        let b = case.spec.build();
        match lalr1(&b) {
            Some(true) => cx.label("LALR(1)"),
            Some(false) => {
                cx.label("not LALR(1)");
                return Ok(());
            }
            None => return Ok(()),
        }
        if collides(&b) {
            cx.label("grammar with terminals of the same spelling");
        }
        if b.terms.iter().any(|t| t.text().contains(['"', '\\', '\n', '`', '\''])) {
            cx.label("terminal with a quote, backslash or line break");
        }
        let r = with_grammar(&case.spec.render(), |bump, ast, g| -> Outcome {
            let lalr = guard(|| Lalr::new(g)).map_err(|e| format!("an LALR(1) grammar is refused: {}", e))?;
            let (lex, parse) = guard(|| generate(bump, ast, &lalr)).map_err(|e| format!("generate: {}", e))?.map_err(|e| e.to_string())?;
            cx.eval();
            // the parser's own tables: those of the same grammar built again
            let g = Grammar::grammar_from_ast_productions(bump, ast);
            same_tables(&parse, &lex, &b, &g, &case.spec, cx)
        });
        match r {
            Ok(r) => r,
            Err(e) => Err(format!("panic: {}", short(&e))),
        }
    }
}
