use crate::choices::Choices;
use crate::code::{norm_ast, parse_text, short, with_grammar};
use crate::engine::{Cx, Outcome, Prop};
use crate::gen::grammar::{gspec, GOpts, GSpec};
use crate::gen::layout::{edit, layout, scramble};
use crate::refs::reader::{self, RSym};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use typelalr::lalr::item::{ProductionIdx, TokenIdx};
use typelalr::parser::{Grammar, Symbol};

#[derive(Serialize, Deserialize, Clone)]
pub struct Text {
    pub text: String,
}

fn opts() -> GOpts {
    GOpts::default()
}

pub struct C01;

#[derive(Serialize, Deserialize, Clone)]
pub struct Written {
    pub spec: GSpec,
    pub text: String,
}

impl Prop for C01 {
    type Case = Written;
    const ID: &'static str = "C01";
    const RULE: &'static str = "a grammar (template or random, then names, labels, types, code, literals and regexes replaced by arbitrary ones, rules with no alternative, repeated names) is laid out with arbitrary Unicode white space, optional 'export' and trailing commas; the syntax tree the code reads is compared with the grammar that was written, and an independent reader must agree. Non-trivial: at least two alternatives, at least one label, and a layout other than single spaces.";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "white space is Unicode White_Space (what the lalrpop lexer skips)",
        "a code fragment runs to the last closing parenthesis on its line, so generated layouts break the line before the next one",
    ];
    const QUICK: u32 = 150_000;
    const THOROUGH: u32 = 2_000_000;
    const CHOICES: usize = 700;

    fn gen(c: &mut Choices) -> Written {
        let mut spec = gspec(c, &opts());
        if c.chance(3, 4) {
            scramble(c, &mut spec);
        }
        let text = layout(c, &spec.pieces());
        Written { spec, text }
    }
    fn show(case: &Written) -> Value {
        json!(case.text)
    }
    fn check(case: &Written, cx: &mut Cx) -> Outcome {
        let want = case.spec.model();
        match reader::read(&case.text) {
            Ok(m) if m == want => {}
            other => {
                // the generator's layout or the reader is off: no verdict on the code
                cx.label("oracle disagreement");
                cx.note = Some(json!(format!("{:?}", other.err())));
                return Ok(());
            }
        }
        cx.eval();
        let alts: usize = want.iter().map(|r| r.bodies.len()).sum();
        let labels = want.iter().any(|r| r.bodies.iter().any(|b| b.syms.iter().any(|s| s.0.is_some())));
        cx.nontrivial_if(alts >= 2 && labels && case.text != case.spec.render());
        cx.label(if alts == 0 { "no alternatives" } else if alts < 4 { "1-3 alternatives" } else { "4+ alternatives" });
        if case.text.chars().any(|c| c.is_whitespace() && !" \n".contains(c)) {
            cx.label("exotic white space");
        }
        match parse_text(&case.text) {
            Ok(got) if got == want => Ok(()),
            Ok(got) => Err(format!("read back as {}\nwritten as {}", short(&format!("{:?}", got)), short(&format!("{:?}", want)))),
            Err(e) => Err(format!("well-formed grammar rejected: {}", e)),
        }
    }
}

pub struct C02;

impl Prop for C02 {
    type Case = Text;
    const ID: &'static str = "C02";
    const RULE: &'static str = "a laid-out grammar is edited 1-3 times at token or character level (delete, duplicate, insert, replace, swap, remove a run, change inside a token), or a random token soup is made; acceptance and the resulting syntax tree are compared with an independent hand-written reader of the language. Non-trivial: the text is malformed by the reader, or is an edited text that is still well-formed.";
    const ASSUMPTIONS: &'static [&'static str] = &["rejection is a panic of parse_grammar (it unwraps the parser's error)"];
    const QUICK: u32 = 200_000;
    const THOROUGH: u32 = 3_000_000;
    const CHOICES: usize = 600;

    fn gen(c: &mut Choices) -> Text {
        let mut o = opts();
        o.max_nts = 2;
        let mut spec = gspec(c, &o);
        if c.chance(1, 2) {
            scramble(c, &mut spec);
        }
        if c.chance(2, 3) {
            spec.rules.truncate(1);
        }
        let mode = c.weighted(&[6, 2, 1]);
        if mode == 1 {
            // edits on the characters of the finished text
            let mut cs: Vec<char> = layout(c, &spec.pieces()).chars().collect();
            let n = c.range(1, 3);
            for _ in 0..n {
                let k = c.below(cs.len().max(1));
                match c.below(4) {
                    0 if !cs.is_empty() => {
                        cs.remove(k);
                    }
                    1 if !cs.is_empty() => cs.truncate(k),
                    2 if !cs.is_empty() => cs[k] = *c.pick(&['(', ')', '"', '\\', '\n', ',', 'a', '>', '=', ' ']),
                    _ => cs.insert(k, *c.pick(&['(', ')', '"', '\\', '\n', ',', 'a', '>', '=', ' '])),
                }
            }
            return Text { text: cs.into_iter().collect() };
        }
        let mut v: Vec<String> = if mode == 2 {
            vec![]
        } else {
            spec.pieces().iter().map(|p| p.text()).collect()
        };
        let n = if mode == 2 { c.range(0, 12) } else { c.weighted(&[6, 2, 1]) + 1 };
        for _ in 0..n {
            edit(c, &mut v);
        }
        let text = match c.below(3) {
            0 => v.join(" "),
            1 => v.join("\n"),
            _ => {
                let mut s = String::new();
                for x in &v {
                    s.push_str(x);
                    s.push_str(c.pick(&[" ", "\n", ""]));
                }
                s
            }
        };
        Text { text }
    }
    fn check(case: &Text, cx: &mut Cx) -> Outcome {
        let want = reader::read(&case.text);
        cx.eval();
        cx.nontrivial();
        match &want {
            Ok(_) => cx.label("still well-formed"),
            Err(_) => cx.label("malformed"),
        }
        match (want, parse_text(&case.text)) {
            (Err(_), Err(_)) => Ok(()),
            (Ok(w), Ok(g)) if w == g => Ok(()),
            (Ok(w), Ok(g)) => Err(format!("read as {:?}, should be {:?}", g, w)),
            (Ok(_), Err(e)) => Err(format!("well-formed text rejected: {}", e)),
            (Err(e), Ok(g)) => Err(format!("malformed text ({}) accepted as {}", e, short(&format!("{:?}", g)))),
        }
    }
}

pub struct C03;

#[derive(Serialize, Deserialize, Clone)]
pub struct Spec {
    pub spec: GSpec,
}

fn rsym_of(s: &Symbol) -> Option<RSym> {
    Some(match s {
        Symbol::StrLit(t) => RSym::Lit(t.to_string()),
        Symbol::Regex(t) => RSym::Re(t.to_string()),
        Symbol::NonTerminal(n) => RSym::Nt(n.0.to_string()),
        _ => return None,
    })
}

impl Prop for C03 {
    type Case = Spec;
    const ID: &'static str = "C03";
    const RULE: &'static str = "a generated grammar (rules split into several of the same name, several start flags, unused rules, undefined names, literals equal to regex texts) is numbered by the code; productions, the symbol table and the lookup functions are compared with the written grammar. Non-trivial: at least three alternatives and two kinds of symbols.";
    const QUICK: u32 = 150_000;
    const THOROUGH: u32 = 1_500_000;
    const CHOICES: usize = 600;

    fn gen(c: &mut Choices) -> Spec {
        let mut spec = gspec(c, &opts());
        if c.chance(1, 3) {
            scramble(c, &mut spec);
        }
        if !spec.rules.iter().any(|r| r.start) {
            let i = c.below(spec.rules.len());
            spec.rules[i].start = true;
        }
        Spec { spec }
    }
    fn show(case: &Spec) -> Value {
        json!(case.spec.render())
    }
    fn check(case: &Spec, cx: &mut Cx) -> Outcome {
        let text = case.spec.render();
        let model = case.spec.model();
        let start = model.iter().find(|r| r.start).unwrap().name.clone();
        let alts: Vec<(&str, &str, &crate::refs::reader::RBody)> = model
            .iter()
            .flat_map(|r| r.bodies.iter().map(move |b| (r.name.as_str(), r.ty.as_str(), b)))
            .collect();
        let mut used: Vec<RSym> = vec![RSym::Nt(start.clone())];
        for (_, _, b) in &alts {
            for (_, s) in &b.syms {
                if !used.contains(s) {
                    used.push(s.clone());
                }
            }
        }
        let kinds = used.iter().map(std::mem::discriminant).collect::<std::collections::HashSet<_>>().len();
        cx.nontrivial_if(alts.len() >= 3 && kinds >= 2);
        if model.iter().filter(|r| r.start).count() > 1 {
            cx.label("several start rules");
        }
        cx.label(match kinds {
            3 => "literals, regexes and names",
            _ => "fewer kinds of symbols",
        });
        let r = with_grammar(&text, |_, ast, g| -> Outcome {
            if norm_ast(ast) != model {
                cx.label("not read back as written (C01)");
                return Ok(());
            }
            cx.eval();
            let prods: Vec<_> = g.iter_productions().collect();
            if prods.len() != alts.len() + 1 {
                return Err(format!("{} productions for {} alternatives", prods.len(), alts.len()));
            }
            let p0 = prods[0];
            if p0.input_tokens.len() != 1 || rsym_of(&p0.input_tokens[0]) != Some(RSym::Nt(start.clone())) {
                return Err(format!("production 0 is {:?}, start is {}", p0, start));
            }
            if p0.mapping_fn.is_some() || p0.ts_type.is_some() {
                return Err("production 0 has code or a type".into());
            }
            if model.iter().any(|r| r.name == p0.name.0) {
                return Err(format!("the augmented start name {} is a rule name", p0.name.0));
            }
            for (i, (name, ty, b)) in alts.iter().enumerate() {
                let p = prods[i + 1];
                let syms: Vec<Option<RSym>> = p.input_tokens.iter().map(rsym_of).collect();
                let want: Vec<Option<RSym>> = b.syms.iter().map(|(_, s)| Some(s.clone())).collect();
                if p.name.0 != *name || syms != want || p.mapping_fn != Some(b.code.as_str()) || p.ts_type != Some(*ty) {
                    return Err(format!("production {} is {:?}, written {} {:?}", i + 1, p, name, b));
                }
                match g.get_production(ProductionIdx(i as u32 + 1)) {
                    Some(q) if std::ptr::eq(q, p) => {}
                    _ => return Err(format!("get_production({}) is not production {}", i + 1, i + 1)),
                }
            }
            if g.get_production(ProductionIdx(prods.len() as u32)).is_some() {
                return Err("get_production beyond the end".into());
            }
            // symbol table
            let toks: Vec<Symbol> = g.tokens().copied().collect();
            if toks.first() != Some(&Symbol::Eof) || Grammar::EOF_TOKEN_IDX != TokenIdx(0) {
                return Err(format!("symbol 0 is {:?}", toks.first()));
            }
            let mut listed = vec![];
            for (i, t) in toks.iter().enumerate().skip(1) {
                match rsym_of(t) {
                    Some(s) => {
                        if listed.contains(&s) {
                            return Err(format!("{:?} is numbered twice", s));
                        }
                        if !used.contains(&s) {
                            return Err(format!("{:?} is numbered but not used", s));
                        }
                        listed.push(s);
                    }
                    None => return Err(format!("symbol {} is {:?}", i, t)),
                }
                if g.get_token(TokenIdx(i as u32)) != Some(t) {
                    return Err(format!("get_token({}) is {:?}, listed {:?}", i, g.get_token(TokenIdx(i as u32)), t));
                }
                if g.get_token_idx(t) != Some(TokenIdx(i as u32)) {
                    return Err(format!("get_token_idx({:?}) is {:?}, listed at {}", t, g.get_token_idx(t), i));
                }
            }
            if g.get_token_idx(&Symbol::Eof) != Some(TokenIdx(0)) || g.get_token(TokenIdx(toks.len() as u32)).is_some() {
                return Err("end marker or end of table".into());
            }
            for s in &used {
                if !listed.contains(s) {
                    return Err(format!("{:?} is used but not numbered", s));
                }
            }
            for probe in ["\u{1}unused", "\u{1}"] {
                if g.get_token_idx(&Symbol::StrLit(probe)).is_some() || g.get_token_idx(&Symbol::Regex(probe)).is_some() {
                    return Err("an unused symbol has a number".into());
                }
            }
            let last_lit = listed.iter().rposition(|s| matches!(s, RSym::Lit(_)));
            let first_re = listed.iter().position(|s| matches!(s, RSym::Re(_)));
            if let (Some(l), Some(r)) = (last_lit, first_re) {
                cx.label("literals and regexes");
                if l > r {
                    return Err("a regex is numbered before a literal".into());
                }
            }
            let nts: Vec<(u32, String)> = g.non_terminals().map(|(i, n)| (i.0, n.0.to_string())).collect();
            let want: Vec<(u32, String)> = listed
                .iter()
                .enumerate()
                .filter_map(|(i, s)| match s {
                    RSym::Nt(n) => Some((i as u32 + 1, n.clone())),
                    _ => None,
                })
                .collect();
            if nts != want {
                return Err(format!("non_terminals() is {:?}, expected {:?}", nts, want));
            }
            // productions by name
            let mut by_name: BTreeMap<&str, Vec<u32>> = BTreeMap::new();
            for (i, (n, _, _)) in alts.iter().enumerate() {
                by_name.entry(n).or_default().push(i as u32 + 1);
            }
            for (n, want) in &by_name {
                let id = crate::code::ident(n);
                // names live in the syntax tree: look the identifier up there
                let id = ast.iter().map(|p| p.name).find(|p| p.0 == id.0).unwrap();
                let got: Vec<u32> = g.get_production_indices_by_name(id).map(|v| v.iter().map(|p| p.0).collect()).unwrap_or_default();
                if got != *want {
                    return Err(format!("productions of {} are {:?}, written {:?}", n, got, want));
                }
            }
            let got: Vec<u32> = g
                .get_production_indices_by_name(p0.name)
                .map(|v| v.iter().map(|p| p.0).collect())
                .unwrap_or_default();
            if got != vec![0] {
                return Err(format!("productions of the augmented start are {:?}", got));
            }
            check_iter(&g, &by_name)
        });
        match r {
            Ok(r) => r,
            Err(e) => Err(format!("panic: {}", e)),
        }
    }
}

fn check_iter<'a>(g: &Grammar<'a>, by_name: &BTreeMap<&str, Vec<u32>>) -> Outcome {
    // production_iter wants the grammar borrowed for its own lifetime
    let g: &'a Grammar<'a> = unsafe { std::mem::transmute(g) };
    for (n, want) in by_name {
        let id = g.iter_productions().map(|p| p.name).find(|p| p.0 == *n).unwrap();
        let got: Vec<u32> = g.production_iter(id).map(|(i, _)| i.0).collect();
        if got != *want {
            return Err(format!("production_iter({}) gives {:?}, written {:?}", n, got, want));
        }
        for (i, p) in g.production_iter(id) {
            if p.name != id || !std::ptr::eq(p, g.get_production(i).unwrap()) {
                return Err(format!("production_iter({}) gives a production of {}", n, p.name.0));
            }
        }
    }
    Ok(())
}
