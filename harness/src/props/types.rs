//! The TypeScript side, evaluated by the TypeScript compiler.
use crate::choices::Choices;
use crate::code::{collides, kind, regex_order, short, tok, with_grammar};
use crate::engine::{guard, Cx, Outcome, Prop};
use crate::gen::grammar::{gspec, input, Built, GOpts, GSpec, GSym, InputKind, Term};
use crate::gen::typed::decorate;
use crate::props::codegen::{generated, lalr1, read_machine, NOISE_TS};
use crate::props::lalr::MAX_LR1;
use crate::props::lexing::{text_for, universal};
use crate::refs::cfg::{Act, Lalr as RefLalr, S};
use crate::refs::rx::Rx;
use crate::refs::tslit::{decls, T};
use crate::ts;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::OnceCell;
use std::collections::{BTreeMap, BTreeSet};
use typelalr::lalr::Lalr;
use typelalr::lex::lex::Lex;

/// The characters of a character table module, checked to be a bijection with their codes.
pub fn char_table(src: &str) -> Result<BTreeSet<char>, String> {
    let d = decls(src, None)?;
    if let Some(n) = d.twice.first() {
        return Err(format!("type {} is declared twice", n));
    }
    let ty = |n: &str| -> Result<BTreeMap<String, &T>, String> { d.types.get(n).ok_or_else(|| format!("no type {}", n))?.obj() };
    let mut by_code = BTreeMap::new();
    for (k, v) in ty("Characters")? {
        let k: u32 = k.parse().map_err(|_| format!("Characters key {:?}", k))?;
        by_code.insert(k, v.str()?.to_string());
    }
    let mut by_char = BTreeMap::new();
    for (k, v) in ty("CharTable")? {
        by_char.insert(k, v.num().ok_or("CharTable value")? as u32);
    }
    for (k, c) in &by_code {
        if char::from_u32(*k).map(String::from).as_ref() != Some(c) {
            return Err(format!("Characters lists {:?} under code {}", c, k));
        }
        if by_char.get(c) != Some(k) {
            return Err(format!("CharTable has {:?} for {:?}, code {}", by_char.get(c), c, k));
        }
    }
    for (c, k) in &by_char {
        if by_code.get(k) != Some(c) {
            return Err(format!("Characters has {:?} for {}, the code of {:?} in CharTable", by_code.get(k), k, c));
        }
    }
    Ok(by_code.keys().map(|k| char::from_u32(*k).unwrap()).collect())
}

thread_local! {
    static SUPPORTED: OnceCell<Result<BTreeSet<char>, String>> = const { OnceCell::new() };
}

/// characters of the checked-in table
pub fn supported() -> Result<BTreeSet<char>, String> {
    SUPPORTED.with(|s| {
        s.get_or_init(|| {
            let src = std::fs::read_to_string(format!("{}/ts/chars.ts", ts::REPO)).map_err(|e| format!("ts/chars.ts: {}", e))?;
            char_table(&src)
        })
        .clone()
    })
}

pub fn named(exprs: Vec<String>) -> Vec<(String, String)> {
    exprs.into_iter().enumerate().map(|(i, e)| (format!("Verif_R{}", i), e)).collect()
}

// ------------------------------------------------------------------- C19

#[derive(Serialize, Deserialize, Clone)]
pub struct Mod {
    pub spec: GSpec,
}

pub fn ts_opts() -> GOpts {
    GOpts { ts: true, shapes: 0, styles: [3, 3, 4, 4], ..GOpts::default() }
}

pub fn ts_spec(c: &mut Choices, o: &GOpts) -> GSpec {
    let mut spec = gspec(c, o);
    // mostly grammars that get a parser
    for _ in 0..3 {
        if lalr1(&spec.build()) == Some(true) {
            break;
        }
        spec = gspec(c, o);
    }
    decorate(c, &mut spec);
    spec
}

/// distinct names for the rules that TypeScript programs might use for something else
pub fn hard_names(c: &mut Choices, s: &mut GSpec) {
    const NAMES: &[&str] = &[
        "Symbol", "Token", "Action", "Goto", "Tokens", "Production", "L", "U", "x", "y", "left", "kind", "value", "expr", "_", "__x",
        "Record", "Array", "String", "Object", "type_defs", "actions", "var0", "a_1", "toString", "constructor", "token", "infer_", "Succ",
    ];
    let mut old: Vec<String> = s.rules.iter().map(|r| r.name.clone()).collect();
    old.dedup();
    let k = c.below(NAMES.len());
    let step = [1, 2, 5, 7, 11][c.below(5)];
    let map: BTreeMap<String, String> = old
        .iter()
        .enumerate()
        .map(|(i, n)| (n.clone(), if c.chance(1, 2) { NAMES[(k + i * step) % NAMES.len()].to_string() } else { n.clone() }))
        .collect();
    let used: BTreeSet<&String> = map.values().collect();
    if used.len() == map.len() {
        rename(s, &map);
    }
}

/// labels that TypeScript programs might use for something else
pub fn hard_labels(c: &mut Choices, s: &mut GSpec) {
    let mut pool: Vec<String> = s.rules.iter().map(|r| r.name.clone()).collect();
    for n in [
        "newStack", "poppedValues", "symbolStack", "prodIdx", "U", "L", "type_defs", "actions", "var0", "var1", "__x", "x", "___x", "infer_", "kind",
        "Action1", "EmitProduction", "Symbol", "Token", "_", "__", "token", "tokens", "value",
    ] {
        pool.push(n.into());
    }
    let mut ls: BTreeSet<String> = BTreeSet::new();
    for r in &s.rules {
        for b in &r.bodies {
            ls.extend(b.syms.iter().filter_map(|x| x.0.clone()));
        }
    }
    let mut map = BTreeMap::new();
    for l in &ls {
        if c.chance(1, 2) {
            let n = c.pick(&pool).clone();
            if !ls.contains(&n) && !map.values().any(|m| *m == n) {
                map.insert(l.clone(), n);
            }
        }
    }
    relabel(s, &map);
}

pub fn relabel(s: &mut GSpec, map: &BTreeMap<String, String>) {
    for r in s.rules.iter_mut() {
        for b in r.bodies.iter_mut() {
            for (l, _) in b.syms.iter_mut() {
                if let Some(n) = l.as_ref().and_then(|l| map.get(l)) {
                    *l = Some(n.clone());
                }
            }
            if let Some(m) = b.m.as_mut() {
                m.relabel(map);
                b.code = m.render();
            }
        }
    }
}

/// rename rules (types that mention rules must be rewritten by word)
pub fn rename(s: &mut GSpec, map: &BTreeMap<String, String>) {
    for r in s.rules.iter_mut() {
        if let Some(n) = map.get(&r.name) {
            r.name = n.clone();
        }
        r.ty = rename_type(&r.ty, map);
        for b in r.bodies.iter_mut() {
            for (_, x) in b.syms.iter_mut() {
                if let GSym::N(n) = x {
                    if let Some(m) = map.get(n) {
                        *n = m.clone();
                    }
                }
            }
        }
    }
}

/// words of a type outside string literals and not followed by ':' (member names)
fn rename_type(t: &str, map: &BTreeMap<String, String>) -> String {
    let cs: Vec<char> = t.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i];
        if c == '"' {
            let b = i;
            i += 1;
            while i < cs.len() && cs[i] != '"' {
                i += if cs[i] == '\\' { 2 } else { 1 };
            }
            i += 1;
            out.extend(&cs[b..i.min(cs.len())]);
        } else if c.is_ascii_alphabetic() || c == '_' {
            let b = i;
            while i < cs.len() && (cs[i].is_ascii_alphanumeric() || cs[i] == '_') {
                i += 1;
            }
            let w: String = cs[b..i].iter().collect();
            let member = cs.get(i) == Some(&':');
            match map.get(&w) {
                Some(n) if !member => out.push_str(n),
                _ => out.push_str(&w),
            }
        } else {
            out.push(c);
            i += 1;
        }
    }
    out
}

pub struct C19;

impl Prop for C19 {
    type Case = Mod;
    const ID: &'static str = "C19";
    const RULE: &'static str = "LALR(1) grammars with arbitrary literal and regex text, labelled and unlabelled symbols of every kind, rule and label names that also occur in the generated code, and generated types and mapping code (valid TypeScript by construction: any, string, arrays, objects, exact unions referring to other rules); both generated modules are given to the TypeScript compiler in strict mode beside the repository's modules and must have no diagnostics; the symbol texts, as the compiler reads them, must be the written ones. Non-trivial: at least 3 labels, and a labelled terminal.";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "rule names are TypeScript type names (no keywords or predefined types) and not Action<n> or EmitProduction; labels are not keywords and unique within an alternative",
        "TypeScript 5.9 with a minimal standard library declaration",
    ];
    const QUICK: u32 = 2_200;
    const THOROUGH: u32 = 120_000;
    const CHOICES: usize = 900;
    const MAX_SHRINK: u32 = 700;
    fn gen(c: &mut Choices) -> Mod {
        let mut spec = ts_spec(c, &ts_opts());
        if c.chance(1, 2) {
            hard_names(c, &mut spec);
        }
        if c.chance(1, 2) {
            hard_labels(c, &mut spec);
        }
        Mod { spec }
    }
    fn show(case: &Mod) -> Value {
        json!(case.spec.render())
    }
    fn check(case: &Mod, cx: &mut Cx) -> Outcome {
        let b = case.spec.build();
        if lalr1(&b) != Some(true) {
            cx.label("not LALR(1)");
            return Ok(());
        }
        let (lex, parse) = generated(&case.spec.render())?;
        let mut labels = 0;
        let (mut lit, mut re, mut nt) = (0, 0, 0);
        for r in &case.spec.rules {
            for b in &r.bodies {
                for (l, s) in &b.syms {
                    if l.is_some() {
                        labels += 1;
                        match s {
                            GSym::L(_) => lit += 1,
                            GSym::R(_) => re += 1,
                            GSym::N(_) => nt += 1,
                        }
                    }
                }
            }
        }
        cx.label("LALR(1) grammar");
        for (n, l) in [(lit, "labelled literal"), (re, "labelled regex"), (nt, "labelled rule")] {
            if n > 0 {
                cx.label(l);
            }
        }
        cx.nontrivial_if(labels >= 3 && lit + re > 0);
        cx.eval();
        let exprs = json!([["Verif_Tokens", "type_defs.Tokens"], ["Verif_Kinds", "type_defs.TokenKindToIdx"]]);
        let r = ts::ask(&json!({"lex": lex, "parse": parse, "diag": true, "exprs": exprs}))?;
        if let Some(d) = r["diags"].as_array().and_then(|v| v.first()) {
            return Err(format!("the generated module is not valid: {}", short(&d.to_string())));
        }
        let toks = r["values"]["Verif_Tokens"].as_object().ok_or("no symbol list")?;
        for t in &b.terms {
            let (k, v) = match t {
                Term::Eof => continue,
                Term::L(_) => ("strlit", t.text()),
                Term::R(_) => ("regex", t.text()),
            };
            let want = json!({"kind": k, "value": v});
            if !toks.values().any(|x| *x == want) {
                return Err(format!("no symbol reads {}", want));
            }
        }
        let kinds = r["values"]["Verif_Kinds"].as_object().ok_or("no kinds")?;
        if kinds.len() != b.terms.len() {
            return Err(format!("{} kinds for {} terminals", kinds.len(), b.terms.len()));
        }
        if !collides(&b) {
            for t in &b.terms {
                if !kinds.contains_key(&kind(t)) {
                    return Err(format!("no kind reads {:?}", kind(t)));
                }
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------- C20

#[derive(Serialize, Deserialize, Clone)]
pub struct LexTs {
    pub spec: GSpec,
    pub inputs: Vec<String>,
}

pub struct C20;

const UNSUPPORTED: &[char] = &['\t', '\r', '中', 'λ', '😀', '\u{a0}', '\u{7f}', 'Ā', '\u{ad}', '\u{2028}'];

impl Prop for C20 {
    type Case = LexTs;
    const ID: &'static str = "C20";
    const RULE: &'static str = "a grammar over 1-8 literals and regexes (metacharacters, quotes, Latin-1, classes reaching beyond the supported characters) and 5 inputs of up to 110 characters made of matches, prefixes of matches, white space, noise and, sometimes, an unsupported character; Lex<input> is evaluated by the TypeScript compiler and compared with the token list of the lexer plus the end marker, or must be an error text. Non-trivial: an input with at least two tokens and at least two terminals.";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "supported characters are those of ts/chars.ts, which C25 checks",
        "inputs are at most 110 characters, which is within the compiler's recursion limits",
    ];
    const QUICK: u32 = 2_000;
    const THOROUGH: u32 = 120_000;
    const CHOICES: usize = 500;
    const MAX_SHRINK: u32 = 700;
    fn gen(c: &mut Choices) -> LexTs {
        let o = GOpts { ts: true, shapes: 0, styles: [1, 3, 6, 4], ..GOpts::default() };
        let spec = universal(c, &o);
        let b = spec.build();
        let rx: Vec<Rx> = b.terms.iter().skip(1).map(Term::rx).collect();
        let mut inputs: Vec<String> = (0..5)
            .map(|_| text_for(c, &rx, NOISE_TS).chars().filter(|c| (*c as u32) < 256 || c.is_alphabetic()).collect())
            .collect();
        if c.chance(1, 4) {
            let u = *c.pick(UNSUPPORTED);
            let mut v: Vec<char> = inputs[0].chars().collect();
            let at = c.below(v.len() + 1);
            v.insert(at, u);
            inputs[0] = v.into_iter().collect();
        }
        LexTs { spec, inputs }
    }
    fn show(case: &LexTs) -> Value {
        json!({"grammar": case.spec.render(), "inputs": case.inputs})
    }
    fn check(case: &LexTs, cx: &mut Cx) -> Outcome {
        let b = case.spec.build();
        let sup = supported()?;
        let r = with_grammar(&case.spec.render(), |_, _, g| -> Outcome {
            let lexer = Lex::from_grammar(&g);
            let src = guard(|| typelalr::codegen::lex_gen::generate(&lexer)).map_err(|e| format!("generate: {}", e))?;
            let mut kinds: Vec<String> = read_machine(&src)?.tokens.values().map(|t| t.0.clone()).collect();
            // the module may lack a kind: the token is still the lexer's
            kinds.extend(b.terms.iter().map(kind));
            let (rl, _) = b.lexer(&regex_order(&g));
            let exprs: Vec<String> = case.inputs.iter().map(|s| format!("L.Lex<{}>", ts::lit(s))).collect();
            let r = ts::ask(&json!({"lex": src, "exprs": named(exprs)}))?;
            for (i, s) in case.inputs.iter().enumerate() {
                let got = &r["values"][format!("Verif_R{}", i)];
                cx.eval();
                let cs: Vec<char> = s.chars().collect();
                if cs.iter().any(|c| !sup.contains(c)) {
                    cx.label("unsupported character");
                    if !got.is_string() {
                        return Err(format!("{:?} has an unsupported character, Lex gives {}", s, short(&got.to_string())));
                    }
                    continue;
                }
                let l = rl.lex(&cs);
                if l.stuck.is_some() {
                    cx.label("cannot be tokenised");
                    if !got.is_string() {
                        return Err(format!("{:?} cannot be tokenised, Lex gives {}", s, short(&got.to_string())));
                    }
                    continue;
                }
                cx.label("tokenised");
                cx.nontrivial_if(l.toks.len() >= 2 && b.terms.len() >= 3);
                let toks = guard(|| lexer.lex(s)).map_err(|e| format!("lex({:?}): {}", s, e))?;
                if toks.len() != l.toks.len() {
                    cx.label("not tokenised as expected (C07)");
                    continue;
                }
                let mut want = vec![];
                for (t, rt) in toks.iter().zip(&l.toks) {
                    let text: String = cs[rt.start..rt.end].iter().collect();
                    let k = kinds.iter().find(|k| tok(k, Some(&text)) == *t);
                    match k {
                        Some(k) => want.push(json!({"kind": k, "value": text})),
                        None => {
                            cx.label("token not as expected (C07)");
                            want.push(Value::Null);
                        }
                    }
                }
                want.push(json!({"kind": "EOF"}));
                if want.contains(&Value::Null) {
                    continue;
                }
                if *got != Value::Array(want.clone()) {
                    return Err(format!("Lex<{:?}> is {}, should be {}", s, short(&got.to_string()), short(&Value::Array(want).to_string())));
                }
            }
            Ok(())
        });
        match r {
            Ok(r) => r,
            Err(e) => Err(format!("panic: {}", short(&e))),
        }
    }
}

// ------------------------------------------------------------- C21, C22

#[derive(Serialize, Deserialize, Clone)]
pub struct ParseTs {
    pub spec: GSpec,
    pub inputs: Vec<String>,
}

/// shifts and reductions the type-level parser can make
pub const STEPS: usize = 49;

/// Run the reference tables, applying the mapping of each alternative.
/// Err: the position of the error. Ok: value and number of steps.
pub fn evaluate(
    spec: &GSpec,
    b: &Built,
    t: &RefLalr,
    toks: &[(usize, String)],
    on: &mut dyn FnMut(usize, &Value),
) -> Result<(Option<Value>, usize), usize> {
    let mut states = vec![0usize];
    let mut vals: Vec<Option<Value>> = vec![];
    let mut i = 0;
    let mut steps = 0;
    loop {
        let la = toks.get(i).map_or(0, |t| t.0);
        match t.action[*states.last().unwrap()].get(&la) {
            Some(Act::Shift(s)) => {
                states.push(*s);
                vals.push(Some(json!(toks[i].1)));
                i += 1;
                steps += 1;
            }
            Some(Act::Reduce(p)) => {
                let (lhs, rhs) = &b.cfg.prods[*p];
                let args = vals.split_off(vals.len() - rhs.len());
                states.truncate(states.len() - rhs.len());
                let (_, body) = spec.body_of(*p);
                let mut env = BTreeMap::new();
                let mut ok = true;
                for ((l, _), v) in body.syms.iter().zip(args) {
                    if let Some(l) = l {
                        match v {
                            Some(v) => {
                                env.insert(l.clone(), v);
                            }
                            None => ok = false,
                        }
                    }
                }
                let v = if ok { body.m.as_ref().and_then(|m| m.eval(&env)) } else { None };
                if let Some(v) = &v {
                    on(*p, v);
                }
                vals.push(v);
                states.push(t.goto[*states.last().unwrap()][lhs]);
                steps += 1;
            }
            Some(Act::Accept) => return Ok((vals.pop().unwrap(), steps)),
            None => return Err(i),
        }
    }
}

enum Expect {
    Value(Value, usize),
    TooLong(Value),
    NonSentence(usize),
    NotTokens,
    Unsupported,
}

/// a text, or a tuple starting with a text
pub fn is_error(v: &Value) -> bool {
    match v {
        Value::String(_) => true,
        Value::Array(v) => matches!(v.first(), Some(Value::String(_))),
        _ => false,
    }
}

/// what is expected of each input, and what the TypeScript compiler computes
fn run_ts(case: &ParseTs, wants: impl Fn(&Expect) -> bool, cx: &mut Cx) -> Result<Vec<(String, Expect, Value)>, String> {
    let b = case.spec.build();
    let Some(lr1) = b.cfg.lr1(MAX_LR1) else { return Ok(vec![]) };
    let Ok(t) = b.cfg.lalr(&lr1) else {
        cx.label("not LALR(1)");
        return Ok(vec![]);
    };
    cx.label("LALR(1) grammar");
    let sup = supported()?;
    let r = with_grammar(&case.spec.render(), |bump, ast, g| -> Result<_, String> {
        let (rl, idx) = b.lexer(&regex_order(&g));
        let mut todo = vec![];
        for s in &case.inputs {
            let cs: Vec<char> = s.chars().collect();
            let l = rl.lex(&cs);
            let e = if cs.iter().any(|c| !sup.contains(c)) {
                Expect::Unsupported
            } else if l.stuck.is_some() {
                Expect::NotTokens
            } else {
                let toks: Vec<(usize, String)> = l.toks.iter().map(|t| (idx[t.def], cs[t.start..t.end].iter().collect())).collect();
                match evaluate(&case.spec, &b, &t, &toks, &mut |_, _| ()) {
                    Err(i) => Expect::NonSentence(i),
                    Ok((Some(v), n)) if n > STEPS => Expect::TooLong(v),
                    Ok((Some(v), n)) => Expect::Value(v, n),
                    Ok((None, _)) => return Err(format!("harness: no value for {:?}", s)),
                }
            };
            if wants(&e) {
                todo.push((s.clone(), e));
            }
        }
        if todo.is_empty() {
            return Ok(vec![]);
        }
        let lalr = guard(|| Lalr::new(g)).map_err(|e| format!("an LALR(1) grammar is refused: {}", e))?;
        let (lex, parse) = guard(|| typelalr::codegen::parse_gen::generate(bump, ast, &lalr))
            .map_err(|e| format!("generate: {}", e))?
            .map_err(|e| e.to_string())?;
        let exprs = todo.iter().map(|(s, _)| format!("Parse<L.Lex<{}>>", ts::lit(s))).collect();
        let r = ts::eval(&lex, &parse, &named(exprs))?;
        Ok(todo.into_iter().zip(r).map(|((s, e), v)| (s, e, v)).collect())
    });
    match r {
        Ok(r) => r,
        Err(e) => Err(format!("panic: {}", short(&e))),
    }
}

fn parse_case(c: &mut Choices, sentences: bool) -> ParseTs {
    let o = GOpts { ts: true, shapes: 0, styles: [3, 4, 5, 2], ..GOpts::default() };
    let mut spec = ts_spec(c, &o);
    if c.chance(1, 4) {
        hard_names(c, &mut spec);
    }
    if c.chance(1, 3) {
        hard_labels(c, &mut spec);
    }
    let b = spec.build();
    let inputs = (0..5)
        .map(|i| {
            let mut s = input(c, &b, 16, true);
            // bias towards what the property is about
            for _ in 0..3 {
                if (s.0 == InputKind::Sentence) == sentences || i == 4 {
                    break;
                }
                s = input(c, &b, 16, true);
            }
            s.1
        })
        .collect();
    ParseTs { spec, inputs }
}

pub struct C21;

impl Prop for C21 {
    type Case = ParseTs;
    const ID: &'static str = "C21";
    const RULE: &'static str = "LALR(1) grammars with labels, generated types and mapping code (objects, tuples, spreads, member access, template literals, labels) and 5 inputs, mostly sentences from random derivations; for sentences of at most 49 shifts and reductions Parse<Lex<input>> is evaluated by the TypeScript compiler and must be the single start symbol with the value obtained by running reference LALR tables and applying the mappings. Non-trivial: a sentence with at least 6 steps whose value mentions a label.";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "sentences take at most 49 shifts and reductions (the parser's recursion budget) and at most 110 characters",
        "mapping code is of the generated kinds; labels are unique within an alternative",
    ];
    const QUICK: u32 = 2_200;
    const THOROUGH: u32 = 120_000;
    const CHOICES: usize = 1200;
    const MAX_SHRINK: u32 = 700;
    fn gen(c: &mut Choices) -> ParseTs {
        parse_case(c, true)
    }
    fn show(case: &ParseTs) -> Value {
        json!({"grammar": case.spec.render(), "inputs": case.inputs})
    }
    fn check(case: &ParseTs, cx: &mut Cx) -> Outcome {
        let start = case.spec.rules.iter().find(|r| r.start).unwrap().name.clone();
        let r = run_ts(case, |e| matches!(e, Expect::Value(..) | Expect::TooLong(_)), cx)?;
        for (s, e, got) in r {
            let (v, n) = match e {
                Expect::Value(v, n) => (v, n),
                Expect::TooLong(v) => {
                    cx.eval();
                    cx.label("sentence beyond the budget");
                    let want = json!([{"kind": start, "value": v}]);
                    if got != want && !is_error(&got) {
                        return Err(format!("Parse of {:?} is {}, should be {} or an error", s, short(&got.to_string()), short(&want.to_string())));
                    }
                    continue;
                }
                _ => unreachable!(),
            };
            cx.eval();
            cx.label("sentence");
            cx.nontrivial_if(n >= 6 && case.spec.rules.iter().any(|r| r.bodies.iter().any(|b| b.m.as_ref().map_or(false, |m| m.uses_label()))));
            let want = json!([{"kind": start, "value": v}]);
            if got != want {
                return Err(format!("Parse of {:?} is {}, should be {}", s, short(&got.to_string()), short(&want.to_string())));
            }
        }
        Ok(())
    }
}

pub struct C22;

impl Prop for C22 {
    type Case = ParseTs;
    const ID: &'static str = "C22";
    const RULE: &'static str = "LALR(1) grammars with generated types and mappings and 5 inputs, mostly sentences with tokens deleted, inserted or replaced, random token sequences, character edits and noise; for those that are no sentences Parse<Lex<input>> is evaluated by the TypeScript compiler and must be an error (a text, or a tuple starting with a text). Non-trivial: a tokenisable non-sentence of at least two tokens.";
    const ASSUMPTIONS: &'static [&'static str] = &["inputs are at most 110 characters"];
    const QUICK: u32 = 1_800;
    const THOROUGH: u32 = 120_000;
    const CHOICES: usize = 1200;
    const MAX_SHRINK: u32 = 700;
    fn gen(c: &mut Choices) -> ParseTs {
        parse_case(c, false)
    }
    fn show(case: &ParseTs) -> Value {
        json!({"grammar": case.spec.render(), "inputs": case.inputs})
    }
    fn check(case: &ParseTs, cx: &mut Cx) -> Outcome {
        let r = run_ts(case, |e| !matches!(e, Expect::Value(..) | Expect::TooLong(_)), cx)?;
        for (s, e, got) in r {
            cx.eval();
            match e {
                Expect::NonSentence(i) => {
                    cx.label("non-sentence");
                    cx.nontrivial_if(i >= 1);
                }
                Expect::NotTokens => cx.label("cannot be tokenised"),
                _ => cx.label("unsupported character"),
            }
            if !is_error(&got) {
                return Err(format!("{:?} is no sentence, but Parse of it is {}", s, short(&got.to_string())));
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------- C24

#[derive(Serialize, Deserialize, Clone)]
pub struct Arith {
    pub size: u32,
    /// name, number operands, list or text operand
    pub ops: Vec<Op>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Op {
    Cmp(String, u32, u32),
    Add(u32, u32),
    Sub(u32, u32),
    Succ(u32),
    Pred(u32),
    Substring(String, u32, u32),
    Reverse(Vec<Value>),
    Pop(Vec<Value>, u32),
    PopValues(Vec<Value>, u32),
    Space(String),
}

fn tuple(v: &[Value]) -> String {
    format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", "))
}

impl Op {
    fn expr(&self) -> String {
        match self {
            Op::Cmp(n, a, b) => format!("U.{}<{}, {}>", n, a, b),
            Op::Add(a, b) => format!("U.Add<{}, {}>", a, b),
            Op::Sub(a, b) => format!("U.Sub<{}, {}>", a, b),
            Op::Succ(a) => format!("U.Succ<{}>", a),
            Op::Pred(a) => format!("U.Pred<{}>", a),
            Op::Substring(s, a, b) => format!("U.Substring<{}, {}, {}>", ts::lit(s), a, b),
            Op::Reverse(v) => format!("U.Reverse<{}>", tuple(v)),
            Op::Pop(v, n) => format!("U.PopNStack<{}, {}>", tuple(v), n),
            Op::PopValues(v, n) => format!("U.PopNStackWithValue<{}, {}>", tuple(v), n),
            Op::Space(s) => format!("U.IsWhitespace<{}>", ts::lit(s)),
        }
    }
    fn value(&self) -> Value {
        match self {
            Op::Cmp(n, a, b) => json!(match n.as_str() {
                "Gte" => a >= b,
                "Gt" => a > b,
                "Lte" => a <= b,
                "Lt" => a < b,
                _ => a == b,
            }),
            Op::Add(a, b) => json!(a + b),
            Op::Sub(a, b) => json!(a - b),
            Op::Succ(a) => json!(a + 1),
            Op::Pred(a) => json!(a.saturating_sub(1)),
            Op::Substring(s, a, b) => json!(s.chars().skip(*a as usize).take((b - a) as usize).collect::<String>()),
            Op::Reverse(v) => Value::Array(v.iter().rev().cloned().collect()),
            Op::Pop(v, n) => Value::Array(v[*n as usize..].to_vec()),
            Op::PopValues(v, n) => {
                let n = *n as usize;
                json!([v[n..].to_vec(), v[..n].iter().rev().cloned().collect::<Vec<_>>()])
            }
            Op::Space(s) => json!(s == " " || s == "\n"),
        }
    }
}

fn number(c: &mut Choices) -> u32 {
    match c.below(6) {
        0 => c.below(4) as u32,
        1 | 2 => c.below(40) as u32,
        3 => c.below(300) as u32,
        4 => [0, 1, 127, 128, 255, 256, 400, 899][c.below(8)],
        _ => c.below(900) as u32,
    }
}

fn values(c: &mut Choices) -> Vec<Value> {
    let n = match c.below(4) {
        0 => c.below(3),
        1 | 2 => c.below(12),
        _ => c.below(60),
    };
    (0..n)
        .map(|i| match c.below(4) {
            0 => json!(i),
            1 => json!("a"),
            2 => json!(["x", i]),
            _ => json!({"k": i}),
        })
        .collect()
}

pub struct C24;

pub fn check_tables(size: u32) -> Outcome {
    let mut s = String::new();
    guard(|| typelalr::codegen::lex_gen::gen_arithmetic(&mut s, size)).map_err(|e| format!("gen_arithmetic({}): {}", size, e))?;
    let d = decls(&s, None)?;
    let table = |n: &str| -> Result<BTreeMap<u64, u64>, String> {
        d.types
            .get(n)
            .ok_or_else(|| format!("no {}", n))?
            .obj()?
            .into_iter()
            .map(|(k, v)| Ok((k.parse().map_err(|_| format!("{} key {}", n, k))?, v.num().ok_or("not a number")?)))
            .collect()
    };
    let succ: BTreeMap<u64, u64> = (0..size as u64).map(|i| (i, i + 1)).collect();
    let pred: BTreeMap<u64, u64> = (0..size as u64).map(|i| (i + 1, i)).collect();
    for (n, want) in [("SuccTable", succ), ("PredTable", pred)] {
        let got = table(n)?;
        if got != want {
            let x = got.iter().find(|(k, v)| want.get(k) != Some(v)).or(want.iter().find(|(k, v)| got.get(k) != Some(v)));
            return Err(format!("{} of size {}: {} entries, should be {}; {:?}", n, size, got.len(), want.len(), x));
        }
    }
    Ok(())
}

impl Prop for C24 {
    type Case = Arith;
    const ID: &'static str = "C24";
    const RULE: &'static str = "a table size (0 to about 6000), whose generated tables are read back and compared entry by entry, and 40 applications of the utility types to generated operands (numbers up to 900, up to 5000 where recursion is short; lists of up to 60 members of several types; texts of up to 60 characters), evaluated by the TypeScript compiler and compared with ordinary arithmetic and list operations. Non-trivial: every case.";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "operands stay within the tables (5000) and the compiler's recursion limit of 1000 steps; Sub is applied with the smaller number second, stacks are popped within their length, Pred of 0 is 0 as the code says",
    ];
    const QUICK: u32 = 1_600;
    const THOROUGH: u32 = 60_000;
    const CHOICES: usize = 900;
    const MAX_SHRINK: u32 = 500;
    fn gen(c: &mut Choices) -> Arith {
        let size = match c.below(4) {
            0 => c.below(4) as u32,
            1 => c.below(100) as u32,
            2 => c.below(1000) as u32,
            _ => c.below(6000) as u32,
        };
        let ops = (0..40)
            .map(|_| match c.weighted(&[8, 3, 3, 2, 2, 4, 2, 2, 3, 1]) {
                0 => {
                    let n = c.pick(&["Gte", "Gt", "Lte", "Lt", "Eq"]).to_string();
                    let a = number(c);
                    let b = match c.below(5) {
                        0 => a,
                        1 => a + 1,
                        2 => a.saturating_sub(1),
                        _ => number(c),
                    };
                    // one small operand is enough to stop early
                    let a = if b < 900 && c.chance(1, 12) { 4000 + c.below(1000) as u32 } else { a };
                    if c.chance(1, 2) {
                        Op::Cmp(n, a, b)
                    } else {
                        Op::Cmp(n, b, a)
                    }
                }
                1 => {
                    let b = number(c);
                    let a = if c.chance(1, 6) { c.below(4000) as u32 } else { number(c) };
                    Op::Add(a, b)
                }
                2 => {
                    let b = number(c);
                    let a = b + if c.chance(1, 6) { c.below(4000) as u32 } else { number(c) };
                    Op::Sub(a, b)
                }
                3 => Op::Succ(if c.chance(1, 2) { c.below(5000) as u32 } else { number(c) }),
                4 => Op::Pred(if c.chance(1, 2) { c.below(5001) as u32 } else { number(c) }),
                5 => {
                    let n = c.below(60);
                    let s: String = (0..n).map(|_| *c.pick(&['a', 'b', ' ', 'é', '"', '\\', '\n', '(', '$', '{', '中'])).collect();
                    let a = c.below(n + 1);
                    let b = c.range(a, n);
                    Op::Substring(s, a as u32, b as u32)
                }
                6 => Op::Reverse(values(c)),
                7 => {
                    let v = values(c);
                    let n = c.below(v.len() + 1) as u32;
                    Op::Pop(v, n)
                }
                8 => {
                    let v = values(c);
                    let n = c.below(v.len() + 1) as u32;
                    Op::PopValues(v, n)
                }
                _ => Op::Space(c.pick(&[" ", "\n", "a", "\u{e9}", "0", "_", "~"]).to_string()),
            })
            .collect();
        Arith { size, ops }
    }
    fn show(case: &Arith) -> Value {
        json!({"table size": case.size, "types": case.ops.iter().take(12).map(Op::expr).collect::<Vec<_>>()})
    }
    fn once(cx: &mut Cx) -> Outcome {
        // all small sizes
        for n in 0..200 {
            cx.eval();
            check_tables(n)?;
        }
        Ok(())
    }
    fn check(case: &Arith, cx: &mut Cx) -> Outcome {
        cx.nontrivial();
        cx.eval();
        check_tables(case.size)?;
        let r = ts::eval_bare(&named(case.ops.iter().map(Op::expr).collect()))?;
        for (op, got) in case.ops.iter().zip(r) {
            cx.eval();
            cx.label(op.expr().split('<').next().unwrap());
            if got != op.value() {
                return Err(format!("{} is {}, should be {}", short(&op.expr()), short(&got.to_string()), short(&op.value().to_string())));
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------- C25

#[derive(Serialize, Deserialize, Clone)]
pub struct Chars {
    /// of the checked-in table, or of the one the repository's writer makes now?
    pub fresh: bool,
    pub codes: Vec<u32>,
}

thread_local! {
    static FRESH: OnceCell<Result<String, String>> = const { OnceCell::new() };
}

/// The character table as written by the repository's own writer (its test `generate__`), run in
/// a scratch directory.
fn fresh_table() -> Result<String, String> {
    FRESH.with(|f| f.get_or_init(|| write_table()).clone())
}

fn write_table() -> Result<String, String> {
    use std::process::{Command, Stdio};
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    // cargo serialises concurrent builds in one target directory
    let out = Command::new("cargo")
        .args(["test", "--offline", "--lib", "--no-run", "--message-format=json", "--manifest-path"])
        .arg(format!("{}/Cargo.toml", ts::REPO))
        .env("CARGO_TARGET_DIR", format!("{}/harness/target/repo", root))
        .stdin(Stdio::null())
        .stderr(Stdio::null())
        .output()
        .map_err(|e| e.to_string())?;
    let text = String::from_utf8_lossy(&out.stdout);
    let exe = text
        .lines()
        .filter_map(|l| serde_json::from_str::<Value>(l).ok())
        .filter(|v| v["profile"]["test"] == json!(true))
        .find_map(|v| v["executable"].as_str().map(String::from))
        .ok_or("harness: the repository's tests could not be built")?;
    let dir = std::env::temp_dir().join(format!("vharness-chars-{}", std::process::id()));
    std::fs::create_dir_all(dir.join("ts")).map_err(|e| e.to_string())?;
    let st = Command::new(exe)
        .args(["generate__"])
        .current_dir(&dir)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status();
    let r = std::fs::read_to_string(dir.join("ts/chars.ts"));
    let _ = std::fs::remove_dir_all(&dir);
    match (st, r) {
        (Ok(st), Ok(s)) if st.success() => Ok(s),
        (st, r) => Err(format!("the table writer failed: {:?} {:?}", st, r.err())),
    }
}

pub struct C25;

impl Prop for C25 {
    type Case = Chars;
    const ID: &'static str = "C25";
    const RULE: &'static str = "both tables (the checked-in one and the one the repository's writer produces, run in a scratch directory) are read in full and must be inverse to each other, by code point, and contain all printable ASCII, space and newline; the two must list the same characters; then batches of codes are looked up in either table by the TypeScript compiler. Non-trivial: every case.";
    const ASSUMPTIONS: &'static [&'static str] = &["the writer is reachable only through the repository's test generate__"];
    const QUICK: u32 = 1_500;
    const THOROUGH: u32 = 4_000;
    const CHOICES: usize = 60;
    const MAX_SHRINK: u32 = 200;
    fn gen(c: &mut Choices) -> Chars {
        let fresh = c.chance(1, 2);
        let n = c.range(1, 40);
        let codes = (0..n).map(|_| c.below(300) as u32).collect();
        Chars { fresh, codes }
    }
    fn once(cx: &mut Cx) -> Outcome {
        let must: Vec<char> = (32u8..127).map(char::from).chain(['\n']).collect();
        let a = supported().map_err(|e| format!("checked-in table: {}", e))?;
        let b = char_table(&fresh_table()?).map_err(|e| format!("written table: {}", e))?;
        cx.label_n("supported characters", a.len() as u64);
        for (n, t) in [("checked-in", &a), ("written", &b)] {
            for c in &must {
                cx.eval();
                if !t.contains(c) {
                    return Err(format!("{} table: {:?} is missing", n, c));
                }
            }
        }
        if a != b {
            return Err(format!(
                "the checked-in table and the written one list different characters: {:?}",
                a.symmetric_difference(&b).take(5).collect::<Vec<_>>()
            ));
        }
        Ok(())
    }
    fn check(case: &Chars, cx: &mut Cx) -> Outcome {
        cx.nontrivial();
        let sup = supported().map_err(|e| format!("checked-in table: {}", e))?;
        let mut rq = json!({});
        if case.fresh {
            rq["chars"] = json!(fresh_table()? + "\n");
        }
        let mut exprs = vec![];
        for &k in &case.codes {
            let ch = char::from_u32(k).unwrap().to_string();
            exprs.push(format!("Verif_At<C.Characters, {}>", k));
            exprs.push(format!("Verif_At<C.CharTable, {}>", ts::lit(&ch)));
        }
        rq["exprs"] = json!(named(exprs));
        let r = ts::ask(&rq)?;
        for (i, &k) in case.codes.iter().enumerate() {
            cx.eval();
            let ch = char::from_u32(k).unwrap();
            let listed = sup.contains(&ch);
            cx.label(if listed { "supported" } else { "not supported" });
            let never = json!({"$never": true});
            let want = if listed { (json!(ch.to_string()), json!(k)) } else { (never.clone(), never) };
            let got = (&r["values"][format!("Verif_R{}", 2 * i)], &r["values"][format!("Verif_R{}", 2 * i + 1)]);
            if (got.0, got.1) != (&want.0, &want.1) {
                return Err(format!("code {}: the tables give {} and {}, should be {} and {}", k, got.0, got.1, want.0, want.1));
            }
        }
        Ok(())
    }
}
