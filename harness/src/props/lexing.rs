use crate::choices::Choices;
use crate::code::{collides, kind, regex_order, short, symbol_of, tok, with_grammar};
use crate::engine::{guard, Cx, Outcome, Prop};
use crate::gen::grammar::{self, join, term_text, GBody, GOpts, GRule, GSpec, GSym, Term};
use crate::gen::regex::{mutate, regex, sample, Alpha, RxOpts};
use crate::refs::lexer::RefLex;
use crate::refs::rx::{Esc, Rx};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeSet;
use typelalr::lalr::item::TokenIdx;
use typelalr::lalr::Lalr;
use typelalr::lex::lex::{Lex, Token, TokenDef};
use typelalr::parser::Grammar;

/// S: S T | T with T ranging over the given terminals, in rules split at random
pub fn universal(c: &mut Choices, o: &GOpts) -> GSpec {
    let n = if o.huge && c.chance(1, 250) {
        c.range(250, 330)
    } else if o.shapes > 0 && c.chance(1, 15) {
        c.range(9, 60)
    } else {
        c.range(1, 8)
    };
    let style = grammar::style(c, o);
    let terms = grammar::concrete_terms(c, n, style, o);
    let body = |syms: Vec<GSym>| GBody {
        syms: syms.into_iter().map(|s| (None, s)).collect(),
        code: "null".into(),
        m: None,
    };
    let rule = |start: bool, name: &str, bodies: Vec<GBody>| GRule {
        export: true,
        start,
        name: name.into(),
        ty: "any".into(),
        bodies,
        trailing: false,
    };
    let n = |s: &str| GSym::N(s.to_string());
    GSpec {
        rules: vec![
            rule(true, "S", vec![body(vec![n("S"), n("T")]), body(vec![n("T")])]),
            rule(false, "T", terms.into_iter().map(|t| body(vec![t])).collect()),
        ],
    }
}

/// text made of pieces matched by the definitions, prefixes of them, white space and noise
pub fn text_for(c: &mut Choices, defs: &[Rx], noise: &[char]) -> String {
    let n = if defs.is_empty() { 0 } else { c.range(0, 9) };
    let mut words = vec![];
    for _ in 0..n {
        let rx = c.pick(defs);
        let mut v = vec![];
        sample(c, rx, &mut v);
        if c.chance(1, 5) {
            let k = c.below(v.len() + 1);
            v.truncate(k);
        }
        v.truncate(14);
        words.push(v.into_iter().collect::<String>());
    }
    let s = join(c, &words);
    let mut v: Vec<char> = s.chars().collect();
    if c.chance(2, 5) {
        let mut al: Vec<char> = noise.to_vec();
        defs.iter().for_each(|d| d.alphabet(&mut al));
        let n = c.range(1, 2);
        for _ in 0..n {
            mutate(c, &mut v, &al);
        }
    }
    v.truncate(110);
    v.into_iter().collect()
}

const NOISE: &[char] = &['a', 'b', ' ', '\n', '\t', 'é', '中', '😀', '0', '(', '\u{0}'];

#[derive(Serialize, Deserialize, Clone)]
pub struct LexCase {
    /// definitions: regex, carries its text?
    pub defs: Vec<(Rx, bool)>,
    /// or a grammar
    pub spec: Option<GSpec>,
    pub inputs: Vec<String>,
}

fn compare(ctx: &str, input: &str, got: &[Token], names: &[String], vals: &[bool], rl: &RefLex, cx: &mut Cx) -> Outcome {
    let cs: Vec<char> = input.chars().collect();
    let r = rl.lex(&cs);
    let want: Vec<Token> = r
        .toks
        .iter()
        .map(|t| {
            let text: String = cs[t.start..t.end].iter().collect();
            tok(&names[t.def], if vals[t.def] { Some(&text) } else { None })
        })
        .collect();
    cx.eval();
    if r.ties > 0 {
        cx.label("input with a tie between definitions");
    }
    if r.stuck.is_some() {
        cx.label("input that cannot be tokenised to its end");
    }
    if r.skipped > 0 {
        cx.label("input with skipped white space");
    }
    if !input.is_ascii() {
        cx.label("non-ASCII input");
    }
    // some token is a proper prefix of a longer attempt
    cx.nontrivial_if(r.toks.len() >= 2 && names.len() >= 2);
    if got != want.as_slice() {
        return Err(format!("{}: {:?} tokenised as {:?}, should be {:?}", ctx, input, got, want));
    }
    Ok(())
}

pub struct C07;

impl Prop for C07 {
    type Case = LexCase;
    const ID: &'static str = "C07";
    const RULE: &'static str = "1-6 token definitions (random regexes over dense, ASCII and Unicode alphabets, with and without values, given to the lexer directly) or a grammar whose terminals are literals and regexes, and 4 inputs made of matches, prefixes of matches, white space and noise; the token list is compared with a reference maximal-munch lexer. Non-trivial: at least two definitions and an input with at least two tokens.";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "between two regexes of a grammar that match the same longest text the symbol table's order decides (the code sorts regexes by their text)",
    ];
    const QUICK: u32 = 80_000;
    const THOROUGH: u32 = 2_500_000;
    const CHOICES: usize = 500;
    fn gen(c: &mut Choices) -> LexCase {
        if c.chance(1, 3) {
            let o = GOpts { collisions: false, ..GOpts::default() };
            let spec = universal(c, &o);
            let b = spec.build();
            let rx: Vec<Rx> = b.terms.iter().skip(1).map(Term::rx).collect();
            let inputs = (0..4).map(|_| text_for(c, &rx, NOISE)).collect();
            return LexCase { defs: vec![], spec: Some(spec), inputs };
        }
        let n = c.range(1, 6);
        let alpha = *c.pick(&[Alpha::Small, Alpha::Small, Alpha::Ascii, Alpha::Uni]);
        let o = RxOpts { alpha, unsupported: false, depth: 3, empties: true };
        let defs: Vec<(Rx, bool)> = (0..n)
            .map(|_| {
                let d = c.range(1, 3);
                (regex(c, &o, d), c.chance(1, 2))
            })
            .collect();
        let rx: Vec<Rx> = defs.iter().map(|d| d.0.clone()).collect();
        let inputs = (0..4).map(|_| text_for(c, &rx, NOISE)).collect();
        LexCase { defs, spec: None, inputs }
    }
    fn show(case: &LexCase) -> Value {
        match &case.spec {
            Some(s) => json!({"grammar": s.render(), "inputs": case.inputs}),
            None => json!({"definitions": case.defs.iter().map(|(r, v)| json!([r.render(Esc::Full), v])).collect::<Vec<_>>(), "inputs": case.inputs}),
        }
    }
    fn check(case: &LexCase, cx: &mut Cx) -> Outcome {
        if let Some(spec) = &case.spec {
            cx.label("lexer of a grammar");
            let b = spec.build();
            if collides(&b) {
                return Ok(());
            }
            let r = with_grammar(&spec.render(), |_, _, g| -> Outcome {
                let lexer = Lex::from_grammar(&g);
                let (rl, idx) = b.lexer(&regex_order(&g));
                let names: Vec<String> = idx.iter().map(|&i| kind(&b.terms[i])).collect();
                for input in &case.inputs {
                    let got = guard(|| lexer.lex(input)).map_err(|e| format!("lex({:?}): {}", input, e))?;
                    compare("grammar", input, &got, &names, &vec![true; names.len()], &rl, cx)?;
                }
                Ok(())
            });
            return match r {
                Ok(r) => r,
                Err(e) => Err(format!("panic: {}", e)),
            };
        }
        cx.label("lexer of definitions");
        let mut tokens = vec![];
        for (i, (rx, v)) in case.defs.iter().enumerate() {
            match regex_syntax::Parser::new().parse(&rx.render(Esc::Full)) {
                Ok(h) => tokens.push((
                    TokenDef {
                        name: format!("t{}", i),
                        with_val: *v,
                        token_idx: None,
                    },
                    h,
                )),
                Err(_) => {
                    cx.label("not a regex for regex-syntax");
                    return Ok(());
                }
            }
        }
        let lexer = guard(|| Lex::from_tokens(tokens)).map_err(|e| format!("from_tokens: {}", e))?;
        let rl = RefLex {
            defs: case.defs.iter().map(|d| d.0.clone()).collect(),
        };
        let names: Vec<String> = (0..case.defs.len()).map(|i| format!("t{}", i)).collect();
        let vals: Vec<bool> = case.defs.iter().map(|d| d.1).collect();
        let shown: Vec<String> = case.defs.iter().map(|d| d.0.render(Esc::Full)).collect();
        for input in &case.inputs {
            let got = guard(|| lexer.lex(input)).map_err(|e| format!("{:?}: lex({:?}): {}", shown, input, e))?;
            compare(&format!("{:?}", shown), input, &got, &names, &vals, &rl, cx)?;
        }
        Ok(())
    }
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Texts {
    pub spec: GSpec,
    pub inputs: Vec<String>,
}

fn texts(c: &mut Choices, o: &GOpts, n: usize) -> Texts {
    let spec = universal(c, o);
    let b = spec.build();
    let rx: Vec<Rx> = b.terms.iter().skip(1).map(Term::rx).collect();
    let inputs = (0..n).map(|_| text_for(c, &rx, NOISE)).collect();
    Texts { spec, inputs }
}

pub struct C08;

impl Prop for C08 {
    type Case = Texts;
    const ID: &'static str = "C08";
    const RULE: &'static str = "a grammar accepting every non-empty sequence of its terminals (1-8 literals and regexes) and 4 inputs (matches, prefixes of matches, white space, noise). The tokens are laid back over the input (exact text, only spaces and newlines between them); the text left over must be empty or start where no terminal matches; and then parsing must be refused. Non-trivial: an input with at least two tokens, or a left-over text after at least one token.";
    const QUICK: u32 = 40_000;
    const THOROUGH: u32 = 800_000;
    const CHOICES: usize = 400;
    fn gen(c: &mut Choices) -> Texts {
        let o = GOpts { collisions: false, ..GOpts::default() };
        texts(c, &o, 4)
    }
    fn show(case: &Texts) -> Value {
        json!({"grammar": case.spec.render(), "inputs": case.inputs})
    }
    fn check(case: &Texts, cx: &mut Cx) -> Outcome {
        let b = case.spec.build();
        if collides(&b) {
            return Ok(());
        }
        let r = with_grammar(&case.spec.render(), |_, _, g| -> Outcome {
            let lexer = Lex::from_grammar(&g);
            let names: Vec<String> = b.terms.iter().skip(1).map(kind).collect();
            let lalr = match guard(|| Lalr::new(g)) {
                Ok(l) => Some(l),
                Err(_) => {
                    cx.label("no parser for the grammar (C14)");
                    None
                }
            };
            for input in &case.inputs {
                cx.eval();
                let got = guard(|| lexer.lex(input)).map_err(|e| format!("lex({:?}): {}", input, e))?;
                let cs: Vec<char> = input.chars().collect();
                // positions the tokens may end at
                let mut at = BTreeSet::from([0usize]);
                for (k, t) in got.iter().enumerate() {
                    let mut next = BTreeSet::new();
                    for &p in &at {
                        let mut st = p;
                        loop {
                            let mut text = String::new();
                            for q in st..cs.len() {
                                text.push(cs[q]);
                                if names.iter().any(|n| *t == tok(n, Some(&text))) {
                                    next.insert(q + 1);
                                }
                            }
                            if st < cs.len() && (cs[st] == ' ' || cs[st] == '\n') {
                                st += 1;
                            } else {
                                break;
                            }
                        }
                    }
                    if next.is_empty() {
                        return Err(format!("token {} of {:?} ({:?}) does not continue the input: {:?}", k, input, t, got));
                    }
                    at = next;
                }
                let mut ends = BTreeSet::new();
                for &p in &at {
                    let mut p = p;
                    loop {
                        if p == cs.len() {
                            ends.insert(None);
                            break;
                        }
                        let more = b.terms.iter().skip(1).any(|t| matches!(t.rx().longest(&cs[p..]), Some(n) if n > 0));
                        if more {
                            break;
                        }
                        if cs[p] == ' ' || cs[p] == '\n' {
                            p += 1;
                            continue;
                        }
                        ends.insert(Some(p));
                        break;
                    }
                }
                if ends.is_empty() {
                    return Err(format!("{:?}: text is dropped after the tokens {:?}", input, got));
                }
                cx.nontrivial_if(got.len() >= 2 || (!got.is_empty() && ends.iter().any(|e| e.is_some())));
                if ends.len() != 1 {
                    cx.label("ambiguous layout");
                    continue;
                }
                let stuck = ends.into_iter().next().unwrap();
                cx.label(match stuck {
                    None => "input tokenised to its end",
                    Some(_) => "input with text that cannot be tokenised",
                });
                if let (Some(p), Some(l)) = (stuck, &lalr) {
                    if guard(|| l.parse(input)).is_ok() {
                        return Err(format!("{:?} is accepted although nothing matches at character {} (tokens before it: {:?})", input, p, got));
                    }
                }
            }
            Ok(())
        });
        match r {
            Ok(r) => r,
            Err(e) => Err(format!("panic: {}", e)),
        }
    }
}

pub struct C09;

#[derive(Serialize, Deserialize, Clone)]
pub struct Conv {
    pub spec: GSpec,
    pub inputs: Vec<String>,
    /// terminals of a made-up token sequence
    pub seq: Vec<usize>,
}

impl Prop for C09 {
    type Case = Conv;
    const ID: &'static str = "C09";
    const RULE: &'static str = "a grammar with 1-8 literals and regexes, among them literals spelled like a regex of the grammar or like the end marker, and inputs over them plus a made-up token sequence; the converted sequence must keep tokens and order, carry the symbol number of the terminal recognised by a reference lexer, and end with the only end marker. Non-trivial: at least three tokens of two different terminals.";
    const QUICK: u32 = 100_000;
    const THOROUGH: u32 = 2_000_000;
    const CHOICES: usize = 400;
    fn gen(c: &mut Choices) -> Conv {
        let o = GOpts { styles: [1, 2, 4, 4], huge: true, ..GOpts::default() };
        let mut spec = universal(c, &o);
        if c.chance(1, 4) {
            // a literal with the text of a regex of the grammar
            let b = spec.build();
            let texts: Vec<String> = b.terms.iter().filter(|t| matches!(t, Term::R(_))).map(kind).collect();
            if !texts.is_empty() {
                let t = c.pick(&texts).clone();
                if !b.terms.contains(&Term::L(t.clone())) {
                    spec.rules[1].bodies.push(GBody { syms: vec![(None, GSym::L(t))], code: "null".into(), m: None });
                }
            }
        }
        let b = spec.build();
        let rx: Vec<Rx> = b.terms.iter().skip(1).map(Term::rx).collect();
        let mut inputs: Vec<String> = (0..2).map(|_| text_for(c, &rx, NOISE)).collect();
        // every terminal once
        let words: Vec<String> = b.terms.iter().skip(1).map(|t| term_text(c, t)).collect();
        inputs.push(words.join(" ").chars().take(110).collect());
        let n = c.below(8);
        let seq = (0..n).map(|_| 1 + c.below(b.terms.len() - 1)).collect();
        Conv { spec, inputs, seq }
    }
    fn show(case: &Conv) -> Value {
        json!({"grammar": case.spec.render(), "inputs": case.inputs, "sequence": case.seq})
    }
    fn check(case: &Conv, cx: &mut Cx) -> Outcome {
        let b = case.spec.build();
        if collides(&b) {
            cx.label("grammar with terminals of the same spelling");
        }
        let r = with_grammar(&case.spec.render(), |_, _, g| -> Outcome {
            let lexer = Lex::from_grammar(&g);
            let number = |t: usize| -> Result<TokenIdx, String> {
                let text = b.terms[t].text();
                g.get_token_idx(&symbol_of(&b.terms[t], &text))
                    .ok_or_else(|| format!("{:?} has no number", b.terms[t]))
            };
            let (rl, idx) = b.lexer(&regex_order(&g));
            for input in &case.inputs {
                let cs: Vec<char> = input.chars().collect();
                let toks = guard(|| lexer.lex(input)).map_err(|e| format!("lex({:?}): {}", input, e))?;
                let want = rl.lex(&cs);
                cx.eval();
                let conv = guard(|| lexer.convert_tokens(toks.clone())).map_err(|e| format!("convert_tokens({:?}): {}", toks, e))?;
                if want.toks.len() != toks.len() {
                    cx.label("not tokenised as expected (C07)");
                    shape(&toks, &conv)?;
                    continue;
                }
                let nums = want.toks.iter().map(|t| number(idx[t.def])).collect::<Result<Vec<_>, _>>()?;
                let kinds: BTreeSet<u32> = nums.iter().map(|n| n.0).collect();
                cx.nontrivial_if(nums.len() >= 3 && kinds.len() >= 2);
                shape(&toks, &conv)?;
                for (i, n) in nums.iter().enumerate() {
                    if conv[i].1 != *n {
                        return Err(format!(
                            "{:?}: token {} ({:?}) was recognised as {:?}, number {}, and is passed on as number {}",
                            input, i, toks[i], b.terms[idx[want.toks[i].def]], n.0, conv[i].1 .0
                        ));
                    }
                }
            }
            if !collides(&b) {
                let toks: Vec<Token> = case
                    .seq
                    .iter()
                    .enumerate()
                    .map(|(i, &t)| tok(&kind(&b.terms[t]), if i % 2 == 0 { Some("v") } else { None }))
                    .collect();
                cx.eval();
                let conv = guard(|| lexer.convert_tokens(toks.clone())).map_err(|e| format!("convert_tokens({:?}): {}", toks, e))?;
                shape(&toks, &conv)?;
                for (i, &t) in case.seq.iter().enumerate() {
                    if conv[i].1 != number(t)? {
                        return Err(format!("made-up token {:?} gets number {}", toks[i], conv[i].1 .0));
                    }
                }
            }
            Ok(())
        });
        match r {
            Ok(r) => r,
            Err(e) => Err(format!("panic: {}", short(&e))),
        }
    }
}

fn shape(toks: &[Token], conv: &[(Token, TokenIdx)]) -> Outcome {
    if conv.len() != toks.len() + 1 {
        return Err(format!("{} tokens became {}: {:?}", toks.len(), conv.len(), conv));
    }
    for (i, t) in toks.iter().enumerate() {
        if conv[i].0 != *t {
            return Err(format!("token {} changed from {:?} to {:?}", i, t, conv[i].0));
        }
        if conv[i].1 == Grammar::EOF_TOKEN_IDX {
            return Err(format!("token {} ({:?}) is passed on as the end marker", i, t));
        }
    }
    if conv[toks.len()].1 != Grammar::EOF_TOKEN_IDX {
        return Err(format!("the sequence ends with number {}", conv[toks.len()].1 .0));
    }
    Ok(())
}
