//! Declared result types: values of another type are no result.
use crate::choices::Choices;
use crate::code::{regex_order, short, with_grammar};
use crate::engine::{guard, Cx, Outcome, Prop};
use crate::gen::grammar::{input, GBody, GOpts, GSpec, GSym, InputKind};
use crate::gen::typed::str_lit;
use crate::props::lalr::MAX_LR1;
use crate::props::types::{evaluate, is_error, named, supported, ts_spec, STEPS};
use crate::refs::mapping::M;
use crate::ts;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use typelalr::lalr::Lalr;

/// a declared type
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Ty {
    Any,
    Unknown,
    Str,
    Lit(String),
    Num,
    NumLit(i64),
    Bool,
    Null,
    Arr(Box<Ty>),
    Tup(Vec<Ty>),
    /// at least one member
    Obj(Vec<(String, Ty)>),
    Union(Vec<Ty>),
    /// another rule, below an object, array or tuple
    Ref(String),
}

impl Ty {
    fn render(&self) -> String {
        match self {
            Ty::Any => "any".into(),
            Ty::Unknown => "unknown".into(),
            Ty::Str => "string".into(),
            Ty::Lit(s) => str_lit(s),
            Ty::Num => "number".into(),
            Ty::NumLit(n) => n.to_string(),
            Ty::Bool => "boolean".into(),
            Ty::Null => "null".into(),
            Ty::Arr(t) => format!("Array<{}>", t.render()),
            Ty::Tup(v) => format!("[{}]", v.iter().map(Ty::render).collect::<Vec<_>>().join(", ")),
            Ty::Obj(v) => format!("{{ {} }}", v.iter().map(|(k, t)| format!("{}: {}", k, t.render())).collect::<Vec<_>>().join(", ")),
            Ty::Union(v) => v.iter().map(Ty::render).collect::<Vec<_>>().join(" | "),
            Ty::Ref(n) => n.clone(),
        }
    }
}

/// Is a value of the type? What lies `deep` or more levels down is taken to be.
fn of_type(v: &Value, t: &Ty, types: &BTreeMap<String, Ty>, deep: usize) -> bool {
    if deep == 0 {
        return true;
    }
    match t {
        Ty::Any | Ty::Unknown => true,
        Ty::Str => v.is_string(),
        Ty::Lit(s) => v == s,
        Ty::Num => v.is_number(),
        Ty::NumLit(n) => *v == json!(n),
        Ty::Bool => v.is_boolean(),
        Ty::Null => v.is_null(),
        Ty::Arr(t) => v.as_array().map_or(false, |v| v.iter().all(|x| of_type(x, t, types, deep - 1))),
        Ty::Tup(ts) => v.as_array().map_or(false, |v| v.len() == ts.len() && v.iter().zip(ts).all(|(x, t)| of_type(x, t, types, deep - 1))),
        Ty::Obj(ts) => v.as_object().map_or(false, |o| ts.iter().all(|(k, t)| o.get(k).map_or(false, |x| of_type(x, t, types, deep - 1)))),
        Ty::Union(ts) => ts.iter().any(|t| of_type(v, t, types, deep)),
        Ty::Ref(n) => of_type(v, &types[n], types, deep),
    }
}

const KEYS: &[&str] = &["kind", "left", "right", "value", "v", "x"];
const TEXTS: &[&str] = &["a", "add", "", "x y", "é", "1", "token"];

type Env = [(String, GSym)];

fn scalar(c: &mut Choices) -> M {
    match c.below(4) {
        0 | 1 => M::Str(c.pick(TEXTS).to_string()),
        2 => M::Num([0, 1, 42, -1][c.below(4)]),
        _ => {
            if c.chance(1, 2) {
                M::Null
            } else {
                M::Bool(c.chance(1, 2))
            }
        }
    }
}

fn mapping(c: &mut Choices, env: &Env, depth: usize) -> M {
    match c.weighted(&[5, if depth > 0 { 4 } else { 0 }, if depth > 0 { 3 } else { 0 }, 2]) {
        0 if !env.is_empty() => M::Label(c.pick(env).0.clone()),
        1 => {
            let n = c.range(1, 3);
            let k = c.below(KEYS.len());
            M::Obj((0..n).map(|i| (KEYS[(k + i) % KEYS.len()].to_string(), mapping(c, env, depth - 1))).collect())
        }
        2 => {
            let n = c.below(4);
            M::Tup((0..n).map(|_| (mapping(c, env, depth - 1), false)).collect())
        }
        _ => scalar(c),
    }
}

/// a type the values of the mapping have
fn type_of(c: &mut Choices, m: &M, env: &Env, top: bool) -> Ty {
    if c.chance(1, 14) {
        return [Ty::Any, Ty::Unknown][c.below(2)].clone();
    }
    match m {
        M::Str(s) => {
            if c.chance(1, 2) {
                Ty::Lit(s.clone())
            } else {
                Ty::Str
            }
        }
        M::Num(n) => {
            if c.chance(1, 2) {
                Ty::NumLit(*n)
            } else {
                Ty::Num
            }
        }
        M::Bool(_) => Ty::Bool,
        M::Null => Ty::Null,
        M::Label(l) => match env.iter().find(|e| e.0 == *l).map(|e| &e.1) {
            Some(GSym::L(s)) if c.chance(2, 3) => Ty::Lit(s.clone()),
            Some(GSym::N(n)) => {
                if top {
                    [Ty::Any, Ty::Unknown][c.below(2)].clone()
                } else {
                    Ty::Ref(n.clone())
                }
            }
            _ => Ty::Str,
        },
        M::Obj(v) => {
            let mut o: Vec<(String, Ty)> = v.iter().map(|(k, m)| (k.clone(), type_of(c, m, env, false))).collect();
            // a member too many is no harm
            if o.len() > 1 && c.chance(1, 4) {
                let i = c.below(o.len());
                o.remove(i);
            }
            if c.chance(1, 4) {
                o.reverse();
            }
            Ty::Obj(o)
        }
        M::Tup(v) => {
            let ts: Vec<Ty> = v.iter().map(|(m, _)| type_of(c, m, env, false)).collect();
            if c.chance(1, 3) {
                let mut u: Vec<Ty> = vec![];
                for t in ts {
                    if !u.contains(&t) {
                        u.push(t);
                    }
                }
                Ty::Arr(Box::new(match u.len() {
                    0 => Ty::Str,
                    1 => u.remove(0),
                    _ => Ty::Union(u),
                }))
            } else {
                Ty::Tup(ts)
            }
        }
        _ => Ty::Any,
    }
}

/// change a type in one place
fn spoil(c: &mut Choices, t: &Ty, rules: &[String], top: bool) -> Ty {
    match t {
        Ty::Obj(v) if c.chance(3, 4) => {
            let mut v = v.clone();
            let i = c.below(v.len());
            match c.below(4) {
                0 => v[i].0 = KEYS.iter().find(|k| v.iter().all(|x| x.0 != **k)).unwrap_or(&"z").to_string(),
                1 if v.len() < KEYS.len() => {
                    let k = KEYS.iter().find(|k| v.iter().all(|x| x.0 != **k)).unwrap_or(&"z").to_string();
                    v.push((k, Ty::Str));
                }
                _ => v[i].1 = spoil(c, &v[i].1, rules, false),
            }
            Ty::Obj(v)
        }
        Ty::Tup(v) if c.chance(3, 4) => {
            let mut v = v.clone();
            match c.below(4) {
                0 if !v.is_empty() => {
                    let i = c.below(v.len());
                    v.remove(i);
                }
                1 => v.push(Ty::Str),
                2 if v.len() >= 2 => v.reverse(),
                _ if !v.is_empty() => {
                    let i = c.below(v.len());
                    v[i] = spoil(c, &v[i], rules, false);
                }
                _ => v.push(Ty::Null),
            }
            Ty::Tup(v)
        }
        Ty::Arr(t) if c.chance(3, 4) => Ty::Arr(Box::new(spoil(c, t, rules, false))),
        Ty::Union(v) if c.chance(3, 4) => {
            let mut v = v.clone();
            let i = c.below(v.len());
            if c.chance(1, 2) && v.len() >= 2 {
                v.remove(i);
            } else {
                v[i] = spoil(c, &v[i], rules, top);
            }
            Ty::Union(v)
        }
        Ty::Str => {
            if c.chance(1, 2) {
                Ty::Lit(c.pick(TEXTS).to_string())
            } else {
                Ty::Num
            }
        }
        Ty::Lit(s) => Ty::Lit(format!("{}{}", s, c.pick(&["x", " ", "1"]))),
        Ty::Num => Ty::NumLit(7),
        Ty::NumLit(n) => Ty::NumLit(n + 1),
        _ => match c.below(if top { 5 } else { 7 }) {
            0 => Ty::Str,
            1 => Ty::Num,
            2 => Ty::Null,
            3 => Ty::Tup(vec![]),
            4 => Ty::Obj(vec![("kind".into(), Ty::Str)]),
            _ => Ty::Ref(c.pick(rules).clone()),
        },
    }
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Declared {
    pub spec: GSpec,
    pub types: BTreeMap<String, Ty>,
    pub inputs: Vec<String>,
}

pub struct C27;

fn env_of(b: &GBody) -> Vec<(String, GSym)> {
    b.syms.iter().filter_map(|(l, s)| Some((l.clone()?, s.clone()))).collect()
}

impl Prop for C27 {
    type Case = Declared;
    const ID: &'static str = "C27";
    const RULE: &'static str = "LALR(1) grammars whose rules declare types of every form (literals, unions, objects, arrays, tuples, other rules, any, unknown) derived from the mapping code and then, often, changed in one place or replaced, and 4 inputs, mostly sentences; Parse<Lex<input>> is evaluated by the TypeScript compiler. The reference runs the reduction sequence and compares every value with the type declared for its rule: if all are of their types, the result must be the value; else it must be an error. Non-trivial: a sentence whose first value of another type comes after the first reduction, or a sentence with at least 4 reductions all of whose values are of their types.";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "mapping code is of literals, labels, objects and tuples; a sentence is skipped where the answer depends on what lies five or more levels down in a value, since the compiler takes deeply nested recursive types to agree",
        "a sentence takes at most 49 shifts and reductions",
    ];
    const QUICK: u32 = 2_000;
    const THOROUGH: u32 = 120_000;
    const CHOICES: usize = 1200;
    const MAX_SHRINK: u32 = 700;
    fn gen(c: &mut Choices) -> Declared {
        let o = GOpts { ts: true, shapes: 0, styles: [3, 4, 5, 2], ..GOpts::default() };
        let mut spec = ts_spec(c, &o);
        let names: Vec<String> = spec.rules.iter().map(|r| r.name.clone()).collect();
        let mut by_rule: BTreeMap<String, Vec<Ty>> = BTreeMap::new();
        for r in spec.rules.iter_mut() {
            for b in r.bodies.iter_mut() {
                let env = env_of(b);
                let m = mapping(c, &env, 2);
                let t = type_of(c, &m, &env, true);
                let v = by_rule.entry(r.name.clone()).or_default();
                if !v.contains(&t) {
                    v.push(t);
                }
                b.code = m.render();
                b.m = Some(m);
            }
        }
        let mut types: BTreeMap<String, Ty> =
            by_rule.into_iter().map(|(k, mut v)| (k, if v.len() == 1 { v.remove(0) } else { Ty::Union(v) })).collect();
        // none, one or a few rules that declare something else
        let n = [0, 1, 1, 2, 3][c.below(5)];
        for _ in 0..n {
            let k = c.pick(&names).clone();
            let t = spoil(c, &types[&k], &names, true);
            types.insert(k, t);
        }
        for r in spec.rules.iter_mut() {
            r.ty = types[&r.name].render();
        }
        let b = spec.build();
        let inputs = (0..4)
            .map(|_| {
                let n = [10, 16, 24][c.below(3)];
                let mut s = input(c, &b, n, true);
                for _ in 0..3 {
                    if s.0 == InputKind::Sentence {
                        break;
                    }
                    s = input(c, &b, n, true);
                }
                s.1
            })
            .collect();
        Declared { spec, types, inputs }
    }
    fn show(case: &Declared) -> Value {
        json!({"grammar": case.spec.render(), "inputs": case.inputs})
    }
    fn check(case: &Declared, cx: &mut Cx) -> Outcome {
        let b = case.spec.build();
        let Some(lr1) = b.cfg.lr1(MAX_LR1) else { return Ok(()) };
        let Ok(t) = b.cfg.lalr(&lr1) else {
            cx.label("not LALR(1)");
            return Ok(());
        };
        let sup = supported()?;
        let start = case.spec.rules.iter().find(|r| r.start).unwrap().name.clone();
        let r = with_grammar(&case.spec.render(), |bump, ast, g| -> Outcome {
            let (rl, idx) = b.lexer(&regex_order(&g));
            let mut todo = vec![];
            for s in &case.inputs {
                let cs: Vec<char> = s.chars().collect();
                let l = rl.lex(&cs);
                if l.stuck.is_some() || cs.iter().any(|c| !sup.contains(c)) {
                    continue;
                }
                let toks: Vec<(usize, String)> = l.toks.iter().map(|t| (idx[t.def], cs[t.start..t.end].iter().collect())).collect();
                let (mut n, mut bad, mut unclear) = (0, None, false);
                let r = evaluate(&case.spec, &b, &t, &toks, &mut |p, v| {
                    let ty = &case.types[&case.spec.body_of(p).0.name];
                    let exact = of_type(v, ty, &case.types, 200);
                    // one level belongs to the symbol
                    if !exact && of_type(v, ty, &case.types, 4) && bad.is_none() {
                        unclear = true;
                    }
                    if !exact && bad.is_none() {
                        bad = Some((n, v.clone(), ty.render()));
                    }
                    n += 1;
                });
                match r {
                    Ok((Some(v), steps)) if steps <= STEPS => {
                        if unclear {
                            cx.label("skipped: deep");
                            continue;
                        }
                        cx.label(if bad.is_some() { "a value of another type" } else { "values of their types" });
                        cx.nontrivial_if(bad.as_ref().map_or(n >= 4, |b| b.0 >= 1));
                        todo.push((s, v, bad));
                    }
                    _ => continue,
                }
            }
            if todo.is_empty() {
                return Ok(());
            }
            let lalr = guard(|| Lalr::new(g)).map_err(|e| format!("an LALR(1) grammar is refused: {}", e))?;
            let (lex, parse) = guard(|| typelalr::codegen::parse_gen::generate(bump, ast, &lalr))
                .map_err(|e| format!("generate: {}", e))?
                .map_err(|e| e.to_string())?;
            let exprs = todo.iter().map(|(s, ..)| format!("Parse<L.Lex<{}>>", ts::lit(s))).collect();
            let r = ts::eval(&lex, &parse, &named(exprs))?;
            for ((s, v, bad), got) in todo.into_iter().zip(r) {
                cx.eval();
                let want = json!([{"kind": start, "value": v}]);
                match bad {
                    None if got != want => {
                        return Err(format!("Parse of {:?} is {}, should be {}", s, short(&got.to_string()), short(&want.to_string())));
                    }
                    Some((k, v, t)) if !is_error(&got) => {
                        return Err(format!(
                            "Parse of {:?} is {}, should be an error: the value {} of reduction {} is not of the declared type {}",
                            s,
                            short(&got.to_string()),
                            short(&v.to_string()),
                            k,
                            short(&t)
                        ));
                    }
                    _ => {}
                }
            }
            Ok(())
        });
        match r {
            Ok(r) => r,
            Err(e) => Err(format!("panic: {}", short(&e))),
        }
    }
}
