//! Result types and mapping code for generated grammars: valid TypeScript with a known meaning.
use crate::choices::Choices;
use crate::gen::grammar::{GSpec, GSym};
use crate::refs::mapping::M;
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Mode {
    Any,
    /// exactly the union of what the alternatives yield
    Precise,
    Str,
    /// any[]
    Arr,
    /// { kind: string, v: any }
    Obj,
}

/// what a label holds
#[derive(Clone, Debug)]
enum L {
    /// matched text: of a literal, or of a regex
    Text(Option<String>),
    Nt(String, Mode),
}

const TEXTS: &[&str] = &[
    "a", "kind", "", "x y", "\"", "\\", "'", "`", "(", ")", "=>", "é", "${x}", "1", "*/", "//", "λ", "\t", "\n",
];
const KEYS: &[&str] = &["kind", "left", "right", "value", "v", "items", "x", "_a", "token"];

pub fn str_lit(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}

/// the text a literal of the grammar matches: the two characters backslash quote are both part of it
fn scalar(c: &mut Choices) -> M {
    match c.below(5) {
        0 => M::Str(c.pick(TEXTS).to_string()),
        1 => M::Num([0, 1, 42, -1, 1000000][c.below(5)]),
        2 => M::Bool(c.chance(1, 2)),
        3 => M::Null,
        _ => M::Str(c.pick(KEYS).to_string()),
    }
}

fn texts(env: &[(String, L)]) -> Vec<String> {
    env.iter()
        .filter(|(_, l)| matches!(l, L::Text(_) | L::Nt(_, Mode::Str)))
        .map(|e| e.0.clone())
        .collect()
}

fn keys(c: &mut Choices, n: usize) -> Vec<String> {
    let k = c.below(KEYS.len());
    (0..n).map(|i| KEYS[(k + i) % KEYS.len()].to_string()).collect()
}

/// something of any type
fn any(c: &mut Choices, env: &[(String, L)], depth: usize) -> M {
    if depth == 0 {
        return if !env.is_empty() && c.chance(2, 3) { M::Label(c.pick(env).0.clone()) } else { scalar(c) };
    }
    match c.weighted(&[4, 4, 4, 2, 2, 1]) {
        0 if !env.is_empty() => M::Label(c.pick(env).0.clone()),
        1 => {
            let n = c.range(0, 3);
            M::Obj(keys(c, n).into_iter().map(|k| (k, any(c, env, depth - 1))).collect())
        }
        2 => arr(c, env, depth),
        3 => {
            let t = texts(env);
            if t.is_empty() {
                return scalar(c);
            }
            tpl(c, &t)
        }
        4 => {
            let o: Vec<&String> = env.iter().filter(|(_, l)| matches!(l, L::Nt(_, Mode::Obj))).map(|e| &e.0).collect();
            if o.is_empty() {
                return scalar(c);
            }
            let l = c.pick(&o).to_string();
            M::Index(l, c.pick(&["kind", "v"]).to_string())
        }
        _ => scalar(c),
    }
}

fn tpl(c: &mut Choices, t: &[String]) -> M {
    let pre = c.pick(&["", "<", "a ", "'", "é"]).to_string();
    let l = c.pick(t).clone();
    M::Tpl(pre, l, c.pick(&["", ">", " b", "\"", "1"]).to_string())
}

fn arr(c: &mut Choices, env: &[(String, L)], depth: usize) -> M {
    let n = c.range(0, 3);
    let spreadable: Vec<String> = env.iter().filter(|(_, l)| matches!(l, L::Nt(_, Mode::Arr))).map(|e| e.0.clone()).collect();
    let mut v: Vec<(M, bool)> = (0..n).map(|_| (any(c, env, depth.saturating_sub(1)), false)).collect();
    for s in spreadable {
        if c.chance(3, 4) {
            let at = if c.chance(1, 2) { v.len() } else { c.below(v.len() + 1) };
            v.insert(at, (M::Label(s), true));
        }
    }
    M::Tup(v)
}

/// a mapping and the TypeScript type of what it yields
fn precise(c: &mut Choices, env: &[(String, L)]) -> (M, String) {
    let part = |c: &mut Choices| -> (M, String) {
        if !env.is_empty() && c.chance(4, 5) {
            let (n, l) = c.pick(env);
            let ty = match l {
                L::Text(Some(s)) => {
                    if c.chance(1, 2) {
                        str_lit(s)
                    } else {
                        "string".into()
                    }
                }
                L::Text(None) => "string".into(),
                L::Nt(n, _) => n.clone(),
            };
            (M::Label(n.clone()), ty)
        } else {
            let m = scalar(c);
            let ty = match &m {
                M::Str(_) if c.chance(1, 2) => "string".to_string(),
                M::Num(_) if c.chance(1, 2) => "number".into(),
                m => m.render(),
            };
            (m, ty)
        }
    };
    if c.chance(1, 4) {
        let n = c.range(0, 3);
        let ps: Vec<(M, String)> = (0..n).map(|_| part(c)).collect();
        let ty = format!("[{}]", ps.iter().map(|p| p.1.clone()).collect::<Vec<_>>().join(", "));
        return (M::Tup(ps.into_iter().map(|p| (p.0, false)).collect()), ty);
    }
    let n = c.range(1, 3);
    let ks = keys(c, n);
    let ps: Vec<(String, (M, String))> = ks.into_iter().map(|k| (k, part(c))).collect();
    let ty = format!("{{ {} }}", ps.iter().map(|(k, p)| format!("{}: {}", k, p.1)).collect::<Vec<_>>().join(", "));
    (M::Obj(ps.into_iter().map(|(k, p)| (k, p.0)).collect()), ty)
}

/// Give every rule a type and every alternative a mapping. Rules of the same name get the type of
/// the first.
pub fn decorate(c: &mut Choices, s: &mut GSpec) {
    let style = c.below(4); // 0: all any
    let mut modes: BTreeMap<String, Mode> = BTreeMap::new();
    for r in &s.rules {
        let m = if style == 0 {
            Mode::Any
        } else {
            [Mode::Any, Mode::Precise, Mode::Str, Mode::Arr, Mode::Obj][c.weighted(&[2, 5, 2, 3, 2])]
        };
        modes.entry(r.name.clone()).or_insert(m);
    }
    let mut precise_types: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for r in s.rules.iter_mut() {
        let mode = modes[&r.name];
        for b in r.bodies.iter_mut() {
            let env: Vec<(String, L)> = b
                .syms
                .iter()
                .filter_map(|(l, s)| {
                    let l = l.clone()?;
                    Some((
                        l,
                        match s {
                            GSym::L(t) => L::Text(Some(t.clone())),
                            GSym::R(_) => L::Text(None),
                            GSym::N(n) => L::Nt(n.clone(), modes.get(n).copied().unwrap_or(Mode::Any)),
                        },
                    ))
                })
                .collect();
            let m = match mode {
                Mode::Any => any(c, &env, 2),
                Mode::Str => {
                    let t = texts(&env);
                    if t.is_empty() {
                        M::Str(c.pick(TEXTS).to_string())
                    } else if c.chance(1, 2) {
                        M::Label(c.pick(&t).clone())
                    } else {
                        tpl(c, &t)
                    }
                }
                Mode::Arr => arr(c, &env, 2),
                Mode::Obj => {
                    let t = texts(&env);
                    let k = if t.is_empty() || c.chance(1, 2) { M::Str(c.pick(TEXTS).to_string()) } else { M::Label(c.pick(&t).clone()) };
                    M::Obj(vec![("kind".into(), k), ("v".into(), any(c, &env, 1))])
                }
                Mode::Precise => {
                    let (m, ty) = precise(c, &env);
                    let v = precise_types.entry(r.name.clone()).or_default();
                    if !v.contains(&ty) {
                        v.push(ty);
                    }
                    m
                }
            };
            b.code = m.render();
            b.m = Some(m);
        }
    }
    for r in s.rules.iter_mut() {
        r.ty = match modes[&r.name] {
            Mode::Any => "any".into(),
            Mode::Str => "string".into(),
            Mode::Arr => "any[]".into(),
            Mode::Obj => "{ kind: string, v: any }".into(),
            Mode::Precise => match precise_types.get(&r.name) {
                Some(v) => v.join(" | "),
                None => "null".into(),
            },
        };
    }
}
