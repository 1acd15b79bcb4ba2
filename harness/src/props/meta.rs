//! Rewritings of a grammar text that must not change anything.
use crate::choices::Choices;
use crate::code::{short, with_grammar};
use crate::engine::{guard, Cx, Outcome, Prop};
use crate::gen::grammar::{gspec, input, GOpts, GSpec};
use crate::gen::layout::layout;
use crate::props::lalr::MAX_LR1;
use crate::props::types::rename;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use typelalr::lalr::Lalr;

#[derive(Serialize, Deserialize, Clone)]
pub struct Rewrites {
    pub spec: GSpec,
    /// what was done, text
    pub texts: Vec<(String, String)>,
    pub inputs: Vec<String>,
}

const NAMES: &[&str] = &[
    "Z", "A", "a", "z", "_", "__", "S", "start_", "exported", "R1", "r1", "M", "m", "X9", "B", "Aa", "AA", "aA", "EOF", "S_", "zz", "Expr", "k",
];

fn shuffle<T>(c: &mut Choices, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        v.swap(i, c.below(i + 1));
    }
}

fn rewrite(c: &mut Choices, base: &GSpec) -> (String, GSpec) {
    let mut s = base.clone();
    let mut what = vec![];
    let mut on = [false; 6];
    let pick = c.below(7);
    for (i, x) in on.iter_mut().enumerate() {
        // one at a time, or any combination
        *x = if pick < 6 { i == pick } else { c.chance(1, 2) };
    }
    if on[0] {
        what.push("rules renamed");
        let mut pool: Vec<String> = NAMES.iter().map(|n| n.to_string()).collect();
        shuffle(c, &mut pool);
        let mut map = BTreeMap::new();
        for r in &base.rules {
            let n = map.len();
            map.entry(r.name.clone()).or_insert_with(|| match pool.get(n) {
                Some(p) => p.clone(),
                None => format!("Q{}", n),
            });
        }
        rename(&mut s, &map);
    }
    if on[1] {
        what.push("labels changed");
        for r in s.rules.iter_mut() {
            for b in r.bodies.iter_mut() {
                for (k, (l, _)) in b.syms.iter_mut().enumerate() {
                    *l = match c.below(3) {
                        0 => None,
                        1 => Some(format!("l{}", k)),
                        _ => Some(c.pick(NAMES).to_string()),
                    };
                }
            }
        }
    }
    if on[2] {
        what.push("alternatives reordered");
        for r in s.rules.iter_mut() {
            shuffle(c, &mut r.bodies);
        }
    }
    if on[3] {
        what.push("rules split");
        let mut out = vec![];
        for r in s.rules {
            if r.bodies.len() < 2 || c.chance(1, 4) {
                out.push(r);
                continue;
            }
            let at = 1 + c.below(r.bodies.len() - 1);
            let (mut a, mut b) = (r.clone(), r);
            a.bodies.truncate(at);
            b.bodies.drain(..at);
            a.trailing &= !a.bodies.is_empty();
            if c.chance(1, 2) {
                a.start = false;
            } else {
                b.start = false;
            }
            out.push(a);
            out.push(b);
        }
        s.rules = out;
    }
    if on[4] {
        what.push("rules reordered");
        shuffle(c, &mut s.rules);
    }
    if on[5] {
        what.push("export and trailing commas changed");
        for r in s.rules.iter_mut() {
            r.export = c.chance(1, 2);
            r.trailing = !r.bodies.is_empty() && c.chance(1, 2);
        }
    }
    (what.join(", "), s)
}

pub struct C26;

fn observe(text: &str, inputs: &[String]) -> Result<Option<Vec<bool>>, String> {
    // a text that cannot be read is different from a grammar without a parser
    guard(|| {
        let bump = bumpalo::Bump::new();
        typelalr::parse_grammar(&bump, text);
    })
    .map_err(|e| format!("cannot be read: {}", short(&e)))?;
    Ok(with_grammar(text, |_, _, g| {
        let lalr = Lalr::new(g);
        inputs.iter().map(|s| guard(|| lalr.parse(s)).is_ok()).collect()
    })
    .ok())
}

impl Prop for C26 {
    type Case = Rewrites;
    const ID: &'static str = "C26";
    const RULE: &'static str = "a random or template grammar (accepted or not), 5 inputs (sentences, mutated ones, noise) and 4 rewritings of its text: rules renamed, labels added, removed and renamed, alternatives reordered, rules split into definitions of one name, rules reordered, export keywords and trailing commas changed (one of these, or several), in any layout; the original and every rewriting must be accepted alike, and parse must accept the same inputs. Non-trivial: an accepted grammar with an accepted input, or a refused grammar.";
    const ASSUMPTIONS: &'static [&'static str] = &["the start keyword stays on one of the definitions of the start rule"];
    const QUICK: u32 = 20_000;
    const THOROUGH: u32 = 600_000;
    const CHOICES: usize = 900;
    const MAX_SHRINK: u32 = 2_000;
    fn gen(c: &mut Choices) -> Rewrites {
        let o = GOpts { styles: [4, 3, 4, 3], ..GOpts::default() };
        let spec = gspec(c, &o);
        let b = spec.build();
        let inputs = (0..5).map(|_| input(c, &b, 12, false).1).collect();
        let texts = (0..4)
            .map(|i| {
                let (what, s) = if i == 0 { ("laid out differently".to_string(), spec.clone()) } else { rewrite(c, &spec) };
                let text = if i == 0 || c.chance(1, 3) { layout(c, &s.pieces()) } else { s.render() };
                (what, text)
            })
            .collect();
        Rewrites { spec, texts, inputs }
    }
    fn show(case: &Rewrites) -> Value {
        json!({"grammar": case.spec.render(), "rewritings": case.texts, "inputs": case.inputs})
    }
    fn check(case: &Rewrites, cx: &mut Cx) -> Outcome {
        if case.spec.build().cfg.lr1(MAX_LR1).is_none() {
            cx.label("collection too large");
            return Ok(());
        }
        let a = observe(&case.spec.render(), &case.inputs).map_err(|e| format!("the grammar {}", e))?;
        cx.label(if a.is_some() { "accepted grammar" } else { "refused grammar" });
        cx.nontrivial_if(a.as_ref().map_or(true, |v| v.iter().any(|x| *x)));
        for (what, t) in &case.texts {
            cx.eval();
            for w in what.split(", ") {
                cx.label(w);
            }
            let b = observe(t, &case.inputs).map_err(|e| format!("{}: the grammar {}", what, e))?;
            match (&a, &b) {
                (None, None) => {}
                (Some(_), None) => return Err(format!("{}: the grammar is refused", what)),
                (None, Some(_)) => return Err(format!("{}: the grammar is accepted, the original is not", what)),
                (Some(x), Some(y)) => {
                    if let Some(i) = (0..x.len()).find(|i| x[*i] != y[*i]) {
                        return Err(format!(
                            "{}: {:?} is {}, with the original it is {}",
                            what,
                            case.inputs[i],
                            if y[i] { "accepted" } else { "refused" },
                            if x[i] { "accepted" } else { "refused" }
                        ));
                    }
                }
            }
        }
        Ok(())
    }
}
