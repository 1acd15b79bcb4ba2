//! Grammar texts that are well-formed but describe no grammar.
use crate::choices::Choices;
use crate::code::short;
use crate::engine::{guard, Cx, Outcome, Prop};
use crate::gen::grammar::{gspec, GOpts, GSpec, GSym};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeSet;
use typelalr::lalr::Lalr;
use typelalr::parser::Grammar;

#[derive(Serialize, Deserialize, Clone)]
pub struct Ill {
    pub text: String,
    pub defect: String,
}

/// names of the rules that can be reached from the start rule
fn reachable(s: &GSpec) -> BTreeSet<String> {
    let mut seen = BTreeSet::new();
    let mut work: Vec<String> = s.rules.iter().find(|r| r.start).map(|r| r.name.clone()).into_iter().collect();
    while let Some(n) = work.pop() {
        if !seen.insert(n.clone()) {
            continue;
        }
        for r in s.rules.iter().filter(|r| r.name == n) {
            for b in &r.bodies {
                for (_, x) in &b.syms {
                    if let GSym::N(m) = x {
                        work.push(m.clone());
                    }
                }
            }
        }
    }
    seen
}

const BAD: &[&str] = &[
    "(", ")", "*", "+", "?", "[a", "[b-a]", "(?P<n", "a{2,1}", "(?z)", "[]", "a|*", "(a", "a)", "(?:", "[^", "(*)", "a{3,2}", "(?i", "x(", "[[:foo:]", "|)",
    "(?P<>a)", "(?Pa)", "[z-a]", "a{1000000000}", "[a-", "((a)", "(|", "[0-9",
];

pub struct C28;

impl Prop for C28 {
    type Case = Ill;
    const ID: &'static str = "C28";
    const RULE: &'static str = "random and template grammars made ill-formed in one place: no rule marked as start, a symbol of a rule reachable from the start rule replaced by the name of no rule (among them names that differ from a defined one by case, an underscore or a digit), all definitions of a reachable rule removed, or a terminal replaced by a text that is no regular expression; reading the text and building the parser must be refused. Non-trivial: at least two rules.";
    const QUICK: u32 = 60_000;
    const THOROUGH: u32 = 3_000_000;
    const CHOICES: usize = 260;
    fn gen(c: &mut Choices) -> Ill {
        let o = GOpts { styles: [4, 3, 4, 3], ..GOpts::default() };
        let mut s = gspec(c, &o);
        let names: BTreeSet<String> = s.rules.iter().map(|r| r.name.clone()).collect();
        let reach = reachable(&s);
        let kind = c.weighted(&[2, 6, 3, 3]);
        let mut defect = "no start rule";
        if kind == 1 || kind == 3 {
            // one occurrence of a symbol
            let at: Vec<(usize, usize, usize)> = s
                .rules
                .iter()
                .enumerate()
                .filter(|(_, r)| kind == 3 || reach.contains(&r.name))
                .flat_map(|(i, r)| r.bodies.iter().enumerate().flat_map(move |(j, b)| (0..b.syms.len()).map(move |k| (i, j, k))))
                .collect();
            let (i, j, k) = *c.pick(&at);
            let x = &mut s.rules[i].bodies[j].syms[k].1;
            if kind == 1 {
                defect = "undefined name";
                let base = match x {
                    GSym::N(n) => n.clone(),
                    _ => c.pick(&names.iter().collect::<Vec<_>>()).to_string(),
                };
                let cands = [
                    format!("{}_", base),
                    base.to_lowercase(),
                    base.to_uppercase(),
                    format!("_{}", base),
                    format!("{}1", base),
                    base.chars().take(base.chars().count() - 1).collect(),
                    "Missing".to_string(),
                ];
                let from = c.below(cands.len());
                let ok = |n: &String| {
                    !n.is_empty() && !names.contains(n) && n != "r" && n != "export" && n != "start" && !n.starts_with(|c: char| c.is_ascii_digit())
                };
                let n = (0..cands.len()).map(|d| cands[(from + d) % cands.len()].clone()).find(ok).unwrap_or_else(|| "Missing__0".into());
                *x = GSym::N(n);
            } else {
                defect = "invalid regex";
                let t = c.pick(BAD);
                let bad = if regex_syntax::Parser::new().parse(t).is_err() { t } else { "(" };
                // rendered by hand below
                *x = GSym::N(format!("\u{1}{}", bad));
            }
        } else if kind == 2 {
            // remove a rule that something reachable refers to
            let used: BTreeSet<String> = s
                .rules
                .iter()
                .filter(|r| reach.contains(&r.name))
                .flat_map(|r| r.bodies.iter().flat_map(|b| b.syms.iter()).filter_map(|(_, x)| if let GSym::N(n) = x { Some(n.clone()) } else { None }))
                .collect();
            let start: BTreeSet<String> = s.rules.iter().filter(|r| r.start).map(|r| r.name.clone()).collect();
            let used: Vec<&String> = used.difference(&start).collect();
            if used.is_empty() {
                s.rules.iter_mut().for_each(|r| r.start = false);
            } else {
                defect = "removed rule";
                let n = c.pick(&used).to_string();
                s.rules.retain(|r| r.name != n);
            }
        }
        if kind == 0 {
            s.rules.iter_mut().for_each(|r| r.start = false);
        }
        let mut text = s.render();
        if let Some(i) = text.find('\u{1}') {
            let end = text[i + 1..].find([' ', '>']).map_or(text.len(), |k| i + 1 + k);
            // no entry contains a space; '>' ends one only inside a label
            let bad = BAD.iter().filter(|b| text[i + 1..].starts_with(**b)).max_by_key(|b| b.len()).map(|b| b.to_string());
            let bad = bad.unwrap_or_else(|| text[i + 1..end].to_string());
            text = format!("{}r\"{}\"{}", &text[..i], bad, &text[i + 1 + bad.len()..]);
        }
        Ill { text, defect: defect.into() }
    }
    fn show(case: &Ill) -> Value {
        json!({"grammar": case.text, "defect": case.defect})
    }
    fn check(case: &Ill, cx: &mut Cx) -> Outcome {
        cx.label(&case.defect);
        cx.nontrivial_if(case.text.matches("= [").count() >= 2);
        cx.eval();
        let r = guard(|| {
            let bump = bumpalo::Bump::new();
            let ast = typelalr::parse_grammar(&bump, &case.text);
            let g = Grammar::grammar_from_ast_productions(&bump, &ast);
            let p = Lalr::new(g);
            drop(p);
        });
        match r {
            Ok(()) => Err(format!("a grammar with {} gets a parser", case.defect)),
            Err(e) => {
                // the text itself is fine: it is what it says that is refused
                if e.contains("UnrecognizedToken") || e.contains("InvalidToken") {
                    return Err(format!("the text is not read: {}", short(&e)));
                }
                Ok(())
            }
        }
    }
}
