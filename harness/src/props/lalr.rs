use crate::choices::Choices;
use crate::code::{conv_set, map_symbols, regex_order, short, with_grammar, Map};
use crate::engine::{guard, Cx, Outcome, Prop};
use crate::gen::grammar::{gspec, input, long_input, tree, Built, GOpts, GSpec};
use crate::refs::cfg::{drive, Act, Bits, Conflict, Lalr as RefLalr, Lr1, Set, Tree, S};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use typelalr::lalr::first::first;
use typelalr::lalr::item::ItemSet;
use typelalr::lalr::table::{make_tables, merge_cores, Action, ActionTable, GotoTable};
use typelalr::lalr::Lalr;
use typelalr::parser::{Grammar, Symbol};

/// largest canonical collection looked at
pub const MAX_LR1: usize = 260;

fn opts() -> GOpts {
    GOpts { tall: true, ..GOpts::default() }
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Gram {
    pub spec: GSpec,
}

fn show_gram(case: &Gram) -> Value {
    json!(case.spec.render())
}

fn flat<T>(r: Result<Result<T, String>, String>) -> Result<T, String> {
    match r {
        Ok(r) => r,
        Err(e) => Err(format!("panic: {}", short(&e))),
    }
}

/// labels describing the grammar
pub fn classify(b: &Built, lr1: &Lr1, r: &Result<RefLalr, Vec<Conflict>>, cx: &mut Cx) {
    let n = lr1.sets.len();
    cx.label(match n {
        0..=9 => "1-9 LR(1) sets",
        10..=29 => "10-29 LR(1) sets",
        30..=99 => "30-99 LR(1) sets",
        _ => "100+ LR(1) sets",
    });
    match r {
        Ok(t) => {
            cx.label("LALR(1) grammar");
            if t.action.len() < n {
                cx.label("LALR(1) grammar with merged states");
                if t.action.len() > 1 && partial_merge(b, lr1) {
                    cx.label("LALR(1) grammar with partly merged transitions");
                }
            }
        }
        Err(v) => {
            if b.cfg.is_lr1(lr1) {
                cx.label("conflict from merging only");
            }
            for (k, l) in [
                (Conflict::ShiftReduce, "shift/reduce conflict"),
                (Conflict::ReduceReduce, "reduce/reduce conflict"),
                (Conflict::Accept, "accept conflict"),
            ] {
                if v.contains(&k) {
                    cx.label(l);
                }
            }
        }
    }
    if left_recursive(b) {
        cx.label("left-recursive grammar");
    }
}

/// some merged state has a successor kernel that equals no LR(1) set and no merged set as built
/// from its own lookaheads alone
fn partial_merge(b: &Built, lr1: &Lr1) -> bool {
    let (map, merged) = b.cfg.merge(lr1);
    let mut members = vec![0; merged.len()];
    map.iter().for_each(|m| members[*m] += 1);
    lr1.trans.iter().enumerate().any(|(i, tr)| tr.values().any(|j| members[map[i]] != members[map[*j]] && members[map[*j]] > 1 && members[map[i]] > 1))
}

pub fn left_recursive(b: &Built) -> bool {
    // reachability over leading nonterminals
    let n = b.cfg.nts;
    let mut r = vec![Bits::default(); n + 1];
    loop {
        let mut ch = false;
        for (l, rhs) in &b.cfg.prods {
            if let S::N(m) = rhs[0] {
                let mut add = r[m];
                add.set(m);
                ch |= r[*l].add(add);
            }
        }
        if !ch {
            break;
        }
    }
    (0..n).any(|i| r[i].has(i))
}

// ------------------------------------------------------------------- C10

pub struct C10;

#[derive(Serialize, Deserialize, Clone)]
pub struct FirstCase {
    pub spec: GSpec,
    /// sequences: terminal k as k, nonterminal k as -(k+1)
    pub seqs: Vec<Vec<i32>>,
}

impl Prop for C10 {
    type Case = FirstCase;
    const ID: &'static str = "C10";
    const RULE: &'static str = "random and template grammars (mutated), with direct, indirect and mutual left recursion, unproductive and unreachable symbols; FIRST of every symbol and of random symbol sequences (terminals, nonterminals, end marker) against a fixpoint computation. Non-trivial: some FIRST set has at least two terminals, or the grammar is left-recursive.";
    const ASSUMPTIONS: &'static [&'static str] = &["sequences are non-empty (the code returns its epsilon marker for the empty one, which no caller passes)"];
    const QUICK: u32 = 120_000;
    const THOROUGH: u32 = 6_000_000;
    const CHOICES: usize = 300;
    fn gen(c: &mut Choices) -> FirstCase {
        let mut o = opts();
        o.max_nts = 7;
        o.templates = 40;
        let spec = gspec(c, &o);
        let b = spec.build();
        let n = c.range(0, 5);
        let seqs = (0..n)
            .map(|_| {
                let l = c.range(1, 4);
                (0..l)
                    .map(|_| {
                        if c.chance(2, 3) {
                            -(c.below(b.nts.len()) as i32) - 1
                        } else {
                            c.below(b.terms.len()) as i32
                        }
                    })
                    .collect()
            })
            .collect();
        FirstCase { spec, seqs }
    }
    fn show(case: &FirstCase) -> Value {
        json!({"grammar": case.spec.render(), "sequences": case.seqs})
    }
    fn check(case: &FirstCase, cx: &mut Cx) -> Outcome {
        let b = case.spec.build();
        let fs = b.cfg.first_sets();
        let lr = left_recursive(&b);
        cx.nontrivial_if(lr || fs.iter().any(|f| f.count() > 1));
        if lr {
            cx.label("left-recursive grammar");
        }
        if fs.iter().take(b.cfg.nts).any(|f| f.is_empty()) {
            cx.label("nonterminal without any terminal first");
        }
        flat(with_grammar(&case.spec.render(), |_, ast, g| -> Outcome {
            let m = map_symbols(&b, &g)?;
            // every symbol as the code writes it
            let term = |t: usize| *g.get_token(m.term_back[t]).unwrap();
            let nt = |n: usize| Symbol::NonTerminal(ast.iter().map(|p| p.name).find(|p| p.0 == b.nts[n]).unwrap());
            let mut seqs = case.seqs.clone();
            seqs.extend((0..b.nts.len()).map(|i| vec![-(i as i32) - 1]));
            seqs.extend((0..b.terms.len()).map(|i| vec![i as i32]));
            // all symbols in advance: the code wants them to live as long as the grammar
            let terms: Vec<Symbol> = (0..b.terms.len()).map(term).collect();
            let nts: Vec<Symbol> = (0..b.nts.len()).map(nt).collect();
            for seq in &seqs {
                let syms: Vec<&Symbol> = seq.iter().map(|&x| if x >= 0 { &terms[x as usize] } else { &nts[(-x - 1) as usize] }).collect();
                cx.eval();
                let want = if seq[0] >= 0 { Bits::one(seq[0] as usize) } else { fs[(-seq[0] - 1) as usize] };
                let names = format!("{:?}", syms);
                let got = guard(|| first(&g, syms.iter().copied()).into_iter().copied().collect::<Vec<_>>())
                    .map_err(|e| format!("FIRST({}): {}", names, e))?;
                let mut bits = Bits::default();
                for s in &got {
                    match g.get_token_idx(s).and_then(|t| m.term.get(&t.0)) {
                        Some(t) => bits.set(*t),
                        None => return Err(format!("FIRST({}) contains {:?}", names, s)),
                    }
                }
                if bits != want {
                    return Err(format!("FIRST({}) is {:?}, should be {:?}", names, got, names_of(&b, want)));
                }
            }
            Ok(())
        }))
    }
}

fn names_of(b: &Built, bits: Bits) -> Vec<String> {
    (0..b.terms.len()).filter(|t| bits.has(*t)).map(|t| format!("{:?}", b.terms[t].text())).collect()
}

fn show_set(b: &Built, s: &Set) -> String {
    s.iter()
        .map(|((p, d), la)| format!("[{} dot {}; {}]", p, d, names_of(b, *la).join(" ")))
        .collect::<Vec<_>>()
        .join(" ")
}

// ------------------------------------------------------------------- C11

pub struct C11;

impl Prop for C11 {
    type Case = Gram;
    const ID: &'static str = "C11";
    const RULE: &'static str = "random and template grammars (mutated; LALR or not; recursive, ambiguous, with useless symbols), up to 260 LR(1) sets; ItemSet::items is compared, as a set of sets, with a canonical collection built with bit sets by the textbook construction; no duplicates; initial set first; ItemSet::goto of every set and symbol lands in the collection. Non-trivial: at least 8 sets.";
    const QUICK: u32 = 70_000;
    const THOROUGH: u32 = 1_200_000;
    const CHOICES: usize = 300;
    fn gen(c: &mut Choices) -> Gram {
        Gram { spec: gspec(c, &opts()) }
    }
    fn show(case: &Gram) -> Value {
        show_gram(case)
    }
    fn check(case: &Gram, cx: &mut Cx) -> Outcome {
        let b = case.spec.build();
        let Some(lr1) = b.cfg.lr1(case.spec.lr1_limit()) else {
            cx.label("collection too large");
            return Ok(());
        };
        classify(&b, &lr1, &b.cfg.lalr(&lr1), cx);
        cx.nontrivial_if(lr1.sets.len() >= 8);
        flat(with_grammar(&case.spec.render(), |_, _, g| -> Outcome {
            let m = map_symbols(&b, &g)?;
            cx.eval();
            let items = guard(|| ItemSet::items(&g)).map_err(|e| format!("items: {}", e))?;
            let got = items.iter().map(|s| conv_set(&m, s)).collect::<Result<Vec<_>, _>>()?;
            let want: HashSet<&Set> = lr1.sets.iter().collect();
            let have: HashSet<&Set> = got.iter().collect();
            if let Some(s) = got.iter().find(|s| !want.contains(s)) {
                return Err(format!("the collection has a set that is not canonical: {}", show_set(&b, s)));
            }
            if let Some(s) = lr1.sets.iter().find(|s| !have.contains(s)) {
                return Err(format!("the collection lacks {}", show_set(&b, s)));
            }
            if have.len() != got.len() {
                return Err(format!("{} sets, {} different ones", got.len(), have.len()));
            }
            if got[0] != lr1.sets[0] {
                return Err(format!("the first set is {}", show_set(&b, &got[0])));
            }
            // transitions
            let index: BTreeMap<&Set, usize> = got.iter().enumerate().map(|(i, s)| (s, i)).collect();
            let refindex: std::collections::HashMap<&Set, usize> = lr1.sets.iter().enumerate().map(|(i, s)| (s, i)).collect();
            for (i, s) in items.iter().enumerate() {
                if i % 3 != 0 && items.len() > 20 {
                    continue;
                }
                let tr = &lr1.trans[refindex[&got[i]]];
                for x in g.tokens() {
                    let t = guard(|| s.goto(x, &g)).map_err(|e| format!("goto: {}", e))?;
                    let t = conv_set(&m, &t)?;
                    let rx = match x {
                        Symbol::NonTerminal(n) => S::N(m.nt[n.0]),
                        _ => S::T(m.term[&g.get_token_idx(x).unwrap().0]),
                    };
                    match tr.get(&rx) {
                        None if t.is_empty() => {}
                        Some(j) if lr1.sets[*j] == t && index.contains_key(&t) => {}
                        w => {
                            return Err(format!(
                                "goto of {} on {:?} is {}, should be {}",
                                show_set(&b, &got[i]),
                                x,
                                show_set(&b, &t),
                                w.map(|j| show_set(&b, &lr1.sets[*j])).unwrap_or_default()
                            ))
                        }
                    }
                }
            }
            Ok(())
        }))
    }
}

// ------------------------------------------------------------------- C12

pub struct C12;

#[derive(Serialize, Deserialize, Clone)]
pub struct MergeCase {
    pub spec: GSpec,
    /// rotation of the sets after the first one
    pub rotate: u32,
    pub reverse: bool,
}

impl Prop for C12 {
    type Case = MergeCase;
    const ID: &'static str = "C12";
    const RULE: &'static str = "the code's own LR(1) collections of random and template grammars, in the order built and with the sets after the first one rotated and reversed, are merged; the result is compared with a merge computed from the same sets (distinct cores, union of lookaheads per item, map, initial set first). Non-trivial: some merged set unites at least two sets.";
    const QUICK: u32 = 80_000;
    const THOROUGH: u32 = 1_500_000;
    const CHOICES: usize = 300;
    fn gen(c: &mut Choices) -> MergeCase {
        let rotate = c.below(50) as u32;
        let reverse = c.chance(1, 2);
        MergeCase { spec: gspec(c, &opts()), rotate, reverse }
    }
    fn show(case: &MergeCase) -> Value {
        json!({"grammar": case.spec.render(), "rotate": case.rotate, "reverse": case.reverse})
    }
    fn check(case: &MergeCase, cx: &mut Cx) -> Outcome {
        let b = case.spec.build();
        if b.cfg.lr1(case.spec.lr1_limit()).is_none() {
            cx.label("collection too large");
            return Ok(());
        }
        flat(with_grammar(&case.spec.render(), |_, _, g| -> Outcome {
            let m = map_symbols(&b, &g)?;
            let items = guard(|| ItemSet::items(&g)).map_err(|e| format!("items: {}", e))?;
            merged(&b, &m, &items.iter().cloned().collect::<Vec<_>>(), cx)?;
            let mut v: Vec<ItemSet> = items.iter().cloned().collect();
            let k = v.len();
            if k > 2 {
                v[1..].rotate_left(case.rotate as usize % (k - 1));
                if case.reverse {
                    v[1..].reverse();
                }
                cx.label("collection in another order");
                merged(&b, &m, &v, cx)?;
            }
            Ok(())
        }))
    }
}

fn merged(b: &Built, m: &Map, items: &[ItemSet], cx: &mut Cx) -> Outcome {
    cx.eval();
    let sets = items.iter().map(|s| conv_set(m, s)).collect::<Result<Vec<Set>, _>>()?;
    let input = items.iter().cloned().collect();
    let (out, map) = guard(|| merge_cores(&input)).map_err(|e| format!("merge_cores: {}", e))?;
    let out = out.iter().map(|s| conv_set(m, s)).collect::<Result<Vec<Set>, _>>()?;
    let mut want: BTreeMap<Vec<(u32, u32)>, Set> = BTreeMap::new();
    for s in &sets {
        let e = want.entry(s.keys().copied().collect()).or_default();
        for (k, la) in s {
            e.entry(*k).or_default().add(*la);
        }
    }
    if want.len() < sets.len() {
        cx.nontrivial();
        cx.label("some sets share a core");
    } else {
        cx.label("all cores differ");
    }
    if out.len() != want.len() {
        return Err(format!("{} merged sets for {} cores", out.len(), want.len()));
    }
    let mut seen = BTreeSet::new();
    for s in &out {
        let core: Vec<_> = s.keys().copied().collect();
        match want.get(&core) {
            Some(w) if w == s => {}
            Some(w) => return Err(format!("merged set {} should be {}", show_set(b, s), show_set(b, w))),
            None => return Err(format!("merged set {} has a core of no set", show_set(b, s))),
        }
        if !seen.insert(core) {
            return Err(format!("two merged sets share the core of {}", show_set(b, s)));
        }
    }
    if map.len() != sets.len() {
        return Err(format!("the map has {} entries for {} sets", map.len(), sets.len()));
    }
    for (i, s) in sets.iter().enumerate() {
        match map.get(&i) {
            Some(j) if out.get(*j).map_or(false, |o| o.keys().eq(s.keys())) => {}
            j => return Err(format!("set {} ({}) is mapped to {:?}", i, show_set(b, s), j)),
        }
    }
    if !out[0].keys().eq(sets[0].keys()) {
        return Err("the initial set is not first after merging".into());
    }
    Ok(())
}

// ------------------------------------------------------------------- C13

/// walk both tables from their initial states
pub fn isomorphic(
    b: &Built,
    m: &Map,
    g: &Grammar,
    action: &ActionTable,
    goto: &GotoTable,
    nstates: usize,
    want: &RefLalr,
) -> Outcome {
    if nstates != want.action.len() {
        return Err(format!("{} states, should be {}", nstates, want.action.len()));
    }
    let mut to: BTreeMap<usize, usize> = BTreeMap::from([(0, 0)]);
    let mut back: BTreeMap<usize, usize> = BTreeMap::from([(0, 0)]);
    let mut work = vec![(0usize, 0usize)];
    let mut pair = |x: usize, y: usize, work: &mut Vec<(usize, usize)>, what: &str| -> Outcome {
        match (to.get(&x), back.get(&y)) {
            (None, None) => {
                to.insert(x, y);
                back.insert(y, x);
                work.push((x, y));
                Ok(())
            }
            (Some(a), Some(c)) if *a == y && *c == x => Ok(()),
            _ => Err(format!("{} leads to the wrong state {}", what, x)),
        }
    };
    let _ = g;
    let mut done = BTreeSet::new();
    while let Some((x, y)) = work.pop() {
        done.insert(x);
        let empty_a = BTreeMap::new();
        let row = action.get(&x).unwrap_or(&empty_a);
        let mut seen = BTreeSet::new();
        for (tok, act) in row {
            let Some(&t) = m.term.get(&tok.0) else {
                return Err(format!("action of state {} on number {}, not a terminal", x, tok.0));
            };
            seen.insert(t);
            let text = b.terms[t].text();
            let found = action.try_index((x as u32, m.term_back[t]));
            if found.map(|f| format!("{:?}", f)) != Some(format!("{:?}", act)) {
                return Err(format!("looking up state {} and {:?} finds {:?}, the table holds {:?}", x, text, found, act));
            }
            match (act, want.action[y].get(&t)) {
                (Action::Shift(s), Some(Act::Shift(r))) => pair(*s as usize, *r, &mut work, &format!("shift of {:?} in state {}", text, x))?,
                (Action::Reduce(p), Some(Act::Reduce(q))) if p.0 as usize == *q => {}
                (Action::Accept, Some(Act::Accept)) => {}
                (a, w) => return Err(format!("action of state {} on {:?} is {:?}, should be {:?}", x, text, a, w)),
            }
        }
        if let Some((t, w)) = want.action[y].iter().find(|(t, _)| !seen.contains(t)) {
            return Err(format!("state {} has no action on {:?}, should be {:?}", x, b.terms[*t].text(), w));
        }
        let empty_g = BTreeMap::new();
        let row = goto.get(&x).unwrap_or(&empty_g);
        let mut seen = BTreeSet::new();
        for (name, s) in row {
            let Some(&n) = m.nt.get(name.0) else {
                return Err(format!("goto of state {} on unknown {}", x, name.0));
            };
            seen.insert(n);
            let found = goto.try_index((x as u32, *name));
            if found != Some(s) {
                return Err(format!("looking up the goto of state {} on {} finds {:?}, the table holds {}", x, name.0, found, s));
            }
            match want.goto[y].get(&n) {
                Some(r) => pair(*s, *r, &mut work, &format!("goto on {} in state {}", name.0, x))?,
                None => return Err(format!("goto of state {} on {} is {}, should not exist", x, name.0, s)),
            }
        }
        if let Some((n, _)) = want.goto[y].iter().find(|(n, _)| !seen.contains(n)) {
            return Err(format!("state {} has no goto on {}", x, b.nts[*n]));
        }
        // and nothing else is found
        for (t, tok) in m.term_back.iter().enumerate() {
            if !want.action[y].contains_key(&t) {
                if let Some(f) = action.try_index((x as u32, *tok)) {
                    return Err(format!("looking up state {} and {:?} finds {:?}, should find nothing", x, b.terms[t].text(), f));
                }
            }
        }
    }
    for (x, row) in action.iter() {
        if !done.contains(x) && !row.is_empty() {
            return Err(format!("actions of state {}, which is not reachable", x));
        }
    }
    for (x, row) in goto.iter() {
        if !done.contains(x) && !row.is_empty() {
            return Err(format!("gotos of state {}, which is not reachable", x));
        }
    }
    Ok(())
}

pub struct C13;

impl Prop for C13 {
    type Case = Gram;
    const ID: &'static str = "C13";
    const RULE: &'static str = "random and template grammars (mutated); for those that are LALR(1) by the reference construction (LR(1) collection, merged) the code's action and goto tables are walked in parallel with the reference automaton from the initial states; every entry must correspond. Non-trivial: LALR(1) with at least 8 states.";
    const QUICK: u32 = 120_000;
    const THOROUGH: u32 = 1_200_000;
    const CHOICES: usize = 300;
    fn gen(c: &mut Choices) -> Gram {
        Gram { spec: gspec(c, &opts()) }
    }
    fn show(case: &Gram) -> Value {
        show_gram(case)
    }
    fn check(case: &Gram, cx: &mut Cx) -> Outcome {
        let b = case.spec.build();
        let Some(lr1) = b.cfg.lr1(case.spec.lr1_limit()) else {
            cx.label("collection too large");
            return Ok(());
        };
        let r = b.cfg.lalr(&lr1);
        classify(&b, &lr1, &r, cx);
        let Ok(want) = r else { return Ok(()) };
        cx.nontrivial_if(want.action.len() >= 8);
        flat(with_grammar(&case.spec.render(), |_, _, g| -> Outcome {
            let m = map_symbols(&b, &g)?;
            cx.eval();
            let (action, goto, sets) = guard(|| make_tables(&g)).map_err(|e| format!("an LALR(1) grammar gets no tables: {}", e))?;
            isomorphic(&b, &m, &g, &action, &goto, sets.len(), &want)
        }))
    }
}

// ------------------------------------------------------------------- C14

pub struct C14;

impl Prop for C14 {
    type Case = Gram;
    const ID: &'static str = "C14";
    const RULE: &'static str = "random and template grammars (mutated): LALR(1), LR(1) but not LALR(1), not LR(1), ambiguous, cyclic; building tables and building the parser must succeed exactly when the reference finds no conflict. Non-trivial: a conflict, or an LALR(1) grammar with at least 8 states.";
    const QUICK: u32 = 40_000;
    const THOROUGH: u32 = 1_500_000;
    const CHOICES: usize = 300;
    fn gen(c: &mut Choices) -> Gram {
        let mut o = opts();
        o.collisions = true;
        Gram { spec: gspec(c, &o) }
    }
    fn show(case: &Gram) -> Value {
        show_gram(case)
    }
    fn check(case: &Gram, cx: &mut Cx) -> Outcome {
        let b = case.spec.build();
        let Some(lr1) = b.cfg.lr1(case.spec.lr1_limit()) else {
            cx.label("collection too large");
            return Ok(());
        };
        let r = b.cfg.lalr(&lr1);
        classify(&b, &lr1, &r, cx);
        cx.nontrivial_if(match &r {
            Ok(t) => t.action.len() >= 8,
            Err(_) => true,
        });
        flat(with_grammar(&case.spec.render(), |_, _, g| -> Outcome {
            cx.eval();
            let tables = guard(|| {
                make_tables(&g);
            });
            let parser = guard(|| {
                Lalr::new(g);
            });
            match (&r, &tables, &parser) {
                (Ok(_), Ok(()), Ok(())) => Ok(()),
                (Err(_), Err(_), Err(_)) => Ok(()),
                (Ok(_), Err(e), _) | (Ok(_), _, Err(e)) => Err(format!("LALR(1) grammar refused: {}", e)),
                (Err(c), _, _) => Err(format!("grammar with conflicts {:?} gets {}", c, if tables.is_ok() { "tables" } else { "a parser" })),
            }
        }))
    }
}

// ------------------------------------------------------------------- C15

pub struct C15;

#[derive(Serialize, Deserialize, Clone)]
pub struct ParseCase {
    pub spec: GSpec,
    pub inputs: Vec<String>,
}

impl Prop for C15 {
    type Case = ParseCase;
    const ID: &'static str = "C15";
    const RULE: &'static str = "random and template grammars with literal and regex terminals and 6 inputs each (sentences from random derivations, sentences with tokens deleted/inserted/replaced, random token sequences, character edits, noise), joined with or without white space; for LALR(1) grammars Lalr::parse must succeed exactly when the reference lexer reaches the end and an Earley recogniser accepts its tokens. Non-trivial: LALR(1), with an accepted input of at least two tokens and a refused one.";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "refusing an input is a panic of parse (it has no error value)",
        "between two regexes that match the same longest text the symbol table's order decides",
    ];
    const QUICK: u32 = 100_000;
    const THOROUGH: u32 = 800_000;
    const CHOICES: usize = 500;
    fn gen(c: &mut Choices) -> ParseCase {
        let spec = gspec(c, &opts());
        let b = spec.build();
        let mut inputs: Vec<String> = (0..6).map(|_| input(c, &b, 12, false).1).collect();
        let tall = spec.rules.iter().any(|r| r.bodies.iter().any(|b| b.syms.len() > 60));
        let n = if tall { 4 } else { c.chance(1, 6) as usize };
        for _ in 0..n {
            inputs.push(long_input(c, &b));
        }
        ParseCase { spec, inputs }
    }
    fn show(case: &ParseCase) -> Value {
        json!({"grammar": case.spec.render(), "inputs": case.inputs})
    }
    fn check(case: &ParseCase, cx: &mut Cx) -> Outcome {
        let b = case.spec.build();
        let Some(lr1) = b.cfg.lr1(case.spec.lr1_limit()) else {
            cx.label("collection too large");
            return Ok(());
        };
        if b.cfg.lalr(&lr1).is_err() {
            cx.label("not LALR(1)");
            return Ok(());
        }
        cx.label("LALR(1) grammar");
        flat(with_grammar(&case.spec.render(), |_, _, g| -> Outcome {
            let (rl, idx) = b.lexer(&regex_order(&g));
            let lalr = guard(|| Lalr::new(g)).map_err(|e| format!("an LALR(1) grammar gets no parser: {}", e))?;
            let (mut yes, mut no) = (false, false);
            for s in &case.inputs {
                cx.eval();
                let cs: Vec<char> = s.chars().collect();
                let l = rl.lex(&cs);
                let toks: Vec<usize> = l.toks.iter().map(|t| idx[t.def]).collect();
                let want = l.stuck.is_none() && b.cfg.earley(&toks).accepted;
                if want {
                    yes |= toks.len() >= 2;
                    cx.label("sentence");
                    if toks.len() > 100 {
                        cx.label("sentence of more than 100 tokens");
                    }
                } else {
                    no = true;
                    cx.label(if l.stuck.is_some() { "text that cannot be tokenised" } else { "non-sentence" });
                }
                let got = guard(|| lalr.parse(s));
                match (want, &got) {
                    (true, Ok(_)) | (false, Err(_)) => {}
                    (true, Err(e)) => return Err(format!("the sentence {:?} is refused: {}", s, e)),
                    (false, Ok(_)) => return Err(format!("{:?} is accepted, but is not a sentence", s)),
                }
            }
            cx.nontrivial_if(yes && no);
            Ok(())
        }))
    }
}

// ------------------------------------------------------------------- C16

pub struct C16;

#[derive(Serialize, Deserialize, Clone)]
pub struct DriveCase {
    pub spec: GSpec,
    pub trees: Vec<Tree>,
    pub others: Vec<Vec<usize>>,
}

pub fn nonsentence(c: &mut Choices, b: &Built, base: &[usize]) -> Vec<usize> {
    let mut v = base.to_vec();
    let nt = b.terms.len();
    if nt < 2 {
        return v;
    }
    let n = c.range(1, 2);
    for _ in 0..n {
        let t = 1 + c.below(nt - 1);
        let i = c.below(v.len() + 1);
        match c.below(4) {
            0 => v.insert(i, t),
            1 if i < v.len() => {
                v.remove(i);
            }
            2 if i < v.len() => v[i] = t,
            _ => v.truncate(i),
        }
    }
    v
}

impl Prop for C16 {
    type Case = DriveCase;
    const ID: &'static str = "C16";
    const RULE: &'static str = "random derivation trees (up to ~60 nodes) of LALR(1) grammars; an LR driver of our own runs the code's tables over the leaves, and the sequence of reductions must be the postorder of the tree; for edited token sequences that are no sentences (by Earley) the driver must stop at or before the first token that cannot continue a sentential prefix. Non-trivial: LALR(1) and a tree with at least 5 productions.";
    const QUICK: u32 = 120_000;
    const THOROUGH: u32 = 1_200_000;
    const CHOICES: usize = 500;
    fn gen(c: &mut Choices) -> DriveCase {
        let spec = gspec(c, &opts());
        let b = spec.build();
        let h = b.cfg.heights();
        let mut trees = vec![];
        let mut others = vec![];
        for _ in 0..3 {
            let mut bud = c.range(2, 30) as isize;
            if let Some(t) = tree(c, &b, &h, b.cfg.start(), &mut bud) {
                let mut v = vec![];
                t.leaves(&mut v);
                if v.len() <= 400 {
                    others.push(nonsentence(c, &b, &v));
                    trees.push(t);
                }
            }
        }
        DriveCase { spec, trees, others }
    }
    fn show(case: &DriveCase) -> Value {
        json!({"grammar": case.spec.render(), "derivations": case.trees, "token sequences": case.others})
    }
    fn check(case: &DriveCase, cx: &mut Cx) -> Outcome {
        let b = case.spec.build();
        let Some(lr1) = b.cfg.lr1(case.spec.lr1_limit()) else {
            cx.label("collection too large");
            return Ok(());
        };
        if b.cfg.lalr(&lr1).is_err() {
            cx.label("not LALR(1)");
            return Ok(());
        }
        cx.label("LALR(1) grammar");
        flat(with_grammar(&case.spec.render(), |_, ast, g| -> Outcome {
            let m = map_symbols(&b, &g)?;
            let (action, goto, _) = guard(|| make_tables(&g)).map_err(|e| format!("an LALR(1) grammar gets no tables: {}", e))?;
            let idents: Vec<_> = b.nts.iter().map(|n| ast.iter().map(|p| p.name).find(|p| p.0 == n).unwrap()).collect();
            let act = |s: usize, t: usize| {
                action.try_index((s as u32, m.term_back[t])).map(|a| match a {
                    Action::Shift(j) => Act::Shift(*j as usize),
                    Action::Reduce(p) => Act::Reduce(p.0 as usize),
                    Action::Accept => Act::Accept,
                })
            };
            let go = |s: usize, n: usize| idents.get(n).and_then(|i| goto.try_index((s as u32, *i)).copied());
            for t in &case.trees {
                let mut toks = vec![];
                t.leaves(&mut toks);
                let mut want = vec![];
                t.postorder(&mut want);
                cx.eval();
                cx.label("derivation replayed");
                cx.nontrivial_if(want.len() >= 5);
                let words: Vec<String> = toks.iter().map(|t| b.terms[*t].text()).collect();
                match drive(&b.cfg, &act, &go, &toks) {
                    Ok(got) if got == want => {}
                    Ok(got) => return Err(format!("{:?}: reductions {:?}, should be {:?}", words, got, want)),
                    Err((i, e)) => return Err(format!("{:?}: {} at token {}", words, e, i)),
                }
            }
            for toks in &case.others {
                let e = b.cfg.earley(toks);
                let words: Vec<String> = toks.iter().map(|t| b.terms[*t].text()).collect();
                cx.eval();
                match (e.accepted, drive(&b.cfg, &act, &go, toks)) {
                    (true, Ok(_)) => cx.label("edited, still a sentence"),
                    (true, Err((i, m))) => return Err(format!("the sentence {:?} fails at token {}: {}", words, i, m)),
                    (false, Ok(_)) => return Err(format!("{:?} is accepted, but is not a sentence", words)),
                    (false, Err((i, m))) => {
                        cx.label("non-sentence");
                        let last = e.expects.len() - 1;
                        if m != "no action" {
                            return Err(format!("{:?}: {} at token {}", words, m, i));
                        }
                        if i > last {
                            return Err(format!("{:?}: the error comes at token {}, but token {} cannot continue", words, i, last));
                        }
                    }
                }
            }
            Ok(())
        }))
    }
}
