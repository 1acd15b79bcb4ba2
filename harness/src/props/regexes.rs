use crate::choices::Choices;
use crate::engine::{guard, Cx, Outcome, Prop};
use crate::gen::regex::{regex, strings, Alpha, RxOpts};
use crate::refs::rx::{Esc, Rx};
use regex_syntax::hir::Hir;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeSet;
use typelalr::lex::dfa::{remove_overlap, DFA};
use typelalr::lex::nfa::{Match, StateIdx, NFA};

#[derive(Serialize, Deserialize, Clone)]
pub struct RxCase {
    pub rx: Rx,
    pub strings: Vec<String>,
}

fn rx_case(c: &mut Choices, unsupported: bool) -> RxCase {
    let alpha = *c.pick(&[Alpha::Small, Alpha::Small, Alpha::Ascii, Alpha::Uni]);
    let depth = c.range(1, 4);
    let o = RxOpts {
        alpha,
        unsupported: unsupported && c.chance(1, 8),
        depth,
        empties: true,
    };
    let rx = regex(c, &o, depth);
    let strings = strings(c, &rx, 10);
    RxCase { rx, strings }
}

fn show(case: &RxCase) -> Value {
    json!({"regex": case.rx.render(Esc::Full), "strings": case.strings})
}

fn hir(rx: &Rx, cx: &mut Cx) -> Option<Hir> {
    match regex_syntax::Parser::new().parse(&rx.render(Esc::Full)) {
        Ok(h) => Some(h),
        Err(_) => {
            cx.label("not a regex for regex-syntax");
            None
        }
    }
}

/// the strings with their membership; labels
fn expected(case: &RxCase, cx: &mut Cx) -> Vec<(String, bool)> {
    let mut yes = 0;
    let mut no = 0;
    let v: Vec<(String, bool)> = case
        .strings
        .iter()
        .map(|s| {
            let cs: Vec<char> = s.chars().collect();
            let m = case.rx.matches(&cs);
            if m {
                yes += 1
            } else {
                no += 1
            }
            (s.clone(), m)
        })
        .collect();
    cx.label_n("member strings", yes);
    cx.label_n("non-member strings", no);
    cx.nontrivial_if(yes > 0 && no > 0 && case.rx.size() >= 3);
    if case.rx.nullable() {
        cx.label("nullable regex");
    }
    if case.strings.iter().any(|s| !s.is_ascii()) {
        cx.label("non-ASCII string");
    }
    v
}

pub struct C04;

impl Prop for C04 {
    type Case = RxCase;
    const ID: &'static str = "C04";
    const RULE: &'static str = "random regex trees (literals, classes incl. negated and byte classes, dot, groups, concatenation, alternation with empty branches, ? * + lazy or not; sometimes counted repetition or anchors) over small, ASCII and Unicode alphabets, with members, mutated members, prefixes and random strings; NFA::simulate is compared with a structural position-set matcher. Non-trivial: regex of size >= 3 with both members and non-members among the strings.";
    const ASSUMPTIONS: &'static [&'static str] = &["regex-syntax 0.6 parses the rendered text to the intended regex"];
    const QUICK: u32 = 600_000;
    const THOROUGH: u32 = 3_000_000;
    const CHOICES: usize = 400;
    fn gen(c: &mut Choices) -> RxCase {
        rx_case(c, true)
    }
    fn show(case: &RxCase) -> Value {
        show(case)
    }
    fn check(case: &RxCase, cx: &mut Cx) -> Outcome {
        let Some(h) = hir(&case.rx, cx) else { return Ok(()) };
        let unsupported = case.rx.unsupported();
        let nfa = match guard(|| NFA::from_regex(&h)) {
            Ok(n) => n,
            Err(_) if unsupported => {
                cx.label("unsupported construct refused");
                cx.eval();
                return Ok(());
            }
            Err(e) => return Err(format!("supported regex {:?} refused: {}", case.rx.render(Esc::Full), e)),
        };
        for (s, want) in expected(case, cx) {
            cx.eval();
            let got = guard(|| nfa.simulate(&s)).map_err(|e| format!("simulate({:?}): {}", s, e))?;
            if got != want {
                return Err(format!("regex {:?} on {:?}: NFA says {}, should be {}", case.rx.render(Esc::Full), s, got, want));
            }
        }
        Ok(())
    }
}

pub struct C05;

impl Prop for C05 {
    type Case = RxCase;
    const ID: &'static str = "C05";
    const RULE: &'static str = "as C04 (supported constructs only), against DFA::from_nfa and DFA::test; the empty string, proper prefixes and non-ASCII strings are always among the inputs. Non-trivial: regex of size >= 3 with both members and non-members among the strings.";
    const ASSUMPTIONS: &'static [&'static str] = &["regex-syntax 0.6 parses the rendered text to the intended regex"];
    const QUICK: u32 = 120_000;
    const THOROUGH: u32 = 2_000_000;
    const CHOICES: usize = 400;
    fn gen(c: &mut Choices) -> RxCase {
        rx_case(c, false)
    }
    fn show(case: &RxCase) -> Value {
        show(case)
    }
    fn check(case: &RxCase, cx: &mut Cx) -> Outcome {
        let Some(h) = hir(&case.rx, cx) else { return Ok(()) };
        let re = case.rx.render(Esc::Full);
        let dfa = guard(|| DFA::from_nfa(NFA::from_regex(&h))).map_err(|e| format!("regex {:?}: {}", re, e))?;
        for (s, want) in expected(case, cx) {
            cx.eval();
            let got = guard(|| dfa.test(&s)).map_err(|e| format!("test({:?}): {}", s, e))?;
            if got != want {
                return Err(format!("regex {:?} on {:?}: DFA says {}, should be {}", re, s, got, want));
            }
        }
        Ok(())
    }
}

pub struct C06;

#[derive(Serialize, Deserialize, Clone)]
pub struct Ranges {
    pub ranges: Vec<(u32, u32)>,
    pub rx: Rx,
}

impl Prop for C06 {
    type Case = Ranges;
    const ID: &'static str = "C06";
    const RULE: &'static str = "random sets of half-open character ranges (nested, overlapping, adjacent, equal, single, empty; over a small and over the whole code space) are split; and a random regex is compiled to a DFA whose outgoing edges are inspected. Checked: disjoint, non-empty, same union, refinement of every input range; edges disjoint, targets exist, every edge label within or apart from every range of the regex. Non-trivial: two input ranges properly overlap, or the DFA has a state with two edges.";
    const QUICK: u32 = 250_000;
    const THOROUGH: u32 = 3_000_000;
    const CHOICES: usize = 300;
    fn gen(c: &mut Choices) -> Ranges {
        let n = c.range(0, 9);
        let big = c.chance(1, 4);
        let ranges = (0..n)
            .map(|_| {
                if big {
                    let edges = [0u32, 1, 10, 11, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x110000];
                    let a = *c.pick(&edges);
                    let b = *c.pick(&edges);
                    (a.min(b), a.max(b))
                } else {
                    let a = c.below(24) as u32;
                    let l = c.weighted(&[1, 6, 4, 3, 2, 2, 1, 1, 1, 1, 1, 1]) as u32;
                    (a, a + l)
                }
            })
            .collect();
        let o = RxOpts {
            alpha: *c.pick(&[Alpha::Small, Alpha::Ascii, Alpha::Uni]),
            unsupported: false,
            depth: 3,
            empties: true,
        };
        Ranges {
            ranges,
            rx: regex(c, &o, 3),
        }
    }
    fn show(case: &Ranges) -> Value {
        json!({"ranges": case.ranges, "regex": case.rx.render(Esc::Full)})
    }
    fn check(case: &Ranges, cx: &mut Cx) -> Outcome {
        // one by one, as the code fills its sets
        let mut input: BTreeSet<Match> = BTreeSet::new();
        for &(a, b) in &case.ranges {
            input.insert(Match::from(a..b));
        }
        let out = guard(|| remove_overlap(&input)).map_err(|e| format!("remove_overlap: {}", e))?;
        cx.eval();
        let mut rs: Vec<(u32, u32)> = out.iter().map(|m| (m.range.start, m.range.end)).collect();
        rs.sort();
        for (i, &(a, b)) in rs.iter().enumerate() {
            if a >= b {
                return Err(format!("empty range {}..{} in {:?}", a, b, rs));
            }
            if i > 0 && rs[i - 1].1 > a {
                return Err(format!("ranges {:?} and {:?} overlap", rs[i - 1], (a, b)));
            }
        }
        // every elementary interval: covered exactly when an input covers it
        let mut cuts: Vec<u32> = case.ranges.iter().flat_map(|&(a, b)| [a, b]).chain(rs.iter().flat_map(|&(a, b)| [a, b])).collect();
        cuts.sort();
        cuts.dedup();
        for w in cuts.windows(2) {
            let p = w[0];
            let want = case.ranges.iter().any(|&(a, b)| a <= p && p < b);
            let got = rs.iter().any(|&(a, b)| a <= p && p < b);
            if want != got {
                return Err(format!("code {} covered by the input: {}, by the result: {} ({:?})", p, want, got, rs));
            }
        }
        for &(a, b) in &case.ranges {
            for &(x, y) in &rs {
                let inter = a.max(x) < b.min(y);
                if inter && !(a <= x && y <= b) {
                    return Err(format!("result {:?} straddles the input range {:?}", (x, y), (a, b)));
                }
            }
        }
        let overlapping = case.ranges.iter().enumerate().any(|(i, r)| {
            case.ranges[..i].iter().any(|s| r != s && r.0.max(s.0) < r.1.min(s.1))
        });
        if overlapping {
            cx.label("overlapping input ranges");
            cx.nontrivial();
        }
        // the automaton
        let Some(h) = hir(&case.rx, cx) else { return Ok(()) };
        let nfa = guard(|| NFA::from_regex(&h)).map_err(|e| format!("from_regex: {}", e))?;
        let labels: Vec<(u32, u32)> = nfa.labels().into_iter().map(|m| (m.range.start, m.range.end)).collect();
        let dfa = guard(|| DFA::from_nfa(nfa)).map_err(|e| format!("from_nfa: {}", e))?;
        cx.eval();
        for e in &dfa.edges {
            let (x, y) = (e.label.range.start, e.label.range.end);
            if let Some(l) = labels.iter().find(|&&(a, b)| a.max(x) < b.min(y) && !(a <= x && y <= b)) {
                return Err(format!("regex {:?}: the edge label {:?} straddles the range {:?} of the regex", case.rx.render(Esc::Full), (x, y), l));
            }
        }
        let mut seen = 0;
        for i in 0..dfa.states.len() {
            let mut v: Vec<(u32, u32)> = vec![];
            if let Some(it) = dfa.edge_iter(StateIdx(i)) {
                for e in it {
                    seen += 1;
                    if e.from != StateIdx(i) {
                        return Err(format!("edge of state {} leaves from {:?}", i, e.from));
                    }
                    if e.to.0 >= dfa.states.len() {
                        return Err(format!("edge of state {} leads to missing state {}", i, e.to.0));
                    }
                    if e.label.range.start >= e.label.range.end {
                        return Err(format!("edge of state {} has an empty label", i));
                    }
                    v.push((e.label.range.start, e.label.range.end));
                }
            }
            v.sort();
            if v.len() > 1 {
                cx.label("state with several edges");
                cx.nontrivial();
            }
            for w in v.windows(2) {
                if w[0].1 > w[1].0 {
                    return Err(format!("regex {:?}: edges {:?} and {:?} of state {} overlap", case.rx.render(Esc::Full), w[0], w[1], i));
                }
            }
        }
        if seen != dfa.edges.len() {
            return Err(format!("{} edges stored, {} reachable through their states", dfa.edges.len(), seen));
        }
        Ok(())
    }
}
