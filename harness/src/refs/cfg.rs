//! Reference context-free machinery: FIRST, canonical LR(1), LALR(1) by merging, Earley.
use std::collections::{BTreeMap, BTreeSet, HashMap};

/// a set of small numbers
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Bits([u64; 6]);

/// largest total of lookaheads of a collection looked at
pub const MAX_LOOKAHEADS: usize = 10_000;

pub const MAX_BITS: usize = 384;

impl Bits {
    pub fn one(i: usize) -> Bits {
        let mut b = Bits::default();
        b.set(i);
        b
    }
    pub fn set(&mut self, i: usize) {
        self.0[i / 64] |= 1 << (i % 64);
    }
    pub fn has(&self, i: usize) -> bool {
        self.0[i / 64] >> (i % 64) & 1 == 1
    }
    pub fn is_empty(&self) -> bool {
        self.0.iter().all(|w| *w == 0)
    }
    pub fn count(&self) -> u32 {
        self.0.iter().map(|w| w.count_ones()).sum()
    }
    pub fn meets(&self, o: &Bits) -> bool {
        self.0.iter().zip(&o.0).any(|(a, b)| a & b != 0)
    }
    /// unite, reporting whether anything was added
    pub fn add(&mut self, o: Bits) -> bool {
        let old = *self;
        for (a, b) in self.0.iter_mut().zip(o.0) {
            *a |= b;
        }
        *self != old
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum S {
    T(usize),
    N(usize),
}

/// Terminal 0 is the end marker. Production 0 is the augmented one (its left side is nts.len()).
#[derive(Clone, Debug)]
pub struct Cfg {
    pub nts: usize,
    pub terms: usize,
    pub prods: Vec<(usize, Vec<S>)>,
    pub by_nt: Vec<Vec<usize>>,
}

pub type Core = (u32, u32);
pub type Set = BTreeMap<Core, Bits>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Act {
    Shift(usize),
    Reduce(usize),
    Accept,
}

#[derive(Debug)]
pub struct Lalr {
    pub action: Vec<BTreeMap<usize, Act>>,
    pub goto: Vec<BTreeMap<usize, usize>>,
}

#[derive(Debug, PartialEq, Clone)]
pub enum Conflict {
    ShiftReduce,
    ReduceReduce,
    Accept,
}

pub struct Lr1 {
    pub sets: Vec<Set>,
    pub index: HashMap<Vec<(Core, Bits)>, usize>,
    pub trans: Vec<BTreeMap<S, usize>>,
}

impl Cfg {
    pub fn new(nts: usize, terms: usize, start: usize, prods: Vec<(usize, Vec<S>)>) -> Cfg {
        assert!(terms < MAX_BITS && nts + 1 < MAX_BITS);
        let mut ps = vec![(nts, vec![S::N(start)])];
        ps.extend(prods);
        let mut by_nt = vec![vec![]; nts + 1];
        for (i, (n, _)) in ps.iter().enumerate() {
            by_nt[*n].push(i);
        }
        Cfg {
            nts,
            terms,
            prods: ps,
            by_nt,
        }
    }

    pub fn start(&self) -> usize {
        match self.prods[0].1[0] {
            S::N(n) => n,
            _ => unreachable!(),
        }
    }

    /// FIRST of each nonterminal as a bit set (no production is empty)
    pub fn first_sets(&self) -> Vec<Bits> {
        let mut f = vec![Bits::default(); self.nts + 1];
        loop {
            let mut changed = false;
            for (n, rhs) in &self.prods {
                let add = match rhs[0] {
                    S::T(t) => Bits::one(t),
                    S::N(m) => f[m],
                };
                changed |= f[*n].add(add);
            }
            if !changed {
                return f;
            }
        }
    }

    pub fn closure(&self, first: &[Bits], kernel: &[(Core, Bits)]) -> Set {
        let mut set: Set = BTreeMap::new();
        let mut work: Vec<Core> = vec![];
        for &(c, la) in kernel {
            set.entry(c).or_default().add(la);
            work.push(c);
        }
        while let Some(c) = work.pop() {
            let la = set[&c];
            let rhs = &self.prods[c.0 as usize].1;
            if let Some(S::N(n)) = rhs.get(c.1 as usize) {
                let follow = match rhs.get(c.1 as usize + 1) {
                    None => la,
                    Some(S::T(t)) => Bits::one(*t),
                    Some(S::N(m)) => first[*m],
                };
                // an empty FIRST (a nonterminal without any terminal string) adds no item
                if follow.is_empty() {
                    continue;
                }
                for &p in &self.by_nt[*n] {
                    let k = (p as u32, 0);
                    if set.entry(k).or_default().add(follow) {
                        work.push(k);
                    }
                }
            }
        }
        set
    }

    /// canonical collection; None if it exceeds `max` sets or too many lookaheads
    pub fn lr1(&self, max: usize) -> Option<Lr1> {
        let mut size = 0usize;
        let first = self.first_sets();
        let key = |s: &Set| s.iter().map(|(a, b)| (*a, *b)).collect::<Vec<_>>();
        let s0 = self.closure(&first, &[((0, 0), Bits::one(0))]);
        let mut r = Lr1 {
            index: HashMap::from([(key(&s0), 0)]),
            sets: vec![s0],
            trans: vec![],
        };
        let mut i = 0;
        while i < r.sets.len() {
            let mut next: BTreeMap<S, Vec<(Core, Bits)>> = BTreeMap::new();
            for (c, la) in &r.sets[i] {
                if let Some(x) = self.prods[c.0 as usize].1.get(c.1 as usize) {
                    next.entry(*x).or_default().push(((c.0, c.1 + 1), *la));
                }
            }
            let mut tr = BTreeMap::new();
            for (x, kernel) in next {
                let s = self.closure(&first, &kernel);
                let k = key(&s);
                let j = match r.index.get(&k) {
                    Some(j) => *j,
                    None => {
                        let j = r.sets.len();
                        size += s.values().map(|b| b.count() as usize).sum::<usize>();
                        if j >= max || size > MAX_LOOKAHEADS {
                            return None;
                        }
                        r.sets.push(s);
                        r.index.insert(k, j);
                        j
                    }
                };
                tr.insert(x, j);
            }
            r.trans.push(tr);
            i += 1;
        }
        Some(r)
    }

    /// map from LR(1) set to LALR state, and the merged sets; state 0 is initial
    pub fn merge(&self, lr1: &Lr1) -> (Vec<usize>, Vec<Set>) {
        let mut by_core: HashMap<Vec<Core>, usize> = HashMap::new();
        let mut merged: Vec<Set> = vec![];
        let mut map = vec![];
        for s in &lr1.sets {
            let core: Vec<Core> = s.keys().copied().collect();
            let k = *by_core.entry(core).or_insert_with(|| {
                merged.push(BTreeMap::new());
                merged.len() - 1
            });
            for (c, la) in s {
                merged[k].entry(*c).or_default().add(*la);
            }
            map.push(k);
        }
        (map, merged)
    }

    /// tables, or the kinds of conflict present
    pub fn lalr(&self, lr1: &Lr1) -> Result<Lalr, Vec<Conflict>> {
        let (map, merged) = self.merge(lr1);
        let mut conflicts = vec![];
        let mut t = Lalr {
            action: vec![BTreeMap::new(); merged.len()],
            goto: vec![BTreeMap::new(); merged.len()],
        };
        for (i, tr) in lr1.trans.iter().enumerate() {
            for (x, j) in tr {
                match x {
                    S::T(a) => {
                        t.action[map[i]].insert(*a, Act::Shift(map[*j]));
                    }
                    S::N(n) => {
                        t.goto[map[i]].insert(*n, map[*j]);
                    }
                }
            }
        }
        for (i, s) in merged.iter().enumerate() {
            for (c, la) in s {
                if (c.1 as usize) < self.prods[c.0 as usize].1.len() {
                    continue;
                }
                for a in 0..self.terms {
                    if !la.has(a) {
                        continue;
                    }
                    let act = if c.0 == 0 { Act::Accept } else { Act::Reduce(c.0 as usize) };
                    match t.action[i].insert(a, act) {
                        None => {}
                        Some(old) => conflicts.push(match (old, act) {
                            (Act::Accept, _) | (_, Act::Accept) => Conflict::Accept,
                            (Act::Shift(_), _) => Conflict::ShiftReduce,
                            _ => Conflict::ReduceReduce,
                        }),
                    }
                }
            }
        }
        if conflicts.is_empty() {
            Ok(t)
        } else {
            Err(conflicts)
        }
    }

    /// is the LR(1) automaton itself free of conflicts?
    pub fn is_lr1(&self, lr1: &Lr1) -> bool {
        for (i, s) in lr1.sets.iter().enumerate() {
            let mut used = Bits::default();
            for x in lr1.trans[i].keys() {
                if let S::T(a) = x {
                    used.set(*a);
                }
            }
            for (c, la) in s {
                if (c.1 as usize) == self.prods[c.0 as usize].1.len() {
                    if used.meets(la) {
                        return false;
                    }
                    used.add(*la);
                }
            }
        }
        true
    }

    pub fn earley(&self, toks: &[usize]) -> Earley {
        // item: (prod, dot, origin)
        let n = toks.len();
        let mut chart: Vec<BTreeSet<(usize, usize, usize)>> = vec![BTreeSet::new(); n + 1];
        let mut expects = vec![];
        chart[0].insert((0, 0, 0));
        for i in 0..=n {
            let mut work: Vec<_> = chart[i].iter().copied().collect();
            let mut expect = BTreeSet::new();
            while let Some((p, d, o)) = work.pop() {
                match self.prods[p].1.get(d) {
                    Some(S::N(m)) => {
                        for &q in &self.by_nt[*m] {
                            if chart[i].insert((q, 0, i)) {
                                work.push((q, 0, i));
                            }
                        }
                        // nothing is empty, so completions at i with origin i never exist
                    }
                    Some(S::T(t)) => {
                        expect.insert(*t);
                        if i < n && toks[i] == *t {
                            chart[i + 1].insert((p, d + 1, o));
                        }
                    }
                    None => {
                        let lhs = self.prods[p].0;
                        let adv: Vec<_> = chart[o]
                            .iter()
                            .filter(|(q, e, _)| self.prods[*q].1.get(*e) == Some(&S::N(lhs)))
                            .map(|&(q, e, oo)| (q, e + 1, oo))
                            .collect();
                        for it in adv {
                            if chart[i].insert(it) {
                                work.push(it);
                            }
                        }
                    }
                }
            }
            if chart[i].contains(&(0, 1, 0)) {
                expect.insert(0);
            }
            expects.push(expect);
            if i < n && chart[i + 1].is_empty() {
                break;
            }
        }
        Earley {
            accepted: expects.len() == n + 1 && expects[n].contains(&0),
            expects,
        }
    }

    /// minimal derivation height of each nonterminal (None: derives no terminal string)
    pub fn heights(&self) -> Vec<Option<usize>> {
        let mut h: Vec<Option<usize>> = vec![None; self.nts + 1];
        loop {
            let mut changed = false;
            for (n, rhs) in &self.prods {
                let v = rhs.iter().try_fold(0usize, |m, s| match s {
                    S::T(_) => Some(m),
                    S::N(k) => h[*k].map(|x| x.max(m)),
                });
                if let Some(v) = v {
                    if h[*n].map_or(true, |o| v + 1 < o) {
                        h[*n] = Some(v + 1);
                        changed = true;
                    }
                }
            }
            if !changed {
                return h;
            }
        }
    }
}

pub struct Earley {
    pub accepted: bool,
    /// expects[i]: terminals (0 = end) that can follow the first i tokens; stops after the
    /// position where the prefix becomes impossible
    pub expects: Vec<BTreeSet<usize>>,
}

#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub enum Tree {
    Leaf(usize),
    Node(usize, Vec<Tree>),
}

impl Tree {
    pub fn leaves(&self, out: &mut Vec<usize>) {
        match self {
            Tree::Leaf(t) => out.push(*t),
            Tree::Node(_, k) => k.iter().for_each(|x| x.leaves(out)),
        }
    }
    pub fn postorder(&self, out: &mut Vec<usize>) {
        if let Tree::Node(p, k) = self {
            k.iter().for_each(|x| x.postorder(out));
            out.push(*p);
        }
    }
    pub fn nodes(&self) -> usize {
        match self {
            Tree::Leaf(_) => 1,
            Tree::Node(_, k) => 1 + k.iter().map(|x| x.nodes()).sum::<usize>(),
        }
    }
}

/// Run LR tables over tokens (without the end marker).
pub fn drive(
    cfg: &Cfg,
    action: &dyn Fn(usize, usize) -> Option<Act>,
    goto: &dyn Fn(usize, usize) -> Option<usize>,
    toks: &[usize],
) -> Result<Vec<usize>, (usize, String)> {
    let mut stack = vec![0usize];
    let mut out = vec![];
    let mut i = 0;
    let limit = 20_000;
    for _ in 0..limit {
        let a = toks.get(i).copied().unwrap_or(0);
        match action(*stack.last().unwrap(), a) {
            None => return Err((i, "no action".into())),
            Some(Act::Accept) => return Ok(out),
            Some(Act::Shift(s)) => {
                if i >= toks.len() {
                    return Err((i, "end marker shifted".into()));
                }
                stack.push(s);
                i += 1;
            }
            Some(Act::Reduce(p)) => {
                let (lhs, rhs) = match cfg.prods.get(p) {
                    Some(x) => x,
                    None => return Err((i, format!("reduce by unknown production {}", p))),
                };
                if stack.len() <= rhs.len() {
                    return Err((i, "stack underflow".into()));
                }
                stack.truncate(stack.len() - rhs.len());
                out.push(p);
                match goto(*stack.last().unwrap(), *lhs) {
                    Some(s) => stack.push(s),
                    None => return Err((i, format!("missing goto after reducing {}", p))),
                }
            }
        }
    }
    Err((i, "does not end".into()))
}
