use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};

use crate::choices::Choices;

/// What a check may record about the case it is looking at.
#[derive(Default)]
pub struct Cx {
    pub labels: BTreeMap<String, u64>,
    pub evals: u64,
    nontrivial: bool,
    pub note: Option<Value>,
}

impl Cx {
    pub fn label(&mut self, l: &str) {
        *self.labels.entry(l.to_string()).or_insert(0) += 1;
    }
    pub fn label_n(&mut self, l: &str, n: u64) {
        *self.labels.entry(l.to_string()).or_insert(0) += n;
    }
    pub fn eval(&mut self) {
        self.evals += 1;
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn nontrivial_if(&mut self, b: bool) {
        if b {
            self.nontrivial = true;
        }
    }
}

pub type Outcome = Result<(), String>;

pub trait Prop: 'static {
    type Case: Serialize + DeserializeOwned + Clone;
    const ID: &'static str;
    /// how cases are made and what makes one non-trivial
    const RULE: &'static str;
    const ASSUMPTIONS: &'static [&'static str] = &[];
    const QUICK: u32;
    const THOROUGH: u32;
    /// maximal length of the choice vector
    const CHOICES: usize;
    const MAX_SHRINK: u32 = 4000;
    const SHARDS: u32 = 8;
    fn gen(c: &mut Choices) -> Self::Case;
    fn check(case: &Self::Case, cx: &mut Cx) -> Outcome;
    /// human-readable form for evidence samples
    fn show(case: &Self::Case) -> Value {
        serde_json::to_value(case).unwrap()
    }
    /// whole-run checks that are not per case (run by shard 0)
    fn once(_cx: &mut Cx) -> Outcome {
        Ok(())
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let mut msg: String = msg.chars().take(300).collect();
        msg.push_str(&format!(" [{}]", loc));
        LAST_PANIC.with(|p| *p.borrow_mut() = msg);
    }));
}

/// Run code under test; a panic becomes Err(message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => {
            std::mem::forget(e);
            Err(LAST_PANIC.with(|p| p.borrow().clone()))
        }
    }
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

/// check + protection against panics outside guard()
pub fn run_case<P: Prop>(case: &P::Case, cx: &mut Cx) -> Outcome {
    match guard(|| P::check(case, cx)) {
        Ok(r) => r,
        Err(p) => Err(format!("unexpected panic: {}", p)),
    }
}

pub struct ShardArgs {
    pub idx: u32,
    pub n: u32,
    pub seed: u64,
    pub thorough: bool,
    pub dir: PathBuf,
    pub scale: f64,
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn seed_bytes(seed: u64, id: &str, shard: u32) -> [u8; 32] {
    // FNV of the id: stable across toolchains
    let mut h: u64 = 0xcbf29ce484222325;
    for b in id.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    let mut x = seed ^ h ^ ((shard as u64) << 48);
    let mut out = [0u8; 32];
    for i in 0..4 {
        out[i * 8..i * 8 + 8].copy_from_slice(&splitmix(&mut x).to_le_bytes());
    }
    out
}

fn regress_cases<P: Prop>(root: &Path) -> Vec<P::Case> {
    let f = root.join("regress").join(format!("{}.jsonl", P::ID));
    let Ok(text) = std::fs::read_to_string(&f) else {
        return vec![];
    };
    text.lines()
        .filter(|l| !l.trim().is_empty())
        .map(|l| serde_json::from_str(l).unwrap_or_else(|e| panic!("bad regression case in {:?}: {}", f, e)))
        .collect()
}

/// Run one shard; returns the JSON result.
pub fn shard<P: Prop>(a: &ShardArgs, root: &Path) -> Value {
    let total = if a.thorough { P::THOROUGH } else { P::QUICK };
    let total = ((total as f64 * a.scale) as u32).max(a.n);
    let cases = total / a.n + if a.idx < total % a.n { 1 } else { 0 };
    let journal = a.dir.join(format!("journal-{}", a.idx));

    let mut evaluations = 0u64;
    let mut sub_evals = 0u64;
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut nontrivial: HashSet<u64> = HashSet::new();
    let mut samples: Vec<Value> = vec![];
    let mut failure: Option<(Value, String)> = None;

    // explicit cases first
    if a.idx == 0 {
        let mut cx = Cx::default();
        std::fs::write(&journal, json!({"once": true}).to_string()).unwrap();
        match guard(|| P::once(&mut cx)) {
            Ok(Ok(())) => {}
            Ok(Err(m)) => failure = Some((json!({"once": true}), m)),
            Err(p) => failure = Some((json!({"once": true}), format!("unexpected panic: {}", p))),
        }
        for (k, v) in cx.labels {
            *labels.entry(k).or_insert(0) += v;
        }
        sub_evals += cx.evals;
        for case in regress_cases::<P>(root) {
            if failure.is_some() {
                break;
            }
            let v = serde_json::to_value(&case).unwrap();
            std::fs::write(&journal, json!({"case": v}).to_string()).unwrap();
            let mut cx = Cx::default();
            evaluations += 1;
            cx.label("saved regression case");
            if let Err(m) = run_case::<P>(&case, &mut cx) {
                failure = Some((v, m));
            }
            for (k, v) in cx.labels {
                *labels.entry(k).or_insert(0) += v;
            }
            sub_evals += cx.evals;
        }
    }

    if failure.is_none() {
        let config = Config {
            cases,
            failure_persistence: None,
            max_shrink_iters: 0,
            ..Config::default()
        };
        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(a.seed, P::ID, a.idx));
        let mut runner = TestRunner::new_with_rng(config, rng);
        let strategy = proptest::collection::vec(proptest::num::u32::ANY, P::CHOICES / 4..=P::CHOICES);
        let st = RefCell::new((
            &mut evaluations,
            &mut sub_evals,
            &mut labels,
            &mut nontrivial,
            &mut samples,
        ));
        let res = runner.run(&strategy, |choices| {
            let bytes: Vec<u8> = choices.iter().flat_map(|c| c.to_le_bytes()).collect();
            std::fs::write(&journal, &bytes).unwrap();
            let case = match guard(|| P::gen(&mut Choices::new(&choices))) {
                Ok(c) => c,
                Err(e) => {
                    eprintln!("generator: {}", e);
                    std::process::exit(101);
                }
            };
            let mut cx = Cx::default();
            let r = run_case::<P>(&case, &mut cx);
            let mut g = st.borrow_mut();
            *g.0 += 1;
            *g.1 += cx.evals;
            for (k, v) in std::mem::take(&mut cx.labels) {
                *g.2.entry(k).or_insert(0) += v;
            }
            if cx.nontrivial {
                let text = serde_json::to_string(&case).unwrap();
                let fresh = g.3.insert(hash_str(&text));
                if fresh && g.4.len() < 3 && choices.len() > P::CHOICES / 2 {
                    let s = P::show(&case);
                    g.4.push(match cx.note.take() {
                        Some(n) => json!({"case": s, "note": n}),
                        None => s,
                    });
                }
            }
            r.map_err(TestCaseError::fail)
        });
        drop(st);
        match res {
            Ok(()) => {}
            Err(TestError::Fail(reason, choices)) => {
                let (choices, msg) = shrink::<P>(choices, reason.message().to_string());
                let case = P::gen(&mut Choices::new(&choices));
                failure = Some((serde_json::to_value(&case).unwrap(), msg));
            }
            Err(TestError::Abort(r)) => {
                return json!({"error": format!("proptest aborted: {}", r.message())});
            }
        }
    }

    json!({
        "evaluations": evaluations,
        "sub_evals": sub_evals,
        "labels": labels,
        "nontrivial": nontrivial.into_iter().collect::<Vec<_>>(),
        "samples": samples,
        "failure": failure.map(|(case, message)| json!({"case": case, "message": message})),
    })
}

/// Generic reduction of a choice vector: `fails` returns a message when the reduced vector still
/// fails. Shorter vectors and smaller choices decode to smaller cases.
pub fn reduce(
    mut cur: Vec<u32>,
    mut msg: String,
    max: u32,
    fails: &mut dyn FnMut(&[u32]) -> Option<String>,
) -> (Vec<u32>, String) {
    let mut left = max;
    let started = std::time::Instant::now();
    macro_rules! attempt {
        ($v:expr) => {{
            let v: Vec<u32> = $v;
            if left == 0 || started.elapsed().as_secs() > 120 {
                return (cur, msg);
            }
            left -= 1;
            match fails(&v) {
                Some(m) => {
                    cur = v;
                    msg = m;
                    true
                }
                None => false,
            }
        }};
    }
    loop {
        let before = cur.clone();
        // trailing choices
        let mut k = cur.len() / 2;
        while k > 0 {
            if k < cur.len() && attempt!(cur[..cur.len() - k].to_vec()) {
                k = cur.len() / 2;
            } else {
                k /= 2;
            }
        }
        // chunks: delete, then zero
        let mut size = (cur.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i < cur.len() {
                let e = (i + size).min(cur.len());
                let mut v = cur.clone();
                v.drain(i..e);
                if attempt!(v) {
                    continue;
                }
                if cur[i..e].iter().any(|x| *x != 0) {
                    let mut v = cur.clone();
                    v[i..e].iter_mut().for_each(|x| *x = 0);
                    attempt!(v);
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // single values, towards zero
        for i in 0..cur.len() {
            let mut step = 0;
            while i < cur.len() && cur[i] != 0 && step < 12 {
                step += 1;
                let mut v = cur.clone();
                v[i] /= 2;
                if !attempt!(v) {
                    break;
                }
            }
        }
        if cur == before {
            return (cur, msg);
        }
    }
}

fn shrink<P: Prop>(choices: Vec<u32>, msg: String) -> (Vec<u32>, String) {
    reduce(choices, msg, P::MAX_SHRINK, &mut |v| {
        let case = P::gen(&mut Choices::new(v));
        let mut cx = Cx::default();
        run_case::<P>(&case, &mut cx).err()
    })
}

/// Re-check one explicit case. Ok(()) = holds.
pub fn replay<P: Prop>(case: &Value) -> Result<Outcome, String> {
    if case.get("once").is_some() {
        let mut cx = Cx::default();
        return Ok(match guard(|| P::once(&mut cx)) {
            Ok(r) => r,
            Err(p) => Err(format!("unexpected panic: {}", p)),
        });
    }
    let case: P::Case = serde_json::from_value(case.clone()).map_err(|e| e.to_string())?;
    let mut cx = Cx::default();
    Ok(run_case::<P>(&case, &mut cx))
}

pub fn decode<P: Prop>(choices: &[u32]) -> Value {
    serde_json::to_value(P::gen(&mut Choices::new(choices))).unwrap()
}

pub fn write_file(p: &Path, s: &str) {
    let mut f = std::fs::File::create(p).unwrap();
    f.write_all(s.as_bytes()).unwrap();
}
