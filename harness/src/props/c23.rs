//! Generating again gives the same modules.
use crate::choices::Choices;
use crate::code::{short, with_grammar};
use crate::engine::{guard, Cx, Outcome, Prop};
use crate::gen::grammar::{gspec, input, GOpts, GSpec};
use crate::gen::typed::decorate;
use crate::props::lalr::MAX_LR1;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use typelalr::codegen::parse_gen::generate;
use typelalr::lalr::Lalr;
use typelalr::lex::lex::Lex;

/// everything the library decides about a grammar and some inputs
#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
pub struct Dump {
    /// None: no parser
    modules: Option<(String, String)>,
    accepted: Vec<bool>,
    tokens: Vec<Option<String>>,
}

pub fn dump(text: &str, inputs: &[String]) -> Dump {
    let tokens = with_grammar(text, |_, _, g| {
        let lexer = Lex::from_grammar(&g);
        inputs
            .iter()
            .map(|s| guard(|| format!("{:?}", lexer.convert_tokens(lexer.lex(s)))).ok())
            .collect()
    })
    .unwrap_or_default();
    with_grammar(text, |bump, ast, g| {
        let lalr = Lalr::new(g);
        let accepted = inputs.iter().map(|s| guard(|| lalr.parse(s)).is_ok()).collect();
        Dump { modules: generate(bump, ast, &lalr).ok(), accepted, tokens }
    })
    .unwrap_or(Dump { modules: None, accepted: vec![], tokens: vec![] })
}

const MARK: &str = "@dump@";

#[derive(Serialize, Deserialize)]
struct Rq {
    text: String,
    inputs: Vec<String>,
}

/// `vharness dump`: a dump in a fresh process
pub fn dump_main() -> i32 {
    crate::engine::install_panic_hook();
    let mut s = String::new();
    if std::io::stdin().read_to_string(&mut s).is_err() {
        return 2;
    }
    match serde_json::from_str::<Rq>(&s) {
        Ok(rq) => {
            let d = serde_json::to_string(&dump(&rq.text, &rq.inputs)).unwrap();
            // the library prints too
            println!("\n{}{}", MARK, d);
            0
        }
        Err(_) => 2,
    }
}

fn elsewhere(text: &str, inputs: &[String], variant: usize) -> Result<Dump, String> {
    let exe = std::env::current_exe().map_err(|e| format!("harness: {}", e))?;
    let mut cmd = Command::new(exe);
    cmd.arg("dump").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
    // surroundings that must not matter
    match variant % 4 {
        0 => {}
        1 => {
            cmd.current_dir("/").env("LC_ALL", "tr_TR.UTF-8").env("TZ", "Asia/Tokyo");
        }
        2 => {
            cmd.env_clear();
        }
        _ => {
            cmd.env("RUST_MIN_STACK", "8000000").env("HOME", "/nonexistent").env("PADDING", "x".repeat(4000));
        }
    }
    let mut ch = cmd.spawn().map_err(|e| format!("harness: cannot start a process: {}", e))?;
    let rq = serde_json::to_string(&Rq { text: text.into(), inputs: inputs.to_vec() }).unwrap();
    let mut i = ch.stdin.take().unwrap();
    let _ = i.write_all(rq.as_bytes());
    drop(i);
    let out = ch.wait_with_output().map_err(|e| format!("harness: {}", e))?;
    let text = String::from_utf8_lossy(&out.stdout);
    let line = text.lines().rev().find_map(|l| l.strip_prefix(MARK)).unwrap_or("");
    serde_json::from_str(line).map_err(|e| format!("the other process gave no dump ({}): {}", out.status, e))
}

fn differs(what: &str, a: &Dump, b: &Dump) -> Outcome {
    if a == b {
        return Ok(());
    }
    let part = match (&a.modules, &b.modules) {
        (Some(x), Some(y)) if x.0 != y.0 => first_difference("lexer module", &x.0, &y.0),
        (Some(x), Some(y)) if x.1 != y.1 => first_difference("parser module", &x.1, &y.1),
        (Some(_), None) | (None, Some(_)) => "the grammar is accepted only once".to_string(),
        _ if a.accepted != b.accepted => format!("accepted inputs {:?} and {:?}", a.accepted, b.accepted),
        _ => format!("tokens {} and {}", short(&format!("{:?}", a.tokens)), short(&format!("{:?}", b.tokens))),
    };
    Err(format!("{}: {}", what, part))
}

fn first_difference(what: &str, a: &str, b: &str) -> String {
    for (n, (x, y)) in a.lines().zip(b.lines()).enumerate() {
        if x != y {
            return format!("{} differs in line {}: {:?} and {:?}", what, n + 1, short(x), short(y));
        }
    }
    format!("{} differs in length", what)
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Again {
    pub spec: GSpec,
    pub inputs: Vec<String>,
    /// generated in between
    pub others: Vec<GSpec>,
    pub variant: usize,
}

pub struct C23;

impl Prop for C23 {
    type Case = Again;
    const ID: &'static str = "C23";
    const RULE: &'static str = "a grammar with generated types and mappings, inputs, and up to 3 other grammars; everything the library decides (both modules, or refusal; token lists; accepted inputs) is computed twice in one process, again after the other grammars, on another thread, and in a fresh process with another working directory and environment; all must be byte-identical. Non-trivial: an accepted grammar with at least 3 rules and 3 terminals.";
    const ASSUMPTIONS: &'static [&'static str] = &["same build of the library"];
    const QUICK: u32 = 4_000;
    const THOROUGH: u32 = 100_000;
    const CHOICES: usize = 900;
    const MAX_SHRINK: u32 = 600;
    fn gen(c: &mut Choices) -> Again {
        let o = GOpts { styles: [2, 3, 5, 4], ..GOpts::default() };
        let mut spec = gspec(c, &o);
        decorate(c, &mut spec);
        let b = spec.build();
        let inputs = (0..3).map(|_| input(c, &b, 10, false).1).collect();
        let n = c.below(3);
        let others = (0..n).map(|_| gspec(c, &o)).collect();
        Again { spec, inputs, others, variant: c.below(4) }
    }
    fn show(case: &Again) -> Value {
        json!({"grammar": case.spec.render(), "inputs": case.inputs, "in between": case.others.iter().map(GSpec::render).collect::<Vec<_>>()})
    }
    fn check(case: &Again, cx: &mut Cx) -> Outcome {
        let small = |s: &GSpec| s.build().cfg.lr1(MAX_LR1).is_some();
        if !small(&case.spec) {
            cx.label("collection too large");
            return Ok(());
        }
        let text = case.spec.render();
        let a = dump(&text, &case.inputs);
        cx.label(if a.modules.is_some() { "accepted grammar" } else { "refused grammar" });
        let b = case.spec.build();
        cx.nontrivial_if(a.modules.is_some() && b.nts.len() >= 3 && b.terms.len() >= 4);
        cx.eval();
        differs("a second time", &a, &dump(&text, &case.inputs))?;
        for o in case.others.iter().filter(|o| small(o)) {
            dump(&o.render(), &case.inputs);
        }
        if !case.others.is_empty() {
            cx.eval();
            let (t, i) = (text.clone(), case.inputs.clone());
            let th = std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || dump(&t, &i))
                .map_err(|e| format!("harness: {}", e))?;
            let x = th.join().map_err(|_| "the other thread died")?;
            differs("on another thread, after other grammars", &a, &x)?;
        }
        cx.eval();
        differs("in another process", &a, &elsewhere(&text, &case.inputs, case.variant)?)
    }
}
