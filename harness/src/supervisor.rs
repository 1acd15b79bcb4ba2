//! check ID: run the shards in child processes, merge what they did, confirm and report.
use crate::engine::{self, ShardArgs};
use crate::props;
use crate::Entry;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub fn root() -> PathBuf {
    match std::env::var_os("VERIF_ROOT") {
        Some(r) => PathBuf::from(r),
        None => PathBuf::from("/verif"),
    }
}

fn find(id: &str) -> Entry {
    props::all().into_iter().find(|e| e.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {}", id);
        std::process::exit(2)
    })
}

fn limits() {
    unsafe {
        // soft: the TypeScript child lifts it (see ts.rs)
        let mut l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::getrlimit(libc::RLIMIT_AS, &mut l);
        l.rlim_cur = (3u64 << 30).min(l.rlim_max);
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
    }
}

/// Run f on a thread with a large stack.
fn big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    engine::install_panic_hook();
    std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(f)
        .unwrap()
        .join()
        .unwrap_or_else(|_| {
            eprintln!("worker thread died");
            std::process::exit(101)
        })
}

fn self_cmd(args: &[&str]) -> Command {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.args(args);
    c.stdin(Stdio::null()).stdout(Stdio::null());
    unsafe {
        c.pre_exec(|| {
            // children end with the supervisor
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    c
}

// ------------------------------------------------------------------ children

/// shard ID idx n seed tier scale dir
pub fn shard_main(a: &[String]) -> i32 {
    limits();
    let e = find(&a[0]);
    let args = ShardArgs {
        idx: a[1].parse().unwrap(),
        n: a[2].parse().unwrap(),
        seed: a[3].parse().unwrap(),
        thorough: a[4] == "thorough",
        scale: a[5].parse().unwrap(),
        dir: PathBuf::from(&a[6]),
    };
    let out = args.dir.join(format!("result-{}", args.idx));
    let v = big_stack(move || (e.shard)(&args, &root()));
    engine::write_file(&out, &v.to_string());
    0
}

/// one ID casefile outfile: re-check one case in this process; the outcome goes to outfile
pub fn one_main(a: &[String]) -> i32 {
    limits();
    unsafe {
        // a case takes milliseconds
        let l = libc::rlimit { rlim_cur: 60, rlim_max: 70 };
        libc::setrlimit(libc::RLIMIT_CPU, &l);
    }
    let e = find(&a[0]);
    let v: Value = serde_json::from_str(&std::fs::read_to_string(&a[1]).unwrap()).unwrap();
    let out = a[2].clone();
    let r = big_stack(move || (e.replay)(&v));
    let (code, msg) = match r {
        Ok(Ok(())) => (0, String::new()),
        Ok(Err(m)) => (1, m),
        Err(m) => (2, m),
    };
    engine::write_file(Path::new(&out), &msg);
    code
}

/// decode ID choicesfile outfile
pub fn decode_main(a: &[String]) -> i32 {
    let e = find(&a[0]);
    let bytes = std::fs::read(&a[1]).unwrap();
    let choices: Vec<u32> = bytes
        .chunks_exact(4)
        .map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]]))
        .collect();
    let v = big_stack(move || (e.decode)(&choices));
    engine::write_file(Path::new(&a[2]), &v.to_string());
    0
}

// ---------------------------------------------------------------- supervisor

enum Ran {
    Holds,
    Fails(String),
    /// killed by a signal that means the code under test crashed the process
    Crash(String),
    /// anything else: no verdict
    Unclear(String),
}

fn wait(mut ch: Child, limit: Duration) -> Option<std::process::ExitStatus> {
    let t = Instant::now();
    loop {
        match ch.try_wait().unwrap() {
            Some(s) => return Some(s),
            None if t.elapsed() > limit => {
                let _ = ch.kill();
                let _ = ch.wait();
                return None;
            }
            None => std::thread::sleep(Duration::from_millis(5)),
        }
    }
}

fn crash_text(stderr: &str, sig: Option<i32>) -> Option<String> {
    if stderr.contains("memory allocation of") {
        return Some("the process ran out of memory (3 GB)".into());
    }
    if stderr.contains("has overflowed its stack") {
        return Some("the process overflowed its stack (256 MB)".into());
    }
    match sig {
        Some(libc::SIGSEGV) | Some(libc::SIGBUS) | Some(libc::SIGILL) | Some(libc::SIGFPE) => {
            Some(format!("the process was killed by signal {}", sig.unwrap()))
        }
        Some(libc::SIGXCPU) => Some("no answer within 60 s of CPU time".into()),
        Some(libc::SIGABRT) => {
            let tail: String = stderr.trim().chars().rev().take(200).collect::<String>().chars().rev().collect();
            Some(format!("the process aborted: {}", tail))
        }
        _ => None,
    }
}

/// Run one case in a fresh process.
fn run_one(id: &str, case: &Value, dir: &Path, limit: u64) -> Ran {
    let cf = dir.join("one.json");
    let of = dir.join("one.out");
    let ef = dir.join("one.err");
    engine::write_file(&cf, &case.to_string());
    let _ = std::fs::remove_file(&of);
    let ch = self_cmd(&["one", id, cf.to_str().unwrap(), of.to_str().unwrap()])
        .stderr(std::fs::File::create(&ef).unwrap())
        .spawn()
        .unwrap();
    let st = match wait(ch, Duration::from_secs(limit)) {
        None => return Ran::Unclear("no answer in time".into()),
        Some(s) => s,
    };
    let msg = std::fs::read_to_string(&of).unwrap_or_default();
    let err = std::fs::read_to_string(&ef).unwrap_or_default();
    match st.code() {
        Some(0) => Ran::Holds,
        Some(1) => Ran::Fails(msg),
        _ => match crash_text(&err, st.signal()) {
            Some(m) => Ran::Crash(m),
            None => Ran::Unclear(format!("{:?} {} {}", st, msg, err)),
        },
    }
}

fn decode_choices(id: &str, choices: &[u32], dir: &Path) -> Option<Value> {
    let cf = dir.join("dec.bin");
    let of = dir.join("dec.json");
    let bytes: Vec<u8> = choices.iter().flat_map(|c| c.to_le_bytes()).collect();
    std::fs::write(&cf, bytes).ok()?;
    let _ = std::fs::remove_file(&of);
    let ch = self_cmd(&["decode", id, cf.to_str()?, of.to_str()?])
        .stderr(Stdio::null())
        .spawn()
        .ok()?;
    wait(ch, Duration::from_secs(20))?;
    serde_json::from_str(&std::fs::read_to_string(&of).ok()?).ok()
}

struct Known {
    what: String,
    case: Value,
}

/// lines: "known: property=C00 case={...} :: what fails" (and "fixed: ..." lines, which suppress nothing)
fn known(id: &str) -> Vec<Known> {
    let text = std::fs::read_to_string(root().join("known-findings.txt")).unwrap_or_default();
    let prefix = format!("known: property={} case=", id);
    text.lines()
        .filter_map(|l| l.strip_prefix(&prefix))
        .map(|l| {
            let (case, what) = l.split_once(" :: ").expect("known-findings.txt: missing ' :: '");
            Known {
                what: what.to_string(),
                case: serde_json::from_str(case).expect("known-findings.txt: bad case"),
            }
        })
        .collect()
}

pub fn check(id: &str) -> i32 {
    let t0 = Instant::now();
    let e = find(id);
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let limit = if tier == "quick" { 840 } else { 4 * 3600 };
    let dir = std::env::temp_dir().join(format!("vharness-{}-{}", id, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let code = check_in(&e, seed, tier, scale, limit, &dir, t0);
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn check_in(e: &Entry, seed: u64, tier: &str, scale: f64, limit: u64, dir: &Path, t0: Instant) -> i32 {
    let id = e.id;
    // known findings first: still there?
    let known = known(id);
    let mut known_lines = vec![];
    for (i, k) in known.iter().enumerate() {
        match run_one(id, &k.case, dir, 120) {
            Ran::Fails(_) | Ran::Crash(_) => {
                println!("KNOWN-FINDING: property={} {}", id, k.what);
                known_lines.push(k.what.clone());
            }
            Ran::Holds => println!("note: known finding {} of {} no longer fails", i + 1, id),
            Ran::Unclear(m) => {
                eprintln!("ERROR: known finding {} of {}: {}", i + 1, id, m);
                return 2;
            }
        }
    }

    let n = e.shards;
    let mut children: Vec<(u32, Option<Child>)> = (0..n)
        .map(|i| {
            let err = std::fs::File::create(dir.join(format!("stderr-{}", i))).unwrap();
            let ch = self_cmd(&[
                "shard",
                id,
                &i.to_string(),
                &n.to_string(),
                &seed.to_string(),
                tier,
                &scale.to_string(),
                dir.to_str().unwrap(),
            ])
            .stderr(err)
            .spawn()
            .unwrap();
            (i, Some(ch))
        })
        .collect();
    let mut statuses: BTreeMap<u32, std::process::ExitStatus> = BTreeMap::new();
    let mut timed_out = false;
    let mut hung: HashSet<u32> = HashSet::new();
    let mut last_look = Instant::now();
    while statuses.len() < n as usize {
        for (i, ch) in children.iter_mut() {
            if let Some(c) = ch {
                if let Some(st) = c.try_wait().unwrap() {
                    statuses.insert(*i, st);
                    *ch = None;
                }
            }
        }
        if last_look.elapsed().as_secs() >= 2 {
            last_look = Instant::now();
            for (i, ch) in children.iter_mut() {
                let Some(c) = ch else { continue };
                let age = std::fs::metadata(dir.join(format!("journal-{}", i)))
                    .and_then(|m| m.modified())
                    .ok()
                    .and_then(|m| m.elapsed().ok());
                // shrinking takes up to 120 s
                if age.map_or(false, |a| a.as_secs() > 200) {
                    let _ = c.kill();
                    hung.insert(*i);
                }
            }
        }
        if t0.elapsed().as_secs() > limit {
            timed_out = true;
            for (_, ch) in children.iter_mut() {
                if let Some(c) = ch {
                    let _ = c.kill();
                    let _ = c.wait();
                }
            }
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }

    let mut evaluations = 0u64;
    let mut sub = 0u64;
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut nontrivial: HashSet<u64> = HashSet::new();
    let mut samples: Vec<Value> = vec![];
    let mut failures: Vec<(Value, String)> = vec![];
    let mut errors: Vec<String> = vec![];
    for i in 0..n {
        let res = std::fs::read_to_string(dir.join(format!("result-{}", i)))
            .ok()
            .and_then(|t| serde_json::from_str::<Value>(&t).ok());
        if let Some(v) = res {
            if let Some(m) = v.get("error") {
                errors.push(m.to_string());
                continue;
            }
            evaluations += v["evaluations"].as_u64().unwrap();
            sub += v["sub_evals"].as_u64().unwrap();
            for (k, c) in v["labels"].as_object().unwrap() {
                *labels.entry(k.clone()).or_insert(0) += c.as_u64().unwrap();
            }
            for h in v["nontrivial"].as_array().unwrap() {
                nontrivial.insert(h.as_u64().unwrap());
            }
            if samples.len() < 6 {
                samples.extend(v["samples"].as_array().unwrap().iter().cloned());
            }
            if let Some(f) = v.get("failure").filter(|f| !f.is_null()) {
                failures.push((f["case"].clone(), f["message"].as_str().unwrap_or("").to_string()));
            }
            continue;
        }
        // the shard ended without a result
        let err = std::fs::read_to_string(dir.join(format!("stderr-{}", i))).unwrap_or_default();
        let st = statuses.get(&i);
        let crash = if hung.contains(&i) {
            Some("no answer for 200 s".to_string())
        } else {
            st.and_then(|s| crash_text(&err, s.signal()))
        };
        match (timed_out, crash) {
            (false, Some(_)) if !failures.is_empty() => {}
            (false, Some(m)) => match crashed_case(id, i, dir) {
                Some((case, m2)) => failures.push((case, m2)),
                None => errors.push(format!("shard {} crashed ({}) but the case does not crash alone", i, m)),
            },
            _ => errors.push(format!(
                "shard {} gave no result (timed out: {}, status {:?}): {}",
                i,
                timed_out,
                st,
                err.chars().take(400).collect::<String>()
            )),
        }
    }
    samples.truncate(6);

    // smallest failing case, confirmed in a fresh process
    failures.sort_by_key(|(c, _)| c.to_string().len());
    let mut violation: Option<(Value, String)> = None;
    for (case, msg) in &failures {
        match run_one(id, case, dir, 300) {
            // the machinery's own trouble, not the code's
            Ran::Fails(m) if m.starts_with("harness:") => errors.push(m),
            Ran::Fails(m) => {
                violation = Some((case.clone(), m));
                break;
            }
            Ran::Crash(m) => {
                violation = Some((case.clone(), m));
                break;
            }
            Ran::Holds => errors.push(format!("a failure did not reproduce in a fresh process: {} {}", msg, case)),
            Ran::Unclear(m) => errors.push(format!("a failure could not be confirmed: {} {}", m, msg)),
        }
    }

    let ev = json!({
        "property": id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": nontrivial.len(),
            "rule": e.rule,
            "samples": samples,
            "oracle_comparisons": sub,
            "labels": labels,
            "shards": n,
            "known_findings_present": known_lines,
        },
        "assumptions": e.assumptions,
        "wall_s": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        "violations": if violation.is_some() { 1 } else { 0 },
    });
    let evdir = root().join("evidence");
    std::fs::create_dir_all(&evdir).unwrap();
    engine::write_file(
        &evdir.join(format!("{}.json", id)),
        &(serde_json::to_string_pretty(&ev).unwrap() + "\n"),
    );

    if let Some((case, msg)) = violation {
        let rdir = root().join("replays");
        std::fs::create_dir_all(&rdir).unwrap();
        let f = rdir.join(format!("{}-{:016x}.json", id, engine::hash_str(&case.to_string())));
        let r = json!({"property": id, "case": case, "readable": (e.show)(&case), "message": msg, "seed": seed, "tier": tier});
        engine::write_file(&f, &(serde_json::to_string_pretty(&r).unwrap() + "\n"));
        println!("{}", msg);
        println!("VIOLATION property={} replay={}", id, f.display());
        return 1;
    }
    if !errors.is_empty() {
        for m in errors {
            eprintln!("ERROR: {}", m);
        }
        return 2;
    }
    println!(
        "OK property={} evaluations={} comparisons={} distinct_nontrivial={} wall={:.1}s",
        id,
        evaluations,
        sub,
        nontrivial.len(),
        t0.elapsed().as_secs_f64()
    );
    0
}

/// The shard died while looking at the journalled case: confirm and reduce it in subprocesses.
fn crashed_case(id: &str, shard: u32, dir: &Path) -> Option<(Value, String)> {
    let bytes = std::fs::read(dir.join(format!("journal-{}", shard))).ok()?;
    if let Ok(v) = serde_json::from_slice::<Value>(&bytes) {
        let case = v.get("case").cloned().unwrap_or(v);
        return match run_one(id, &case, dir, 120) {
            Ran::Crash(m) | Ran::Fails(m) => Some((case, m)),
            _ => None,
        };
    }
    let choices: Vec<u32> = bytes
        .chunks_exact(4)
        .map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]]))
        .collect();
    let mut fails = |v: &[u32]| -> Option<String> {
        let case = decode_choices(id, v, dir)?;
        match run_one(id, &case, dir, 60) {
            Ran::Crash(m) | Ran::Fails(m) => Some(m),
            _ => None,
        }
    };
    let m = fails(&choices)?;
    let (choices, m) = engine::reduce(choices, m, 150, &mut fails);
    Some((decode_choices(id, &choices, dir)?, m))
}

pub fn replay_main(file: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    let id = v["property"].as_str().unwrap().to_string();
    let dir = std::env::temp_dir().join(format!("vharness-replay-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let r = run_one(&id, &v["case"], &dir, 600);
    let _ = std::fs::remove_dir_all(&dir);
    match r {
        Ran::Holds => {
            println!("the property holds on this case");
            0
        }
        Ran::Fails(m) if m.starts_with("harness:") => {
            eprintln!("ERROR: {}", m);
            2
        }
        Ran::Fails(m) | Ran::Crash(m) => {
            println!("{}", m);
            println!("VIOLATION property={} replay={}", id, file);
            1
        }
        Ran::Unclear(m) => {
            eprintln!("ERROR: {}", m);
            2
        }
    }
}
