//! The TypeScript side of the code under test, evaluated by the TypeScript compiler in a node
//! process (one per worker), see ts/server.js.
use crate::engine::guard;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::os::unix::process::CommandExt;
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver};
use std::time::Duration;
use typelalr::codegen::lex_gen::gen_arithmetic;

pub const REPO: &str = "/repo";

pub struct Server {
    child: Child,
    stdin: ChildStdin,
    rx: Receiver<String>,
}

thread_local! {
    static SERVER: RefCell<Option<Server>> = const { RefCell::new(None) };
}

impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

impl Server {
    fn spawn() -> Result<Server, String> {
        let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
        let mut cmd = Command::new("node");
        cmd.arg("--stack-size=4000")
            .arg("--max-old-space-size=3000")
            .arg(format!("{}/ts/server.js", root))
            .arg(REPO)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null());
        unsafe {
            cmd.pre_exec(|| {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                // node reserves far more address space than it uses
                let mut l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::getrlimit(libc::RLIMIT_AS, &mut l);
                l.rlim_cur = l.rlim_max;
                libc::setrlimit(libc::RLIMIT_AS, &l);
                let s = libc::rlimit { rlim_cur: 64 << 20, rlim_max: 64 << 20 };
                libc::setrlimit(libc::RLIMIT_STACK, &s);
                Ok(())
            });
        }
        let mut child = cmd.spawn().map_err(|e| format!("node: {}", e))?;
        let stdin = child.stdin.take().unwrap();
        let stdout = child.stdout.take().unwrap();
        let (tx, rx) = channel();
        std::thread::spawn(move || {
            for l in BufReader::new(stdout).lines() {
                match l {
                    Ok(l) => {
                        if tx.send(l).is_err() {
                            return;
                        }
                    }
                    Err(_) => return,
                }
            }
        });
        let mut s = Server { child, stdin, rx };
        let mut arith = String::new();
        guard(|| gen_arithmetic(&mut arith, 5000)).map_err(|e| format!("gen_arithmetic: {}", e))?;
        s.request(&json!({"setup": true, "arith": arith}))?;
        Ok(s)
    }

    fn request(&mut self, v: &Value) -> Result<Value, String> {
        let mut line = v.to_string();
        line.push('\n');
        self.stdin.write_all(line.as_bytes()).map_err(|e| format!("TypeScript process: {}", e))?;
        self.stdin.flush().map_err(|e| e.to_string())?;
        let l = self
            .rx
            .recv_timeout(Duration::from_secs(60))
            .map_err(|e| format!("TypeScript process gave no answer: {}", e))?;
        let v: Value = serde_json::from_str(&l).map_err(|e| e.to_string())?;
        if let Some(e) = v.get("error") {
            return Err(format!("TypeScript compiler failed: {}", e));
        }
        Ok(v)
    }
}

/// Ask the TypeScript process of this worker; it is restarted after an error.
pub fn ask(v: &Value) -> Result<Value, String> {
    SERVER.with(|s| {
        let mut s = s.borrow_mut();
        if s.is_none() {
            *s = Some(Server::spawn()?);
        }
        let r = s.as_mut().unwrap().request(v);
        if r.is_err() {
            *s = None;
        }
        r
    })
}

/// a TypeScript string literal
pub fn lit(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}

/// Evaluate types beside the given generated modules.
pub fn eval(lex: &str, parse: &str, exprs: &[(String, String)]) -> Result<Vec<Value>, String> {
    let ex: Vec<Value> = exprs.iter().map(|(n, e)| json!([n, e])).collect();
    let r = ask(&json!({"lex": lex, "parse": parse, "exprs": ex}))?;
    exprs
        .iter()
        .map(|(n, _)| r["values"].get(n).cloned().ok_or_else(|| format!("harness: no value for {}", n)))
        .collect()
}

/// Same, without a grammar.
pub fn eval_bare(exprs: &[(String, String)]) -> Result<Vec<Value>, String> {
    let ex: Vec<Value> = exprs.iter().map(|(n, e)| json!([n, e])).collect();
    let r = ask(&json!({"exprs": ex}))?;
    exprs
        .iter()
        .map(|(n, _)| r["values"].get(n).cloned().ok_or_else(|| format!("harness: no value for {}", n)))
        .collect()
}
