//! Reference reader of the grammar-definition language (hand-written, recursive descent).
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum RSym {
    Lit(String),
    Re(String),
    Nt(String),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct RBody {
    pub syms: Vec<(Option<String>, RSym)>,
    pub code: String,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct RRule {
    pub name: String,
    pub start: bool,
    pub ty: String,
    pub bodies: Vec<RBody>,
}

#[derive(Clone, Debug, PartialEq)]
enum T {
    P(&'static str), // punctuation or keyword
    Str(String),
    Id(String),
    Code(String),
}

fn tokens(s: &str) -> Result<Vec<T>, String> {
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    while i < cs.len() {
        let c = cs[i];
        if c.is_whitespace() {
            i += 1;
            continue;
        }
        if c == '_' || c.is_ascii_alphabetic() {
            let j0 = i;
            while i < cs.len() && (cs[i] == '_' || cs[i].is_ascii_alphanumeric()) {
                i += 1;
            }
            let w: String = cs[j0..i].iter().collect();
            out.push(match w.as_str() {
                "export" => T::P("export"),
                "start" => T::P("start"),
                "r" => T::P("r"),
                _ => T::Id(w),
            });
            continue;
        }
        match c {
            ',' => out.push(T::P(",")),
            ':' => out.push(T::P(":")),
            '<' => out.push(T::P("<")),
            '>' => out.push(T::P(">")),
            '[' => out.push(T::P("[")),
            ']' => out.push(T::P("]")),
            '=' => {
                if cs.get(i + 1) == Some(&'>') {
                    i += 1;
                    out.push(T::P("=>"));
                } else {
                    out.push(T::P("="));
                }
            }
            '"' => {
                // characters other than quote and backslash, or \\ or \"
                let mut j = i + 1;
                loop {
                    match cs.get(j) {
                        None => return Err(format!("unterminated string at {}", i)),
                        Some('"') => break,
                        Some('\\') => match cs.get(j + 1) {
                            Some('\\') | Some('"') => j += 2,
                            _ => return Err(format!("bad escape at {}", j)),
                        },
                        Some(_) => j += 1,
                    }
                }
                out.push(T::Str(cs[i + 1..j].iter().collect()));
                i = j;
            }
            '(' => {
                let eol = (i..cs.len()).find(|&k| cs[k] == '\n').unwrap_or(cs.len());
                match (i + 1..eol).rev().find(|&k| cs[k] == ')') {
                    None => return Err(format!("unterminated code at {}", i)),
                    Some(k) => {
                        out.push(T::Code(cs[i + 1..k].iter().collect()));
                        i = k;
                    }
                }
            }
            _ => return Err(format!("bad character at {}", i)),
        }
        i += 1;
    }
    Ok(out)
}

struct P {
    t: Vec<T>,
    i: usize,
}

impl P {
    fn is(&self, p: &'static str) -> bool {
        self.t.get(self.i) == Some(&T::P(p))
    }
    fn eat(&mut self, p: &'static str) -> Result<(), String> {
        if self.is(p) {
            self.i += 1;
            Ok(())
        } else {
            Err(format!("expected {} at token {}", p, self.i))
        }
    }
    fn opt(&mut self, p: &'static str) -> bool {
        let b = self.is(p);
        if b {
            self.i += 1
        }
        b
    }
    fn ident(&mut self) -> Result<String, String> {
        match self.t.get(self.i) {
            Some(T::Id(s)) => {
                let s = s.clone();
                self.i += 1;
                Ok(s)
            }
            _ => Err(format!("expected a name at token {}", self.i)),
        }
    }
    fn code(&mut self) -> Result<String, String> {
        match self.t.get(self.i) {
            Some(T::Code(s)) => {
                let s = s.clone();
                self.i += 1;
                Ok(s)
            }
            _ => Err(format!("expected code at token {}", self.i)),
        }
    }
    fn symbol(&mut self) -> Result<Option<RSym>, String> {
        Ok(match self.t.get(self.i) {
            Some(T::Str(s)) => {
                let s = s.clone();
                self.i += 1;
                Some(RSym::Lit(s))
            }
            Some(T::Id(s)) => {
                let s = s.clone();
                self.i += 1;
                Some(RSym::Nt(s))
            }
            Some(T::P("r")) => {
                self.i += 1;
                match self.t.get(self.i) {
                    Some(T::Str(s)) => {
                        let s = s.clone();
                        self.i += 1;
                        Some(RSym::Re(s))
                    }
                    _ => return Err("expected a regex string".into()),
                }
            }
            _ => None,
        })
    }
    fn named(&mut self) -> Result<Option<(Option<String>, RSym)>, String> {
        if self.opt("<") {
            let n = self.ident()?;
            self.eat(":")?;
            let s = self.symbol()?.ok_or("expected a symbol")?;
            self.eat(">")?;
            return Ok(Some((Some(n), s)));
        }
        Ok(self.symbol()?.map(|s| (None, s)))
    }
    fn body(&mut self) -> Result<RBody, String> {
        let mut syms = vec![];
        while let Some(s) = self.named()? {
            syms.push(s);
        }
        if syms.is_empty() {
            return Err(format!("expected a symbol at token {}", self.i));
        }
        self.eat("=>")?;
        let code = self.code()?;
        Ok(RBody { syms, code })
    }
    fn rule(&mut self) -> Result<RRule, String> {
        let export = self.opt("export");
        let start = export && self.opt("start");
        let name = self.ident()?;
        self.eat(":")?;
        let ty = self.code()?;
        self.eat("=")?;
        self.eat("[")?;
        let mut bodies = vec![];
        while !self.is("]") {
            bodies.push(self.body()?);
            if !self.opt(",") {
                break;
            }
        }
        self.eat("]")?;
        Ok(RRule {
            name,
            start,
            ty,
            bodies,
        })
    }
}

pub fn read(s: &str) -> Result<Vec<RRule>, String> {
    let mut p = P { t: tokens(s)?, i: 0 };
    let mut rules = vec![];
    while rules.is_empty() || p.i < p.t.len() {
        rules.push(p.rule()?);
    }
    Ok(rules)
}
