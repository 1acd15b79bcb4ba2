//! Reader for the declarations of generated TypeScript: type literals as data. Written from the
//! TypeScript grammar, for the part the generated modules use as data.
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Num(u64),
    Str(String),
    Bool(bool),
    Obj(Vec<(String, T)>),
    Tup(Vec<T>),
    Name(String),
    Union(Vec<T>),
    /// anything that is not data
    Other,
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    P(char),
    Word(String),
    Num(u64),
    Str(String),
    Template(String),
}

pub struct Decls {
    pub types: BTreeMap<String, T>,
    /// names declared more than once
    pub twice: Vec<String>,
}

fn lex(s: &str) -> Result<Vec<Tok>, String> {
    let cs: Vec<char> = s.chars().collect();
    let mut v = vec![];
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i];
        if c.is_whitespace() {
            i += 1;
        } else if c == '/' && cs.get(i + 1) == Some(&'/') {
            while i < cs.len() && cs[i] != '\n' {
                i += 1;
            }
        } else if c == '/' && cs.get(i + 1) == Some(&'*') {
            i += 2;
            while i + 1 < cs.len() && !(cs[i] == '*' && cs[i + 1] == '/') {
                i += 1;
            }
            i += 2;
        } else if c == '"' || c == '\'' {
            let (t, n) = string(&cs, i)?;
            v.push(Tok::Str(t));
            i = n;
        } else if c == '`' {
            // templates are not data: skip to the closing one, over escapes and ${...}
            let n = template(&cs, i)?;
            v.push(Tok::Template(cs[i..n].iter().collect()));
            i = n;
        } else if c.is_ascii_digit() {
            let b = i;
            while i < cs.len() && cs[i].is_ascii_digit() {
                i += 1;
            }
            let t: String = cs[b..i].iter().collect();
            v.push(Tok::Num(t.parse().map_err(|_| format!("number {}", t))?));
        } else if c.is_alphabetic() || c == '_' || c == '$' {
            let b = i;
            while i < cs.len() && (cs[i].is_alphanumeric() || cs[i] == '_' || cs[i] == '$') {
                i += 1;
            }
            v.push(Tok::Word(cs[b..i].iter().collect()));
        } else {
            v.push(Tok::P(c));
            i += 1;
        }
    }
    Ok(v)
}

fn string(cs: &[char], at: usize) -> Result<(String, usize), String> {
    let q = cs[at];
    let mut s = String::new();
    let mut units: Vec<u16> = vec![];
    let mut i = at + 1;
    fn flush(units: &mut Vec<u16>, s: &mut String) {
        if !units.is_empty() {
            s.push_str(&String::from_utf16_lossy(units));
            units.clear();
        }
    }
    loop {
        let c = *cs.get(i).ok_or("unterminated string")?;
        i += 1;
        if c == q {
            flush(&mut units, &mut s);
            return Ok((s, i));
        }
        if c == '\n' || c == '\r' {
            return Err("line break in a string literal".into());
        }
        if c != '\\' {
            flush(&mut units, &mut s);
            s.push(c);
            continue;
        }
        let e = *cs.get(i).ok_or("unterminated string")?;
        i += 1;
        let hex = |i: usize, n: usize| -> Result<u32, String> {
            let t: String = cs.get(i..i + n).ok_or("bad escape")?.iter().collect();
            u32::from_str_radix(&t, 16).map_err(|_| format!("bad escape {}", t))
        };
        let code = match e {
            'n' => 10,
            't' => 9,
            'r' => 13,
            'b' => 8,
            'f' => 12,
            'v' => 11,
            '0' if !cs.get(i).map_or(false, |c| c.is_ascii_digit()) => 0,
            '0'..='9' => return Err("octal escape".into()),
            'x' => {
                let v = hex(i, 2)?;
                i += 2;
                v
            }
            'u' if cs.get(i) == Some(&'{') => {
                let e = (i..cs.len()).find(|&k| cs[k] == '}').ok_or("bad escape")?;
                let v = hex(i + 1, e - i - 1)?;
                i = e + 1;
                v
            }
            'u' => {
                let v = hex(i, 4)?;
                i += 4;
                v
            }
            '\n' | '\u{2028}' | '\u{2029}' => continue,
            '\r' => {
                if cs.get(i) == Some(&'\n') {
                    i += 1;
                }
                continue;
            }
            c => c as u32,
        };
        if code <= 0xffff {
            units.push(code as u16);
        } else {
            flush(&mut units, &mut s);
            s.push(char::from_u32(code).ok_or("bad escape")?);
        }
    }
}

fn template(cs: &[char], at: usize) -> Result<usize, String> {
    let mut i = at + 1;
    loop {
        match *cs.get(i).ok_or("unterminated template")? {
            '`' => return Ok(i + 1),
            '\\' => i += 2,
            '$' if cs.get(i + 1) == Some(&'{') => {
                i += 2;
                let mut depth = 1;
                while depth > 0 {
                    match *cs.get(i).ok_or("unterminated template")? {
                        '{' => {
                            depth += 1;
                            i += 1;
                        }
                        '}' => {
                            depth -= 1;
                            i += 1;
                        }
                        '`' => i = template(cs, i)?,
                        '"' | '\'' => i = string(cs, i)?.1,
                        _ => i += 1,
                    }
                }
            }
            _ => i += 1,
        }
    }
}

struct P<'a> {
    t: &'a [Tok],
    i: usize,
}

impl<'a> P<'a> {
    fn peek(&self) -> Option<&'a Tok> {
        self.t.get(self.i)
    }
    fn is(&self, c: char) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    fn eat(&mut self, c: char) -> bool {
        let b = self.is(c);
        if b {
            self.i += 1;
        }
        b
    }
    /// None: not data
    fn ty(&mut self) -> Option<T> {
        self.eat('|');
        let mut v = vec![self.prim()?];
        while self.eat('|') {
            v.push(self.prim()?);
        }
        Some(if v.len() == 1 { v.pop().unwrap() } else { T::Union(v) })
    }
    fn prim(&mut self) -> Option<T> {
        let t = self.peek()?;
        self.i += 1;
        match t {
            Tok::Num(n) => Some(T::Num(*n)),
            Tok::Str(s) => Some(T::Str(s.clone())),
            Tok::Word(w) if w == "true" || w == "false" => Some(T::Bool(w == "true")),
            Tok::Word(w) => {
                let mut n = w.clone();
                while self.is('.') {
                    self.i += 1;
                    match self.peek()? {
                        Tok::Word(w) => {
                            n.push('.');
                            n.push_str(w);
                            self.i += 1;
                        }
                        _ => return None,
                    }
                }
                Some(T::Name(n))
            }
            Tok::P('{') => {
                let mut v = vec![];
                loop {
                    if self.eat('}') {
                        return Some(T::Obj(v));
                    }
                    let k = match self.peek()? {
                        Tok::Num(n) => n.to_string(),
                        Tok::Str(s) => s.clone(),
                        Tok::Word(w) => w.clone(),
                        _ => return None,
                    };
                    self.i += 1;
                    if !self.eat(':') {
                        return None;
                    }
                    let t = self.ty()?;
                    v.push((k, t));
                    // members are separated by , ; or a line break
                    let _ = self.eat(',') || self.eat(';');
                }
            }
            Tok::P('[') => {
                let mut v = vec![];
                loop {
                    if self.eat(']') {
                        return Some(T::Tup(v));
                    }
                    v.push(self.ty()?);
                    if !self.eat(',') && !self.is(']') {
                        return None;
                    }
                }
            }
            _ => None,
        }
    }
}

/// All `type NAME = ...` declarations of one block of text: `within` names the module block to
/// look into (None: top level).
pub fn decls(s: &str, within: Option<&str>) -> Result<Decls, String> {
    let toks = lex(s)?;
    let mut types = BTreeMap::new();
    let mut twice = vec![];
    let mut i = 0;
    let mut depth = 0i32;
    let mut module: Option<String> = None;
    while i < toks.len() {
        match &toks[i] {
            Tok::Word(w) if w == "module" && depth == 0 => {
                if let Some(Tok::Word(n)) = toks.get(i + 1) {
                    module = Some(n.clone());
                }
            }
            Tok::P('{') | Tok::P('[') | Tok::P('(') => depth += 1,
            Tok::P('}') | Tok::P(']') | Tok::P(')') => {
                depth -= 1;
                if depth == 0 {
                    module = None;
                }
            }
            Tok::Word(w) if w == "type" => {
                let here = match within {
                    None => depth == 0,
                    Some(m) => depth == 1 && module.as_deref() == Some(m),
                };
                if let (true, Some(Tok::Word(n)), Some(Tok::P('='))) = (here, toks.get(i + 1), toks.get(i + 2)) {
                    let mut p = P { t: &toks, i: i + 3 };
                    let t = p.ty();
                    if let (Some(_), true) = (&t, p.i > i) {
                        i = p.i - 1;
                    }
                    if types.insert(n.clone(), t.unwrap_or(T::Other)).is_some() {
                        twice.push(n.clone());
                    }
                }
            }
            _ => {}
        }
        i += 1;
    }
    Ok(Decls { types, twice })
}

impl T {
    pub fn get(&self, k: &str) -> Option<&T> {
        match self {
            T::Obj(v) => v.iter().find(|(n, _)| n == k).map(|(_, t)| t),
            _ => None,
        }
    }
    pub fn num(&self) -> Option<u64> {
        match self {
            T::Num(n) => Some(*n),
            _ => None,
        }
    }
    pub fn obj(&self) -> Result<BTreeMap<String, &T>, String> {
        match self {
            T::Obj(v) => {
                let mut m = BTreeMap::new();
                for (k, t) in v {
                    if m.insert(k.clone(), t).is_some() {
                        return Err(format!("member {:?} declared twice", k));
                    }
                }
                Ok(m)
            }
            t => Err(format!("not an object type: {:?}", t)),
        }
    }
    pub fn tup(&self) -> Result<&[T], String> {
        match self {
            T::Tup(v) => Ok(v),
            t => Err(format!("not a tuple type: {:?}", t)),
        }
    }
    pub fn str(&self) -> Result<&str, String> {
        match self {
            T::Str(v) => Ok(v),
            t => Err(format!("not a string literal type: {:?}", t)),
        }
    }
}
