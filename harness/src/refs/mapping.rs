//! Mapping code: a small expression language that is also valid TypeScript (at type level),
//! with its reference evaluation.
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum M {
    Str(String),
    Num(i64),
    Bool(bool),
    Null,
    Label(String),
    /// label['key']
    Index(String, String),
    Obj(Vec<(String, M)>),
    /// element, spread?
    Tup(Vec<(M, bool)>),
    /// template literal: text, label, text
    Tpl(String, String, String),
}

impl M {
    pub fn render(&self) -> String {
        match self {
            M::Str(s) => serde_json::to_string(s).unwrap(),
            M::Num(n) => n.to_string(),
            M::Bool(b) => b.to_string(),
            M::Null => "null".into(),
            M::Label(l) => l.clone(),
            M::Index(l, k) => format!("{}['{}']", l, k),
            M::Obj(v) => {
                if v.is_empty() {
                    return "{}".into();
                }
                format!(
                    "{{ {} }}",
                    v.iter().map(|(k, m)| format!("{}: {}", k, m.render())).collect::<Vec<_>>().join(", ")
                )
            }
            M::Tup(v) => format!(
                "[{}]",
                v.iter()
                    .map(|(m, s)| format!("{}{}", if *s { "..." } else { "" }, m.render()))
                    .collect::<Vec<_>>()
                    .join(", ")
            ),
            M::Tpl(a, l, b) => format!("`{}${{{}}}{}`", a, l, b),
        }
    }

    pub fn eval(&self, env: &BTreeMap<String, Value>) -> Option<Value> {
        Some(match self {
            M::Str(s) => json!(s),
            M::Num(n) => json!(n),
            M::Bool(b) => json!(b),
            M::Null => Value::Null,
            M::Label(l) => env.get(l)?.clone(),
            M::Index(l, k) => env.get(l)?.get(k)?.clone(),
            M::Obj(v) => {
                let mut o = serde_json::Map::new();
                for (k, m) in v {
                    o.insert(k.clone(), m.eval(env)?);
                }
                Value::Object(o)
            }
            M::Tup(v) => {
                let mut a = vec![];
                for (m, s) in v {
                    let x = m.eval(env)?;
                    if *s {
                        a.extend(x.as_array()?.iter().cloned());
                    } else {
                        a.push(x);
                    }
                }
                Value::Array(a)
            }
            M::Tpl(a, l, b) => json!(format!("{}{}{}", a, env.get(l)?.as_str()?, b)),
        })
    }

    fn labels_mut(&mut self, f: &mut dyn FnMut(&mut String)) {
        match self {
            M::Str(_) | M::Num(_) | M::Bool(_) | M::Null => {}
            M::Label(l) | M::Index(l, _) | M::Tpl(_, l, _) => f(l),
            M::Obj(v) => v.iter_mut().for_each(|(_, m)| m.labels_mut(f)),
            M::Tup(v) => v.iter_mut().for_each(|(m, _)| m.labels_mut(f)),
        }
    }

    pub fn relabel(&mut self, map: &BTreeMap<String, String>) {
        self.labels_mut(&mut |l| {
            if let Some(n) = map.get(l) {
                *l = n.clone();
            }
        })
    }

    pub fn uses_label(&self) -> bool {
        let mut n = 0;
        self.clone().labels_mut(&mut |_| n += 1);
        n > 0
    }
}
