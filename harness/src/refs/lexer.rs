//! Reference tokeniser: longest non-empty match, ties to the earlier definition, a space or
//! newline is skipped where no token matches.
use super::rx::Rx;

pub struct RefLex {
    pub defs: Vec<Rx>,
}

#[derive(Debug, Clone, PartialEq)]
pub struct RefTok {
    pub def: usize,
    pub start: usize,
    pub end: usize,
}

pub struct RefLexed {
    pub toks: Vec<RefTok>,
    /// position (in characters) at which no token matched and nothing could be skipped
    pub stuck: Option<usize>,
    /// some token needed giving back characters (a longer attempt failed)
    pub ties: usize,
    pub skipped: usize,
}

impl RefLex {
    pub fn lex(&self, s: &[char]) -> RefLexed {
        let mut r = RefLexed {
            toks: vec![],
            stuck: None,
            ties: 0,
            skipped: 0,
        };
        let mut p = 0;
        while p < s.len() {
            let mut best: Option<(usize, usize)> = None;
            let mut tie = false;
            for (d, rx) in self.defs.iter().enumerate() {
                if let Some(n) = rx.longest(&s[p..]) {
                    if n == 0 {
                        continue;
                    }
                    match best {
                        Some((_, m)) if m > n => {}
                        Some((_, m)) if m == n => tie = true,
                        _ => {
                            best = Some((d, n));
                            tie = false;
                        }
                    }
                }
            }
            match best {
                Some((def, n)) => {
                    if tie {
                        r.ties += 1;
                    }
                    r.toks.push(RefTok {
                        def,
                        start: p,
                        end: p + n,
                    });
                    p += n;
                }
                None if s[p] == ' ' || s[p] == '\n' => {
                    r.skipped += 1;
                    p += 1;
                }
                None => {
                    r.stuck = Some(p);
                    break;
                }
            }
        }
        r
    }
}
