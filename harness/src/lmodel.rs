//! Reference tokenizer: the documented lexical rules, stated over characters (not bytes).
use crate::syms::{self, S};
use lolcode_ast::lexer::{Keywords, NumberToken, Position, Token, TokenType, TokenValue};
use std::sync::OnceLock;

#[derive(Clone, Debug)]
pub struct L {
    /// character offsets
    pub a: usize,
    pub z: usize,
    pub ty: TokenType,
}
#[derive(Debug)]
pub struct Lexed {
    /// `Err(i)`: a comment opened at character i is never closed
    pub res: Result<Vec<L>, usize>,
    /// a numeral outside the 32-bit integers was met
    pub overflow: bool,
}

/// All keyword spellings with their keyword, longest first.
pub fn keywords() -> &'static [(Vec<char>, Keywords, &'static str)] {
    static K: OnceLock<Vec<(Vec<char>, Keywords, &'static str)>> = OnceLock::new();
    K.get_or_init(|| {
        let mut v: Vec<_> = syms::ALL
            .iter()
            .filter(|s| s.name().starts_with("K_"))
            .map(|s| match s.tt() {
                Some(TokenType::Keyword(k)) => (s.text().chars().collect::<Vec<_>>(), k.clone(), s.text()),
                _ => unreachable!(),
            })
            .collect();
        v.sort_by_key(|x| std::cmp::Reverse(x.0.len()));
        v
    })
}
pub fn keyword_texts() -> Vec<&'static str> {
    keywords().iter().map(|k| k.2).collect()
}
pub fn same_type(a: &TokenType, b: &TokenType) -> bool {
    use TokenType::*;
    match (a, b) {
        (Identifier(x), Identifier(y)) => x == y,
        (Symbol(x), Symbol(y)) => x == y,
        (CommentSingleLine(x), CommentSingleLine(y)) => x == y,
        (CommentMultiLine(x), CommentMultiLine(y)) => x == y,
        (Keyword(x), Keyword(y)) => kw_id(x) == kw_id(y),
        (BukkitSlotAccess, BukkitSlotAccess)
        | (Ellipsis, Ellipsis)
        | (Comma, Comma)
        | (ExclamationMark, ExclamationMark)
        | (QuestionMark, QuestionMark) => true,
        (Value(x), Value(y)) => match (x, y) {
            (TokenValue::NOOB, TokenValue::NOOB) => true,
            (TokenValue::Boolean(x), TokenValue::Boolean(y)) => x == y,
            (TokenValue::String(x), TokenValue::String(y)) => x == y,
            (TokenValue::Number(NumberToken::Int(x)), TokenValue::Number(NumberToken::Int(y))) => x == y,
            (TokenValue::Number(NumberToken::Float(x)), TokenValue::Number(NumberToken::Float(y))) => {
                x.to_bits() == y.to_bits()
            }
            _ => false,
        },
        _ => false,
    }
}
/// Identity of a keyword, not relying on its PartialEq.
pub fn kw_id(k: &Keywords) -> std::mem::Discriminant<Keywords> {
    std::mem::discriminant(k)
}

fn ident_char(c: char) -> bool {
    matches!(c, 'A'..='Z' | 'a'..='z' | '0'..='9' | '_')
}
fn at(c: &[char], i: usize, s: &str) -> bool {
    let mut j = i;
    for x in s.chars() {
        if c.get(j) != Some(&x) {
            return false;
        }
        j += 1;
    }
    true
}
fn word_at(c: &[char], i: usize, w: &[char]) -> bool {
    c.len() >= i + w.len() && c[i..i + w.len()] == *w && c.get(i + w.len()).map_or(true, |x| !ident_char(*x))
}

/// A numeral at i: end, sign, integer digits, fraction digits (None without a dot).
fn numeral(c: &[char], i: usize) -> Option<(usize, bool, String, Option<String>)> {
    let mut j = i;
    let neg = c.get(j) == Some(&'-');
    if neg || c.get(j) == Some(&'+') {
        j += 1;
    }
    let digits = |j: &mut usize| {
        let s = *j;
        while c.get(*j).map_or(false, |x| x.is_ascii_digit()) {
            *j += 1;
        }
        c[s..*j].iter().collect::<String>()
    };
    let whole = digits(&mut j);
    let frac = if c.get(j) == Some(&'.') {
        j += 1;
        Some(digits(&mut j))
    } else {
        None
    };
    if whole.is_empty() && frac.as_ref().map_or(true, |f| f.is_empty()) {
        return None;
    }
    Some((j, neg, whole, frac))
}
/// Value of a numeral; None when it does not fit a 32-bit integer.
fn value(neg: bool, whole: &str, frac: &Option<String>) -> Option<NumberToken> {
    match frac {
        Some(f) => {
            // canonical spelling, so that signs and missing digits do not matter
            let mut s = String::new();
            if neg {
                s.push('-');
            }
            s.push_str(if whole.is_empty() { "0" } else { whole });
            s.push('.');
            s.push_str(if f.is_empty() { "0" } else { f });
            Some(NumberToken::Float(s.parse::<f32>().expect("numeral")))
        }
        None => {
            let d = whole.trim_start_matches('0');
            if d.len() > 10 {
                return None;
            }
            let mut v: i64 = 0;
            for x in d.bytes() {
                v = v * 10 + (x - b'0') as i64;
            }
            if neg {
                v = -v;
            }
            i32::try_from(v).ok().map(NumberToken::Int)
        }
    }
}
/// The numeral a whole text spells.
pub fn numeral_value(s: &str) -> Option<NumberToken> {
    let c: Vec<char> = s.chars().collect();
    let (end, neg, w, f) = numeral(&c, 0)?;
    if end != c.len() {
        return None;
    }
    value(neg, &w, &f)
}

/// `split_overflow`: reproduce the known finding (an integer outside 32 bits is split character by character).
pub fn lex(c: &[char], split_overflow: bool) -> Lexed {
    let mut out: Vec<L> = Vec::new();
    let mut i = 0;
    let n = c.len();
    let mut overflow = false;
    let text = |a: usize, z: usize| c[a..z].iter().collect::<String>();
    while i < n {
        let x = c[i];
        if matches!(x, ' ' | '\t' | '\r' | '\n') {
            i += 1;
            continue;
        }
        let (z, ty) = 'tok: {
            match x {
                ',' => break 'tok (i + 1, TokenType::Comma),
                '!' => break 'tok (i + 1, TokenType::ExclamationMark),
                '?' => break 'tok (i + 1, TokenType::QuestionMark),
                '\u{2026}' => break 'tok (i + 1, TokenType::Ellipsis),
                '.' if at(c, i, "...") => break 'tok (i + 3, TokenType::Ellipsis),
                '\'' if at(c, i, "'Z") => break 'tok (i + 2, TokenType::BukkitSlotAccess),
                '"' => {
                    let mut j = i + 1;
                    while j < n && c[j] != '"' {
                        j += if c[j] == ':' && j + 1 < n && matches!(c[j + 1], '"' | ':') { 2 } else { 1 };
                    }
                    let ty = TokenType::Value(TokenValue::String(text(i + 1, j)));
                    break 'tok ((j + 1).min(n), ty);
                }
                _ => {}
            }
            if at(c, i, "BTW") {
                let mut j = i + 3;
                while j < n && c[j] != '\n' {
                    j += 1;
                }
                break 'tok (j, TokenType::CommentSingleLine(text(i + 3, j)));
            }
            if at(c, i, "OBTW") {
                let mut j = i + 4;
                while j < n && !at(c, j, "TLDR") {
                    j += 1;
                }
                if j >= n {
                    return Lexed { res: Err(i), overflow };
                }
                break 'tok (j + 4, TokenType::CommentMultiLine(text(i + 4, j)));
            }
            if x.is_ascii_uppercase() {
                for (w, k, name) in keywords() {
                    if w[0] == x && word_at(c, i, w) {
                        let ty = match *name {
                            "WIN" => TokenType::Value(TokenValue::Boolean(true)),
                            "FAIL" => TokenType::Value(TokenValue::Boolean(false)),
                            "NOOB" => TokenType::Value(TokenValue::NOOB),
                            _ => TokenType::Keyword(k.clone()),
                        };
                        break 'tok (i + w.len(), ty);
                    }
                }
            }
            if let Some((z, neg, w, f)) = numeral(c, i) {
                match value(neg, &w, &f) {
                    Some(v) => break 'tok (z, TokenType::Value(TokenValue::Number(v))),
                    None => {
                        overflow = true;
                        if !split_overflow {
                            // what it should be cannot be said: no 32-bit value; one token over its characters
                            break 'tok (z, TokenType::Symbol(text(i, z)));
                        }
                        break 'tok (i + 1, TokenType::Symbol(text(i, i + 1)));
                    }
                }
            }
            if ident_char(x) && !x.is_ascii_digit() {
                let mut j = i + 1;
                while j < n && ident_char(c[j]) {
                    j += 1;
                }
                break 'tok (j, TokenType::Identifier(text(i, j)));
            }
            (i + 1, TokenType::Symbol(text(i, i + 1)))
        };
        out.push(L { a: i, z, ty });
        i = z;
    }
    Lexed { res: Ok(out), overflow }
}

/// True position of every character boundary of a text (index = character offset), by counting.
pub fn table(c: &[char]) -> Vec<Position> {
    let mut v = Vec::with_capacity(c.len() + 1);
    let (mut line, mut col, mut bytes) = (1, 1, 0);
    for (i, x) in c.iter().enumerate() {
        v.push(Position { line, column: col, bytes, chars: i as i32 });
        if *x == '\n' {
            line += 1;
            col = 1;
        } else {
            col += 1;
        }
        bytes += match *x as u32 {
            0..=0x7f => 1,
            0x80..=0x7ff => 2,
            0x800..=0xffff => 3,
            _ => 4,
        };
    }
    v.push(Position { line, column: col, bytes, chars: c.len() as i32 });
    v
}
pub fn same_pos(a: &Position, b: &Position) -> bool {
    a.line == b.line && a.column == b.column && a.bytes == b.bytes && a.chars == b.chars
}
pub fn show_pos(p: &Position) -> String {
    format!("L{} C{} byte {} char {}", p.line, p.column, p.bytes, p.chars)
}
pub fn show_tokens(t: &[Token]) -> String {
    t.iter()
        .map(|t| format!("{:?}@{}..{}", t.token_type, t.range.0.bytes, t.range.1.bytes))
        .collect::<Vec<_>>()
        .join(" ")
}
pub fn show_l(t: &[L], tab: &[Position]) -> String {
    t.iter()
        .map(|t| format!("{:?}@{}..{}", t.ty, tab[t.a].bytes, tab[t.z].bytes))
        .collect::<Vec<_>>()
        .join(" ")
}

/// What the tokenizer still remembers at the end of a text: the unfinished token, in canonical form.
pub fn residual(c: &[char]) -> Vec<u8> {
    let l = lex(c, true);
    let tail = |k: u8, s: &[char]| {
        let mut v = vec![k];
        v.extend(s.iter().collect::<String>().bytes());
        v
    };
    let toks = match l.res {
        Err(i) => {
            // in a multi-line comment: how much of TLDR has been seen
            let body = &c[i + 4..];
            let t: Vec<char> = "TLDR".chars().collect();
            let k = (0..4).rev().find(|k| body.len() >= *k && body[body.len() - k..] == t[..*k]).unwrap_or(0);
            return vec![1, k as u8];
        }
        Ok(t) => t,
    };
    // first token start from which a keyword, comment starter, ellipsis or slot access may still grow
    for t in &toks {
        let r = &c[t.a..];
        let grows = keywords().iter().any(|(w, _, _)| w.len() >= r.len() && w[..r.len()] == *r)
            || ["...", "'Z"].iter().any(|w| w.chars().count() > r.len() && w.chars().zip(r).all(|(a, b)| a == *b));
        if grows {
            return tail(2, r);
        }
    }
    let last = match toks.last() {
        Some(t) if t.z == c.len() => t,
        _ => return vec![0],
    };
    let s = &c[last.a..];
    match &last.ty {
        TokenType::Value(TokenValue::String(_)) => {
            let closed = s.len() > 1 && {
                let mut j = 1;
                while j < s.len() && s[j] != '"' {
                    j += if s[j] == ':' && j + 1 < s.len() && matches!(s[j + 1], '"' | ':') { 2 } else { 1 };
                }
                j < s.len()
            };
            if closed {
                vec![0]
            } else {
                // an odd run of colons at the end escapes what follows
                let k = s.iter().rev().take_while(|x| **x == ':').count() % 2;
                vec![3, k as u8]
            }
        }
        TokenType::CommentSingleLine(_) => vec![4],
        TokenType::Value(TokenValue::Number(_)) => {
            let dot = s.contains(&'.');
            let sign = matches!(s[0], '+' | '-');
            let d = s.iter().filter(|x| x.is_ascii_digit()).count().min(2);
            vec![5, dot as u8, sign as u8, d as u8, (s.last() == Some(&'.')) as u8]
        }
        TokenType::Symbol(x) if x == "+" || x == "-" => vec![6, x.as_bytes()[0]],
        TokenType::Symbol(x) if x == "." => {
            let p = c.len().checked_sub(2).map(|i| c[i]);
            vec![6, b'.', matches!(p, Some('+' | '-')) as u8]
        }
        TokenType::Identifier(_) => vec![7],
        _ => vec![0],
    }
}

/// Whether a text leaves a string or comment open at its end (so that what follows belongs to it).
pub fn open_at_end(c: &[char], single_line_counts: bool) -> bool {
    let mut d = c.to_vec();
    d.push('\n');
    let m = lex(&d, true);
    match m.res {
        Err(_) => true,
        Ok(t) => {
            t.last().map_or(false, |t| t.z == d.len())
                || (single_line_counts
                    && t.last().map_or(false, |t| matches!(t.ty, TokenType::CommentSingleLine(_)) && t.z == c.len()))
        }
    }
}
#[allow(unused)]
pub fn sym_of(k: &Keywords) -> Option<S> {
    syms::ALL.iter().copied().find(|s| matches!(s.tt(), Some(TokenType::Keyword(q)) if kw_id(q) == kw_id(k)))
}
