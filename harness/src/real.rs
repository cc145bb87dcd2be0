//! Running the real code and reading what it answers.
use crate::dbg::{self, Canon, Leaf};
use crate::engine::{fail, Fail};
use crate::syms::{self, S};
use lolcode_ast::lexer::{Keywords, NumberToken, Token, TokenType, TokenValue};
use lolcode_ast::parser::ASTBlock;
use std::borrow::Cow;
use std::cell::RefCell;
use std::fmt::Write;

thread_local! {
    static BUF: RefCell<String> = const { RefCell::new(String::new()) };
}

pub const LAYOUT: u32 = 1 << 27;

/// Debug rendering of an AST, canonicalised against a leaf table.
pub fn canon_of(v: &dyn std::fmt::Debug, leaves: &[Leaf]) -> Result<Canon, Fail> {
    BUF.with(|b| {
        let mut b = b.borrow_mut();
        b.clear();
        let _ = write!(b, "{:?}", v);
        dbg::canon(&b, leaves).or_else(|e| fail("unreadable AST", "the known Debug form", e))
    })
}
pub fn canon_error(v: &dyn std::fmt::Debug, leaves: &[Leaf]) -> Result<Canon, Fail> {
    BUF.with(|b| {
        let mut b = b.borrow_mut();
        b.clear();
        let _ = write!(b, "ASTError({:?})", v);
        dbg::canon(&b, leaves).or_else(|e| fail("unreadable error", "the known Debug form", e))
    })
}

fn leaf(t: &Token, dbg: Cow<'static, str>, id: u32, punct: bool) -> Leaf {
    let r = &t.range;
    Leaf { key: (r.0.line, r.0.column, r.1.line, r.1.column), dbg, id, punct }
}

pub fn leaves_of_syms(s: &[S], tokens: &[Token]) -> Vec<Leaf> {
    let mut out = Vec::with_capacity(tokens.len());
    let (mut id, mut k) = (0, 0);
    for &x in s {
        if x == S::NL {
            continue;
        }
        let n = if x.is_layout() {
            LAYOUT + k as u32
        } else {
            id += 1;
            id - 1
        };
        let text = if syms::dressed() { Cow::Owned(format!("{:?}", tokens[k].token_type)) } else { Cow::Borrowed(x.dbg()) };
        out.push(leaf(&tokens[k], text, n, x.is_punct()));
        k += 1;
    }
    out
}

/// Kind of a token, as a symbol.
pub fn classify(t: &TokenType) -> S {
    match t {
        TokenType::Identifier(_) => S::V,
        TokenType::Value(TokenValue::Number(NumberToken::Int(_))) => S::INT,
        TokenType::Value(TokenValue::Number(NumberToken::Float(_))) => S::FLOAT,
        TokenType::Value(TokenValue::String(_)) => S::STR,
        TokenType::Value(TokenValue::Boolean(true)) => S::WIN,
        TokenType::Value(TokenValue::Boolean(false)) => S::FAIL,
        TokenType::Value(TokenValue::NOOB) => S::NOOB,
        TokenType::CommentSingleLine(_) => S::COM1,
        TokenType::CommentMultiLine(_) => S::COMM,
        TokenType::BukkitSlotAccess => S::SLOT,
        TokenType::Ellipsis => S::ELL,
        TokenType::Comma => S::COMMA,
        TokenType::ExclamationMark => S::BANG,
        TokenType::QuestionMark => S::QUEST,
        TokenType::Symbol(s) if s == "?" => S::QSYM,
        TokenType::Symbol(_) => S::PLUS,
        TokenType::Keyword(k) => keyword_sym(k),
    }
}
pub fn keyword_sym(k: &Keywords) -> S {
    for &s in syms::ALL {
        if let Some(TokenType::Keyword(q)) = s.tt() {
            if q == k {
                return s;
            }
        }
    }
    S::PLUS
}

/// Token list -> symbols, with `NL` wherever the line changes between two tokens.
pub fn syms_of_tokens(tokens: &[Token]) -> Vec<S> {
    let mut out = Vec::with_capacity(tokens.len() * 2);
    let mut line = None;
    for t in tokens {
        // a comment that spans lines ends the line it starts on, like a line break would
        if line.map_or(false, |l| l != t.range.0.line) {
            out.push(S::NL);
        }
        let s = classify(&t.token_type);
        out.push(s);
        line = Some(t.range.1.line);
        if s == S::COMM && t.range.0.line != t.range.1.line {
            out.push(S::NL);
        }
    }
    out
}

pub fn leaves_of_tokens(tokens: &[Token]) -> Vec<Leaf> {
    let mut id = 0;
    tokens
        .iter()
        .enumerate()
        .map(|(k, t)| {
            let s = classify(&t.token_type);
            let n = if s.is_layout() {
                LAYOUT + k as u32
            } else {
                id += 1;
                id - 1
            };
            leaf(t, Cow::Owned(format!("{:?}", t.token_type)), n, s.is_punct())
        })
        .collect()
}

pub struct Parsed {
    pub ast: ASTBlock,
    pub leaves: Vec<Leaf>,
    pub canon: Canon,
}

pub fn parse_syms(s: &[S]) -> Result<Parsed, Fail> {
    let tokens = syms::build(s);
    let leaves = leaves_of_syms(s, &tokens);
    let ast = lolcode_ast::parse(tokens);
    let canon = canon_of(&ast, &leaves)?;
    Ok(Parsed { ast, leaves, canon })
}
pub fn parse_tokens(tokens: &[Token]) -> Result<Parsed, Fail> {
    let leaves = leaves_of_tokens(tokens);
    let ast = lolcode_ast::parse(tokens.to_vec());
    let canon = canon_of(&ast, &leaves)?;
    Ok(Parsed { ast, leaves, canon })
}

pub fn show_syms(c: &[u32], s: &[S]) -> String {
    let content: Vec<S> = s.iter().copied().filter(|s| !s.is_layout()).collect();
    dbg::show(c, &|id| {
        if id >= LAYOUT {
            "<comment or separator>".into()
        } else {
            content.get(id as usize).map_or("?".into(), |s| format!("{}#{}", s.name(), id))
        }
    })
}
