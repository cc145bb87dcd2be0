//! Parser properties: oracles.
use crate::dbg::{self, open, CLOSE, N, OPEN};
use crate::engine::{OracleFn, small_stack, fail, Fail, Held, Part};
use crate::lmodel;
use crate::pmodel;
use crate::real::{self, LAYOUT};
use crate::syms::{self, S};
use lolcode_ast::lexer::{Position, Token, TokenType};
use lolcode_ast::parser::expression::{ASTExpression, ASTExpressionValue};
use lolcode_ast::parser::statements::Node;
use lolcode_ast::parser::ASTBlock;

/// Are the error nodes' subtrees, in order.
pub fn error_trees(c: &[u32]) -> Vec<&[u32]> {
    let mut v = Vec::new();
    let mut i = 0;
    while i < c.len() {
        if c[i] == open(N::ASTError) {
            let mut d = 0;
            let mut j = i;
            loop {
                if c[j] == CLOSE {
                    d -= 1;
                } else if c[j] & OPEN != 0 && c[j] != dbg::ALIEN {
                    d += 1;
                }
                j += 1;
                if d == 0 {
                    break;
                }
            }
            v.push(&c[i..j]);
            i = j;
        } else {
            i += 1;
        }
    }
    v
}
fn shows(s: &[S], v: &[&[u32]]) -> String {
    v.iter().map(|c| real::show_syms(c, s)).collect::<Vec<_>>().join(" ; ")
}

/// C09: an answer, whatever the tokens.
pub fn ptotal(p: &[Part]) -> Result<Held, Fail> {
    let tokens = syms::build(p[0].s());
    let ast = lolcode_ast::parse(tokens);
    std::hint::black_box(&ast);
    drop(ast);
    Ok(Held::Yes(1))
}
/// C09 with hand-made positions: numbers give (start line, end line) per token.
pub fn ptotal_pos(p: &[Part]) -> Result<Held, Fail> {
    let n = p[1].n();
    let mut tokens = syms::build(p[0].s());
    for (i, t) in tokens.iter_mut().enumerate() {
        let (a, z) = (n.get(2 * i).copied().unwrap_or(1), n.get(2 * i + 1).copied().unwrap_or(1));
        t.range.0 = Position { line: a as i32, column: (a % 7) as i32, bytes: a as i32, chars: a as i32 };
        t.range.1 = Position { line: z as i32, column: (z % 5) as i32, bytes: z as i32, chars: z as i32 };
    }
    let ast = lolcode_ast::parse(tokens);
    std::hint::black_box(&ast);
    Ok(Held::Yes(1))
}
/// C09 for long flat programs: before, repeated part, count, after; on a stack of 2 MB.
pub fn ptotal_flat(p: &[Part]) -> Result<Held, Fail> {
    let n = p[2].n()[0] as usize;
    let s = [p[0].s(), &p[1].s().repeat(n), p[3].s()].concat();
    let tokens = syms::build(&s);
    small_stack(move || {
        let ast = lolcode_ast::parse(tokens);
        std::hint::black_box(ast.iter_errors().count());
    });
    Ok(Held::Yes(1))
}
/// C09 from text: the whole pipeline answers.
pub fn ptotal_text(p: &[Part]) -> Result<Held, Fail> {
    let r = lolcode_ast::tokenize_and_parse(p[0].t().to_string());
    std::hint::black_box(&r);
    Ok(Held::Yes(1))
}

/// C12-C14: a well-formed program gets exactly the AST of the reference grammar.
pub fn wf(p: &[Part]) -> Result<Held, Fail> {
    let s = p[0].s();
    let m = pmodel::parse(s);
    if m.errors > 0 {
        return Ok(Held::Skip);
    }
    let r = real::parse_syms(s)?;
    if r.canon.out != m.canon {
        return fail("AST", real::show_syms(&m.canon, s), real::show_syms(&r.canon.out, s));
    }
    Ok(Held::Yes(1))
}

/// C16: malformed means at least one error node.
pub fn silent(p: &[Part]) -> Result<Held, Fail> {
    let s = p[0].s();
    let m = pmodel::parse(s);
    if m.errors == 0 {
        return Ok(Held::Skip);
    }
    let r = real::parse_syms(s)?;
    if r.canon.errors == 0 {
        return fail("accepted in silence", format!("an error: {}", shows(s, &error_trees(&m.canon))), real::show_syms(&r.canon.out, s));
    }
    Ok(Held::Yes(1))
}
/// C17: kinds and tokens of all errors.
pub fn errors(p: &[Part]) -> Result<Held, Fail> {
    let s = p[0].s();
    let m = pmodel::parse(s);
    if m.errors == 0 {
        return Ok(Held::Skip);
    }
    let r = real::parse_syms(s)?;
    let (a, b) = (error_trees(&m.canon), error_trees(&r.canon.out));
    if a != b {
        return fail("errors", shows(s, &a), shows(s, &b));
    }
    Ok(Held::Yes(1))
}

/// C15: a well-formed program, written out as text in several layouts, gives no error.
pub fn accept(p: &[Part]) -> Result<Held, Fail> {
    let s = p[0].s();
    if !printable(s) || pmodel::parse(s).errors > 0 {
        return Ok(Held::Skip);
    }
    let mut n = 0;
    for text in layouts(s) {
        n += 1;
        accept_one(&text)?;
    }
    Ok(Held::Yes(n))
}
/// C15 on one plain layout of a long program.
pub fn accept_long(p: &[Part]) -> Result<Held, Fail> {
    let s = p[0].s();
    if !printable(s) || pmodel::parse(s).errors > 0 {
        return Ok(Held::Skip);
    }
    accept_one(&syms::render(s))?;
    Ok(Held::Yes(1))
}
fn accept_one(text: &str) -> Result<(), Fail> {
    let tokens = match lolcode_ast::tokenize(text.to_string()) {
        Ok(t) => t,
        Err(e) => return fail("accepted", "tokens", format!("{e:?} for {text:?}")),
    };
    let leaves = real::leaves_of_tokens(&tokens);
    let ast = match lolcode_ast::tokenize_and_parse(text.to_string()) {
        Ok(a) => a,
        Err(e) => return fail("accepted", "an AST", format!("{e:?} for {text:?}")),
    };
    let c = real::canon_of(&ast, &leaves)?;
    if c.errors > 0 {
        return fail("accepted", "no error node", format!("{:?} in {}", text, show_text(&c.out, &tokens)));
    }
    if let Some(e) = ast.iter_errors().next() {
        return fail("accepted", "no error from the error iterator", format!("{e:?} for {text:?}"));
    }
    Ok(())
}
/// C15 on a text that must be accepted as it is.
pub fn accept_text(p: &[Part]) -> Result<Held, Fail> {
    accept_one(p[0].t())?;
    Ok(Held::Yes(1))
}
pub fn show_text(c: &[u32], tokens: &[Token]) -> String {
    let content: Vec<&Token> = tokens.iter().filter(|t| !real::classify(&t.token_type).is_layout()).collect();
    dbg::show(c, &|id| {
        if id >= LAYOUT {
            "<comment or separator>".into()
        } else {
            content.get(id as usize).map_or("?".into(), |t| format!("{:?}", t.token_type))
        }
    })
}

/// Whether the sequence has a source text with exactly these tokens.
fn printable(s: &[S]) -> bool {
    s.iter().enumerate().all(|(i, x)| x.from_text() && (*x != S::COM1 || s.get(i + 1).map_or(true, |y| *y == S::NL)))
}
fn glue(a: S, b: S) -> bool {
    // tokens that may touch without changing either
    let free = |x: S| matches!(x, S::COMMA | S::BANG | S::QUEST | S::SLOT | S::STR | S::STRN);
    let word = |x: S| !free(x) && !matches!(x, S::PLUS | S::INT | S::FLOAT | S::ELL | S::COM1 | S::COMM | S::QSYM);
    (free(a) && (free(b) || word(b))) || (word(a) && free(b) && b != S::SLOT) || (a == S::V && b == S::SLOT)
}
/// Source texts for a symbol sequence: same tokens and statements, different white space, separators, comments.
pub fn layouts(s: &[S]) -> Vec<String> {
    let mut v = vec![syms::render(s)];
    let has_com = s.iter().any(|x| x.is_comment());
    let styles: &[(&str, &str, &str)] = &[
        // between tokens, line break, indentation
        ("  \t ", "\r\n", "    "),
        (" ", "\n\n \t\n", "\t\t"),
        ("", "\n", ""), // as tight as possible
        (" ", ",", ""),
        (" ", " , ", " "),
        (" ", " BTW note, \"x\" OIC\n", "  "),
        (" ", "\nOBTW\n  OIC \" , MKAY\nTLDR\n", ""),
        (" OBTW in-line TLDR ", "\n", ""),
        (" ", "...\n", ""), // continuation instead of blank: only for single lines
    ];
    for (gap, brk, indent) in styles {
        if *brk == "...\n" {
            if has_com || s.iter().any(|x| matches!(x, S::NL | S::COMMA | S::ELL)) {
                continue;
            }
            // numerals need a blank before the dots
            v.push(s.iter().map(|x| x.text()).collect::<Vec<_>>().join(" ...\n  "));
            v.push(s.iter().map(|x| x.text()).collect::<Vec<_>>().join(" \u{2026} \n"));
            continue;
        }
        if has_com && *brk != "\n" && !brk.starts_with('\r') && !brk.starts_with("\n\n") {
            continue;
        }
        let mut t = indent.to_string();
        let mut prev: Option<S> = None;
        let mut joined = false;
        for &x in s {
            if x == S::NL {
                // a continued line must be broken by exactly one line break
                t.push_str(if joined { "\n" } else { brk });
                t.push_str(indent);
                prev = None;
                continue;
            }
            if let Some(a) = prev {
                if !(gap.is_empty() && glue(a, x)) {
                    t.push_str(if gap.is_empty() { " " } else { gap });
                }
            }
            t.push_str(x.text());
            joined = x == S::ELL || (joined && x.is_comment());
            prev = Some(x);
        }
        v.push(t);
    }
    if !has_com {
        v.push(format!("\n\n  {}\n \n", syms::render(s)));
        v.push(format!(",{},", syms::render(s)));
        v.push(format!("BTW a\n{}\nOBTW b\n TLDR", syms::render(s)));
    }
    v
}

// ------------------------------------------------------------------ C10 / C11: variants of one program
fn canon_eq(s: &[S], base: &[u32], var: &[S], what: &str) -> Result<(), Fail> {
    let r = real::parse_syms(var)?;
    if r.canon.out != base {
        return fail(
            what.to_string(),
            real::show_syms(base, s),
            format!("{} for [{}]", real::show_syms(&r.canon.out, var), syms::names(var)),
        );
    }
    Ok(())
}
fn insert(s: &[S], at: usize, what: &[S]) -> Vec<S> {
    let mut v = s[..at].to_vec();
    v.extend_from_slice(what);
    v.extend_from_slice(&s[at..]);
    v
}
/// C10: separators exchanged, repeated, added at the ends; statements split by continuations.
pub fn separators(p: &[Part]) -> Result<Held, Fail> {
    let s = p[0].s();
    if s.contains(&S::ELL) || s.iter().any(|x| x.is_comment()) {
        return Ok(Held::Skip);
    }
    let base = real::parse_syms(s)?.canon.out;
    let mut n = 1;
    let mut go = |v: Vec<S>, what: &str| -> Result<(), Fail> {
        n += 1;
        canon_eq(s, &base, &v, what)
    };
    let sep = |x: S| matches!(x, S::NL | S::COMMA);
    let seps: Vec<usize> = (0..s.len()).filter(|i| sep(s[*i])).collect();
    const RUNS: &[&[S]] = &[
        &[S::NL], &[S::COMMA], &[S::NL, S::NL], &[S::COMMA, S::COMMA], &[S::COMMA, S::NL], &[S::NL, S::COMMA],
        &[S::COMMA, S::NL, S::COMMA], &[S::NL, S::COMMA, S::NL], &[S::NL, S::NL, S::NL],
    ];
    for &i in &seps {
        for r in RUNS {
            let mut v = s[..i].to_vec();
            v.extend_from_slice(r);
            v.extend_from_slice(&s[i + 1..]);
            go(v, "one separator exchanged")?;
        }
    }
    if seps.len() > 1 {
        for r in RUNS {
            let v = s.iter().flat_map(|x| if sep(*x) { r.to_vec() } else { vec![*x] }).collect();
            go(v, "all separators exchanged")?;
        }
        for ph in 0..2 {
            let mut k = ph;
            let v = s
                .iter()
                .flat_map(|x| {
                    if sep(*x) {
                        k += 1;
                        RUNS[k % 2].to_vec()
                    } else {
                        vec![*x]
                    }
                })
                .collect();
            go(v, "separators alternating")?;
        }
    }
    for r in RUNS {
        go(insert(s, 0, r), "leading separators")?;
        go(insert(s, s.len(), r), "trailing separators")?;
    }
    // continuations between two tokens of one statement
    let gaps: Vec<usize> = (1..s.len()).filter(|i| !sep(s[*i]) && !sep(s[*i - 1])).collect();
    const JOINS: &[&[S]] = &[&[S::ELL, S::NL], &[S::ELL], &[S::ELL, S::ELL], &[S::ELL, S::NL, S::ELL, S::NL]];
    for &i in &gaps {
        for j in &JOINS[..2] {
            go(insert(s, i, j), "statement continued")?;
        }
    }
    if !gaps.is_empty() {
        for j in JOINS {
            let mut v = Vec::new();
            for (i, x) in s.iter().enumerate() {
                if gaps.contains(&i) {
                    v.extend_from_slice(j);
                }
                v.push(*x);
            }
            go(v, "statement continued everywhere")?;
        }
    }
    for (a, &i) in gaps.iter().enumerate() {
        for &j in &gaps[a + 1..] {
            go(insert(&insert(s, j, JOINS[0]), i, JOINS[0]), "statement continued twice")?;
        }
        for &j in &seps {
            // a continuation together with an exchanged separator
            let mut v = s.to_vec();
            v[j] = if s[j] == S::NL { S::COMMA } else { S::NL };
            go(insert(&v, i, JOINS[0]), "statement continued, separator exchanged")?;
        }
    }
    Ok(Held::Yes(n))
}
/// C10 with long runs: a program, then (kind, length): every separator of the program becomes a run.
pub fn separator_runs(p: &[Part]) -> Result<Held, Fail> {
    let s = p[0].s();
    let (kind, n) = (p[1].n()[0], p[1].n()[1] as usize);
    if s.contains(&S::ELL) || s.iter().any(|x| x.is_comment()) {
        return Ok(Held::Skip);
    }
    let base = real::parse_syms(s)?.canon.out;
    let run: Vec<S> = match kind {
        0 => vec![S::NL; n],
        1 => vec![S::COMMA; n],
        _ => (0..n).map(|i| if i % 2 == 0 { S::COMMA } else { S::NL }).collect(),
    };
    let sep = |x: S| matches!(x, S::NL | S::COMMA);
    let all: Vec<S> = s.iter().flat_map(|x| if sep(*x) { run.clone() } else { vec![*x] }).collect();
    canon_eq(s, &base, &all, "long runs of separators")?;
    canon_eq(s, &base, &insert(s, 0, &run), "a long run at the start")?;
    canon_eq(s, &base, &insert(s, s.len(), &run), "a long run at the end")?;
    // a statement continued over many lines
    let mut k = 3;
    if let Some(i) = (1..s.len()).find(|i| !sep(s[*i]) && !sep(s[*i - 1])) {
        canon_eq(s, &base, &insert(s, i, &[S::ELL, S::NL].repeat(n)), "a statement continued over many lines")?;
        k += 1;
    }
    Ok(Held::Yes(k))
}
/// C10 / C11 on texts: every layout of one program has the AST of the program.
pub fn layout_text(p: &[Part]) -> Result<Held, Fail> {
    let s = p[0].s();
    if !printable(s) {
        return Ok(Held::Skip);
    }
    let base = real::parse_syms(s)?.canon.out;
    let mut n = 1;
    for text in layouts(s) {
        let tokens = match lolcode_ast::tokenize(text.clone()) {
            Ok(t) => t,
            Err(e) => return fail("layout", "tokens", format!("{e:?} for {text:?}")),
        };
        n += 1;
        let r = real::parse_tokens(&tokens)?;
        if r.canon.out != base {
            return fail("layout", real::show_syms(&base, s), format!("{} for {text:?}", show_text(&r.canon.out, &tokens)));
        }
    }
    Ok(Held::Yes(n))
}
/// C11: comments added.
pub fn comments(p: &[Part]) -> Result<Held, Fail> {
    let s = p[0].s();
    let base = real::parse_syms(s)?.canon.out;
    let mut n = 1;
    let mut go = |v: Vec<S>, what: &str| -> Result<(), Fail> {
        n += 1;
        canon_eq(s, &base, &v, what)
    };
    let ends: Vec<usize> = (0..=s.len()).filter(|i| *i == s.len() || s[*i] == S::NL).collect();
    for &i in &ends {
        go(insert(s, i, &[S::COM1]), "comment at a line end")?;
        go(insert(s, i, &[S::COMM, S::COM1]), "comments at a line end")?;
    }
    for i in 0..=s.len() {
        go(insert(s, i, &[S::COMM]), "comment inside a line")?;
        for j in i..=s.len() {
            go(insert(&insert(s, j, &[S::COMM]), i, &[S::COMM]), "two comments inside lines")?;
        }
        for &j in &ends {
            if j >= i {
                go(insert(&insert(s, j, &[S::COM1]), i, &[S::COMM]), "comment inside and at a line end")?;
            }
        }
    }
    // everywhere
    let mut v = vec![S::COMM];
    for &x in s {
        if x == S::NL {
            v.push(S::COM1);
        }
        v.push(x);
        v.push(S::COMM);
    }
    v.push(S::COM1);
    go(v, "comments everywhere")?;
    // whole lines of comment, and comments removed
    let mut v = vec![S::COM1, S::NL, S::COMM, S::NL];
    v.extend_from_slice(s);
    v.extend_from_slice(&[S::NL, S::COM1, S::NL, S::COMM]);
    go(v, "lines of comment around")?;
    if !s.contains(&S::ELL) {
        let v = s.iter().flat_map(|x| if *x == S::NL { vec![S::NL, S::COM1, S::NL, S::COMM, S::NL] } else { vec![*x] }).collect();
        go(v, "lines of comment between")?;
    }
    if s.iter().any(|x| x.is_comment()) {
        go(s.iter().copied().filter(|x| !x.is_comment()).collect(), "comments removed")?;
    }
    Ok(Held::Yes(n))
}

/// C11: comments that say something in particular, as tokens and as text.
pub fn notes(p: &[Part]) -> Result<Held, Fail> {
    let (s, note) = (p[0].s(), p[1].t());
    let base = real::parse_syms(s)?.canon.out;
    let lines: Vec<&[S]> = if s.is_empty() { vec![] } else { s.split(|x| *x == S::NL).collect() };
    let multi: Vec<S> = {
        let mut v = vec![S::COMM];
        for x in s {
            v.extend([*x, S::COMM]);
        }
        v
    };
    let single: Vec<S> = {
        let mut v = vec![S::COM1, S::NL];
        for l in &lines {
            v.extend_from_slice(l);
            v.extend([S::COM1, S::NL, S::COM1, S::NL]);
        }
        v
    };
    let mut n = 1;
    for v in [&multi, &single] {
        let mut tokens = syms::build(v);
        for t in tokens.iter_mut() {
            if let TokenType::CommentSingleLine(c) | TokenType::CommentMultiLine(c) = &mut t.token_type {
                *c = note.to_string();
            }
        }
        n += 1;
        let r = real::parse_tokens(&tokens)?;
        if r.canon.out != base {
            return fail(format!("comments {note:?}"), real::show_syms(&base, s), show_text(&r.canon.out, &tokens));
        }
    }
    // as text; what follows BTW or OBTW directly might belong to a word
    let apart = note.is_empty() || note.starts_with([' ', '\t']);
    let mut texts = vec![];
    if apart && !note.contains('\n') {
        let mut t = format!("BTW{note}\n");
        for (k, l) in lines.iter().enumerate() {
            t.push_str(&format!("{} BTW{note}\n\nBTW{note}{}", syms::render(l), if k + 1 < lines.len() { "\n" } else { "" }));
        }
        texts.push(t);
    }
    let inner = if note.is_empty() { " ".to_string() } else { format!("{note} ") };
    if apart && !note.contains("TLDR") {
        let mut t = format!("OBTW{inner}TLDR\n");
        for l in &lines {
            t.push_str(&format!("{} OBTW{inner}TLDR\nOBTW{inner}TLDR\n", syms::render(l)));
        }
        texts.push(t);
    }
    for text in texts {
        let tokens = match lolcode_ast::tokenize(text.clone()) {
            Ok(t) => t,
            Err(e) => return fail(format!("comments {note:?}"), "tokens", format!("{e:?} for {text:?}")),
        };
        n += 1;
        let r = real::parse_tokens(&tokens)?;
        if r.canon.out != base {
            return fail(format!("comments {note:?}"), real::show_syms(&base, s), format!("{} for {text:?}", show_text(&r.canon.out, &tokens)));
        }
    }
    Ok(Held::Yes(n))
}

// ------------------------------------------------------------------ C18 / C19
fn renum(c: &[u32], f: impl Fn(u32) -> u32) -> Vec<u32> {
    c.iter().map(|&x| if x == CLOSE || x & OPEN != 0 || x & !dbg::PUNCT >= LAYOUT { x } else { f(x & !dbg::PUNCT) | x & dbg::PUNCT }).collect()
}
/// C18: before ; malformed statement ; after
pub fn locality(p: &[Part]) -> Result<Held, Fail> {
    let (a, bad, z) = (p[0].s(), p[1].s(), p[2].s());
    let join = |parts: &[&[S]]| {
        let mut v: Vec<S> = Vec::new();
        for p in parts {
            if !p.is_empty() {
                if !v.is_empty() {
                    v.push(S::NL);
                }
                v.extend_from_slice(p);
            }
        }
        v
    };
    let without = join(&[a, z]);
    let with = join(&[a, bad, z]);
    let w = real::parse_syms(&without)?;
    let b = real::parse_syms(&with)?;
    let (na, nb) = (pmodel::content(a) as u32, pmodel::content(bad) as u32);
    let q = renum(&b.canon.out, |i| if i < na { i } else if i < na + nb { LAYOUT - 1 } else { i - nb });
    let pz = &w.canon.out;
    let pre = q.iter().zip(pz).take_while(|(x, y)| x == y).count();
    let suf = q.iter().rev().zip(pz.iter().rev()).take_while(|(x, y)| x == y).count();
    let ok = q.len() > pz.len() && pre + suf >= pz.len();
    if !ok {
        return fail(
            "statements around the mistake",
            format!("{} with the error inserted", real::show_syms(pz, &without)),
            real::show_syms(&b.canon.out, &with),
        );
    }
    // what was inserted: errors of the malformed statement only
    if b.canon.errors <= w.canon.errors {
        return fail("error reported", "one more error node", real::show_syms(&b.canon.out, &with));
    }
    Ok(Held::Yes(2))
}
/// C19: a ; b
pub fn compose(p: &[Part]) -> Result<Held, Fail> {
    let (a, b) = (p[0].s(), p[1].s());
    let mut nl = a.to_vec();
    nl.push(S::NL);
    let c = pmodel::parse_config(&nl);
    if c.depth > 1 || c.config != pmodel::parse_config(&[S::NL]).config {
        return Ok(Held::Skip);
    }
    let ca = real::parse_syms(a)?;
    let cb = real::parse_syms(b)?;
    let na = pmodel::content(a) as u32;
    let mut want: Vec<u32> = Vec::new();
    for x in dbg::nodes(&ca.canon.out) {
        want.extend_from_slice(x);
    }
    for x in dbg::nodes(&cb.canon.out) {
        want.extend(renum(x, |i| i + na));
    }
    let mut n = 2;
    for sep in [S::NL, S::COMMA] {
        if sep == S::COMMA && a.last().map_or(false, |x| *x == S::COM1) {
            continue; // the comma would be part of the comment
        }
        let mut v = a.to_vec();
        v.push(sep);
        v.extend_from_slice(b);
        let r = real::parse_syms(&v)?;
        n += 1;
        let got: Vec<u32> = dbg::nodes(&r.canon.out).concat();
        if got != want {
            return fail("statements of a then of b", real::show_syms(&want, &v), real::show_syms(&got, &v));
        }
        if r.ast.0.len() != ca.ast.0.len() + cb.ast.0.len() {
            return fail("number of statements", format!("{}", ca.ast.0.len() + cb.ast.0.len()), format!("{}", r.ast.0.len()));
        }
    }
    Ok(Held::Yes(n))
}

// ------------------------------------------------------------------ C20
pub fn iter_errors(p: &[Part]) -> Result<Held, Fail> {
    let s = p[0].s();
    let r = real::parse_syms(s)?;
    let before = format!("{:?}", r.ast);
    let copy = r.ast.clone();
    let equal = r.ast == copy; // unless it holds a float that is not a number
    let want: Vec<Vec<u32>> = error_trees(&r.canon.out).iter().map(|x| x.to_vec()).collect();
    let mut got = Vec::new();
    let mut it = r.ast.iter_errors();
    let mut ended = false;
    for _ in 0..want.len() + 3 {
        match it.next() {
            Some(e) => {
                if ended {
                    return fail("ends", "nothing after the end", format!("{e:?}"));
                }
                got.push(real::canon_error(&e, &r.leaves)?.out)
            }
            None => ended = true,
        }
    }
    drop(it);
    if want != got || !ended {
        let a: Vec<&[u32]> = want.iter().map(|x| &x[..]).collect();
        let b: Vec<&[u32]> = got.iter().map(|x| &x[..]).collect();
        return fail("errors yielded", shows(s, &a), format!("{}{}", shows(s, &b), if ended { "" } else { " (and more)" }));
    }
    if format!("{:?}", r.ast) != before || (r.ast == copy) != equal {
        return fail("block unchanged", before, format!("{:?}", r.ast));
    }
    // every other way through yields the same
    let n = want.len();
    let number = |how: &str, w: usize, got: usize| if w == got { Ok(()) } else { fail(how.to_string(), format!("{w} errors"), format!("{got}")) };
    number("counted", n, r.ast.iter_errors().count())?;
    number("folded", n, r.ast.iter_errors().fold(0, |a, _| a + 1))?;
    let (lo, hi) = r.ast.iter_errors().size_hint();
    if lo > n || hi.is_some_and(|h| h < n) {
        return fail("size hint", format!("bounds on {n}"), format!("{:?}", (lo, hi)));
    }
    if n > 0 && n <= 12 {
        fn canon<E: std::fmt::Debug>(e: Option<E>, leaves: &[dbg::Leaf]) -> Result<Option<Vec<u32>>, Fail> {
            e.map(|e| real::canon_error(&e, leaves).map(|c| c.out)).transpose()
        }
        for k in 0..n + 1 {
            let mut it = r.ast.iter_errors();
            if canon(it.nth(k), &r.leaves)?.as_ref() != want.get(k) || canon(it.next(), &r.leaves)?.as_ref() != want.get(k + 1) {
                return fail("numbered", format!("error {k} and the one after it"), "others");
            }
        }
        if canon(r.ast.iter_errors().last(), &r.leaves)?.as_ref() != want.last() {
            return fail("last", "the last error", "another");
        }
    }
    // hand-made blocks: each node alone, and the nodes in reverse
    let mut total = 0;
    for n in r.ast.0.iter() {
        total += ASTBlock(std::iter::once(n.clone()).collect()).iter_errors().count();
    }
    let rev = ASTBlock(r.ast.0.iter().rev().cloned().collect());
    if total != want.len() || rev.iter_errors().count() != want.len() {
        return fail("errors of its nodes", format!("{}", want.len()), format!("{total} one by one, {} reversed", rev.iter_errors().count()));
    }
    Ok(Held::Yes(3))
}

// ------------------------------------------------------------------ C21 / C22
fn full_eq(a: &Token, b: &Token) -> bool {
    lmodel::same_type(&a.token_type, &b.token_type) && lmodel::same_pos(&a.range.0, &b.range.0) && lmodel::same_pos(&a.range.1, &b.range.1)
}
/// Every way through an iterator gives the same tokens, and nothing after them.
fn check_iter<'a, I: Iterator<Item = &'a Token>>(what: &str, make: impl Fn() -> I, want: &[&Token]) -> Result<(), Fail> {
    let same = |how: &str, k: usize, got: Option<&Token>| -> Result<(), Fail> {
        match (want.get(k), got) {
            (Some(w), Some(t)) if full_eq(t, w) => Ok(()),
            (None, None) => Ok(()),
            (Some(w), x) => fail(format!("{what}, {how}"), format!("token {k}: {w:?}"), format!("{x:?}")),
            (None, x) => fail(format!("{what}, {how}"), "nothing after the last token", format!("{x:?}")),
        }
    };
    let number = |how: &str, w: usize, got: usize| if w == got { Ok(()) } else { fail(format!("{what}, {how}"), format!("{w}"), format!("{got}")) };
    let mut it = make();
    for k in 0..want.len() + 4 {
        let (lo, hi) = it.size_hint();
        let left = want.len().saturating_sub(k);
        if lo > left || hi.is_some_and(|h| h < left) {
            return fail(format!("{what}, size hint after {k}"), format!("bounds on {left}"), format!("{:?}", (lo, hi)));
        }
        same("one by one", k, it.next())?;
    }
    if want.len() > 12 {
        return Ok(());
    }
    for (k, t) in make().collect::<Vec<_>>().into_iter().enumerate() {
        same("collected", k, Some(t))?;
    }
    number("counted", want.len(), make().count())?;
    number("folded", want.len(), make().fold(0, |a, _| a + 1))?;
    if let (Some(w), x) = (want.last(), make().last()) {
        if !x.is_some_and(|t| full_eq(t, w)) {
            return fail(format!("{what}, last"), format!("{w:?}"), format!("{x:?}"));
        }
    }
    for k in 0..want.len() + 2 {
        let mut it = make();
        same(&format!("number {k}"), k, it.nth(k))?;
        same(&format!("after number {k}"), k + 1, it.next())?;
        let mut it = make();
        for _ in 0..k {
            it.next();
        }
        number(&format!("counted after {k}"), want.len().saturating_sub(k), it.count())?;
        same(&format!("skipped {k}"), k, make().skip(k).next())?;
    }
    for (k, t) in make().step_by(2).enumerate() {
        same("every second", 2 * k, Some(t))?;
    }
    Ok(())
}
/// A statement whose tokens and range can be asked for.
pub enum Top<'a> {
    Expression(&'a ASTExpression),
    /// through the hook in /repo
    #[cfg(lolcode_verif)]
    Assignment(&'a lolcode_ast::parser::statements::assignment::VariableAssignment),
}
/// Such statements of the program with the tokens each was built from (reference grammar).
fn expressions<'a>(s: &[S], tokens: &'a [Token], ast: &'a ASTBlock) -> Option<Vec<(Top<'a>, Vec<&'a Token>)>> {
    let m = pmodel::parse(s);
    if m.errors > 0 {
        return None;
    }
    // statements of a program of expression statements and others, by separators; only top-level ones
    let mut lines: Vec<Vec<&Token>> = vec![vec![]];
    let mut k = 0;
    let mut joined = false;
    for &x in s {
        match x {
            S::NL if joined => {}
            S::NL => lines.push(vec![]),
            S::COMMA => {
                lines.push(vec![]);
                joined = false;
            }
            S::ELL => joined = true,
            S::COM1 | S::COMM => {}
            _ => {
                joined = false;
                lines.last_mut().unwrap().push(&tokens[k]);
            }
        }
        if x != S::NL {
            k += 1;
        }
    }
    lines.retain(|l| !l.is_empty());
    if lines.len() != ast.0.len() {
        return None;
    }
    Some(
        ast.0
            .iter()
            .zip(lines)
            .filter_map(|(n, l)| match n {
                Node::Expression(e) => Some((Top::Expression(e), l)),
                #[cfg(lolcode_verif)]
                Node::VariableAssignment(a) => Some((Top::Assignment(a), l)),
                _ => None,
            })
            .collect(),
    )
}
pub fn etokens(p: &[Part]) -> Result<Held, Fail> {
    let s = p[0].s();
    let tokens = syms::build(s);
    let ast = lolcode_ast::parse(tokens.clone());
    let ex = match expressions(s, &tokens, &ast) {
        Some(e) if !e.is_empty() => e,
        _ => return Ok(Held::Skip),
    };
    let mut n = 0;
    for (e, want) in ex {
        n += 1;
        let e = match e {
            Top::Expression(e) => e,
            #[cfg(lolcode_verif)]
            Top::Assignment(a) => {
                use lolcode_ast::parser::ASTStatement;
                check_iter("assignment tokens", || a.tokens(), &want)?;
                continue;
            }
        };
        check_iter("expression tokens", || e.tokens(), &want)?;
        match e {
            ASTExpression::BinaryOperation(o) => check_iter("binary operation tokens", || o.tokens(), &want)?,
            ASTExpression::UnaryOperation(o) => check_iter("unary operation tokens", || o.tokens(), &want)?,
            ASTExpression::NaryOperation(o) => check_iter("n-ary operation tokens", || o.tokens(), &want)?,
            ASTExpression::Value(v) => {
                check_iter("value tokens", || v.tokens(), &want)?;
                if let ASTExpressionValue::VariableAccess(v) = v {
                    check_iter("variable tokens", || v.tokens(), &want)?;
                }
            }
        }
        // two iterators at once, in lock step
        let (mut x, mut y) = (e.tokens(), e.tokens());
        for w in &want {
            match (x.next(), y.next()) {
                (Some(a), Some(b)) if full_eq(a, w) && full_eq(b, w) => {}
                (a, b) => return fail("two iterators", format!("{w:?} from both"), format!("{a:?} {b:?}")),
            }
        }
    }
    Ok(Held::Yes(n))
}
pub fn erange(p: &[Part]) -> Result<Held, Fail> {
    let s = p[0].s();
    let mut n = 0;
    for scheme in 0..if s.len() <= 6 || s.len() > 12 { 4 } else { 1 } {
        match erange_at(s, scheme)? {
            Held::Yes(k) => n += k,
            other => return Ok(other),
        }
    }
    Ok(Held::Yes(n))
}
fn erange_at(s: &[S], scheme: usize) -> Result<Held, Fail> {
    let mut tokens = syms::build(s);
    for (i, t) in tokens.iter_mut().enumerate() {
        let i = i as i32;
        let (a, z) = (&mut t.range.0, &mut t.range.1);
        // make all four components tell different stories
        (a.bytes, z.bytes, a.chars, z.chars) = (1000 + 10 * i, 1003 + 10 * i, 5000 + 10 * i, 5002 + 10 * i);
        match scheme {
            // offsets say nothing
            1 => (a.bytes, z.bytes, a.chars, z.chars) = (0, 0, 0, 0),
            // columns say nothing, offsets run backwards
            2 => (a.column, z.column, a.bytes, z.bytes, a.chars, z.chars) = (1, 1, -a.bytes, -z.bytes, -a.chars, -z.chars),
            // columns run backwards, every start differs from every end
            3 => (a.column, z.column, a.bytes, z.bytes) = (90_000 - 7 * i, 80_000 - 7 * i, z.bytes, z.bytes),
            _ => {}
        }
    }
    let ast = lolcode_ast::parse(tokens.clone());
    let ex = match expressions(s, &tokens, &ast) {
        Some(e) if !e.is_empty() => e,
        _ => return Ok(Held::Skip),
    };
    let mut n = 0;
    for (e, l) in ex {
        n += 1;
        let (a, z) = (&l[0].range.0, &l[l.len() - 1].range.1);
        let same = |what: &str, r: (&Position, &Position)| -> Result<(), Fail> {
            if lmodel::same_pos(r.0, a) && lmodel::same_pos(r.1, z) {
                return Ok(());
            }
            fail(
                what.to_string(),
                format!("{} to {}", lmodel::show_pos(a), lmodel::show_pos(z)),
                format!("{} to {}", lmodel::show_pos(r.0), lmodel::show_pos(r.1)),
            )
        };
        let e = match e {
            Top::Expression(e) => e,
            #[cfg(lolcode_verif)]
            Top::Assignment(a) => {
                same("assignment range", lolcode_ast::parser::ASTStatement::range(a))?;
                continue;
            }
        };
        same("expression range", e.range())?;
        if let ASTExpression::Value(v) = e {
            same("value range", v.range())?;
            if let ASTExpressionValue::VariableAccess(v) = v {
                same("variable range", v.range())?;
            }
        }
    }
    Ok(Held::Yes(n))
}

// ------------------------------------------------------------------ C25
pub fn provenance(p: &[Part]) -> Result<Held, Fail> {
    let s = p[0].s();
    let tokens = syms::build(s);
    let leaves = real::leaves_of_syms(s, &tokens);
    let ast = lolcode_ast::parse(tokens.clone());
    let c = real::canon_of(&ast, &leaves)?;
    provenance_of(&ast, &c, &leaves, &tokens)
}
fn provenance_of(ast: &ASTBlock, c: &dbg::Canon, leaves: &[dbg::Leaf], tokens: &[Token]) -> Result<Held, Fail> {
    if c.alien {
        return fail("token not from the input", "only input tokens", format!("{ast:?}"));
    }
    let mut seen = vec![false; leaves.len()];
    for &i in &c.leaves {
        if std::mem::replace(&mut seen[i as usize], true) {
            return fail("token stored twice", format!("one {:?}", tokens[i as usize]), format!("{ast:?}"));
        }
    }
    // source order of everything kept, struct fields taken by place
    let mut last = -1i64;
    for &x in &c.out {
        if x & OPEN == 0 && x != CLOSE && x < LAYOUT { // punctuation aside
            if x as i64 <= last {
                return fail("source order", "stored tokens in source order", format!("{ast:?}"));
            }
            last = x as i64;
        }
    }
    // all four position components of the tokens that can be reached
    let key = |t: &Token| (t.range.0.line, t.range.0.column);
    let mut at: std::collections::HashMap<(i32, i32), Vec<&Token>> = std::collections::HashMap::new();
    if ast.0.iter().any(|n| matches!(n, Node::Expression(_))) {
        for t in tokens {
            at.entry(key(t)).or_default().push(t);
        }
    }
    for n in ast.0.iter() {
        if let Node::Expression(e) = n {
            for t in e.tokens() {
                if !at.get(&key(t)).is_some_and(|v| v.iter().any(|x| full_eq(x, t))) {
                    return fail("token altered", "a token of the input", format!("{t:?} at {} to {}", lmodel::show_pos(&t.range.0), lmodel::show_pos(&t.range.1)));
                }
            }
        }
    }
    Ok(Held::Yes(1))
}
/// C25 from text.
pub fn provenance_text(p: &[Part]) -> Result<Held, Fail> {
    let tokens = match lolcode_ast::tokenize(p[0].t().to_string()) {
        Ok(t) => t,
        Err(_) => return Ok(Held::Skip),
    };
    let leaves = real::leaves_of_tokens(&tokens);
    let ast = lolcode_ast::parse(tokens.clone());
    let c = real::canon_of(&ast, &leaves)?;
    provenance_of(&ast, &c, &leaves, &tokens)
}

// ------------------------------------------------------------------ C26
fn tokens_same(a: &[Token], b: &[Token]) -> bool {
    // what equality is documented to look at: the token, and its place (line and column)
    let place = |p: &Position| (p.line, p.column);
    a.len() == b.len()
        && a.iter().zip(b).all(|(x, y)| {
            lmodel::same_type(&x.token_type, &y.token_type)
                && place(&x.range.0) == place(&y.range.0)
                && place(&x.range.1) == place(&y.range.1)
        })
}
fn eq_two(ta: Vec<Token>, tb: Vec<Token>) -> Result<Held, Fail> {
    let st = tokens_same(&ta, &tb);
    if (ta == tb) != st || (ta != tb) == st || (tb == ta) != st {
        return fail("token equality", format!("{st} for {ta:?} and {tb:?}"), format!("{}", ta == tb));
    }
    for t in ta.iter().chain(tb.iter()) {
        let c = t.clone();
        if !full_eq(&c, t) || c != *t {
            return fail("token clone", format!("{t:?}"), format!("{c:?}"));
        }
    }
    let (a, b) = (lolcode_ast::parse(ta), lolcode_ast::parse(tb));
    let (da, db) = (format!("{a:?}"), format!("{b:?}"));
    let same = da == db;
    if (a == b) != same || (a != b) == same || (b == a) != same {
        return fail("AST equality", format!("{same} for {da} and {db}"), format!("{}", a == b));
    }
    for (x, d) in [(&a, &da), (&b, &db)] {
        let c = x.clone();
        if c != *x || format!("{c:?}") != *d {
            return fail("AST clone", d.clone(), format!("{c:?}"));
        }
    }
    Ok(Held::Yes(2))
}
/// Two programs.
pub fn equality(p: &[Part]) -> Result<Held, Fail> {
    eq_two(syms::build(p[0].s()), syms::build(p[1].s()))
}
/// A program without some of its tokens, the others keeping their places: numbers are (first, count).
pub fn equality_del(p: &[Part]) -> Result<Held, Fail> {
    let a = syms::build(p[0].s());
    let n = p[1].n();
    let (k, c) = (n[0] as usize, n[1] as usize);
    if k + c > a.len() {
        return Ok(Held::Skip);
    }
    let mut b = a.clone();
    b.drain(k..k + c);
    eq_two(a, b)
}
/// One program, one token changed: numbers are (token, kind of change, amount).
pub fn equality_mut(p: &[Part]) -> Result<Held, Fail> {
    let a = syms::build(p[0].s());
    let n = p[1].n();
    let mut b = a.clone();
    let k = n[0] as usize;
    if k >= b.len() {
        return Ok(Held::Skip);
    }
    let t = &mut b[k];
    let d = n[2] as i32;
    match n[1] {
        0 => t.range.0.line += d,
        1 => t.range.0.column += d,
        2 => t.range.1.line += d,
        3 => t.range.1.column += d,
        4 => {
            t.range.0.column += d;
            t.range.1.column += d;
        }
        5 => {
            use lolcode_ast::lexer::{NumberToken as Nu, TokenValue as V};
            t.token_type = match &t.token_type {
                TokenType::Identifier(s) => TokenType::Identifier(format!("{s}{d}")),
                TokenType::Symbol(s) => TokenType::Symbol(format!("{s}{d}")),
                TokenType::CommentSingleLine(s) => TokenType::CommentSingleLine(format!("{s}{d}")),
                TokenType::CommentMultiLine(s) => TokenType::CommentMultiLine(format!("{s}{d}")),
                TokenType::Value(V::Number(Nu::Int(i))) => TokenType::Value(V::Number(Nu::Int(i.wrapping_add(d)))),
                TokenType::Value(V::Number(Nu::Float(f))) => TokenType::Value(V::Number(Nu::Float(f32::from_bits(f.to_bits().wrapping_add(d as u32))))),
                TokenType::Value(V::String(s)) => TokenType::Value(V::String(format!("{s}{d}"))),
                TokenType::Value(V::Boolean(b)) => TokenType::Value(V::Boolean(!b)),
                _ => return Ok(Held::Skip),
            }
        }
        6 => {
            // only the offsets differ: still the same place
            t.range.0.bytes += d;
            t.range.1.bytes += d;
            t.range.0.chars += d;
            t.range.1.chars += d;
        }
        _ => {
            let x = syms::ALL[n[2] as usize % syms::ALL.len()];
            match x.tt() {
                Some(tt) => t.token_type = tt.clone(),
                None => return Ok(Held::Skip),
            }
        }
    }
    eq_two(a, b)
}
/// Two tokens, or two tokenizing errors, by their parts.
pub fn equality_text(p: &[Part]) -> Result<Held, Fail> {
    let (a, b) = (lolcode_ast::tokenize(p[0].t().to_string()), lolcode_ast::tokenize(p[1].t().to_string()));
    let same = match (&a, &b) {
        (Ok(x), Ok(y)) => tokens_same(x, y),
        (Err(x), Err(y)) => format!("{x:?}") == format!("{y:?}"),
        _ => false,
    };
    if (a == b) != same || (a != b) == same {
        return fail("equality of results", format!("{same}"), format!("{}", a == b));
    }
    if a.clone() != a {
        return fail("clone", format!("{a:?}"), format!("{:?}", a.clone()));
    }
    Ok(Held::Yes(2))
}

// ------------------------------------------------------------------ C23
fn one(text: &str) -> String {
    format!("{:?}|{:?}", lolcode_ast::tokenize_and_parse(text.to_string()), lolcode_ast::tokenize(text.to_string()))
}
/// Answer for one text, for comparison between processes.
pub fn answer(text: &str) -> String {
    one(text)
}
/// tokenize_and_parse = tokenize, then parse
pub fn staged(p: &[Part]) -> Result<Held, Fail> {
    let t = p[0].t();
    let whole = lolcode_ast::tokenize_and_parse(t.to_string());
    let parts = lolcode_ast::tokenize(t.to_string());
    match (&whole, &parts) {
        (Ok(w), Ok(k)) => {
            let a = lolcode_ast::parse(k.clone());
            if *w != a || format!("{w:?}") != format!("{a:?}") {
                return fail("one call against two", format!("{a:?}"), format!("{w:?}"));
            }
        }
        (Err(w), Err(k)) => {
            use lolcode_ast::lexer::TokenError::UnclosedMultilineComment as U;
            let (U(x), U(y)) = (w, k);
            if !lmodel::same_pos(&x.0, &y.0) || !lmodel::same_pos(&x.1, &y.1) {
                return fail("tokenizing error", format!("{k:?}"), format!("{w:?}"));
            }
        }
        _ => return fail("one call against two", format!("{parts:?}"), format!("{whole:?}")),
    }
    // spare capacity of the argument does not matter, and repeating the call changes nothing
    let mut s = String::with_capacity(t.len() + 100);
    s.push_str(t);
    let again = lolcode_ast::tokenize_and_parse(s);
    if format!("{again:?}") != format!("{whole:?}") {
        return fail("repeated call", format!("{whole:?}"), format!("{again:?}"));
    }
    Ok(Held::Yes(3))
}
/// A history of calls: texts; each answer must be the one its text gets on its own (computed beforehand, in `base`).
pub fn history(p: &[Part]) -> Result<Held, Fail> {
    let base = BASE.get().expect("baseline");
    for x in p {
        let t = x.t();
        let got = one(t);
        match base.get(t) {
            Some(w) if *w == got => {}
            Some(w) => return fail(format!("answer for {t:?}"), w.clone(), got),
            None => {
                // not in the table (a shrunk input): a fresh process decides
                let w = fresh(&[t.to_string()]).remove(0);
                if w != got {
                    return fail(format!("answer for {t:?}"), w, got);
                }
            }
        }
    }
    Ok(Held::Yes(p.len() as u32))
}
pub static BASE: std::sync::OnceLock<std::collections::HashMap<String, String>> = std::sync::OnceLock::new();

/// Answers from processes that have answered nothing else before.
pub fn fresh(texts: &[String]) -> Vec<String> {
    let exe = std::env::current_exe().expect("own path");
    let next = std::sync::atomic::AtomicUsize::new(0);
    let out: Vec<std::sync::Mutex<String>> = texts.iter().map(|_| Default::default()).collect();
    std::thread::scope(|sc| {
        for _ in 0..8 {
            sc.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if i >= texts.len() {
                    break;
                }
                let o = std::process::Command::new(&exe).arg("answer").arg(crate::engine::json(&texts[i])).output().expect("run a fresh process");
                *out[i].lock().unwrap() = String::from_utf8_lossy(&o.stdout).into_owned();
            });
        }
    });
    out.into_iter().map(|m| m.into_inner().unwrap()).collect()
}
/// Calls spread over threads: texts, then numbers (the thread that makes each call).
pub fn threads(p: &[Part]) -> Result<Held, Fail> {
    use std::sync::mpsc::channel;
    let base = BASE.get().expect("baseline");
    let who = p[p.len() - 1].n();
    let texts = &p[..p.len() - 1];
    let k = who.iter().max().copied().unwrap_or(0) as usize + 1;
    let (back, answers) = channel::<String>();
    let r = std::thread::scope(|sc| {
        let mut to = Vec::new();
        for _ in 0..k {
            let (tx, rx) = channel::<String>();
            let back = back.clone();
            sc.spawn(move || {
                for t in rx {
                    let a = std::panic::catch_unwind(|| one(&t)).unwrap_or_else(|p| format!("panicked: {}", crate::engine::panic_text(&p)));
                    if back.send(a).is_err() {
                        break;
                    }
                }
            });
            to.push(tx);
        }
        for (i, x) in texts.iter().enumerate() {
            let w = who.get(i).copied().unwrap_or(0) as usize;
            to[w].send(x.t().to_string()).unwrap();
            let got = answers.recv().unwrap();
            if base.get(x.t()).map_or(false, |b| *b != got) {
                return fail(format!("answer for {:?} on thread {w}", x.t()), base[x.t()].clone(), got);
            }
        }
        Ok(())
    });
    r?;
    Ok(Held::Yes(texts.len() as u32))
}

/// Scheduling points of one call.
pub fn points(t: &str) -> u64 {
    crate::sched::run(&[], || drop(lolcode_ast::tokenize_and_parse(t.to_string())), || ())[0].1
}
/// Two calls at the same time: texts of the two threads, then the schedule.
pub fn schedule(p: &[Part]) -> Result<Held, Fail> {
    let (a, b) = (p[0].t(), p[1].t());
    let plan: Vec<u64> = p[2].n().iter().map(|n| *n as u64).collect();
    let r = crate::sched::run(&plan, || lolcode_ast::tokenize_and_parse(a.to_string()), || lolcode_ast::tokenize_and_parse(b.to_string()));
    let base = BASE.get();
    for (i, ((r, _), t)) in r.into_iter().zip([a, b]).enumerate() {
        let got = match r {
            Ok(x) => format!("{x:?}|"),
            Err(e) => e,
        };
        let other;
        let want = match base.and_then(|b| b.get(t)) {
            Some(w) => w,
            None => {
                other = fresh(&[t.to_string()]).remove(0);
                &other
            }
        };
        // (the answer of a fresh process goes on with the tokens)
        if !want.starts_with(&got) {
            return fail(format!("answer for {t:?} on thread {i} while the other thread tokenizes and parses {:?}", if i == 0 { b } else { a }), want.clone(), got);
        }
    }
    Ok(Held::Yes(2))
}

/// C27: another name, value, comment or place changes nothing else: program, dressing.
pub fn dressing(p: &[Part]) -> Result<Held, Fail> {
    let s = p[0].s();
    let k = p[1].n()[0] as u32;
    let base = real::parse_syms(s)?;
    let d = syms::with_dress(k, || real::parse_syms(s))?;
    if base.canon.out != d.canon.out {
        return fail(format!("AST with other names, values or places: {:?}", syms::with_dress(k, || syms::build(s)).iter().map(|t| format!("{:?} {:?}", t.token_type, t.range)).collect::<Vec<_>>()), real::show_syms(&base.canon.out, s), real::show_syms(&d.canon.out, s));
    }
    Ok(Held::Yes(2))
}
/// C27: all names equal, and every token at the same column and offset: the same tree, read by kinds of token.
pub fn dressing_same(p: &[Part]) -> Result<Held, Fail> {
    let s = p[0].s();
    let (plain, same) = (syms::build(s), syms::with_dress(syms::SAME, || syms::build(s)));
    let map: std::collections::HashMap<String, String> =
        plain.iter().zip(&same).map(|(a, b)| (format!("{:?}", a), format!("{:?}", b))).collect();
    let want = masked(&format!("{:?}", lolcode_ast::parse(plain)), Some(&map));
    let got = masked(&format!("{:?}", lolcode_ast::parse(same)), None);
    if want != got {
        let at = want.bytes().zip(got.bytes()).take_while(|x| x.0 == x.1).count();
        let cut = |t: &str| String::from_utf8_lossy(&t.as_bytes()[at.saturating_sub(100)..t.len().min(at + 100)]).to_string();
        return fail("AST with every token at one place of its line and all names equal", cut(&want), cut(&got));
    }
    Ok(Held::Yes(2))
}
/// Debug text with each token replaced (`None`: as it is) and all other places blotted out.
fn masked(t: &str, map: Option<&std::collections::HashMap<String, String>>) -> String {
    let mut out = String::with_capacity(t.len());
    let b = t.as_bytes();
    let place = |mut i: usize| -> Option<usize> {
        let num = |i: &mut usize| {
            let at = *i;
            *i += (b.get(at) == Some(&b'-')) as usize;
            while b.get(*i).is_some_and(|c| c.is_ascii_digit()) {
                *i += 1;
            }
            *i > at
        };
        let eat = |i: &mut usize, w: &[u8]| {
            let y = b[*i..].starts_with(w);
            *i += if y { w.len() } else { 0 };
            y
        };
        (eat(&mut i, b"(") && num(&mut i) && eat(&mut i, b", ") && num(&mut i) && eat(&mut i, b")")).then_some(i)
    };
    let mut i = 0;
    while i < b.len() {
        let Some(z) = (if b[i] == b'(' { place(i) } else { None }) else {
            // up to the next opening bracket
            let n = b[i + 1..].iter().position(|&c| c == b'(').map_or(b.len(), |k| i + 1 + k);
            out.push_str(&t[i..n]);
            i = n;
            continue;
        };
        let line = if b[z..].starts_with(b" -> ") { place(z + 4).filter(|&y| b.get(y) == Some(&b'\n')) } else { None };
        if let Some(y) = line {
            if b.get(y + 1).is_some_and(|c| c.is_ascii_alphabetic()) {
                let end = b[y + 1..].iter().position(|&c| c == b'\n').map_or(b.len(), |k| y + 2 + k);
                let token = &t[i..end];
                match map {
                    Some(m) => out.push_str(m.get(token).map_or("<ALIEN>", |x| x)),
                    None => out.push_str(token),
                }
                i = end;
                continue;
            }
        }
        out.push_str("(place)");
        i = z;
    }
    out
}
/// Another property's oracle with other names, values, comments or places; the dressing comes last.
pub fn with(f: OracleFn, p: &[Part]) -> Result<Held, Fail> {
    let k = p[p.len() - 1].n()[0] as u32;
    syms::with_dress(k, || f(&p[..p.len() - 1]))
}

// ------------------------------------------------------------------ C28
fn same_token(what: &str, want: &Token, got: &Token) -> Result<(), Fail> {
    if full_eq(want, got) {
        return Ok(());
    }
    let show = |t: &Token| format!("{:?} at {} to {}", t.token_type, lmodel::show_pos(&t.range.0), lmodel::show_pos(&t.range.1));
    fail(what.to_string(), show(want), show(got))
}
/// One token (kind, then an optional line break before it to move it), converted and wrapped every way.
pub fn convert(p: &[Part]) -> Result<Held, Fail> {
    use lolcode_ast::parser::expression::binary_operation::BinaryOpt as B;
    use lolcode_ast::parser::expression::nary_operations::NaryOpt as A;
    use lolcode_ast::parser::expression::unary_operation::UnaryOpt as U;
    use lolcode_ast::parser::expression::ASTType as T;
    let tokens = syms::build(p[0].s());
    let t = match tokens.last() {
        Some(t) => t.clone(),
        None => return Ok(Held::Skip),
    };
    // a keyword's own spelling
    if let (TokenType::Keyword(k), Some(x)) = (&t.token_type, p[0].s().last()) {
        if k.to_string_slice() != x.text() {
            return fail("spelling of a keyword", x.text(), k.to_string_slice());
        }
    }
    // to a type
    use lolcode_ast::lexer::Keywords as K;
    let kinds: [(K, fn(Token) -> T); 6] = [(K::NUMBR, T::Numbr), (K::NUMBAR, T::Numbar), (K::YARN, T::Yarn), (K::TROOF, T::Troof), (K::BUKKIT, T::Bukkit), (K::NOOB, T::Noob)];
    match (T::try_from(t.clone()), kinds.iter().find(|k| t.token_type == TokenType::Keyword(k.0.clone()))) {
        (Ok(got), Some((_, make))) => {
            if std::mem::discriminant(&got) != std::mem::discriminant(&make(t.clone())) {
                return fail("type of a token", format!("{:?}", make(t.clone())), format!("{got:?}"));
            }
            same_token("token of a type", &t, got.token())?;
            same_token("token out of a type", &t, &got.into_token())?;
        }
        (Err(got), None) => same_token("token that is no type", &t, &got)?,
        (got, want) => return fail("type of a token", format!("{:?}", want.map(|w| w.1(t.clone())).ok_or(&t)), format!("{got:?}")),
    }
    // to a value
    let is_value = matches!(t.token_type, TokenType::Value(_));
    match ASTExpressionValue::try_from(t.clone()) {
        Ok(ASTExpressionValue::LiteralValue(got)) if is_value => {
            same_token("token of a value", &t, &got)?;
            let v = ASTExpressionValue::LiteralValue(got);
            check_iter("tokens of a value", || v.tokens(), &[&t])?;
            let r = v.range();
            if !lmodel::same_pos(r.0, &t.range.0) || !lmodel::same_pos(r.1, &t.range.1) {
                return fail("range of a value", format!("{} to {}", lmodel::show_pos(&t.range.0), lmodel::show_pos(&t.range.1)), format!("{} to {}", lmodel::show_pos(r.0), lmodel::show_pos(r.1)));
            }
        }
        Err(()) if !is_value => {}
        got => return fail("value of a token", if is_value { format!("LiteralValue({t:?})") } else { "Err(())".into() }, format!("{got:?}")),
    }
    // operators and types holding it
    let bs: [fn(Token) -> B; 12] = [B::EitherOf, B::WonOf, B::SumOf, B::DiffOf, B::ProduktOf, B::QuoshuntOf, B::ModOf, B::BiggrOf, B::SmallrOf, B::BothSaem, B::BothOf, B::Diffrint];
    for (i, f) in bs.iter().enumerate() {
        same_token(&format!("token of binary operator {i}"), &t, f(t.clone()).token())?;
        same_token(&format!("token out of binary operator {i}"), &t, &f(t.clone()).into_token())?;
    }
    for (i, f) in [A::AllOf as fn(Token) -> A, A::Smoosh, A::AnyOf].iter().enumerate() {
        same_token(&format!("token of n-ary operator {i}"), &t, f(t.clone()).token())?;
        same_token(&format!("token out of n-ary operator {i}"), &t, &f(t.clone()).into_token())?;
    }
    same_token("token of NOT", &t, U::Not(t.clone()).token())?;
    same_token("token out of NOT", &t, &U::Not(t.clone()).into_token())?;
    for (i, (_, f)) in kinds.iter().enumerate() {
        same_token(&format!("token of type {i}"), &t, f(t.clone()).token())?;
        same_token(&format!("token out of type {i}"), &t, &f(t.clone()).into_token())?;
    }
    Ok(Held::Yes(46))
}
/// A parsed program: each part wrapped again gives the node it came from; blocks keep their nodes in order.
pub fn wrap(p: &[Part]) -> Result<Held, Fail> {
    let ast = lolcode_ast::parse(syms::build(p[0].s()));
    let same = |what: &str, want: &Node, got: &Node| -> Result<(), Fail> {
        let (w, g) = (format!("{want:?}"), format!("{got:?}"));
        // a float that is not a number differs from itself
        if w == g && (want == got) == (want == want) {
            return Ok(());
        }
        fail(what.to_string(), w, g)
    };
    for n in ast.0.iter() {
        macro_rules! wrap {
            ($($k:ident),*) => {
                match n.clone() {
                    $(Node::$k(x) => {
                        same("statement made a node", n, &Node::from(x.clone()))?;
                        let r: Result<_, _> = Ok(x);
                        same("statement result made a node", n, &Node::from(r))?;
                    })*
                    Node::ASTError(x) => {
                        same("error made a node", n, &Node::from(x.clone()))?;
                        same("error result made a node", n, &Node::from(err_of(x)))?;
                    }
                }
            };
        }
        wrap!(IHasA, Hai, ImInYr, BukkitSetSlot, VariableAssignment, Visible, FoundYr, Wtf, ORly, IIz, HowIzI, Gtfo, Gimmeh, Expression, KThxBye);
        if let Node::Expression(e) = n {
            let again = match e.clone() {
                ASTExpression::BinaryOperation(o) => ASTExpression::from(o),
                ASTExpression::UnaryOperation(o) => ASTExpression::from(o),
                ASTExpression::NaryOperation(o) => ASTExpression::from(o),
                ASTExpression::Value(ASTExpressionValue::VariableAccess(v)) => ASTExpression::Value(ASTExpressionValue::from(v)),
                x => x,
            };
            same("expression wrapped again", n, &Node::Expression(again))?;
        }
    }
    let nodes: Vec<Node> = ast.clone().into_iter().collect();
    if nodes.len() != ast.0.len() {
        return fail("nodes of a block", format!("{} nodes", ast.0.len()), format!("{}", nodes.len()));
    }
    for (a, b) in ast.0.iter().zip(&nodes) {
        same("node of a block", a, b)?;
    }
    macro_rules! rebuild {
        ($($n:literal),*) => {
            match nodes.len() {
                $($n => <[Node; $n]>::try_from(nodes.clone()).ok().map(ASTBlock::from),)*
                _ => None,
            }
        };
    }
    if let Some(b) = rebuild!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17) {
        if (b == ast) != (ast == ast) || format!("{b:?}") != format!("{ast:?}") {
            return fail("block built from its nodes", format!("{ast:?}"), format!("{b:?}"));
        }
    }
    if !ASTBlock::default().0.is_empty() || ASTBlock::default().into_iter().next().is_some() || ASTBlock::default().iter_errors().next().is_some() {
        return fail("the default block", "no nodes", format!("{:?}", ASTBlock::default()));
    }
    Ok(Held::Yes(ast.0.len() as u32 + 1))
}
/// Blocks made from arrays of nodes hold them, in order, however alike they are.
pub fn arrays(p: &[Part]) -> Result<Held, Fail> {
    let ast = lolcode_ast::parse(syms::build(p[0].s()));
    let all: Vec<&Node> = ast.0.iter().collect();
    if all.is_empty() {
        return Ok(Held::Skip);
    }
    let some = [all[0], all[1.min(all.len() - 1)], all[all.len() - 1]];
    let mut n = 0;
    let mut go = |nodes: Vec<&Node>| -> Result<(), Fail> {
        macro_rules! make {
            ($($n:literal),*) => {
                match nodes.len() {
                    $($n => ASTBlock::from(std::array::from_fn::<Node, $n, _>(|i| nodes[i].clone())),)*
                    _ => return Ok(()),
                }
            };
        }
        let b = make!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17);
        n += 1;
        let got: Vec<Node> = b.into_iter().collect();
        // a float that is not a number differs from itself, so compare what is shown where they differ
        if got.len() != nodes.len() || got.iter().zip(&nodes).any(|(a, b)| a != *b && format!("{a:?}") != format!("{b:?}")) {
            return fail("block made from an array", format!("{nodes:?}"), format!("{got:?}"));
        }
        Ok(())
    };
    let big = p[0].s().len() > 60;
    for len in 0..=if big { 3 } else { 6u32 } {
        let k = all.len().min(3);
        for mut c in 0..k.pow(len) {
            go((0..len)
                .map(|_| {
                    let x = if k == 2 { [all[0], all[1]][c % 2] } else { some[c % k] };
                    c /= k;
                    x
                })
                .collect())?;
        }
    }
    for len in 7..=if big { 8 } else { 17 } {
        for x in [some[0], some[2]] {
            go(vec![x; len])?;
        }
    }
    Ok(Held::Yes(n))
}
fn err_of<E>(e: E) -> Result<Node, E> {
    Err(e)
}
/// Two positions, eight numbers: what they show and what ranges hold.
pub fn places(p: &[Part]) -> Result<Held, Fail> {
    use lolcode_ast::lexer::Range;
    let n = p[0].n();
    let pos = |n: &[i64]| Position { line: n[0] as i32, column: n[1] as i32, bytes: n[2] as i32, chars: n[3] as i32 };
    let (a, b) = (pos(&n[..4]), pos(&n[4..]));
    let eq = |what: &str, want: String, got: String| if want == got { Ok(()) } else { fail(what.to_string(), want, got) };
    eq("display of a position", format!("(L{}, C{})", n[0], n[1]), format!("{a}"))?;
    eq("debug form of a position", format!("({}, {})", n[0], n[1]), format!("{a:?}"))?;
    let r = Range::from((a, b));
    eq("debug form of a range", format!("({}, {}) -> ({}, {})\n", n[0], n[1], n[4], n[5]), format!("{r:?}"))?;
    let holds = |what: &str, r: &Range, x: &Position, y: &Position| {
        if lmodel::same_pos(&r.0, x) && lmodel::same_pos(&r.1, y) {
            return Ok(());
        }
        fail(what.to_string(), format!("{} to {}", lmodel::show_pos(x), lmodel::show_pos(y)), format!("{} to {}", lmodel::show_pos(&r.0), lmodel::show_pos(&r.1)))
    };
    holds("range of two positions", &r, &a, &b)?;
    holds("clone of a range", &r.clone(), &a, &b)?;
    holds("range of one position", &Range::from(a), &a, &a)?;
    let one = (n[0], n[1]) == (n[4], n[5]);
    if (a == b) != one || (a != b) == one || (Range::from(a) == Range::from(b)) != one || (r == Range::from(a)) != one || (r == Range::from((b, a))) != one || r != r.clone() {
        return fail("equality of positions and ranges", one.to_string(), format!("{a:?} {b:?}"));
    }
    let d = Position::default();
    holds("the default position", &Range::from(d), &Position { line: 1, column: 1, bytes: 0, chars: 0 }, &Position { line: 1, column: 1, bytes: 0, chars: 0 })?;
    Ok(Held::Yes(8))
}

// ------------------------------------------------------------------ C29
use crate::cost::Cost;
/// What is allowed when everything is repeated 16 times as often: 16 times the cost (16 times 16 where each level of
/// nesting may pass on what the levels below give), with room for a factor of 3.
fn proportional(what: &str, small: crate::cost::Cost, big: crate::cost::Cost, levels: bool) -> Result<(), Fail> {
    let eq = |w: &str, a: u64, b: u64, least: u64| {
        if b <= if levels { 768 } else { 48 } * a.max(least) {
            return Ok(());
        }
        fail(format!("{what}: {w} when repeated 16 times as often"), format!("about 16 x {a}"), format!("{b}, {:.1} times as much", b as f64 / a as f64))
    };
    eq("steps", small.work, big.work, 500)?;
    eq("memory", small.peak, big.peak, 2048)
}
fn repeat5<T: Copy>(p: [&[T]; 5], n: usize) -> Vec<T> {
    [p[0], &p[1].repeat(n), p[2], &p[3].repeat(n), p[4]].concat()
}
/// Parsing: before, repeated part, middle, second repeated part, after; count.
pub fn cost_tokens(p: &[Part]) -> Result<Held, Fail> {
    let n = p[5].n()[0] as usize;
    let costs = |n: usize| {
        let tokens = syms::with_dress(p[5].n().get(1).copied().unwrap_or(0) as u32, || syms::build(&repeat5([p[0].s(), p[1].s(), p[2].s(), p[3].s(), p[4].s()], n)));
        let mut ast = None;
        let parse = crate::cost::of(|| ast = Some(lolcode_ast::parse(tokens)));
        let ast = ast.unwrap();
        let list = crate::cost::of(|| {
            std::hint::black_box(ast.iter_errors().count());
        });
        let walk = crate::cost::of(|| {
            for node in ast.0.iter() {
                if let Node::Expression(e) = node {
                    std::hint::black_box(e.tokens().count());
                    std::hint::black_box(e.range());
                }
            }
        });
        [parse, list, walk, crate::cost::of(|| drop(ast))]
    };
    let has = |set: &[S]| p[1].s().iter().any(|s| set.contains(s));
    let blocks = has(&[S::K_O_RLY, S::K_WTF, S::K_IM_IN_YR, S::K_HOW_IZ_I]);
    let operators = has(&[
        S::K_NOT, S::K_SUM_OF, S::K_DIFF_OF, S::K_PRODUKT_OF, S::K_QUOSHUNT_OF, S::K_MOD_OF, S::K_BIGGR_OF, S::K_SMALLR_OF, S::K_BOTH_OF, S::K_EITHER_OF, S::K_WON_OF, S::K_BOTH_SAEM, S::K_DIFFRINT,
        S::K_ALL_OF, S::K_ANY_OF, S::K_SMOOSH,
    ]);
    let (a, b) = (costs(n), costs(16 * n));
    proportional("parsing", a[0], b[0], false)?;
    proportional("listing the errors", a[1], b[1], blocks)?;
    proportional("walking the expressions", a[2], b[2], operators)?;
    proportional("giving the tree back", Cost { peak: 0, ..a[3] }, Cost { peak: 0, ..b[3] }, false)?;
    Ok(Held::Yes(2))
}
/// Tokenizing: before, repeated part, after; count.
pub fn cost_text(p: &[Part]) -> Result<Held, Fail> {
    let mut n = p[3].n()[0] as usize;
    // {} is another number in each repetition
    let text = |n: usize| {
        let unit = p[1].t();
        let body = if unit.contains("{}") { (0..n).map(|i| unit.replace("{}", &i.to_string())).collect() } else { unit.repeat(n) };
        format!("{}{}{}", p[0].t(), body, p[2].t())
    };
    let c = |n: usize| {
        let text = text(n);
        crate::cost::of(|| {
            std::hint::black_box(lolcode_ast::tokenize(text).is_ok());
        })
    };
    let over = lmodel::lex(&text(n).chars().collect::<Vec<char>>(), true).overflow;
    if over {
        n = (n / 8).max(1);
    }
    let (small, big) = (c(n), c(16 * n));
    match proportional("tokenizing", small, big, false) {
        Ok(()) => Ok(Held::Yes(2)),
        // the rest of a numeral that is out of range is read again from each of its digits
        Err(f) if f.what.contains("steps") && over => {
            proportional("tokenizing", Cost { work: big.work, ..small }, big, false)?;
            Ok(Held::Known("int-overflow"))
        }
        Err(f) => Err(f),
    }
}

// ------------------------------------------------------------------ C30
/// Memory held after n calls, each on another text, and after n more: the text with {} replaced by a number and {*} by a run of that length.
pub fn kept_text(p: &[Part]) -> Result<Held, Fail> {
    let n = p[1].n()[0] as usize;
    let run = |from: usize| {
        for i in from..from + n {
            let mut text = p[0].t().replace("{}", &i.to_string());
            if text.contains("{*}") {
                text = text.replace("{*}", &"x".repeat(i % 100_000));
            }
            if let Ok(t) = lolcode_ast::tokenize(text) {
                let a = lolcode_ast::parse(t);
                std::hint::black_box(a.iter_errors().count());
            }
        }
    };
    run(100_000);
    let c = crate::cost::of(|| run(100_000 + n));
    if c.kept > 4 * n as i64 {
        return fail(format!("memory held after {n} more calls on {:?}", p[0].t()), "no more than before them", format!("{} bytes more", c.kept));
    }
    Ok(Held::Yes(2 * n as u32))
}
/// The same tokens parsed again and again.
pub fn kept_tokens(p: &[Part]) -> Result<Held, Fail> {
    let n = p[1].n()[0];
    let run = || {
        for _ in 0..n {
            let a = lolcode_ast::parse(syms::build(p[0].s()));
            std::hint::black_box(a.iter_errors().count());
        }
    };
    run();
    let c = crate::cost::of(run);
    if c.kept > 4 * n {
        return fail(format!("memory held after {n} more calls"), "no more than before them", format!("{} bytes more", c.kept));
    }
    Ok(Held::Yes(2 * n as u32))
}
