//! Tokenizer properties: oracles and the spaces they are explored over.
use crate::engine::{small_stack, fail, Fail, Held, Part, Run};
use crate::gen;
use crate::lmodel::{self, L};
use lolcode_ast::lexer::{Position, Token, TokenError, TokenType, TokenValue};
use std::collections::{HashMap, HashSet};

fn chars(s: &str) -> Vec<char> {
    s.chars().collect()
}
pub fn tok(s: &str) -> Result<Vec<Token>, TokenError> {
    lolcode_ast::tokenize(s.to_string())
}

// ------------------------------------------------------------------ oracles
/// C01: an answer, and the error exactly when a comment is left open.
pub fn total(p: &[Part]) -> Result<Held, Fail> {
    let c = chars(p[0].t());
    let m = lmodel::lex(&c, true);
    match (tok(p[0].t()), &m.res) {
        (Ok(_), Ok(_)) | (Err(_), Err(_)) => Ok(Held::Yes(1)),
        (Ok(t), Err(i)) => fail("missing unclosed-comment error", format!("error, OBTW at character {i} is unclosed"), lmodel::show_tokens(&t)),
        (Err(e), Ok(_)) => fail("spurious error", "tokens (every comment is closed)", format!("{e:?}")),
    }
}

/// C01 for long texts: before, repeated part, count, after; on a stack of 2 MB.
pub fn total_flat(p: &[Part]) -> Result<Held, Fail> {
    let text = format!("{}{}{}", p[0].t(), p[1].t().repeat(p[2].n()[0] as usize), p[3].t());
    small_stack(move || {
        std::hint::black_box(lolcode_ast::tokenize(text).is_ok());
    });
    Ok(Held::Yes(1))
}

fn spells(slice: &str, ty: &TokenType) -> bool {
    match ty {
        TokenType::Identifier(n) => slice == n,
        TokenType::Symbol(s) => slice == s && s.chars().count() == 1,
        TokenType::Keyword(k) => lmodel::keywords().iter().any(|x| x.2 == slice && lmodel::kw_id(&x.1) == lmodel::kw_id(k)),
        TokenType::Value(TokenValue::Boolean(b)) => slice == if *b { "WIN" } else { "FAIL" },
        TokenType::Value(TokenValue::NOOB) => slice == "NOOB",
        TokenType::Value(TokenValue::String(s)) => {
            slice.strip_prefix('"').map_or(false, |r| r == s || r.strip_suffix('"') == Some(s))
        }
        TokenType::Value(TokenValue::Number(n)) => lmodel::numeral_value(slice)
            .map_or(false, |v| lmodel::same_type(&TokenType::Value(TokenValue::Number(v)), &TokenType::Value(TokenValue::Number(n.clone())))),
        TokenType::CommentSingleLine(s) => slice.strip_prefix("BTW") == Some(s) && !s.contains('\n'),
        TokenType::CommentMultiLine(s) => {
            slice.strip_prefix("OBTW").and_then(|r| r.strip_suffix("TLDR")) == Some(s) && !s.contains("TLDR")
        }
        TokenType::BukkitSlotAccess => slice == "'Z",
        TokenType::Ellipsis => slice == "..." || slice == "\u{2026}",
        TokenType::Comma => slice == ",",
        TokenType::ExclamationMark => slice == "!",
        TokenType::QuestionMark => slice == "?",
    }
}

/// C02: spans in order, disjoint, in the text; gaps blank; slices spell their tokens. No model involved.
pub fn tile(p: &[Part]) -> Result<Held, Fail> {
    let s = p[0].t();
    let t = match tok(s) {
        Ok(t) => t,
        Err(_) => return Ok(Held::Skip),
    };
    let mut at = 0usize;
    let blank = |g: &str| g.chars().all(|c| matches!(c, ' ' | '\t' | '\r' | '\n'));
    for k in &t {
        let (a, z) = (k.range.0.bytes, k.range.1.bytes);
        if a < at as i32 || z <= a || z as usize > s.len() || !s.is_char_boundary(a as usize) || !s.is_char_boundary(z as usize) {
            return fail("token span", format!("non-empty span in {at}..{}", s.len()), lmodel::show_tokens(&t));
        }
        let (a, z) = (a as usize, z as usize);
        if !blank(&s[at..a]) {
            return fail("text lost", format!("{:?} covered by tokens", &s[at..a]), lmodel::show_tokens(&t));
        }
        if !spells(&s[a..z], &k.token_type) {
            return fail("token does not match its source", format!("a token spelled {:?}", &s[a..z]), lmodel::show_tokens(&t));
        }
        at = z;
    }
    if !blank(&s[at..]) {
        return fail("text lost", format!("{:?} covered by tokens", &s[at..]), lmodel::show_tokens(&t));
    }
    Ok(Held::Yes(1))
}

/// C03: positions against a table built by counting.
pub fn pos(p: &[Part]) -> Result<Held, Fail> {
    let s = p[0].t();
    let c = chars(s);
    let tab = lmodel::table(&c);
    let m = lmodel::lex(&c, true);
    let same = |got: &Position, at: usize, what: &str| -> Result<(), Fail> {
        if lmodel::same_pos(got, &tab[at]) {
            Ok(())
        } else {
            fail(format!("{what} position"), lmodel::show_pos(&tab[at]), lmodel::show_pos(got))
        }
    };
    match (tok(s), &m.res) {
        (Ok(t), Ok(l)) if t.len() == l.len() && t.iter().zip(l).all(|(t, l)| lmodel::same_type(&t.token_type, &l.ty)) => {
            for (t, l) in t.iter().zip(l) {
                same(&t.range.0, l.a, "start")?;
                same(&t.range.1, l.z, "end")?;
            }
        }
        (Ok(t), _) => {
            // other tokens than expected: their positions must still be places of the text
            let by_byte: HashMap<i32, usize> = tab.iter().enumerate().map(|(i, p)| (p.bytes, i)).collect();
            for t in &t {
                for (q, w) in [(&t.range.0, "start"), (&t.range.1, "end")] {
                    match by_byte.get(&q.bytes) {
                        Some(i) => same(q, *i, w)?,
                        None => return fail(format!("{w} position"), "a place in the text", lmodel::show_pos(q)),
                    }
                }
            }
        }
        (Err(TokenError::UnclosedMultilineComment(r)), Err(i)) => {
            same(&r.0, *i, "error start")?;
            same(&r.1, c.len(), "error end")?;
        }
        (Err(TokenError::UnclosedMultilineComment(r)), Ok(_)) => {
            same(&r.1, c.len(), "error end")?;
        }
    }
    Ok(Held::Yes(1))
}

/// Agreement of real tokens with reference tokens, types and byte spans. `None` when equal.
fn differ(t: &[Token], l: &[L], tab: &[Position]) -> Option<Fail> {
    let same = t.len() == l.len()
        && t.iter().zip(l).all(|(t, l)| {
            t.range.0.bytes == tab[l.a].bytes && t.range.1.bytes == tab[l.z].bytes && lmodel::same_type(&t.token_type, &l.ty)
        });
    if same {
        None
    } else {
        Some(Fail { what: "tokens".into(), expected: lmodel::show_l(l, tab), got: lmodel::show_tokens(t) })
    }
}
/// C04-C07: exactly the tokens of the reference rules.
pub fn lexeq(p: &[Part]) -> Result<Held, Fail> {
    let s = p[0].t();
    let c = chars(s);
    let tab = lmodel::table(&c);
    let m = lmodel::lex(&c, true);
    match (tok(s), m.res) {
        (Ok(t), Ok(l)) => match differ(&t, &l, &tab) {
            Some(f) => Err(f),
            None if m.overflow => Ok(Held::Known("int-overflow")),
            None => Ok(Held::Yes(1)),
        },
        (Err(TokenError::UnclosedMultilineComment(_)), Err(_)) => Ok(Held::Yes(1)),
        (Ok(t), Err(i)) => fail("unclosed comment", format!("error, OBTW at character {i} is unclosed"), lmodel::show_tokens(&t)),
        (Err(e), Ok(l)) => fail("spurious error", lmodel::show_l(&l, &tab), format!("{e:?}")),
    }
}

fn shift(p: &Position, by: &Position) -> Position {
    Position {
        line: p.line + by.line - 1,
        column: if p.line == 1 { p.column + by.column - 1 } else { p.column },
        bytes: p.bytes + by.bytes,
        chars: p.chars + by.chars,
    }
}
fn same_tok(a: &Token, b: &Token) -> bool {
    lmodel::same_type(&a.token_type, &b.token_type) && lmodel::same_pos(&a.range.0, &b.range.0) && lmodel::same_pos(&a.range.1, &b.range.1)
}
/// C08: tokens of a, then tokens of b moved to where b starts. Relates three runs of the real code; the reference
/// rules are only asked whether `a` leaves something open.
pub fn local(p: &[Part]) -> Result<Held, Fail> {
    let (a, b) = (p[0].t(), p[1].t());
    let ca = chars(a);
    if lmodel::open_at_end(&ca, false) {
        return Ok(Held::Skip);
    }
    let ends_in_comment = lmodel::open_at_end(&ca, true);
    let ta = match tok(a) {
        Ok(t) => t,
        Err(e) => return fail("spurious error", "tokens (every comment is closed)", format!("{e:?}")),
    };
    let tb = tok(b);
    let mut n = 2;
    for sep in ["\n", "\r\n", ","] {
        if ends_in_comment && sep != "\n" {
            continue;
        }
        let whole = format!("{a}{sep}{b}");
        let pre = chars(&format!("{a}{sep}"));
        let base = lmodel::table(&pre)[pre.len()];
        let got = tok(&whole);
        n += 1;
        match (&tb, got) {
            (Err(TokenError::UnclosedMultilineComment(r)), Err(TokenError::UnclosedMultilineComment(g))) => {
                if !lmodel::same_pos(&shift(&r.0, &base), &g.0) || !lmodel::same_pos(&shift(&r.1, &base), &g.1) {
                    return fail(format!("joined by {sep:?}"), format!("the error of b, moved: {} to {}", lmodel::show_pos(&shift(&r.0, &base)), lmodel::show_pos(&shift(&r.1, &base))), format!("{} to {}", lmodel::show_pos(&g.0), lmodel::show_pos(&g.1)));
                }
            }
            (Ok(tb), Ok(g)) => {
                let mut want = ta.clone();
                if sep == "," {
                    let tab = lmodel::table(&pre);
                    want.push(Token { token_type: TokenType::Comma, range: (tab[pre.len() - 1], tab[pre.len()]).into() });
                }
                for t in tb {
                    want.push(Token { token_type: t.token_type.clone(), range: (shift(&t.range.0, &base), shift(&t.range.1, &base)).into() });
                }
                if want.len() != g.len() || !want.iter().zip(&g).all(|(x, y)| same_tok(x, y)) {
                    return fail(format!("joined by {sep:?}"), format!("the tokens of a, then those of b moved: {}", lmodel::show_tokens(&want)), lmodel::show_tokens(&g));
                }
            }
            (Ok(_), Err(e)) => return fail(format!("joined by {sep:?}"), "tokens", format!("{e:?}")),
            (Err(e), Ok(g)) => return fail(format!("joined by {sep:?}"), format!("{e:?}"), lmodel::show_tokens(&g)),
        }
    }
    Ok(Held::Yes(n))
}
/// C08: leading and trailing whitespace.
pub fn blanks(p: &[Part]) -> Result<Held, Fail> {
    let a = p[0].t();
    let ca = chars(a);
    let ta = match tok(a) {
        Ok(t) => t,
        Err(_) => return Ok(Held::Skip),
    };
    let trail = !lmodel::open_at_end(&ca, true);
    let mut n = 1;
    for w in [" ", "\n", "\t", "\r", "\r\n", "  ", " \n", "\n ", "\n\n", "\t \r\n \n"] {
        let pre = chars(w);
        let base = lmodel::table(&pre)[pre.len()];
        for (text, base) in [(format!("{w}{a}"), base), (format!("{a}{w}"), Position { line: 1, column: 1, bytes: 0, chars: 0 })] {
            if text.ends_with(w) && base.bytes == 0 && !trail {
                continue;
            }
            n += 1;
            let want: Vec<Token> = ta
                .iter()
                .map(|t| Token { token_type: t.token_type.clone(), range: (shift(&t.range.0, &base), shift(&t.range.1, &base)).into() })
                .collect();
            match tok(&text) {
                Ok(g) if want.len() == g.len() && want.iter().zip(&g).all(|(x, y)| same_tok(x, y)) => {}
                Ok(g) => return fail("whitespace around", lmodel::show_tokens(&want), format!("{} for {text:?}", lmodel::show_tokens(&g))),
                Err(e) => return fail("whitespace around", lmodel::show_tokens(&want), format!("{e:?} for {text:?}")),
            }
        }
    }
    Ok(Held::Yes(n))
}

/// C24: arithmetic on positions. text ; numbers: start line, column, bytes, chars, split (in characters)
pub fn arith(p: &[Part]) -> Result<Held, Fail> {
    let s = p[0].t();
    let n = p[1].n();
    let start = Position { line: n[0] as i32, column: n[1] as i32, bytes: n[2] as i32, chars: n[3] as i32 };
    let c = chars(s);
    let end = lmodel::table(&c)[c.len()];
    let want = shift(&end, &Position { line: start.line, column: start.column, bytes: start.bytes, chars: start.chars });
    let same = |what: &str, got: &Position| -> Result<(), Fail> {
        if lmodel::same_pos(&want, got) {
            Ok(())
        } else {
            fail(what, lmodel::show_pos(&want), lmodel::show_pos(got))
        }
    };
    same("position + text", &(start + s))?;
    let mut q = start;
    q += s;
    same("position += text", &q)?;
    let mut execs = 2;
    for k in 0..=c.len() {
        let (a, b): (String, String) = (c[..k].iter().collect(), c[k..].iter().collect());
        same("(position + first) + second", &(start + &a[..] + &b[..]))?;
        let mut q = start;
        q += &a[..];
        q += &b[..];
        same("+= first, += second", &q)?;
        execs += 2;
    }
    Ok(Held::Yes(execs))
}
/// C24: order and equality of the positions of one text.
pub fn order(p: &[Part]) -> Result<Held, Fail> {
    let c = chars(p[0].t());
    let tab = lmodel::table(&c);
    for (i, a) in tab.iter().enumerate() {
        for (j, b) in tab.iter().enumerate() {
            if a.partial_cmp(b) != Some(i.cmp(&j)) || (a < b) != (i < j) || (a > b) != (i > j) || (a <= b) != (i <= j) || (a >= b) != (i >= j) {
                return fail("order", format!("{} ? {}: {:?}", lmodel::show_pos(a), lmodel::show_pos(b), i.cmp(&j)), format!("{:?}", a.partial_cmp(b)));
            }
            if (a == b) != (i == j) || (a != b) != (i != j) {
                return fail("equality", format!("{} == {}: {}", lmodel::show_pos(a), lmodel::show_pos(b), i == j), format!("{}", a == b));
            }
        }
    }
    defaults(&tab)?;
    Ok(Held::Yes((tab.len() * tab.len()) as u32))
}
/// C24 in long texts: a piece, and how often it is repeated; the places next to powers of two.
pub fn order_far(p: &[Part]) -> Result<Held, Fail> {
    let (one, n) = (p[0].t(), p[1].n()[0] as usize);
    let text = one.repeat(n);
    let c = chars(&text);
    let tab = lmodel::table(&c);
    let mut at: Vec<usize> = vec![0, 1, 2, c.len()];
    for k in 1..31 {
        for d in -2i64..=2 {
            let i = (1i64 << k) + d;
            if i >= 0 && (i as usize) <= c.len() {
                at.push(i as usize);
            }
        }
    }
    at.sort();
    at.dedup();
    let offs: Vec<usize> = {
        let mut v: Vec<usize> = text.char_indices().map(|(b, _)| b).collect();
        v.push(text.len());
        v
    };
    for &i in &at {
        let got = Position::default() + &text[..offs[i]];
        if !lmodel::same_pos(&got, &tab[i]) {
            return fail("position + long text", lmodel::show_pos(&tab[i]), lmodel::show_pos(&got));
        }
        for &j in &at {
            let (a, b) = (&tab[i], &tab[j]);
            if a.partial_cmp(b) != Some(i.cmp(&j)) || (a < b) != (i < j) || (a > b) != (i > j) || (a <= b) != (i <= j) || (a >= b) != (i >= j) {
                return fail("order", format!("{} ? {}: {:?}", lmodel::show_pos(a), lmodel::show_pos(b), i.cmp(&j)), format!("{:?}", a.partial_cmp(b)));
            }
            if (a == b) != (i == j) || (a != b) != (i != j) {
                return fail("equality", format!("{} == {}: {}", lmodel::show_pos(a), lmodel::show_pos(b), i == j), format!("{}", a == b));
            }
        }
    }
    Ok(Held::Yes((at.len() * (at.len() + 1)) as u32))
}
fn defaults(tab: &[Position]) -> Result<(), Fail> {
    let d = Position::default();
    if !lmodel::same_pos(&d, &tab[0]) {
        return fail("default", lmodel::show_pos(&tab[0]), lmodel::show_pos(&d));
    }
    Ok(())
}

// ------------------------------------------------------------------ spaces
pub const CORE: &[&str] = &[
    " ", "\n", "\r\n", "\t", "a", "A", "x1", "_", "é", "1", "0", "12", "1.5", ".", "..", "...", "…", "-", "+", "\"", ":", "\"s\"", "'", "Z",
    "'Z", ",", "!", "?", "BTW", "OBTW", "TLDR", "I HAS A", "HAS A", "OMG", "WTF", "R", "NOOB", "WIN", "KTHXBYE", "$",
];
pub fn pieces() -> Vec<String> {
    let mut v: Vec<String> = CORE.iter().map(|s| s.to_string()).collect();
    for k in lmodel::keyword_texts() {
        v.push(k.to_string());
    }
    for s in [
        "  ", "\r", "\n\n", "\u{a0}", "\u{2028}", "\0", "漢", "𝄞", "e\u{301}", "\u{feff}", "-1", "+2", "1.", ".5", "007", "2147483647", "-2147483648",
        "3.25", "\"a:\"b\"", "\"::\"", "\"\n\"", "\"é\"", "I", "HAS", "I HAS", "IM IN", "O", "BOTH", "visible", "Visible", "VISIBLEx", "_AN", "AN_",
        "BTW c", "OBTW c TLDR", "OBTW\nTLDR", "OBTWTLDR", "TL", "DR", "'z", "''Z", "(", "#", "@", "\\", "/", ";", "%",
    ] {
        v.push(s.to_string());
    }
    let mut seen = HashSet::new();
    v.retain(|s| seen.insert(s.clone()));
    v
}
pub fn ascii() -> Vec<String> {
    (0u8..128).map(|b| (b as char).to_string()).collect()
}

/// All concatenations of at most n pieces, wrapped in a prefix and a suffix.
pub fn text_trie(run: &Run, name: &str, oracle: &str, pieces: &[String], n: u32, pre: &str, post: &str) {
    let o = run.oracle(oracle);
    let bound = format!("every concatenation of 0..={n} of {} pieces", pieces.len());
    run.par(name, &bound, gen::words_upto(pieces.len(), n), |w, i| {
        let mut t = pre.to_string();
        for k in gen::word_upto(i, pieces.len(), n) {
            t.push_str(&pieces[k]);
        }
        t.push_str(post);
        w.eval(o, &[Part::T(t)]);
    });
}
pub fn strs(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}
fn texts(run: &Run, name: &str, bound: &str, oracle: &str, v: Vec<String>) {
    let v: Vec<Vec<Part>> = v.into_iter().map(|t| vec![Part::T(t)]).collect();
    run.list(name, bound, oracle, &v);
}

/// Every Unicode scalar value in each context (`\u{1}` marks its place).
pub fn unicode(run: &Run, oracle: &str, contexts: &[&str]) {
    let o = run.oracle(oracle);
    let bound = format!("every Unicode scalar value in {} contexts", contexts.len());
    run.par("all Unicode scalar values", &bound, 0x110000, |w, i| {
        if let Some(c) = char::from_u32(i as u32) {
            for x in contexts {
                if !w.eval(o, &[Part::T(x.replace('\u{1}', &c.to_string()))]) {
                    return;
                }
            }
        }
    });
}

/// Long texts: piece repeated n times, pairs of pieces repeated, long single tokens, many lines.
pub fn scaling(run: &Run, oracle: &str, thorough: bool) {
    let o = run.oracle(oracle);
    let ps = pieces();
    let n = ps.len() as u64;
    let lens: &[usize] = if thorough { &[17, 64, 127, 128, 129, 255, 256, 257, 300, 600] } else { &[33, 257] };
    run.par("repeated pieces", &format!("each of {n} pieces and each ordered pair with a core piece, repeated {lens:?} times"), n, |w, i| {
        let p = &ps[i as usize];
        for &k in lens {
            for sep in ["", " ", "\n"] {
                if !w.eval(o, &[Part::T(format!("{p}{sep}").repeat(k))]) {
                    return;
                }
            }
        }
        for q in CORE {
            for &k in lens {
                if !w.eval(o, &[Part::T(format!("{p}{q}").repeat(k))]) {
                    return;
                }
            }
        }
    });
    let mut v = Vec::new();
    let sizes: &[usize] = if thorough { &[1000, 4096, 40_000, 70_000, 140_000] } else { &[1000, 70_000] };
    for &n in sizes {
        for one in ["a", "é", "漢", "1", " ", ":", "\n"] {
            let r = one.repeat(n);
            v.push(format!("\"{r}\" x"));
            v.push(format!("BTW{r}\nx"));
            v.push(format!("OBTW{r}TLDR x"));
            v.push(format!("OBTW{r}"));
            if one == "1" {
                v.push(format!("0.{} x", &r));
                v.push(format!("{}.5 x", "0".repeat(n)));
                v.push(format!("{}7 x", "0".repeat(n)));
            } else {
                v.push(format!("{r} x"));
            }
        }
        v.push("x\n".repeat(n));
        v.push("x\r\n".repeat(n));
        v.push("é ".repeat(n));
        v.push("x,".repeat(n));
        v.push(format!("{}x", "\n".repeat(n)));
        v.push(format!("{}\nx", "x ".repeat(n)));
    }
    for n in (1..=300).chain((9..=16).flat_map(|k| [(1 << k) - 1, 1 << k, (1 << k) + 1])) {
        v.push(format!("x {} x", "a1_Z".repeat(n)[..n].to_string()));
        v.push(format!("x \"{}", "a".repeat(n)));
        v.push(format!("x \"{}\"", ":\"".repeat(n)));
        v.push(format!("BTW{}\nx", "a".repeat(n)));
        v.push(format!("OBTW{}TLDR x", "a".repeat(n)));
        v.push(format!("x{}y", " ".repeat(n)));
        v.push(format!("x{}y", "\n".repeat(n)));
    }
    texts(run, "long tokens and long texts", &format!("sizes {sizes:?}; names, strings, comments, blanks and blank lines of every length to 300 and beside every power of two to 65536"), oracle, v);
    crate::grid::texts(run, oracle);
}

/// Configuration search over the reference tokenizer, replayed on the real one.
pub fn machine(run: &Run, oracle: &str, thorough: bool) {
    let mut alpha: Vec<char> = (32u8..127).map(|b| b as char).collect();
    alpha.extend(['\n', '\r', '\t', '\u{b}', '\0', 'é', '…', '漢', '𝄞', '\u{a0}', 'Σ']);
    let mut seen: HashMap<Vec<u8>, ()> = HashMap::new();
    let mut access: Vec<Vec<char>> = vec![vec![]];
    seen.insert(lmodel::residual(&[]), ());
    let mut i = 0;
    let mut transitions = 0u64;
    while i < access.len() {
        for &x in &alpha {
            let mut c = access[i].clone();
            c.push(x);
            transitions += 1;
            let r = lmodel::residual(&c);
            if !seen.contains_key(&r) {
                seen.insert(r, ());
                access.push(c);
            }
        }
        i += 1;
        if access.len() > 20_000 {
            panic!("the tokenizer's configuration space is not finite");
        }
    }
    let mut conts: Vec<String> = strs(&[
        "", "x", "1", "_", " ", "\n", ".", "..", "...", "\"", ":\"", ":\" \"", "TLDR", "LDR", "DR", "R x", "é", ",", "?", "'Z", " a", " A", "-1", "5 ", "\r\nx",
        " BTW c\nx", " OBTW\n TLDR x", "TLDR x",
    ]);
    if thorough {
        conts.extend(alpha.iter().map(|c| c.to_string()));
        for k in lmodel::keyword_texts() {
            for j in (1..k.len()).filter(|j| k.is_char_boundary(*j)) {
                conts.push(k[j..].to_string());
            }
            conts.push(format!("{k} x"));
        }
    }
    let mut s = HashSet::new();
    conts.retain(|c| s.insert(c.clone()));
    let o = run.oracle(oracle);
    let n = access.len() as u64 * alpha.len() as u64;
    run.par(
        "tokenizer configurations",
        &format!("{} reachable configurations (complete), each of {} characters from each, then each of {} continuations", access.len(), alpha.len(), conts.len()),
        n,
        |w, i| {
            let a = &access[(i / alpha.len() as u64) as usize];
            let x = alpha[(i % alpha.len() as u64) as usize];
            for k in &conts {
                let mut t: String = a.iter().collect();
                t.push(x);
                t.push_str(k);
                if !w.eval(o, &[Part::T(t)]) {
                    return;
                }
            }
        },
    );
    run.add_states(access.len() as u64, transitions);
}

/// Every way of the keyword spaces.
pub fn keyword_spaces(run: &Run, oracle: &str, thorough: bool) {
    let kws = lmodel::keyword_texts();
    let o = run.oracle(oracle);
    let nk = kws.len() as u64;
    // (a) every keyword between every two ASCII characters
    run.par("keyword between two characters", &format!("{nk} keywords x 129 x 129 neighbours"), nk * 129, |w, i| {
        let k = kws[(i / 129) as usize];
        let p = (i % 129) as u8;
        for s in 0..129u8 {
            let mut t = String::new();
            if p < 128 {
                t.push(p as char);
            }
            t.push_str(k);
            if s < 128 {
                t.push(s as char);
            }
            if !w.eval(o, &[Part::T(t)]) {
                return;
            }
        }
    });
    // (b) every truncation, every case pattern, every way to space the words
    let gaps = ["", "  ", "\t", "\n", "\r\n", "_", ",", "-", "\u{a0}", "'", "...", " \n", "BTW\n", "\u{2003}"];
    run.par("keyword misspellings", "every truncation, deletion, duplication, transposition, substitution (64 characters), case pattern (all up to 2^10 letters) and word gap of every keyword", nk, |w, i| {
        let k = kws[i as usize];
        let c: Vec<char> = k.chars().collect();
        let mut v: Vec<String> = Vec::new();
        for j in 0..=c.len() {
            v.push(c[..j].iter().collect());
            v.push(c[j..].iter().collect());
            if j < c.len() {
                let mut d = c.clone();
                d.remove(j);
                v.push(d.iter().collect());
                let mut d = c.clone();
                d.insert(j, c[j]);
                v.push(d.iter().collect());
                if j + 1 < c.len() {
                    let mut d = c.clone();
                    d.swap(j, j + 1);
                    v.push(d.iter().collect());
                }
                for x in ('A'..='Z').chain('a'..='z').chain('0'..='9').chain(['_', ' ']) {
                    let mut d = c.clone();
                    d[j] = x;
                    v.push(d.iter().collect());
                    let mut d = c.clone();
                    d.insert(j, x);
                    v.push(d.iter().collect());
                }
            }
        }
        let letters: Vec<usize> = (0..c.len()).filter(|j| c[*j] != ' ').collect();
        let bits = letters.len().min(10);
        for from in [0, letters.len() - bits] {
            for mask in 0..1u32 << bits {
                let mut d = c.clone();
                for (b, j) in letters[from..from + bits].iter().enumerate() {
                    if mask >> b & 1 == 1 {
                        d[*j] = d[*j].to_ascii_lowercase();
                    }
                }
                v.push(d.iter().collect());
            }
        }
        let words: Vec<&str> = k.split(' ').collect();
        for g in gaps {
            v.push(words.join(g));
            for j in 1..words.len() {
                v.push(format!("{}{g}{}", words[..j].join(" "), words[j..].join(" ")));
            }
        }
        for t in v {
            for (a, z) in [("", ""), ("x ", ""), ("", " x"), ("VISIBLE ", "\n"), ("", "("), (",", "?")] {
                if !w.eval(o, &[Part::T(format!("{a}{t}{z}"))]) {
                    return;
                }
            }
        }
    });
    // (c) pairs of keywords with every separator
    let seps = [" ", "", "\n", ",", "  ", "\t", "!", "?", "_", "x", "1", "...", "'Z", "-", "é", "\r\n"];
    run.par("keyword pairs", &format!("{nk} x {nk} keywords x {} separators", seps.len()), nk * nk, |w, i| {
        for s in seps {
            if !w.eval(o, &[Part::T(format!("{}{s}{}", kws[(i / nk) as usize], kws[(i % nk) as usize]))]) {
                return;
            }
        }
    });
    // (d) sequences of the words keywords are made of
    let mut words: Vec<&str> = kws.iter().flat_map(|k| k.split(' ')).collect();
    words.extend(["x", "1", "\n", "OFx", "Is", "ANY", "YR1"]);
    words.sort();
    words.dedup();
    let nw = words.len() as u64;
    let total = nw * nw * nw;
    run.par("word triples", &format!("every sequence of 3 of the {nw} words keywords are made of, single spaces"), total, |w, i| {
        w.eval(o, &[Part::T(format!("{} {} {}", words[(i / nw / nw) as usize], words[(i / nw % nw) as usize], words[(i % nw) as usize]))]);
    });
    if thorough {
        let few: Vec<&str> = words
            .iter()
            .copied()
            .filter(|x| kws.iter().any(|k| k.contains(' ') && k.split(' ').any(|y| y == *x)) || *x == "x")
            .collect();
        let n = few.len() as u64;
        run.par("word quadruples", &format!("every sequence of 4 of the {n} words of multi-word keywords"), n * n * n * n, |w, i| {
            let t = format!(
                "{} {} {} {}",
                few[(i / n / n / n) as usize],
                few[(i / n / n % n) as usize],
                few[(i / n % n) as usize],
                few[(i % n) as usize]
            );
            w.eval(o, &[Part::T(t)]);
        });
    }
}

fn exact(f: f64) -> String {
    // exact decimal expansion, always with a dot
    let s = format!("{:.160}", f);
    let s = s.trim_end_matches('0');
    s.to_string()
}
pub fn number_spaces(run: &Run, oracle: &str, thorough: bool) {
    let o = run.oracle(oracle);
    text_trie(run, "numeral characters", oracle, &strs(&["0", "1", "9", ".", "+", "-", " ", "e", "x", "_"]), if thorough { 7 } else { 6 }, "", "");
    text_trie(run, "numeral in a statement", oracle, &strs(&["0", "7", ".", "+", "-", " ", "\n", ",", "E"]), if thorough { 6 } else { 5 }, "x R ", " BTW");
    // whole ranges of integers
    let (lo, hi) = if thorough { (-300_000i64, 300_000i64) } else { (-30_000, 30_000) };
    run.par("small integers", &format!("every integer {lo}..={hi}, with and without sign and leading zero"), (hi - lo + 1) as u64, |w, i| {
        let v = lo + i as i64;
        let a = v.abs();
        let s = if v < 0 { "-" } else { "" };
        for t in [format!("{s}{a}"), format!("{s}0{a}"), format!("+{a}"), format!("{s}{a}."), format!("{s}{a}.0"), format!("{s}{a} x")] {
            if !w.eval(o, &[Part::T(t)]) {
                return;
            }
        }
    });
    let mut v = Vec::new();
    for d in -300i64..=300 {
        for base in [i32::MAX as i64, 1i64 << 30, 1 << 24, 1 << 16, 1 << 15, 999_999_999, 4294967296, i64::MAX / 2, 9_999_999_999] {
            for s in ["", "+", "-", "0", "-000"] {
                v.push(format!("{s}{}", base + d));
                v.push(format!("x R {s}{} x", base + d));
            }
        }
    }
    for k in 1..40 {
        for s in ["", "-", "+"] {
            for d in ["1", "9", "2147483648", "4294967295"] {
                v.push(format!("{s}{d}{}", "0".repeat(k)));
                v.push(format!("{s}{}{d}", "0".repeat(k)));
                v.push(format!("{s}{d}{}.0", "0".repeat(k)));
                v.push(format!("{s}0.{}{d}", "0".repeat(k)));
                v.push(format!("{s}{}.{}", d.repeat(k / 8 + 1), d.repeat(k / 8 + 1)));
            }
        }
    }
    texts(run, "integer boundaries", "+-300 around 9 boundaries, powers of ten to 10^49", oracle, v);
    // decimals
    let digits = if thorough { 1000u64 } else { 200 };
    run.par("decimals", &format!("every d.d with both parts below {digits}, all spellings of sign and padding"), digits * digits, |w, i| {
        let (a, b) = (i / digits, i % digits);
        for t in [format!("{a}.{b}"), format!("-{a}.{b:03}"), format!("+{a}.{b}0"), format!(".{b} {a}."), format!("{a}.{b}.{a}")] {
            if !w.eval(o, &[Part::T(t)]) {
                return;
            }
        }
    });
    // rounding: exact midpoints between neighbouring 32-bit floats, and just beside them
    let step = if thorough { 1 << 15 } else { 1 << 19 };
    let top = 0x7f7f_ffffu32; // largest finite
    let n = (top / step) as u64;
    run.par("float rounding", &format!("midpoint of every {step}-th pair of neighbouring positive 32-bit floats, exact, just below and just above"), n, |w, i| {
        let bits = i as u32 * step + 1;
        let (x, y) = (f32::from_bits(bits) as f64, f32::from_bits(bits + 1) as f64);
        let m = (x + y) / 2.0;
        let e = exact(m);
        let up = format!("{e}{}1", "0".repeat(20));
        let mut down: Vec<u8> = e.clone().into_bytes();
        // one unit less in the last place, then nines
        let mut j = down.len();
        while j > 0 {
            j -= 1;
            match down[j] {
                b'.' => continue,
                b'0' => down[j] = b'9',
                c => {
                    down[j] = c - 1;
                    break;
                }
            }
        }
        let down = format!("{}{}", String::from_utf8(down).unwrap(), "9".repeat(20));
        for t in [&e, &up, &down] {
            for s in ["", "-"] {
                if !w.eval(o, &[Part::T(format!("{s}{t}"))]) {
                    return;
                }
            }
        }
    });
}
pub fn string_spaces(run: &Run, oracle: &str, thorough: bool) {
    text_trie(run, "string characters", oracle, &strs(&["\"", ":", "a", "\n", "é", " ", "T", ","]), if thorough { 8 } else { 7 }, "", "");
    text_trie(
        run,
        "inside one string",
        oracle,
        &strs(&["\"", ":", "\\", "'", "\r\n", "\t", "漢", "BTW", "OBTW", "TLDR", "...", "1", ":)", ":>", ":o", ":{x}", ":(263a)", ":[SNOWMAN]", "'Z", "WIN"]),
        if thorough { 5 } else { 4 },
        "VISIBLE \"",
        "\" x",
    );
    let o = run.oracle(oracle);
    run.par("every ASCII pair in a string", "128 x 128 characters in a string, closed and not", 128 * 128, |w, i| {
        let (a, b) = ((i / 128) as u8 as char, (i % 128) as u8 as char);
        for t in [format!("\"{a}{b}\""), format!("\"{a}{b}"), format!("x \"{a}\"{b}\" y"), format!("\":{a}{b}\"z")] {
            if !w.eval(o, &[Part::T(t)]) {
                return;
            }
        }
    });
}
pub fn word_value_spaces(run: &Run, oracle: &str) {
    let o = run.oracle(oracle);
    run.par("WIN, FAIL, NOOB", "each between every two ASCII characters", 3 * 129 * 129, |w, i| {
        let k = ["WIN", "FAIL", "NOOB"][(i / 129 / 129) as usize];
        let (p, s) = ((i / 129 % 129) as u8, (i % 129) as u8);
        let mut t = String::new();
        if p < 128 {
            t.push(p as char);
        }
        t.push_str(k);
        if s < 128 {
            t.push(s as char);
        }
        w.eval(o, &[Part::T(t)]);
    });
}
pub fn comment_spaces(run: &Run, oracle: &str, thorough: bool) {
    text_trie(
        run,
        "comment pieces",
        oracle,
        &strs(&["BTW", "OBTW", "TLDR", "\n", "\r\n", " ", "x", "B", "T", "O", "TL", "DR", "é", "\"", ",", "..."]),
        if thorough { 6 } else { 5 },
        "",
        "",
    );
    text_trie(run, "inside a multi-line comment", oracle, &strs(&["T", "L", "D", "R", "\n", " ", "é"]), if thorough { 8 } else { 7 }, "x OBTW", "TLDR y");
    text_trie(run, "comment letters", oracle, &strs(&["O", "B", "T", "W", "L", "D", "R", "\n"]), if thorough { 8 } else { 7 }, "", "");
    let o = run.oracle(oracle);
    run.par("every ASCII pair in comments", "128 x 128 characters in 6 comment contexts", 128 * 128, |w, i| {
        let (a, b) = ((i / 128) as u8 as char, (i % 128) as u8 as char);
        for t in [
            format!("BTW{a}{b}"),
            format!("BTW{a}\n{b}"),
            format!("OBTW{a}{b}TLDR"),
            format!("OBTW{a}TLDR{b}"),
            format!("{a}OBTW TLDR{b}"),
            format!("{a}BTW{b}\nOBTW\nTLDR"),
        ] {
            if !w.eval(o, &[Part::T(t)]) {
                return;
            }
        }
    });
}
pub fn ident_spaces(run: &Run, oracle: &str, thorough: bool) {
    let o = run.oracle(oracle);
    text_trie(run, "every ASCII text", oracle, &ascii(), 3, "", "");
    text_trie(
        run,
        "identifier and symbol characters",
        oracle,
        &strs(&["a", "Z", "_", "0", "9", "'", ".", "-", "é", "@", "[", "`", "{", "/", ":", " "]),
        if thorough { 6 } else { 5 },
        "",
        "",
    );
    // idents of every length, and punctuation next to each other
    run.par("identifier lengths", "every length 1..=600 of 8 shapes", 600, |w, i| {
        let n = i as usize + 1;
        for s in ["a", "_", "Z", "aB1_", "x9", "I_HAS_A", "AN", "é_"] {
            let t: String = s.chars().cycle().take(n).collect();
            for (p, q) in [("", ""), ("1 ", " 2"), ("(", ")"), ("'Z", "'Z")] {
                if !w.eval(o, &[Part::T(format!("{p}{t}{q}"))]) {
                    return;
                }
            }
        }
    });
    text_trie(
        run,
        "punctuation",
        oracle,
        &strs(&[".", "…", "'", "Z", ",", "!", "?", " ", "\n", "x", "1", "z"]),
        if thorough { 7 } else { 6 },
        "",
        "",
    );
}

const CTX_ALL: &[&str] = &["\u{1}", "a\u{1}b", "\u{1}1", "\"\u{1}\" x", "BTW\u{1}\nx", "OBTW\u{1}TLDR x", "VISIBLE\u{1}", "1\u{1}.5", "'\u{1}Z", "\u{1}\n\u{1}x"];

fn common(run: &Run, oracle: &str, th: bool) {
    text_trie(run, "lexeme pieces", oracle, &pieces(), 3, "", "");
    text_trie(run, "core pieces", oracle, &strs(CORE), if th { 5 } else { 4 }, "", "");
    machine(run, oracle, th);
}

pub fn c01(run: &Run) {
    let th = run.thorough;
    common(run, "total", th);
    text_trie(run, "every ASCII text", "total", &ascii(), 3, "", "");
    unicode(run, "total", if th { CTX_ALL } else { &CTX_ALL[..6] });
    text_trie(
        run,
        "mixed-width characters",
        "total",
        &strs(&["é", "漢", "𝄞", "a", "1", ".", "-", "\"", ":", "B", "O", "BTW", "OBTW", "'", "\u{a0}", "\n"]),
        if th { 6 } else { 5 },
        "",
        "",
    );
    scaling(run, "total", th);
    run.unoptimised("C01:flat");
}
/// Long texts on a small stack.
pub fn flat(run: &Run) {
    let ps = pieces();
    let o = run.oracle("total_flat");
    let n = if run.thorough { 60_000i64 } else { 10_000 };
    let pres = ["", "\"", "OBTW", "BTW", "x"];
    run.par("long texts on a small stack, unoptimised build", &format!("each of {} pieces repeated {n} times, with each of 3 separators, after each of {pres:?}", ps.len()), ps.len() as u64, |w, i| {
        for pre in pres {
            for sep in ["", " ", "\n"] {
                // a numeral that long is the listed finding, and is read again from each of its digits
                if sep.is_empty() && ps[i as usize].chars().any(|c| c.is_ascii_digit()) {
                    continue;
                }
                let parts = [Part::T(pre.into()), Part::T(format!("{}{sep}", ps[i as usize])), Part::N(vec![n]), Part::T(" x".into())];
                if !w.eval(o, &parts) {
                    return;
                }
            }
        }
    });
}
pub fn c02(run: &Run) {
    let th = run.thorough;
    common(run, "tile", th);
    text_trie(run, "every ASCII text", "tile", &ascii(), 3, "", "");
    unicode(run, "tile", if th { CTX_ALL } else { &CTX_ALL[..5] });
    number_spaces(run, "tile", false);
    scaling(run, "tile", th);
}
pub fn c03(run: &Run) {
    let th = run.thorough;
    common(run, "pos", th);
    text_trie(
        run,
        "position pieces",
        "pos",
        &strs(&[" ", "\n", "\t", "\r", "é", "漢", "𝄞", "x", "\"", "BTW", "OBTW", "TLDR", "…", "AN", "1"]),
        if th { 6 } else { 5 },
        "",
        "",
    );
    unicode(run, "pos", &["\u{1} x", "a\n\u{1}\n x \u{1}", "\"\u{1}\n\" OBTW\u{1}"]);
    scaling(run, "pos", th);
}
pub fn c04(run: &Run) {
    let th = run.thorough;
    keyword_spaces(run, "lexeq", th);
    common(run, "lexeq", th);
    scaling(run, "lexeq", th);
    let ctx: Vec<String> = lmodel::keyword_texts().iter().flat_map(|k| [format!("{k}\u{1}"), format!("\u{1}{k}")]).collect();
    // every non-ASCII letter-like character next to every keyword
    let o = run.oracle("lexeq");
    let top = if th { 0x3100u64 } else { 0x250 };
    run.par("keywords next to non-ASCII characters", &format!("each of {} keyword contexts x U+0080..U+{top:04X}", ctx.len()), top - 0x80, |w, i| {
        if let Some(c) = char::from_u32(i as u32 + 0x80) {
            for x in &ctx {
                if !w.eval(o, &[Part::T(x.replace('\u{1}', &c.to_string()))]) {
                    return;
                }
            }
        }
    });
}
pub fn c05(run: &Run) {
    let th = run.thorough;
    number_spaces(run, "lexeq", th);
    string_spaces(run, "lexeq", th);
    word_value_spaces(run, "lexeq");
    common(run, "lexeq", th);
    scaling(run, "lexeq", th);
    unicode(run, "lexeq", &["\"\u{1}\"", "\":\u{1}\"", "1\u{1}", "-\u{1}5"]);
}
pub fn c06(run: &Run) {
    let th = run.thorough;
    comment_spaces(run, "lexeq", th);
    common(run, "lexeq", th);
    unicode(run, "lexeq", &["BTW\u{1}\nx", "OBTW\u{1}TLDR\u{1}", "\u{1}BTW"]);
    scaling(run, "lexeq", th);
}
pub fn c07(run: &Run) {
    let th = run.thorough;
    ident_spaces(run, "lexeq", th);
    common(run, "lexeq", th);
    scaling(run, "lexeq", th);
    unicode(run, "lexeq", &["\u{1}", "a\u{1}b", "\u{1}\u{1}", "'\u{1}", "_\u{1}1"]);
}
pub fn c08(run: &Run) {
    let th = run.thorough;
    let ps = pieces();
    let core = strs(CORE);
    // pairs of texts
    let mut a: Vec<String> = (0..gen::words_upto(core.len(), 2)).map(|i| gen::word_upto(i, core.len(), 2).iter().map(|k| core[*k].clone()).collect()).collect();
    a.extend(ps.iter().cloned());
    a.sort();
    a.dedup();
    let b: Vec<String> = if th { a.clone() } else { ps.clone() };
    let o = run.oracle("local");
    let (na, nb) = (a.len() as u64, b.len() as u64);
    run.par("pairs of texts", &format!("{na} texts (all of <= 2 core pieces, all pieces) x {nb} texts, joined by newline, CRLF and comma"), na * nb, |w, i| {
        w.eval(o, &[Part::T(a[(i / nb) as usize].clone()), Part::T(b[(i % nb) as usize].clone())]);
    });
    if !th {
        run.par("pairs of texts, swapped", &format!("{nb} x {na}"), na * nb, |w, i| {
            w.eval(o, &[Part::T(b[(i / na) as usize].clone()), Part::T(a[(i % na) as usize].clone())]);
        });
    }
    // histories: long prefixes before short texts
    let reps: &[usize] = if th { &[2, 3, 5, 17, 64, 255, 256, 300, 1000] } else { &[3, 64, 257] };
    let np = ps.len() as u64;
    run.par("repeated prefixes", &format!("each of {np} pieces, repeated {reps:?} times on lines or commas, before each of {np} pieces"), np * np, |w, i| {
        let (p, q) = (&ps[(i / np) as usize], &ps[(i % np) as usize]);
        for &n in reps {
            if n > 64 && !q.is_ascii() {
                continue;
            }
            for sep in ["\n", ","] {
                let a = vec![p.as_str(); n].join(sep);
                if !w.eval(o, &[Part::T(a), Part::T(q.clone())]) {
                    return;
                }
            }
        }
    });
    text_trie(run, "surrounding whitespace", "blanks", &ps, 2, "", "");
    text_trie(run, "surrounding whitespace, core", "blanks", &core, if th { 4 } else { 3 }, "", "");
}
pub fn c24(run: &Run) {
    let th = run.thorough;
    let ps = strs(&["a", "\n", "é", "漢", "𝄞", "\r", "\t", " "]);
    let n = if th { 7 } else { 5 };
    let starts: Vec<[i64; 4]> = vec![[1, 1, 0, 0], [1, 5, 4, 4], [3, 1, 20, 18], [7, 9, 100, 90], [2_000_000, 1, 2_000_000_00, 1_000_000_00], [0, 0, 0, 0], [-3, -7, -10, -20]];
    let o = run.oracle("arith");
    run.par("texts, splits and starts", &format!("every text of <= {n} of {} characters, every split, from {} starts", ps.len(), starts.len()), gen::words_upto(ps.len(), n), |w, i| {
        let t: String = gen::word_upto(i, ps.len(), n).iter().map(|k| ps[*k].clone()).collect();
        for s in &starts {
            if !w.eval(o, &[Part::T(t.clone()), Part::N(s.to_vec())]) {
                return;
            }
        }
    });
    let o2 = run.oracle("order");
    let n2 = if th { 6 } else { 5 };
    run.par("order and equality", &format!("every pair of places in every text of <= {n2} of {} characters", ps.len()), gen::words_upto(ps.len(), n2), |w, i| {
        let t: String = gen::word_upto(i, ps.len(), n2).iter().map(|k| ps[*k].clone()).collect();
        w.eval(o2, &[Part::T(t)]);
    });
    run.par("every Unicode scalar value", "added to a position, alone and between letters", 0x110000, |w, i| {
        if let Some(c) = char::from_u32(i as u32) {
            for t in [format!("{c}"), format!("a{c}b"), format!("\n{c}")] {
                if !w.eval(o, &[Part::T(t), Part::N(vec![3, 4, 50, 40])]) {
                    return;
                }
            }
        }
    });
    let mut v = Vec::new();
    for one in ["a", "\n", "é\n", "漢", "\r\n", "\t"] {
        for n in [100usize, 255, 256, 257, 300] {
            v.push(vec![Part::T(one.repeat(n)), Part::N(vec![1, 1, 0, 0])]);
        }
    }
    run.list("long texts", "lengths 100..300, every split", "arith", &v);
    let v: Vec<Vec<Part>> = ["a", "\n", "é\n", "漢 ", "\r\n"].iter().flat_map(|o| [100usize, 300, 600].map(|n| vec![Part::T(o.repeat(n))])).collect();
    run.list("order in long texts", "every pair of places, lengths to 1200", "order", &v);
    let mut v = Vec::new();
    for one in ["a", "\n", "é\n", "漢 ", "\r\n", "a\n\t"] {
        for n in [40_000, if th { 3_000_000 } else { 300_000 }] {
            v.push(vec![Part::T(one.to_string()), Part::N(vec![n])]);
        }
    }
    run.list("places in very long texts", "six pieces repeated up to 300,000 times (thorough: 3,000,000), all pairs of the places next to a power of two", "order_far", &v);
}
