//! The parser-level alphabet: one symbol per kind of token (every keyword, every value kind, every
//! punctuation token, both comment kinds) plus `NL`, a line break between tokens.
use lolcode_ast::lexer::{Keywords, NumberToken, Position, Range, Token, TokenType, TokenValue};
use std::sync::OnceLock;

macro_rules! syms {
    ($($name:ident = $text:expr => $tt:expr;)*) => {
        #[allow(non_camel_case_types, clippy::upper_case_acronyms)]
        #[repr(u8)]
        #[derive(Copy, Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
        pub enum S { $($name),* }
        pub const ALL: &[S] = &[$(S::$name),*];
        const TEXTS: &[&str] = &[$($text),*];
        fn protos() -> Vec<Option<TokenType>> { vec![$($tt),*] }
        const NAMES: &[&str] = &[$(stringify!($name)),*];
    };
}
fn kw(k: Keywords) -> Option<TokenType> {
    Some(TokenType::Keyword(k))
}
fn id(s: &str) -> Option<TokenType> {
    Some(TokenType::Identifier(s.into()))
}
fn val(v: TokenValue) -> Option<TokenType> {
    Some(TokenType::Value(v))
}
use Keywords as Q;
syms! {
    // names and values
    V = "v" => id("v");
    W = "w" => id("w");
    FN = "Func_1" => id("Func_1");
    INT = "1" => val(TokenValue::Number(NumberToken::Int(1)));
    FLOAT = "1.5" => val(TokenValue::Number(NumberToken::Float(1.5)));
    STR = "\"s\"" => val(TokenValue::String("s".into()));
    STRN = "\"s\nt\"" => val(TokenValue::String("s\nt".into()));
    WIN = "WIN" => val(TokenValue::Boolean(true));
    FAIL = "FAIL" => val(TokenValue::Boolean(false));
    NOOB = "NOOB" => val(TokenValue::NOOB);
    // punctuation
    NL = "\n" => None;
    COMMA = "," => Some(TokenType::Comma);
    ELL = "..." => Some(TokenType::Ellipsis);
    BANG = "!" => Some(TokenType::ExclamationMark);
    QUEST = "?" => Some(TokenType::QuestionMark);
    SLOT = "'Z" => Some(TokenType::BukkitSlotAccess);
    COM1 = "BTW c" => Some(TokenType::CommentSingleLine(" c".into()));
    COMM = "OBTW c TLDR" => Some(TokenType::CommentMultiLine(" c ".into()));
    PLUS = "+" => Some(TokenType::Symbol("+".into()));
    QSYM = "?" => Some(TokenType::Symbol("?".into()));
    // keywords
    K_I_HAS_A = "I HAS A" => kw(Q::I_HAS_A);
    K_ITZ = "ITZ" => kw(Q::ITZ);
    K_R = "R" => kw(Q::R);
    K_HAS_A = "HAS A" => kw(Q::HAS_A);
    K_VISIBLE = "VISIBLE" => kw(Q::VISIBLE);
    K_GIMMEH = "GIMMEH" => kw(Q::GIMMEH);
    K_FOUND_YR = "FOUND YR" => kw(Q::FOUND_YR);
    K_GTFO = "GTFO" => kw(Q::GTFO);
    K_I_IZ = "I IZ" => kw(Q::I_IZ);
    K_YR = "YR" => kw(Q::YR);
    K_AN = "AN" => kw(Q::AN);
    K_MKAY = "MKAY" => kw(Q::MKAY);
    K_SRS = "SRS" => kw(Q::SRS);
    K_HAI = "HAI" => kw(Q::HAI);
    K_KTHXBYE = "KTHXBYE" => kw(Q::KTHXBYE);
    K_NOT = "NOT" => kw(Q::NOT);
    K_SUM_OF = "SUM OF" => kw(Q::SUM_OF);
    K_DIFF_OF = "DIFF OF" => kw(Q::DIFF_OF);
    K_PRODUKT_OF = "PRODUKT OF" => kw(Q::PRODUKT_OF);
    K_QUOSHUNT_OF = "QUOSHUNT OF" => kw(Q::QUOSHUNT_OF);
    K_MOD_OF = "MOD OF" => kw(Q::MOD_OF);
    K_BIGGR_OF = "BIGGR OF" => kw(Q::BIGGR_OF);
    K_SMALLR_OF = "SMALLR OF" => kw(Q::SMALLR_OF);
    K_BOTH_SAEM = "BOTH SAEM" => kw(Q::BOTH_SAEM);
    K_DIFFRINT = "DIFFRINT" => kw(Q::DIFFRINT);
    K_BOTH_OF = "BOTH OF" => kw(Q::BOTH_OF);
    K_EITHER_OF = "EITHER OF" => kw(Q::EITHER_OF);
    K_WON_OF = "WON OF" => kw(Q::WON_OF);
    K_ALL_OF = "ALL OF" => kw(Q::ALL_OF);
    K_ANY_OF = "ANY OF" => kw(Q::ANY_OF);
    K_SMOOSH = "SMOOSH" => kw(Q::SMOOSH);
    K_O_RLY = "O RLY" => kw(Q::O_RLY);
    K_YA_RLY = "YA RLY" => kw(Q::YA_RLY);
    K_MEBBE = "MEBBE" => kw(Q::MEBBE);
    K_NO_WAI = "NO WAI" => kw(Q::NO_WAI);
    K_OIC = "OIC" => kw(Q::OIC);
    K_WTF = "WTF" => kw(Q::WTF);
    K_OMG = "OMG" => kw(Q::OMG);
    K_OMGWTF = "OMGWTF" => kw(Q::OMGWTF);
    K_IM_IN_YR = "IM IN YR" => kw(Q::IM_IN_YR);
    K_UPPIN = "UPPIN" => kw(Q::UPPIN);
    K_NERFIN = "NERFIN" => kw(Q::NERFIN);
    K_TIL = "TIL" => kw(Q::TIL);
    K_WILE = "WILE" => kw(Q::WILE);
    K_IM_OUTTA_YR = "IM OUTTA YR" => kw(Q::IM_OUTTA_YR);
    K_HOW_IZ_I = "HOW IZ I" => kw(Q::HOW_IZ_I);
    K_IF_U_SAY_SO = "IF U SAY SO" => kw(Q::IF_U_SAY_SO);
    K_BUKKIT = "BUKKIT" => kw(Q::BUKKIT);
    K_NUMBR = "NUMBR" => kw(Q::NUMBR);
    K_NUMBAR = "NUMBAR" => kw(Q::NUMBAR);
    K_YARN = "YARN" => kw(Q::YARN);
    K_TROOF = "TROOF" => kw(Q::TROOF);
    K_NOOB = "NOOB" => kw(Q::NOOB);
    K_FAIL = "FAIL" => kw(Q::FAIL);
    K_WIN = "WIN" => kw(Q::WIN);
    K_BTW = "BTW" => kw(Q::BTW);
    K_OBTW = "OBTW" => kw(Q::OBTW);
    K_TLDR = "TLDR" => kw(Q::TLDR);
    K_MAEK = "MAEK" => kw(Q::MAEK);
    K_IS_NOW = "IS NOW" => kw(Q::IS_NOW);
    K_A = "A" => kw(Q::A);
}

impl S {
    pub fn text(self) -> &'static str {
        TEXTS[self as usize]
    }
    pub fn name(self) -> &'static str {
        NAMES[self as usize]
    }
    pub fn tt(self) -> Option<&'static TokenType> {
        static T: OnceLock<Vec<Option<TokenType>>> = OnceLock::new();
        T.get_or_init(protos)[self as usize].as_ref()
    }
    /// The Debug rendering of the token type, used to recognise the token in an AST's Debug form.
    pub fn dbg(self) -> &'static str {
        static T: OnceLock<Vec<String>> = OnceLock::new();
        &T.get_or_init(|| {
            ALL.iter()
                .map(|s| s.tt().map(|t| format!("{:?}", t)).unwrap_or_default())
                .collect()
        })[self as usize]
    }
    pub fn is_comment(self) -> bool {
        matches!(self, S::COM1 | S::COMM)
    }
    /// Symbols that never become part of a statement.
    pub fn is_layout(self) -> bool {
        matches!(self, S::NL | S::COMMA | S::ELL | S::COM1 | S::COMM)
    }
    /// Tokens the AST may or may not keep; which operand goes where is visible without them.
    pub fn is_punct(self) -> bool {
        matches!(
            self,
            S::K_R | S::K_AN | S::K_MKAY | S::K_YR | S::K_ITZ | S::K_HAS_A | S::SLOT
                | S::K_TIL | S::K_WILE | S::K_OIC | S::K_IF_U_SAY_SO | S::K_IM_OUTTA_YR | S::QUEST | S::QSYM
        )
    }
    /// True if the source text of this symbol tokenizes to this symbol.
    pub fn from_text(self) -> bool {
        !matches!(
            self,
            S::QSYM | S::K_NOOB | S::K_WIN | S::K_FAIL | S::K_BTW | S::K_OBTW
        )
    }
}

/// Everything that can be put in a token vector (NL included as a line break).
pub fn all_syms() -> Vec<S> {
    ALL.to_vec()
}

/// Token list for a symbol sequence, with plausible positions (one blank between tokens).
pub fn build(syms: &[S]) -> Vec<Token> {
    let mut out = Vec::with_capacity(syms.len());
    let (mut line, mut col, mut off) = (1i32, 1i32, 0i32);
    for &s in syms {
        match s.tt() {
            None => {
                line += 1;
                col = 1;
                off += 1;
            }
            Some(tt) => {
                let len = s.text().len() as i32;
                let a = Position { line, column: col, bytes: off, chars: off };
                col += len;
                if s == S::STRN {
                    // the one token that spans two lines
                    line += 1;
                    col = 3;
                }
                let b = Position { line, column: col, bytes: off + len, chars: off + len };
                out.push(Token { token_type: tt.clone(), range: Range(a, b) });
                col += 1;
                off += len + 1;
            }
        }
    }
    let d = DRESS.with(|d| d.get());
    if d != 0 {
        dress(&mut out, d);
    }
    out
}

thread_local! {
    static DRESS: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
/// True while tokens are built with other payloads than their symbols' own.
pub fn dressed() -> bool {
    DRESS.with(|d| d.get()) != 0
}
/// Runs `f` with every token list built in dressing `k`.
pub fn with_dress<T>(k: u32, f: impl FnOnce() -> T) -> T {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            DRESS.with(|d| d.set(0));
        }
    }
    let _off = Off;
    DRESS.with(|d| d.set(k));
    f()
}
/// Dressings 1..=DRESSINGS; those after BASIC take names and values from the lists below, beginning at
/// each entry in turn; from PAIR on: names i and j equal, all others distinct.
pub const BASIC: u32 = 16;
pub const DRESSINGS: u32 = BASIC + 82;
pub const PAIR: u32 = 1000;
/// All names and values of a kind equal, every token at the same column and offset.
pub const SAME: u32 = 900;
const NAMED: &[&str] = &[
    "IT", "it", "ME", "MAH", "LIEK", "RLY", "O", "YA", "NO", "WAI", "HAS", "IZ", "HOW", "OUTTA", "IN", "IS", "NOW", "OF", "ALL", "ANY", "BOTH", "EITHER", "WON", "SUM", "DIFF", "PRODUKT", "QUOSHUNT", "MOD", "BIGGR", "SMALLR", "SAEM",
    "DIFFRINT", "SMOOSH", "VISIBLE", "INVISIBLE", "GIMMEH", "MAEK", "NUMBR", "NUMBAR", "YARN", "TROOF", "BUKKIT", "NOOB", "FAIL", "WIN", "UPPIN", "NERFIN", "WILE", "OMGWTF", "WTF", "HAI", "KTHXBYE", "KTHX", "BTW", "OBTW", "TLDR", "FOUND",
    "STRING", "INT", "FLOAT", "BOOL", "NUMBER", "LIST", "NULL", "nan", "inf", "e5", "IF", "U", "SAY", "SO", "O RLY", "I IZ", "HOW IZ I", "main", "Main", "null", "_", "x1", "0", "1.5", "\"s\"",
];
const SAID: &[&str] = &[
    "a", "A", "a ", " a", "a  b", ":", "::", ":)", ":>", ":o", ":\"", ":{v}", ":{}", "{v}", ":(263A)", ":[SNOWMAN]", "%s", "\\n", "\\", "\t", "\r", "\r\n", "\n\n", "0", "1", "-1", "1.5", "true", "WIN", "FAIL", "NOOB", "IT", "GTFO", "OIC", "KTHXBYE",
    "HAI 1.2", "MKAY", "AN", "!", "?", "'Z", "BTW c", "OBTW", "TLDR", "O RLY?", "MEBBE v", "\u{1F600}", "e\u{301}", "\u{202e}", "\u{feff}", "\u{fffd}", "\0a", "'", "`", "\"a\"", "/* */", "//", "#", "//c", "yyyyyyyyyyyyyyyy", "yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy",
];
const WHOLE: &[i32] = &[
    3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 31, 32, 33, 42, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, 1023, 1024, 1025, 4095, 4096, 9999, 10000, 32767, 32768, 32769, 65535, 65536, 65537, 99999, 1 << 20, 1 << 24,
    (1 << 24) + 1, 1 << 30, (1 << 30) + 1, i32::MAX - 1, i32::MIN + 1, -2, -3, -7, -8, -10, -16, -100, -127, -128, -129, -255, -256, -32768, -32769, -65536, -65537, -1000000, 1000000, 404,
];
const PARTS: &[f32] = &[
    1.0, 1.1, 1.2, 1.3, 1.4, 1.6, 1.25, 2.0, 2.5, 3.0, 3.14, 0.1, 0.2, 0.25, 0.3, 0.5, 0.75, 0.9, 0.99, 0.999, 10.0, 100.0, 1000.0, 1e6, 1e7, 1e10, 16777216.0, 16777218.0, 1e20, 1e30, 3.4e38, 1e-5, 1e-7, 1e-10, 1e-38, 1.17549435e-38, 1e-45, -0.1,
    -0.5, -1.0, -1.2, -1.5, -2.0, -100.0, -1e10, f32::NEG_INFINITY, f32::MIN, f32::EPSILON, 127.0, 128.0, 255.0, 256.0, 65535.0, 65536.0, 2147483647.0, 2147483648.0, -2147483648.0, 4294967296.0, 0.33333334, 0.6666667, 12.34, 99.99,
];
const MARKS: &[&str] = &[
    "!", "\"", "#", "$", "%", "&", "(", ")", "*", "+", "-", ".", "/", ":", ";", "<", "=", ">", "@", "[", "\\", "]", "^", "_", "`", "{", "|", "}", "~", ",", "..", "...", "....", "\u{2026}", "\u{a0}", "\u{200b}", "\u{feff}", "\u{3b1}", "\u{1F600}", "\t", "\r", "\n", " ",
    "\u{b}", "\u{c}", "\u{85}", "\u{2028}", "'Z", "'", "!=", "==", "1", "a", "", "\u{d7}", "\u{2019}", "\u{ff0c}", "\u{ff01}", "\u{1}", "\u{7f}", "\u{301}",
];
const NOTES: &[&str] = &[
    " ", "  ", "c ", " c", "TODO", " TODO: x", "!/bin/lol", "BTW", " BTW d", "OBTW", " OBTW", "TLDR", " TLDR", "\n", "a\nb", "\r", "\t", "v", "\"", " \"", "1", "?", "!", "...", "\u{2026}", ",", ", v", "\u{e9}", "\u{1F600}", "\0", "MKAY", "OIC", "KTHXBYE", "HAI 1.2", " v R 1", "#", "//", "@",
];
/// Other names, values, comment texts or places for the same kinds of tokens on the same lines.
fn dress(tokens: &mut [Token], k: u32) {
    const WORDS: &[&str] = &["R", "AN", "MKAY", "YR", "OIC", "I", "IM", "TIL", "ITZ", "SRS", "A", "HAS A", "NOOB", "WIN", "MEBBE", "OMG", "NOT", "GTFO", "IF U SAY SO", "IM OUTTA YR", "R", "OF"];
    const ODD: &[&str] = &["", "\u{e9}", "'Z", "?", ",", "...", "!", "\n", "\u{2026}", "BTW", " ", "\0"];
    let (mut ids, mut vals) = (0usize, 0usize);
    for t in tokens.iter_mut() {
        match &mut t.token_type {
            TokenType::Identifier(n) => {
                let i = ids;
                ids += 1;
                *n = match k {
                    1 | 13 => format!("v{i}"),
                    2 | SAME => "v".into(),
                    3 => format!("{}{i}", "a".repeat(400)),
                    4 | 16 => WORDS[i % WORDS.len()].into(),
                    5 => WORDS[(i * 7 + 3) % WORDS.len()].into(),
                    6 => ODD[i % ODD.len()].into(),
                    7 => if i % 2 == 0 { "v".into() } else { "V".into() },
                    17..=DRESSINGS => NAMED[(i + (k - 17) as usize) % NAMED.len()].into(),
                    k if k >= PAIR => {
                        let (a, b) = ((k - PAIR) as usize / 64, (k - PAIR) as usize % 64);
                        format!("v{}", if i == b { a } else { i })
                    }
                    _ => continue,
                };
            }
            TokenType::Value(v) => {
                let j = vals;
                vals += 1;
                match v {
                    TokenValue::Number(NumberToken::Int(n)) => {
                        *n = match k {
                            1 => j as i32,
                            2 | SAME => 0,
                            3 => i32::MAX,
                            4 | 16 => i32::MIN,
                            5 => -1,
                            6 => 10 + j as i32 * 1_000_003,
                            7 => 2,
                            17..=DRESSINGS => WHOLE[(j + (k - 17) as usize) % WHOLE.len()],
                            _ => continue,
                        }
                    }
                    TokenValue::Number(NumberToken::Float(f)) => {
                        *f = match k {
                            1 => j as f32 + 0.5,
                            2 | SAME => 0.0,
                            3 => f32::MAX,
                            4 | 16 => f32::NAN,
                            5 => -0.0,
                            6 => f32::INFINITY,
                            7 => 1e-40,
                            17..=DRESSINGS => PARTS[(j + (k - 17) as usize) % PARTS.len()],
                            _ => continue,
                        }
                    }
                    TokenValue::String(s) => {
                        *s = match k {
                            1 => format!("s{j}"),
                            2 | SAME => "v".into(),
                            3 => "\u{e9}".repeat(1000),
                            4 | 16 => WORDS[j % WORDS.len()].into(),
                            5 => String::new(),
                            6 => ODD[j % ODD.len()].into(),
                            7 => "\"".into(),
                            17..=DRESSINGS => SAID[(j + (k - 17) as usize) % SAID.len()].into(),
                            _ => continue,
                        }
                    }
                    _ => {}
                }
            }
            TokenType::CommentSingleLine(s) | TokenType::CommentMultiLine(s) => {
                *s = match k {
                    1 | 2 => String::new(),
                    3 => "c".repeat(1000),
                    4 | 16 => " TLDR".into(),
                    5 => "\n\n".into(),
                    6 => "...".into(),
                    7 => ",".into(),
                    17..=DRESSINGS => NOTES[(k - 17) as usize % NOTES.len()].into(),
                    _ => continue,
                }
            }
            TokenType::Symbol(s) if s != "?" => {
                *s = match k {
                    1 => "*",
                    2 => "\u{e9}",
                    3 => "(",
                    4 | 16 => "'",
                    5 => "-",
                    6 => "\0",
                    7 => "??",
                    17..=DRESSINGS => MARKS[(k - 17) as usize % MARKS.len()],
                    _ => continue,
                }
                .into()
            }
            _ => {}
        }
    }
    for t in tokens.iter_mut() {
        for p in [&mut t.range.0, &mut t.range.1] {
            match k {
                8 => {
                    p.column += 1000;
                    p.bytes += 100_000;
                    p.chars += 70_000;
                }
                9 | 16 => p.line *= 1000,
                10 => p.line += 2_000_000_000,
                11 => {
                    p.column -= 1;
                    p.bytes = 0;
                    p.chars = 0;
                }
                12 => {
                    p.bytes = -p.bytes;
                    p.chars = 1_000_000 - p.chars;
                }
                13 => p.line -= 100_000,
                SAME => (p.column, p.bytes, p.chars) = (1, 0, 0),
                14 => p.column = 1_000_000 - p.column,
                15 => {
                    p.line = p.line * 256 - 255;
                    p.column = p.column * 256 - 255;
                }
                _ => {}
            }
        }
    }
}

/// Source text for a symbol sequence.
pub fn render(syms: &[S]) -> String {
    let mut t = String::new();
    for (i, &s) in syms.iter().enumerate() {
        if i > 0 && s != S::NL && syms[i - 1] != S::NL {
            t.push(' ');
        }
        t.push_str(s.text());
    }
    t
}

pub fn names(syms: &[S]) -> String {
    syms.iter().map(|s| s.name()).collect::<Vec<_>>().join(" ")
}

pub fn from_names(s: &str) -> Vec<S> {
    s.split_whitespace()
        .filter_map(|n| NAMES.iter().position(|m| *m == n).map(|i| ALL[i]))
        .collect()
}

/// Symbols of a piece of LOLCODE source (names v, w, Func_1; line breaks become NL), for writing templates.
pub fn src(text: &str) -> Vec<S> {
    let c: Vec<char> = text.chars().collect();
    let tab = crate::lmodel::table(&c);
    let l = crate::lmodel::lex(&c, true).res.expect("template");
    let mut out = Vec::new();
    let mut line = 1;
    for t in l {
        while line < tab[t.a].line {
            out.push(S::NL);
            line += 1;
        }
        let s = match &t.ty {
            TokenType::Identifier(n) if n == "w" => S::W,
            TokenType::Identifier(n) if n == "Func_1" => S::FN,
            ty => crate::real::classify(ty),
        };
        out.push(s);
        line = tab[t.z].line;
    }
    out
}
