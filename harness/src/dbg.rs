//! Canonical form of an AST, read from its (public) Debug rendering.
//!
//! The only public window on most of the AST is `Debug`; private struct and field names in it are
//! ignored, struct fields are ordered by source position, and `None`/empty parts vanish, so that the
//! canonical form depends on what the AST says and not on how the structs are laid out.
//!
//! Canonical form: a sequence of u32: `OPEN|name`, leaf ids, `CLOSE`.
pub const OPEN: u32 = 1 << 30;
pub const CLOSE: u32 = 1 << 31;
/// A token in the AST that is not a token of the input (or is an altered one).
pub const ALIEN: u32 = (1 << 29) - 1;
/// On a leaf id: a token that only separates or closes (AN, MKAY, 'Z) and belongs to the enclosing operator or
/// variable; these stand last in their node, in source order, wherever the structs keep them.
pub const PUNCT: u32 = 1 << 28;

macro_rules! names {
    ($($n:ident),* $(,)?) => {
        #[allow(non_camel_case_types, clippy::upper_case_acronyms)]
        #[repr(u32)]
        #[derive(Copy, Clone, PartialEq, Eq, Debug)]
        pub enum N { $($n),* }
        const NN: &[&str] = &[$(stringify!($n)),*];
    };
}
names! {
    ASTBlock, IHasA, Hai, ImInYr, BukkitSetSlot, VariableAssignment, Visible, FoundYr, Wtf, ORly, IIz,
    HowIzI, Gtfo, Gimmeh, ASTError, KThxBye, BinaryOperation, UnaryOperation, NaryOperation, VariableAccess,
    EitherOf, WonOf, SumOf, DiffOf, ProduktOf, QuoshuntOf, ModOf, BiggrOf, SmallrOf, BothSaem, BothOf, Diffrint,
    Not, AllOf, AnyOf, Smoosh, Bukkit, Numbr, Numbar, Yarn, Troof, Noob, TIL, WILE,
    // error kinds
    UnexpectedToken, TooManyTokens, MissingToken, MissingBlockClosingToken, MissingOperands, MissingR,
    ExpectedValue, MissingNameIdentifier, InvalidIdentifier, MissingIdentifier, ExpectedInitialValue, MissingName,
    MissingArgument, MissingMkay, MissingYr, MissingStartLabel, InvalidStartLabel, MissingEndLabel,
    InvalidEndLabel, MissingImOuttaYr, InvalidOperation, MissingOperand, InvalidConditional,
    MissingConditionalExpression, MissingQuestionMark, MissingMebbeExpression,
}
pub fn open(n: N) -> u32 {
    OPEN | n as u32
}
const FIRST_ERROR: u32 = N::UnexpectedToken as u32;

fn lookup(name: &[u8]) -> Option<u32> {
    // ~70 short names: a length+content scan is fast enough
    NN.iter().position(|n| n.as_bytes() == name).map(|i| i as u32)
}
struct Lut {
    map: std::collections::HashMap<&'static [u8], u32, std::hash::BuildHasherDefault<Fnv>>,
}
#[derive(Default)]
pub struct Fnv(u64);
impl std::hash::Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.0 = (self.0 ^ x as u64).wrapping_mul(0x100000001b3);
        }
    }
}
fn lut() -> &'static Lut {
    static L: std::sync::OnceLock<Lut> = std::sync::OnceLock::new();
    L.get_or_init(|| {
        let mut map = std::collections::HashMap::default();
        for n in NN {
            map.insert(n.as_bytes(), lookup(n.as_bytes()).unwrap());
            // private enums may be re-spelled (TIL / Til)
            if matches!(*n, "TIL" | "WILE") {
                map.insert(if *n == "TIL" { b"Til" } else { b"Wile" }, lookup(n.as_bytes()).unwrap());
            }
        }
        Lut { map }
    })
}

/// What the canonicaliser needs to know about the input tokens.
#[derive(Clone)]
pub struct Leaf {
    pub key: (i32, i32, i32, i32),
    pub dbg: std::borrow::Cow<'static, str>,
    pub id: u32,
    pub punct: bool,
}

pub struct Canon {
    pub out: Vec<u32>,
    /// Input indices (into the leaf table) of every token found, in Debug order, punctuation included.
    pub leaves: Vec<u32>,
    pub alien: bool,
    pub errors: u32,
}

struct P<'a> {
    b: &'a [u8],
    i: usize,
    leaves: &'a [Leaf],
    c: Canon,
    segs: Vec<(u32, u32, u32)>, // scratch stack: start, end, min
    tmp: Vec<u32>,
    pend: Vec<u32>,
}

/// The names inside an expression that say which operator it is.
fn is_operator(n: u32) -> bool {
    (N::EitherOf as u32..=N::Smoosh as u32).contains(&n)
}
const NONE: u32 = u32::MAX;
const F_ERR: u8 = 1; // inside ASTError: only error-kind names are kept, punctuation is kept
const F_ALL: u8 = 2; // keep punctuation (HAI's version)
const F_OP: u8 = 4; // inside an expression node: punctuation is kept apart

pub fn canon(debug: &str, leaves: &[Leaf]) -> Result<Canon, String> {
    let mut p = P {
        b: debug.as_bytes(),
        i: 0,
        leaves,
        c: Canon { out: Vec::with_capacity(64), leaves: Vec::with_capacity(32), alien: false, errors: 0 },
        segs: Vec::new(),
        tmp: Vec::new(),
        pend: Vec::new(),
    };
    p.value(NONE, 0)?;
    if p.i != p.b.len() {
        return Err(format!("trailing debug text at {}: {}", p.i, debug));
    }
    Ok(p.c)
}

impl<'a> P<'a> {
    fn err<T>(&self, what: &str) -> Result<T, String> {
        Err(format!(
            "cannot read AST debug form ({what}) at {}: {}",
            self.i,
            String::from_utf8_lossy(self.b)
        ))
    }
    fn eat(&mut self, s: &[u8]) -> bool {
        if self.b[self.i..].starts_with(s) {
            self.i += s.len();
            true
        } else {
            false
        }
    }
    fn ws(&mut self) {
        while self.i < self.b.len() && (self.b[self.i] == b' ' || self.b[self.i] == b'\n') {
            self.i += 1;
        }
    }
    fn int(&mut self) -> Option<i32> {
        let s = self.i;
        let mut neg = false;
        let mut v: i64 = 0;
        let mut n = 0;
        if self.i < self.b.len() && self.b[self.i] == b'-' {
            neg = true;
            self.i += 1;
        }
        while self.i < self.b.len() && self.b[self.i].is_ascii_digit() {
            v = v * 10 + (self.b[self.i] - b'0') as i64;
            self.i += 1;
            n += 1;
        }
        if n == 0 {
            self.i = s;
            return None;
        }
        Some(if neg { -v } else { v } as i32)
    }
    fn pair(&mut self) -> Option<(i32, i32)> {
        if !self.eat(b"(") {
            return None;
        }
        let a = self.int()?;
        if !self.eat(b", ") {
            return None;
        }
        let c = self.int()?;
        if !self.eat(b")") {
            return None;
        }
        Some((a, c))
    }
    /// Parses one value, appends its canonical form, returns the smallest leaf index in it (NONE if none).
    fn value(&mut self, parent: u32, fl: u8) -> Result<u32, String> {
        self.ws();
        if self.i >= self.b.len() {
            return self.err("end");
        }
        let c = self.b[self.i];
        match c {
            b'(' => {
                let back = self.i;
                let token = match self.pair() {
                    Some(a) if self.eat(b" -> ") => self.pair().map(|z| (a, z)).filter(|_| self.eat(b"\n")),
                    _ => None,
                };
                let ((l1, c1), (l2, c2)) = match token {
                    // a range on its own, not that of a token
                    Some(_) if self.i == self.b.len() || !self.b[self.i].is_ascii_alphabetic() => return Ok(NONE),
                    Some(t) => t,
                    None => {
                        // a tuple, or a position on its own
                        self.i = back + 1;
                        let mut min = NONE;
                        loop {
                            self.ws();
                            if self.eat(b")") {
                                return Ok(min);
                            }
                            min = min.min(self.value(NONE, fl)?);
                            self.ws();
                            self.eat(b",");
                        }
                    }
                };
                let s = self.i;
                while self.i < self.b.len() && self.b[self.i] != b'\n' {
                    self.i += 1;
                }
                let ty = &self.b[s..self.i];
                self.i += 1;
                let key = (l1, c1);
                let lv = self.leaves;
                // positions of the input need not be sorted (hand-built vectors), so fall back to a scan
                let idx = match lv.binary_search_by(|x| (x.key.0, x.key.1).cmp(&key)) {
                    Ok(i) if lv[i].key == (l1, c1, l2, c2) && lv[i].dbg.as_bytes() == ty => Some(i),
                    _ => lv
                        .iter()
                        .position(|x| x.key == (l1, c1, l2, c2) && x.dbg.as_bytes() == ty),
                };
                match idx {
                    Some(i) => {
                        self.c.leaves.push(i as u32);
                        if !lv[i].punct || fl & (F_ERR | F_ALL) != 0 {
                            self.c.out.push(lv[i].id);
                        } else if fl & F_OP != 0 {
                            self.pend.push(lv[i].id | PUNCT);
                        }
                        Ok(i as u32)
                    }
                    None => {
                        self.c.alien = true;
                        self.c.out.push(ALIEN);
                        Ok(NONE - 1)
                    }
                }
            }
            b'[' => {
                self.i += 1;
                let mut min = NONE;
                loop {
                    self.ws();
                    if self.eat(b"]") {
                        return Ok(min);
                    }
                    let m = self.value(NONE, fl)?;
                    min = min.min(m);
                    self.ws();
                    self.eat(b",");
                }
            }
            b'"' => {
                self.i += 1;
                while self.i < self.b.len() && self.b[self.i] != b'"' {
                    if self.b[self.i] == b'\\' {
                        self.i += 1;
                    }
                    self.i += 1;
                }
                self.i += 1;
                Ok(NONE)
            }
            b'0'..=b'9' | b'-' => {
                while self.i < self.b.len() && !matches!(self.b[self.i], b',' | b' ' | b')' | b']' | b'}') {
                    self.i += 1;
                }
                Ok(NONE)
            }
            _ if c.is_ascii_alphabetic() || c == b'_' => {
                let s = self.i;
                while self.i < self.b.len() && (self.b[self.i].is_ascii_alphanumeric() || self.b[self.i] == b'_') {
                    self.i += 1;
                }
                let id = lut().map.get(&self.b[s..self.i]).copied();
                let mut fl2 = fl;
                let keep = match id {
                    None => None,
                    Some(n) if fl & F_ERR != 0 => {
                        if n >= FIRST_ERROR {
                            Some(n)
                        } else {
                            None
                        }
                    }
                    Some(n) if n >= FIRST_ERROR => None,
                    Some(n) => {
                        if n == N::ASTError as u32 {
                            fl2 |= F_ERR;
                            self.c.errors += 1;
                        } else if n == N::Hai as u32 {
                            fl2 |= F_ALL;
                        }
                        Some(n)
                    }
                };
                // collapse `X(X { .. })`
                let keep = if keep.is_some() && keep == Some(parent) { None } else { keep };
                let start = self.c.out.len();
                let base = self.pend.len();
                if let Some(n) = keep {
                    self.c.out.push(OPEN | n);
                    if fl & F_ERR == 0 && [N::BinaryOperation, N::UnaryOperation, N::NaryOperation, N::VariableAccess].iter().any(|x| *x as u32 == n) {
                        fl2 |= F_OP;
                    }
                }
                let mut min = NONE;
                if self.eat(b"(") {
                    let pass = keep.unwrap_or(NONE);
                    loop {
                        self.ws();
                        if self.eat(b")") {
                            break;
                        }
                        let m = self.value(pass, fl2)?;
                        min = min.min(m);
                        self.ws();
                        self.eat(b",");
                    }
                } else if self.eat(b" {") {
                    let base = self.segs.len();
                    let mut sorted = true;
                    loop {
                        self.ws();
                        if self.eat(b"}") {
                            break;
                        }
                        while self.i < self.b.len() && self.b[self.i] != b':' {
                            self.i += 1;
                        }
                        self.i += 1;
                        let a = self.c.out.len() as u32;
                        let m = self.value(NONE, fl2)?;
                        let z = self.c.out.len() as u32;
                        if z > a {
                            if self.segs.len() > base && self.segs[self.segs.len() - 1].2 > m {
                                sorted = false;
                            }
                            self.segs.push((a, z, m));
                        }
                        min = min.min(m);
                        self.ws();
                        self.eat(b",");
                    }
                    if !sorted {
                        let mut v: Vec<_> = self.segs[base..].to_vec();
                        let first = v.iter().map(|x| x.0).min().unwrap() as usize;
                        v.sort_by_key(|x| x.2);
                        self.tmp.clear();
                        for (a, z, _) in v {
                            self.tmp.extend_from_slice(&self.c.out[a as usize..z as usize]);
                        }
                        self.c.out.truncate(first);
                        self.c.out.extend_from_slice(&self.tmp);
                    }
                    self.segs.truncate(base);
                }
                if keep.is_some() && fl2 & F_OP != 0 && !is_operator(keep.unwrap()) {
                    self.pend[base..].sort_unstable();
                    let pend = &mut self.pend;
                    self.c.out.extend(pend.drain(base..));
                }
                if keep.is_some() {
                    if self.c.out.len() == start + 1 && min == NONE {
                        self.c.out.truncate(start);
                    } else {
                        self.c.out.push(CLOSE);
                    }
                }
                Ok(min)
            }
            _ => self.err("value"),
        }
    }
}

/// Readable form of a canonical tree; `leaf` names a leaf id.
pub fn show(c: &[u32], leaf: &dyn Fn(u32) -> String) -> String {
    let mut s = String::new();
    for &x in c {
        if x == CLOSE {
            s.push(']');
        } else {
            if !s.is_empty() && !s.ends_with('[') {
                s.push(' ');
            }
            if x == ALIEN {
                s.push_str("<ALIEN>");
            } else if x & OPEN != 0 {
                s.push_str(NN[(x & !OPEN) as usize]);
                s.push('[');
            } else {
                s.push_str(&leaf(x & !PUNCT));
            }
        }
    }
    s
}

/// Splits the canonical form of a program into its top-level nodes.
pub fn nodes(c: &[u32]) -> Vec<&[u32]> {
    let mut v = Vec::new();
    if c.is_empty() {
        return v;
    }
    let inner = &c[1..c.len() - 1];
    let (mut d, mut s) = (0, 0);
    for (i, &x) in inner.iter().enumerate() {
        if x == CLOSE {
            d -= 1;
        } else if x & OPEN != 0 && x != ALIEN {
            d += 1;
        }
        if d == 0 {
            v.push(&inner[s..=i]);
            s = i + 1;
        }
    }
    v
}
