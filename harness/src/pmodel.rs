//! Reference parser: what the documented grammar says a token sequence means.
//!
//! Works on normalised items (comments removed, separators collapsed, continuations joined) and emits the
//! canonical form of `dbg`.  It also tells whether the sequence is a viable prefix of a well-formed program
//! and which control configuration it ends in (stack of grammar positions at the end of the input).
use crate::dbg::{open, ALIEN, CLOSE, N, PUNCT};
use crate::syms::S;

#[derive(Copy, Clone, PartialEq, Debug)]
pub struct Tok {
    pub s: S,
    pub id: u32,
}

/// Separator marker in the item stream.
const SEP: Tok = Tok { s: S::NL, id: u32::MAX };

/// Symbols -> items. Leaf ids are ordinals among content tokens.
pub fn normalise(syms: &[S]) -> Vec<Tok> {
    let mut v: Vec<Tok> = Vec::with_capacity(syms.len());
    let mut id = 0;
    let mut joined = false;
    for &s in syms {
        match s {
            S::COM1 | S::COMM => {}
            S::ELL => joined = true,
            S::NL if joined => {}
            S::NL | S::COMMA => {
                joined = false;
                if v.last().map_or(false, |t| *t != SEP) {
                    v.push(SEP);
                }
            }
            _ => {
                joined = false;
                v.push(Tok { s, id });
                id += 1;
            }
        }
    }
    v
}

/// Number of content tokens.
pub fn content(syms: &[S]) -> usize {
    syms.iter().filter(|s| !s.is_layout()).count()
}

#[derive(Default)]
pub struct Out {
    pub canon: Vec<u32>,
    /// number of error nodes
    pub errors: u32,
    /// some error is there whatever follows
    pub hard: bool,
    /// control configuration at the end of the input
    pub config: Vec<u8>,
    pub depth: u32,
}

struct Err_ {
    kind: N,
    toks: Vec<Tok>,
}
type R<T> = Result<T, Err_>;

struct M<'a> {
    it: &'a [Tok],
    i: usize,
    o: Out,
    st: Vec<u8>,
    snap: bool,
    end_hit: bool,
}

// grammar positions (site ids); a configuration is the stack of sites plus the site of the last look
mod at {
    pub const STMT: u8 = 1;
    pub const LEFT: u8 = 2;
    pub const HEAD: u8 = 3; // leftovers of a header line
    pub const SLOT: u8 = 4;
    pub const SLOTNAME: u8 = 5;
    pub const SRS: u8 = 6;
    pub const B_L: u8 = 7;
    pub const B_AN: u8 = 8;
    pub const B_R: u8 = 9;
    pub const U: u8 = 10;
    pub const N_OP: u8 = 11;
    pub const N_AN: u8 = 12;
    pub const AFTERVAR: u8 = 13;
    pub const ASG: u8 = 14;
    pub const BS_SLOT: u8 = 15;
    pub const BS_ITZ: u8 = 16;
    pub const BS_VAL: u8 = 17;
    pub const IH_ID: u8 = 18;
    pub const IH_ITZ: u8 = 19;
    pub const IH_VAL: u8 = 20;
    pub const VIS: u8 = 21;
    pub const GIM: u8 = 22;
    pub const FND: u8 = 23;
    pub const HAI: u8 = 24;
    pub const IZ_NAME: u8 = 25;
    pub const IZ_YR: u8 = 26;
    pub const IZ_ARG: u8 = 27;
    pub const IZ_AN: u8 = 28;
    pub const IZ_MKAY: u8 = 29;
    pub const L_LABEL: u8 = 30;
    pub const L_OP: u8 = 31;
    pub const L_YR: u8 = 32;
    pub const L_VAR: u8 = 33;
    pub const L_COND: u8 = 34;
    pub const L_EXPR: u8 = 35;
    pub const L_BODY: u8 = 36;
    pub const L_END: u8 = 37;
    pub const H_NAME: u8 = 38;
    pub const H_YR: u8 = 39;
    pub const H_ARG: u8 = 40;
    pub const H_AN: u8 = 41;
    pub const H_BODY: u8 = 42;
    pub const Q: u8 = 43;
    pub const Q2: u8 = 53;
    pub const O_YA: u8 = 44; // after O RLY?
    pub const O_IF: u8 = 45; // in YA RLY / MEBBE branch
    pub const O_MEB: u8 = 46;
    pub const O_ELSE: u8 = 47;
    pub const W_FIRST: u8 = 48;
    pub const W_OMG: u8 = 49;
    pub const W_CASE: u8 = 50;
    pub const W_DEF: u8 = 51;
    pub const L_HEAD2: u8 = 52;
}

#[derive(Copy, Clone, PartialEq)]
enum Stop {
    Root,
    Fun,
    Loop,
    If,
    Switch,
}
impl Stop {
    fn has(self, s: S) -> bool {
        match self {
            Stop::Root => false,
            Stop::Fun => s == S::K_IF_U_SAY_SO,
            Stop::Loop => s == S::K_IM_OUTTA_YR,
            Stop::If => matches!(s, S::K_MEBBE | S::K_NO_WAI | S::K_YA_RLY | S::K_OIC),
            Stop::Switch => matches!(s, S::K_OMG | S::K_OMGWTF | S::K_OIC),
        }
    }
}

pub fn is_ident(s: S) -> bool {
    matches!(s, S::V | S::W | S::FN)
}
pub fn is_literal(s: S) -> bool {
    matches!(s, S::INT | S::FLOAT | S::STR | S::STRN | S::WIN | S::FAIL | S::NOOB | S::K_NOOB)
}
pub fn binary(s: S) -> Option<N> {
    Some(match s {
        S::K_SUM_OF => N::SumOf,
        S::K_DIFF_OF => N::DiffOf,
        S::K_PRODUKT_OF => N::ProduktOf,
        S::K_QUOSHUNT_OF => N::QuoshuntOf,
        S::K_MOD_OF => N::ModOf,
        S::K_BIGGR_OF => N::BiggrOf,
        S::K_SMALLR_OF => N::SmallrOf,
        S::K_BOTH_SAEM => N::BothSaem,
        S::K_DIFFRINT => N::Diffrint,
        S::K_BOTH_OF => N::BothOf,
        S::K_EITHER_OF => N::EitherOf,
        S::K_WON_OF => N::WonOf,
        _ => return None,
    })
}
pub fn nary(s: S) -> Option<N> {
    Some(match s {
        S::K_ALL_OF => N::AllOf,
        S::K_ANY_OF => N::AnyOf,
        S::K_SMOOSH => N::Smoosh,
        _ => return None,
    })
}
fn type_name(s: S) -> Option<N> {
    Some(match s {
        S::K_NUMBR => N::Numbr,
        S::K_NUMBAR => N::Numbar,
        S::K_YARN => N::Yarn,
        S::K_NOOB => N::Noob,
        S::K_BUKKIT => N::Bukkit,
        S::K_TROOF => N::Troof,
        _ => return None,
    })
}

impl<'a> M<'a> {
    fn at_end(&mut self, site: u8) {
        if !self.end_hit {
            self.end_hit = true;
            if self.snap {
                self.o.config = self.st.clone();
                self.o.config.push(site);
                self.o.depth = self.st.len() as u32;
            }
        }
    }
    /// Next token of this statement, if any.
    fn peek(&mut self, site: u8) -> Option<Tok> {
        match self.it.get(self.i) {
            None => {
                self.at_end(site);
                None
            }
            Some(t) if *t == SEP => None,
            Some(t) => Some(*t),
        }
    }
    fn next(&mut self, site: u8) -> Option<Tok> {
        let t = self.peek(site);
        if t.is_some() {
            self.i += 1;
        }
        t
    }
    fn next_if(&mut self, site: u8, f: impl Fn(S) -> bool) -> Option<Tok> {
        match self.peek(site) {
            Some(t) if f(t.s) => {
                self.i += 1;
                Some(t)
            }
            _ => None,
        }
    }
    fn e<T>(&mut self, kind: N, tok: Tok) -> R<T> {
        if !self.end_hit {
            self.o.hard = true;
        }
        Err(Err_ { kind, toks: vec![tok] })
    }
    fn open(&mut self, n: N) {
        self.o.canon.push(open(n));
    }
    fn close(&mut self) {
        self.o.canon.push(CLOSE);
    }
    fn leaf(&mut self, t: Tok) {
        self.o.canon.push(t.id);
    }
    fn within<T>(&mut self, site: u8, f: impl FnOnce(&mut Self) -> R<T>) -> R<T> {
        self.st.push(site);
        let r = f(self);
        self.st.pop();
        r
    }

    // ---- names and expressions
    /// An identifier with an optional SRS mark.
    fn ident(&mut self, t: Tok) -> R<Tok> {
        if is_ident(t.s) {
            self.leaf(t);
            return Ok(t);
        }
        if t.s == S::K_SRS {
            return match self.next(at::SRS) {
                None => self.e(N::MissingToken, t),
                Some(n) if is_ident(n.s) => {
                    self.leaf(t);
                    self.leaf(n);
                    Ok(n)
                }
                Some(n) => self.e(N::UnexpectedToken, n),
            };
        }
        self.e(N::UnexpectedToken, t)
    }
    /// Variable with slot accesses; returns its last name.
    fn variable(&mut self, t: Tok) -> R<Tok> {
        self.open(N::VariableAccess);
        let mut last = self.within(at::SLOT, |m| m.ident(t))?;
        let mut marks = Vec::new();
        while let Some(sl) = self.next_if(at::SLOT, |s| s == S::SLOT) {
            marks.push(sl.id | PUNCT);
            match self.next(at::SLOTNAME) {
                None => return self.e(N::MissingToken, sl),
                Some(n) => last = self.within(at::SLOT, |m| m.ident(n))?,
            }
        }
        self.o.canon.extend(marks);
        self.close();
        Ok(last)
    }
    fn expr(&mut self, t: Tok) -> R<()> {
        if is_ident(t.s) || t.s == S::K_SRS {
            return self.variable(t).map(|_| ());
        }
        if is_literal(t.s) {
            self.leaf(t);
            return Ok(());
        }
        if let Some(op) = binary(t.s) {
            self.open(N::BinaryOperation);
            self.open(op);
            self.leaf(t);
            self.close();
            match self.next(at::B_L) {
                None => return self.e(N::MissingOperands, t),
                Some(l) => self.within(at::B_L, |m| m.expr(l))?,
            }
            let an = self.next_if(at::B_AN, |s| s == S::K_AN);
            match self.next(at::B_R) {
                None => return self.e(N::MissingOperands, t),
                Some(r) => self.within(at::B_R, |m| m.expr(r))?,
            }
            self.o.canon.extend(an.map(|a| a.id | PUNCT));
            self.close();
            return Ok(());
        }
        if t.s == S::K_NOT {
            self.open(N::UnaryOperation);
            self.open(N::Not);
            self.leaf(t);
            self.close();
            match self.next(at::U) {
                None => return self.e(N::MissingOperands, t),
                Some(x) => self.within(at::U, |m| m.expr(x))?,
            }
            self.close();
            return Ok(());
        }
        if let Some(op) = nary(t.s) {
            self.open(N::NaryOperation);
            self.open(op);
            self.leaf(t);
            self.close();
            let mut marks = Vec::new();
            loop {
                match self.next(at::N_OP) {
                    None => break,
                    Some(x) if x.s == S::K_MKAY => {
                        marks.push(x.id | PUNCT);
                        break;
                    }
                    Some(x) => {
                        self.within(at::N_OP, |m| m.expr(x))?;
                        marks.extend(self.next_if(at::N_AN, |s| s == S::K_AN).map(|a| a.id | PUNCT));
                    }
                }
            }
            self.o.canon.extend(marks);
            self.close();
            return Ok(());
        }
        self.e(N::UnexpectedToken, t)
    }
    fn need_expr(&mut self, site: u8, missing: N, tok: Tok) -> R<()> {
        match self.next(site) {
            None => self.e(missing, tok),
            Some(t) => self.within(site, |m| m.expr(t)),
        }
    }

    // ---- statements
    fn statement(&mut self, t: Tok) -> R<()> {
        match t.s {
            S::V | S::W | S::FN | S::K_SRS => {
                let start = self.o.canon.len();
                let last = self.within(at::AFTERVAR, |m| m.variable(t))?;
                match self.peek(at::AFTERVAR).map(|t| t.s) {
                    None => Ok(()),
                    Some(S::K_HAS_A) => {
                        let has = self.next(at::AFTERVAR).unwrap();
                        self.o.canon.insert(start, open(N::BukkitSetSlot));
                        let name = match self.next(at::BS_SLOT) {
                            None => return self.e(N::ExpectedValue, has),
                            Some(n) => self.within(at::BS_SLOT, |m| m.ident(n))?,
                        };
                        let itz = match self.next(at::BS_ITZ) {
                            None => return self.e(N::MissingToken, name),
                            Some(x) if x.s == S::K_ITZ => x,
                            Some(x) => return self.e(N::UnexpectedToken, x),
                        };
                        self.need_expr(at::BS_VAL, N::MissingToken, itz)?;
                        self.close();
                        Ok(())
                    }
                    Some(S::K_R) => {
                        let r = self.next(at::AFTERVAR).unwrap();
                        self.o.canon.insert(start, open(N::VariableAssignment));
                        self.need_expr(at::ASG, N::ExpectedValue, r)?;
                        self.close();
                        Ok(())
                    }
                    Some(_) => {
                        self.next(at::AFTERVAR);
                        self.e(N::MissingR, last)
                    }
                }
            }
            S::K_I_HAS_A => {
                self.open(N::IHasA);
                self.leaf(t);
                match self.next(at::IH_ID) {
                    None => return self.e(N::MissingIdentifier, t),
                    Some(n) if is_ident(n.s) || n.s == S::K_SRS => {
                        self.within(at::IH_ID, |m| m.ident(n))?;
                    }
                    Some(n) => return self.e(N::InvalidIdentifier, n),
                }
                match self.next(at::IH_ITZ) {
                    None => {}
                    Some(z) if z.s == S::K_ITZ => match self.next(at::IH_VAL) {
                        None => return self.e(N::ExpectedInitialValue, z),
                        Some(v) => match type_name(v.s) {
                            Some(n) => {
                                self.open(n);
                                self.leaf(v);
                                self.close();
                            }
                            None => self.within(at::IH_VAL, |m| m.expr(v))?,
                        },
                    },
                    Some(z) => return self.e(N::UnexpectedToken, z),
                }
                self.close();
                Ok(())
            }
            S::K_VISIBLE => {
                self.open(N::Visible);
                self.leaf(t);
                while let Some(x) = self.next_if(at::VIS, |s| s != S::BANG) {
                    self.within(at::VIS, |m| m.expr(x))?;
                }
                if let Some(b) = self.next(at::VIS) {
                    self.leaf(b);
                }
                self.close();
                Ok(())
            }
            S::K_GIMMEH => {
                self.open(N::Gimmeh);
                self.leaf(t);
                match self.next(at::GIM) {
                    None => return self.e(N::MissingToken, t),
                    Some(v) => self.within(at::GIM, |m| m.variable(v))?,
                };
                self.close();
                Ok(())
            }
            S::K_FOUND_YR => {
                self.open(N::FoundYr);
                self.leaf(t);
                self.need_expr(at::FND, N::MissingToken, t)?;
                self.close();
                Ok(())
            }
            S::K_GTFO => {
                self.open(N::Gtfo);
                self.leaf(t);
                self.close();
                Ok(())
            }
            S::K_KTHXBYE => {
                self.open(N::KThxBye);
                self.leaf(t);
                self.close();
                Ok(())
            }
            S::K_HAI => {
                self.open(N::Hai);
                self.leaf(t);
                while let Some(x) = self.next(at::HAI) {
                    self.leaf(x);
                }
                self.close();
                Ok(())
            }
            S::K_I_IZ => {
                self.open(N::IIz);
                self.leaf(t);
                match self.next_if(at::IZ_NAME, |s| s != S::K_MKAY) {
                    None => return self.e(N::MissingName, t),
                    Some(n) => self.within(at::IZ_NAME, |m| m.variable(n))?,
                };
                while let Some(yr) = self.next_if(at::IZ_YR, |s| s == S::K_YR) {
                    match self.next_if(at::IZ_ARG, |s| s != S::K_MKAY) {
                        None => return self.e(N::MissingArgument, yr),
                        Some(x) => self.within(at::IZ_ARG, |m| m.expr(x))?,
                    }
                    if self.next_if(at::IZ_AN, |s| s == S::K_AN).is_none() {
                        break;
                    }
                }
                match self.next(at::IZ_MKAY) {
                    None => return self.e(N::MissingMkay, t),
                    Some(x) if x.s == S::K_MKAY => {}
                    Some(x) => return self.e(N::MissingMkay, x),
                }
                self.close();
                Ok(())
            }
            S::K_IM_IN_YR => self.looped(t),
            S::K_HOW_IZ_I => self.function(t),
            S::K_O_RLY => self.orly(t),
            S::K_WTF => self.wtf(t),
            _ => self.expr(t),
        }
    }

    /// The header line is over: nothing may be left on it.
    fn head_end(&mut self, site: u8) -> R<()> {
        let mut rest = Vec::new();
        while let Some(t) = self.next(site) {
            self.o.hard = true;
            rest.push(t);
        }
        if rest.is_empty() {
            self.skip_sep();
            Ok(())
        } else {
            Err(Err_ { kind: N::TooManyTokens, toks: rest })
        }
    }
    fn skip_sep(&mut self) {
        while self.it.get(self.i) == Some(&SEP) {
            self.i += 1;
        }
    }

    fn looped(&mut self, t: Tok) -> R<()> {
        self.open(N::ImInYr);
        self.leaf(t);
        match self.next(at::L_LABEL) {
            None => return self.e(N::MissingStartLabel, t),
            Some(l) if is_ident(l.s) => self.leaf(l),
            Some(l) => return self.e(N::InvalidStartLabel, l),
        }
        let cond = |s| matches!(s, S::K_TIL | S::K_WILE);
        if let Some(op) = self.next_if(at::L_OP, |s| !cond(s)) {
            if !matches!(op.s, S::K_UPPIN | S::K_NERFIN) {
                return self.e(N::InvalidOperation, op);
            }
            self.leaf(op);
            match self.next(at::L_YR) {
                None => return self.e(N::MissingOperand, op),
                Some(y) if y.s == S::K_YR => {}
                Some(y) => return self.e(N::MissingYr, y),
            }
            match self.next(at::L_VAR) {
                None => return self.e(N::MissingOperand, op),
                Some(v) => self.within(at::L_VAR, |m| m.variable(v))?,
            };
        }
        if let Some(c) = self.next(at::L_COND) {
            if !cond(c.s) {
                return self.e(N::InvalidConditional, c);
            }
            self.open(if c.s == S::K_TIL { N::TIL } else { N::WILE });
            self.need_expr(at::L_EXPR, N::MissingConditionalExpression, c)?;
            self.close();
        }
        self.head_end(at::L_HEAD2)?;
        self.block(at::L_BODY, Stop::Loop);
        let out = match self.next(at::L_BODY) {
            None => return self.e(N::MissingImOuttaYr, t),
            Some(x) => x,
        };
        match self.next(at::L_END) {
            None => return self.e(N::MissingEndLabel, out),
            Some(l) if is_ident(l.s) => self.leaf(l),
            Some(l) => return self.e(N::InvalidEndLabel, l),
        }
        self.close();
        Ok(())
    }

    fn function(&mut self, t: Tok) -> R<()> {
        self.open(N::HowIzI);
        self.leaf(t);
        match self.next(at::H_NAME) {
            None => return self.e(N::MissingNameIdentifier, t),
            Some(n) => self.within(at::H_NAME, |m| m.ident(n))?,
        };
        while let Some(yr) = self.next_if(at::H_YR, |s| s == S::K_YR) {
            match self.next(at::H_ARG) {
                None => return self.e(N::MissingToken, yr),
                Some(a) => self.within(at::H_ARG, |m| m.ident(a))?,
            };
            if self.next_if(at::H_AN, |s| s == S::K_AN).is_none() {
                break;
            }
        }
        self.head_end(at::HEAD)?;
        self.block(at::H_BODY, Stop::Fun);
        match self.next(at::H_BODY) {
            None => self.e(N::MissingBlockClosingToken, t),
            Some(x) if x.s == S::K_IF_U_SAY_SO => {
                self.close();
                Ok(())
            }
            Some(x) => self.e(N::UnexpectedToken, x),
        }
    }

    fn question(&mut self, site: u8, t: Tok) -> R<()> {
        match self.next(site) {
            Some(q) if matches!(q.s, S::QUEST | S::QSYM) => self.within(site, |m| m.head_end(at::HEAD)),
            _ => self.e(N::MissingQuestionMark, t),
        }
    }

    fn orly(&mut self, t: Tok) -> R<()> {
        self.open(N::ORly);
        self.leaf(t);
        self.question(at::Q, t)?;
        let mut site = at::O_YA;
        if let Some(y) = self.next_if(site, |s| s == S::K_YA_RLY) {
            self.leaf(y);
            self.within(site, |m| m.head_end(at::HEAD))?;
            site = at::O_IF;
            self.block(site, Stop::If);
        }
        while let Some(m) = self.next_if(site, |s| s == S::K_MEBBE) {
            self.leaf(m);
            self.need_expr(at::O_MEB, N::MissingMebbeExpression, m)?;
            self.within(at::O_MEB, |m| m.head_end(at::HEAD))?;
            site = at::O_IF;
            self.block(site, Stop::If);
        }
        if let Some(n) = self.next_if(site, |s| s == S::K_NO_WAI) {
            self.leaf(n);
            self.within(at::O_ELSE, |m| m.head_end(at::HEAD))?;
            site = at::O_ELSE;
            self.block(site, Stop::If);
        }
        self.closer(site, t)
    }

    fn closer(&mut self, site: u8, t: Tok) -> R<()> {
        match self.next(site) {
            None => self.e(N::MissingBlockClosingToken, t),
            Some(x) if x.s == S::K_OIC => {
                self.close();
                Ok(())
            }
            Some(x) => self.e(N::UnexpectedToken, x),
        }
    }

    fn wtf(&mut self, t: Tok) -> R<()> {
        self.open(N::Wtf);
        self.leaf(t);
        self.question(at::Q2, t)?;
        let mut site = at::W_FIRST;
        while let Some(m) = self.next_if(site, |s| s == S::K_OMG) {
            self.leaf(m);
            self.need_expr(at::W_OMG, N::MissingToken, m)?;
            self.within(at::W_OMG, |m| m.head_end(at::HEAD))?;
            site = at::W_CASE;
            self.block(site, Stop::Switch);
        }
        if let Some(n) = self.next_if(site, |s| s == S::K_OMGWTF) {
            self.leaf(n);
            self.within(at::W_DEF, |m| m.head_end(at::HEAD))?;
            site = at::W_DEF;
            self.block(site, Stop::Switch);
        }
        self.closer(site, t)
    }

    /// Statements up to a token that ends the block.
    fn block(&mut self, site: u8, stop: Stop) {
        self.st.push(site);
        let start = self.o.canon.len();
        self.open(N::ASTBlock);
        loop {
            let t = match self.peek(at::STMT) {
                Some(t) if stop.has(t.s) => break,
                Some(t) => t,
                None => {
                    if self.i >= self.it.len() {
                        break;
                    }
                    self.skip_sep();
                    continue;
                }
            };
            self.i += 1;
            let mark = self.o.canon.len();
            let depth = self.st.len();
            if let Err(e) = self.statement(t) {
                self.st.truncate(depth);
                self.o.canon.truncate(mark);
                self.error(e);
            }
            let mut rest = Vec::new();
            while let Some(t) = self.next(at::LEFT) {
                self.o.hard = true;
                rest.push(t);
            }
            if !rest.is_empty() {
                self.error(Err_ { kind: N::TooManyTokens, toks: rest });
            }
            self.skip_sep();
        }
        if self.o.canon.len() == start + 1 {
            self.o.canon.truncate(start);
        } else {
            self.close();
        }
        self.st.pop();
    }
    fn error(&mut self, e: Err_) {
        self.o.errors += 1;
        self.open(N::ASTError);
        self.open(e.kind);
        for t in e.toks {
            self.leaf(t);
        }
        self.close();
        self.close();
    }
}

fn run(items: &[Tok], snap: bool) -> Out {
    let mut m = M { it: items, i: 0, o: Out::default(), st: Vec::new(), snap, end_hit: false };
    m.block(0, Stop::Root);
    debug_assert!(m.i == items.len());
    m.o.canon.shrink_to_fit();
    let _ = ALIEN;
    m.o
}

/// Meaning of a symbol sequence.
pub fn parse(syms: &[S]) -> Out {
    run(&normalise(syms), false)
}
/// Same, with the control configuration at the end.
pub fn parse_config(syms: &[S]) -> Out {
    let mut o = run(&normalise(syms), true);
    // a pending continuation is part of the configuration
    let joined = syms
        .iter()
        .rev()
        .find(|s| !matches!(s, S::NL) && !s.is_comment())
        .map_or(false, |s| *s == S::ELL);
    o.config.push(joined as u8);
    o
}
/// Well-formed, and complete at its end.
pub fn whole(syms: &[S]) -> bool {
    let mut nl = syms.to_vec();
    nl.push(S::NL);
    let c = parse_config(&nl);
    c.errors == 0 && c.depth <= 1 && c.config == parse_config(&[S::NL]).config
}
pub fn parse_items(items: &[Tok]) -> Out {
    run(items, false)
}
