//! Enumeration of the documented forms by structure: statement templates whose slots are filled from lists of
//! variable, name, value and expression shapes.
use crate::syms::{src, S};
use S::*;

fn list(v: &[&str]) -> Vec<Vec<S>> {
    v.iter().map(|x| if x.is_empty() { vec![] } else { line(x) }).collect()
}
/// Symbols of a text, line breaks at its beginning and end included.
pub fn line(l: &str) -> Vec<S> {
    let body = l.trim_matches('\n');
    let lead = l.len() - l.trim_start_matches('\n').len();
    let mut v = vec![NL; lead];
    if !body.is_empty() {
        v.extend(src(body));
        v.extend(vec![NL; l.len() - l.trim_end_matches('\n').len()]);
    }
    v
}
/// Variables.
pub fn vars() -> Vec<Vec<S>> {
    list(&["v", "SRS v", "v'Z w", "v'Z SRS w", "SRS v'Z w", "SRS v'Z SRS w", "v'Z w'Z Func_1", "v'Z SRS w'Z SRS v", "Func_1'Z w'Z SRS v'Z w"])
}
/// Names.
pub fn names() -> Vec<Vec<S>> {
    list(&["w", "SRS w"])
}
/// Expressions of every shape.
pub fn exprs() -> Vec<Vec<S>> {
    let mut v = vars();
    v.extend(list(&[
        "1", "1.5", "\"s\"", "\"s\nt\"", "WIN", "FAIL", "NOOB", "NOT v", "NOT v'Z SRS w", "NOT NOT 1", "SUM OF v 1", "SUM OF v AN 1", "DIFFRINT SRS v AN v'Z w", "BIGGR OF v'Z w 1",
        "SMOOSH MKAY", "SMOOSH v MKAY", "SMOOSH v AN w AN 1 MKAY", "SMOOSH v w'Z v 1 MKAY", "ALL OF v AN w MKAY", "ANY OF SRS v NOT w AN FAIL MKAY", "SMOOSH v AN MKAY",
        "BOTH SAEM SUM OF v AN 1 AN NOT w", "BOTH OF SUM OF 1 AN 1 SUM OF 1 1", "SUM OF SMOOSH v MKAY AN 1", "SMOOSH SMOOSH v MKAY w MKAY", "ALL OF ANY OF v w MKAY AN ANY OF v AN w MKAY MKAY",
        "NOT SMOOSH v w MKAY", "EITHER OF v AN ALL OF v MKAY",
    ]));
    v.push(vec![K_NOOB]);
    v
}
/// A few expressions that stand for all of them.
pub fn exprs_few() -> Vec<Vec<S>> {
    list(&["v", "1", "v'Z SRS w", "SUM OF v AN 1", "SMOOSH v AN w MKAY", "NOT SRS v"])
}
/// Expressions that run to the end of the statement.
pub fn exprs_open() -> Vec<Vec<S>> {
    list(&["SMOOSH", "SMOOSH v", "SMOOSH v AN w", "SMOOSH v AN", "ALL OF v AN ANY OF w MKAY", "ANY OF v ALL OF w", "NOT ALL OF v AN w", "SUM OF v AN SMOOSH w AN v", "SUM OF SMOOSH v MKAY SMOOSH w"])
}
pub fn types() -> Vec<Vec<S>> {
    [K_NUMBR, K_NUMBAR, K_YARN, K_TROOF, K_BUKKIT, K_NOOB].iter().map(|s| vec![*s]).collect()
}
/// Simple statements: `V` a variable, `N` a name, `E` an expression, `T` a type.
pub const SIMPLE: &[&str] = &[
    "<E>", "<V> R <E>", "<V> HAS A <N> ITZ <E>", "I HAS A <N>", "I HAS A <N> ITZ <T>", "I HAS A <N> ITZ <E>", "GIMMEH <V>", "FOUND YR <E>", "VISIBLE", "VISIBLE !", "VISIBLE <E>", "VISIBLE <E>!", "VISIBLE <E> <E>",
    "VISIBLE <E> <E>!", "VISIBLE <E> <E> <E>", "GTFO", "KTHXBYE", "HAI", "HAI <E>", "I IZ <V> MKAY", "I IZ <V> YR <E> MKAY", "I IZ <V> YR <E> AN YR <E> MKAY", "I IZ <V> YR <E> AN YR <E> AN YR <E> MKAY",
    "I IZ <V> YR <E> AN MKAY",
];
/// Simple statements whose last slot may be an open expression.
pub const SIMPLE_OPEN: &[&str] = &["<O>", "<V> R <O>", "<V> HAS A <N> ITZ <O>", "I HAS A <N> ITZ <O>", "FOUND YR <O>", "VISIBLE <E> <O>", "VISIBLE <O>"];
/// Blocks: `B` a body (statements, each followed by a line break).
pub const BLOCKS: &[&str] = &[
    "O RLY?\nOIC", "O RLY?\nYA RLY\n<B>OIC", "O RLY?\nNO WAI\n<B>OIC", "O RLY?\nMEBBE <E>\n<B>OIC", "O RLY?\nYA RLY\n<B>NO WAI\n<B>OIC", "O RLY?\nYA RLY\n<B>MEBBE <E>\n<B>OIC", "O RLY?\nMEBBE <E>\n<B>NO WAI\n<B>OIC",
    "O RLY?\nYA RLY\n<B>MEBBE <E>\n<B>MEBBE <E>\n<B>NO WAI\n<B>OIC", "O RLY?\nMEBBE <E>\n<B>MEBBE <E>\n<B>OIC", "WTF?\nOIC", "WTF?\nOMGWTF\n<B>OIC", "WTF?\nOMG <E>\n<B>OIC", "WTF?\nOMG <E>\n<B>OMGWTF\n<B>OIC",
    "WTF?\nOMG <E>\n<B>OMG <E>\n<B>OMG <E>\n<B>OMGWTF\n<B>OIC", "WTF?\nOMG <E>\n<B>OMG <E>\n<B>OIC", "IM IN YR v\n<B>IM OUTTA YR v", "IM IN YR v TIL <E>\n<B>IM OUTTA YR v", "IM IN YR v WILE <E>\n<B>IM OUTTA YR v", "IM IN YR v UPPIN YR <V>\n<B>IM OUTTA YR v",
    "IM IN YR v NERFIN YR <V>\n<B>IM OUTTA YR v", "IM IN YR v UPPIN YR <V> TIL <E>\n<B>IM OUTTA YR v", "IM IN YR v NERFIN YR <V> TIL <E>\n<B>IM OUTTA YR v", "IM IN YR v UPPIN YR <V> WILE <E>\n<B>IM OUTTA YR v",
    "IM IN YR v NERFIN YR <V> WILE <E>\n<B>IM OUTTA YR v", "HOW IZ I <N>\n<B>IF U SAY SO", "HOW IZ I <N> YR <N>\n<B>IF U SAY SO", "HOW IZ I <N> YR <N> AN YR <N>\n<B>IF U SAY SO", "HOW IZ I <N> YR <N> AN YR <N> AN YR <N>\n<B>IF U SAY SO",
    "IM IN YR v UPPIN YR <V> TIL <O>\n<B>IM OUTTA YR v", "O RLY?\nYA RLY\n<B>MEBBE <O>\n<B>OIC", "WTF?\nOMG <O>\n<B>OIC",
];

enum Piece {
    Lit(Vec<S>),
    Slot(char),
}
fn pieces(t: &str) -> Vec<Piece> {
    let mut v = Vec::new();
    let mut rest = t;
    while let Some(i) = rest.find('<') {
        // line breaks belong to the text before and after a slot
        v.push(Piece::Lit(lit(&rest[..i])));
        v.push(Piece::Slot(rest[i + 1..].chars().next().unwrap()));
        rest = &rest[i + 3..];
    }
    v.push(Piece::Lit(lit(rest)));
    v
}
fn lit(t: &str) -> Vec<S> {
    let t = t.trim_matches(' ');
    if t.is_empty() {
        vec![]
    } else {
        line(t)
    }
}
fn build(p: &[Piece], pick: &dyn Fn(usize, char) -> Vec<S>) -> Vec<S> {
    let mut v = Vec::new();
    let mut k = 0;
    for x in p {
        match x {
            Piece::Lit(l) => v.extend_from_slice(l),
            Piece::Slot(c) => {
                v.extend(pick(k, *c));
                k += 1;
            }
        }
    }
    v
}
/// What may fill each kind of slot; the first entry is the default filling.
pub struct Fill {
    pub v: Vec<Vec<S>>,
    pub n: Vec<Vec<S>>,
    pub e: Vec<Vec<S>>,
    pub t: Vec<Vec<S>>,
    pub o: Vec<Vec<S>>,
    pub b: Vec<Vec<S>>,
}
impl Fill {
    pub fn full() -> Fill {
        Fill { v: vars(), n: names(), e: exprs(), t: types(), o: exprs_open(), b: list(&["v R 1\n", "", "v\nVISIBLE w!\n"]) }
    }
    pub fn few() -> Fill {
        Fill { v: list(&["v", "SRS v'Z w"]), e: exprs_few(), ..Fill::full() }
    }
    fn of(&self, c: char) -> &Vec<Vec<S>> {
        match c {
            'V' => &self.v,
            'N' => &self.n,
            'E' => &self.e,
            'T' => &self.t,
            'O' => &self.o,
            'B' => &self.b,
            _ => unreachable!("slot {c}"),
        }
    }
}
/// Every filling of every slot.
pub fn product(templates: &[&str], f: &Fill) -> Vec<Vec<S>> {
    let mut out = Vec::new();
    for t in templates {
        let p = pieces(t);
        let slots: Vec<char> = p.iter().filter_map(|x| if let Piece::Slot(c) = x { Some(*c) } else { None }).collect();
        let mut idx = vec![0usize; slots.len()];
        'all: loop {
            out.push(build(&p, &|k, c| f.of(c)[idx[k]].clone()));
            for k in (0..idx.len()).rev() {
                idx[k] += 1;
                if idx[k] < f.of(slots[k]).len() {
                    continue 'all;
                }
                idx[k] = 0;
            }
            break;
        }
    }
    out
}
/// Every slot varied with the others at their defaults; with `two`, every pair of slots.
pub fn vary(templates: &[&str], f: &Fill, two: bool) -> Vec<Vec<S>> {
    let mut out = Vec::new();
    for t in templates {
        let p = pieces(t);
        let slots: Vec<char> = p.iter().filter_map(|x| if let Piece::Slot(c) = x { Some(*c) } else { None }).collect();
        out.push(build(&p, &|_, c| f.of(c)[0].clone()));
        for i in 0..slots.len() {
            for a in 1..f.of(slots[i]).len() {
                out.push(build(&p, &|k, c| f.of(c)[if k == i { a } else { 0 }].clone()));
                if two {
                    for j in i + 1..slots.len() {
                        for b in 1..f.of(slots[j]).len() {
                            out.push(build(&p, &|k, c| f.of(c)[if k == i { a } else if k == j { b } else { 0 }].clone()));
                        }
                    }
                }
            }
        }
    }
    let mut seen = std::collections::HashSet::new();
    out.retain(|s| seen.insert(s.clone()));
    out
}
/// Simple statements, one slot varied at a time.
pub fn simple() -> Vec<Vec<S>> {
    let f = Fill::full();
    let mut v = vary(SIMPLE, &f, false);
    v.extend(vary(SIMPLE_OPEN, &f, false));
    v
}
/// Simple statements from few fillings.
pub fn simple_few() -> Vec<Vec<S>> {
    let f = Fill::few();
    let mut v = vary(SIMPLE, &f, false);
    v.extend(vary(&SIMPLE_OPEN[..2], &Fill { o: list(&["SMOOSH v AN w"]), ..f }, false));
    v
}
/// Blocks with one slot varied at a time; bodies from the given statements.
pub fn blocks(bodies: &[Vec<S>]) -> Vec<Vec<S>> {
    let mut b = list(&["v R 1\n", ""]);
    for s in bodies {
        let mut x = s.clone();
        x.push(NL);
        b.push(x);
    }
    vary(BLOCKS, &Fill { b, ..Fill::full() }, false)
}
/// Blocks from few fillings.
pub fn blocks_few() -> Vec<Vec<S>> {
    vary(BLOCKS, &Fill { o: list(&["SMOOSH v AN w"]), ..Fill::few() }, false)
}
/// Blocks inside blocks: every construct in every body of every construct, `depth` levels.
pub fn nested(depth: u32) -> Vec<Vec<S>> {
    let one = Fill { v: list(&["v'Z w"]), n: list(&["v"]), e: list(&["NOT v"]), t: types(), o: list(&["SMOOSH v"]), b: list(&["w\n", "", "v\nw\n"]) };
    let mut cur = vary(BLOCKS, &one, false);
    for _ in 1..depth {
        let mut b = list(&["w\n"]);
        for c in &cur {
            let mut x = c.clone();
            x.push(NL);
            b.push(x.clone());
            b.push([vec![V, NL], x, vec![W, NL]].concat());
        }
        cur = vary(BLOCKS, &Fill { b, ..Fill { v: one.v.clone(), n: one.n.clone(), e: one.e.clone(), t: types(), o: one.o.clone(), b: vec![] } }, false);
    }
    cur
}
#[cfg(test)]
mod test {
    use super::*;
    use crate::pmodel;
    #[test]
    fn templates_are_well_formed() {
        let f = Fill::full();
        for (n, v) in [("simple", vary(SIMPLE, &f, true)), ("open", vary(SIMPLE_OPEN, &f, false)), ("blocks", blocks(&simple())), ("nested", nested(2)), ("few", simple_few()), ("bfew", blocks_few()), ("nested3", nested(3))] {
            let bad: Vec<_> = v.iter().filter(|s| pmodel::parse(s).errors > 0).collect();
            println!("{n} {} bad {} max {}", v.len(), bad.len(), v.iter().map(|s| s.len()).max().unwrap());
            for b in bad.iter().take(5) { println!("{}", crate::syms::names(b)); }
        }
        println!("product {}", product(SIMPLE, &Fill::few()).len());
    }
}
