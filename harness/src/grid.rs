//! Programs and texts that grow in several places at once: `{...}` in a template is a part repeated any number of times.
use crate::engine::{Part, Run};
use crate::pspaces;

enum P {
    Lit(String),
    Rep(usize, Vec<P>),
}
pub struct Template {
    parts: Vec<P>,
    pub spots: usize,
}
fn parse(c: &mut std::iter::Peekable<std::str::Chars>, spots: &mut usize) -> Vec<P> {
    let mut v = vec![];
    let mut lit = String::new();
    while let Some(x) = c.next() {
        match x {
            '{' => {
                if !lit.is_empty() {
                    v.push(P::Lit(std::mem::take(&mut lit)));
                }
                let k = *spots;
                *spots += 1;
                v.push(P::Rep(k, parse(c, spots)));
            }
            '}' => break,
            _ => lit.push(x),
        }
    }
    if !lit.is_empty() {
        v.push(P::Lit(lit));
    }
    v
}
fn expand(p: &[P], n: &[usize], out: &mut String) {
    for x in p {
        match x {
            P::Lit(s) => out.push_str(s),
            P::Rep(k, inner) => {
                for _ in 0..n[*k] {
                    expand(inner, n, out);
                }
            }
        }
    }
}
impl Template {
    pub fn new(t: &str) -> Template {
        let mut spots = 0;
        let parts = parse(&mut t.chars().peekable(), &mut spots);
        Template { parts, spots }
    }
    pub fn text(&self, n: &[usize]) -> String {
        let mut s = String::new();
        expand(&self.parts, n, &mut s);
        s
    }
}

/// Good and bad programs; the reference grammar says which is which.
pub const PROGRAMS: &[&str] = &[
    "HOW IZ I v YR w{ AN YR w}\n{v R 1\n}{O RLY?\nYA RLY\nv\nOIC\n}{+\n}IF U SAY SO\n{GTFO\n}{+\n}",
    "O RLY?\nYA RLY\n{v\n}{+\n}{MEBBE{ NOT} v\n{w\n}{GIMMEH\n}}NO WAI\n{GTFO\n}{+\n}OIC\n{v\n}",
    "WTF?\n{OMG{ NOT} 1\n{v\n}{+\n}}OMGWTF\n{v\n}{+\n}OIC\n{v\n}",
    "IM IN YR v UPPIN YR w{'Z w} TIL SMOOSH 1{ AN 1}\n{v\n}{+\n}IM OUTTA YR v{ 1}\n{v\n}",
    "VISIBLE{ v}{ \"s\"}{ SUM OF 1 AN 2}{!}",
    "I IZ v{'Z w} YR 1{ AN YR v{'Z w}}{ AN YR SMOOSH{ 1} MKAY} MKAY{ MKAY}",
    "v{'Z w}{'Z SRS w} R SMOOSH{ NOT} 1{ AN 1}{ v AN} MKAY{ MKAY}",
    "SMOOSH{ 1}{ AN 1} MKAY{ MKAY}",
    "ALL OF 1{ AN SMOOSH 1{ 2} MKAY}{ AN v} MKAY",
    "SUM OF{ NOT} 1 AN{ NOT} 2{ 3}",
    "{,}v{,}{\n}w{,}{\n}{,}GTFO{\n}{,}",
    "v R{ ...\n}{ \u{2026}} 1{,}{\n}w",
    "{BTW c\n}v{ OBTW c TLDR}{ BTW c}\n{\n}{OBTW c TLDR\n}w",
    "HAI{ 1.5}\n{v\n}{+\n}KTHXBYE{ 1}\n{v\n}",
    "I HAS A v{ ITZ 1}\n{I HAS A w ITZ NOOB\n}{I HAS A\n}v HAS A w ITZ 1{ 2}\n",
    "{HOW IZ I v\n}{v\n}{+\n}{IF U SAY SO\n}{GTFO\n}",
    "{IM IN YR v\n}{O RLY?\nYA RLY\n}{+\n}{OIC\n}{IM OUTTA YR v\n}",
    "{WTF?\nOMG 1\n}{v R\n}{OMGWTF\n}{OIC\n}{v\n}",
    "O RLY?\n{YA RLY\n}{v\n}{MEBBE 1\n}{NO WAI\n}{v\n}{OIC\n}",
    "WTF?\n{OMG 1\n}{v\n}{OMGWTF\n}{v\n}{OIC\n}",
    "{SUM OF }{NOT }{1 }{AN 1 }{MKAY }",
    "{SMOOSH }{1 }{AN 1 }{MKAY }{AN }{MKAY }",
    "{SRS }{v }{'Z w}{ R}{ 1}",
    "{GIMMEH }{v }\n{v R }{1 }\n{FOUND YR }{1 }",
    "HOW IZ I{ v}{ YR}{ AN}{ w}{ SRS}\nIF U SAY SO\n{v\n}",
    "I IZ{ v}{ YR}{ AN}{ 1}{ MKAY}\n{v\n}",
    "IM IN YR{ v}{ UPPIN}{ YR}{ w}{ WILE}{ 1}\nIM OUTTA YR v",
    "v{ R}{ 1}{\n}w{ HAS A}{ v}{ ITZ}{ 1}",
];
/// Texts.
pub const TEXTS: &[&str] = &[
    "\"{a}{:\"}{é}{:}{\n}{::}\" x",
    "\"{a}{:\"}{é}{\n}{:}",
    "BTW{ }{é}{x}\n{ }x",
    "OBTW{ }{é}{\n}{TLD}TLDR{R}{ }x{ TLDR}",
    "OBTW{é}{\n}{ }{TLD}{\r}",
    "v {0}{1}.{0}{9}{1} x",
    "{-}{0}{9}.{9}{0}",
    "{+}{-}{0}{1}{.}{0}{ }{x}",
    "{a}{_}{1}{é}{'}{Z}",
    "{ }{\t}{\r}{\n}x{ }{\n}{\r\n}y",
    "{.}{\u{2026}}{.}{,}{!}{?}{...}",
    "IM{ }IN{ }YR{x}{\n}",
    "{é}{漢}{\n}{𝄞}{a}{\n}v",
    "{v R \"s\"\n}{VISIBLE 1.5!,}{BTW c\n}{OBTW\nTLDR\n}GTFO",
];
fn places(thorough: bool) -> Vec<usize> {
    let mut v = vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33];
    if thorough {
        v.extend([50, 63, 64, 65, 100, 101, 127, 128, 129]);
    }
    v
}
/// One place growing far, two growing together, three growing a little; the others there once, or not at all.
fn over(run: &Run, name: &str, oracle: &str, templates: &'static [&'static str], one: &[usize], two: &[usize], three: &[usize], parts: impl Fn(&str) -> Vec<Vec<Part>> + Sync) {
    let o = run.oracle(oracle);
    let ts: Vec<Template> = templates.iter().map(|t| Template::new(t)).collect();
    // (template, places that grow)
    let mut jobs: Vec<(usize, Vec<usize>)> = vec![];
    for (k, t) in ts.iter().enumerate() {
        for a in 0..t.spots {
            jobs.push((k, vec![a]));
            for b in a + 1..t.spots {
                jobs.push((k, vec![a, b]));
                for c in b + 1..t.spots {
                    if three.len() > 1 {
                        jobs.push((k, vec![a, b, c]));
                    }
                }
            }
        }
    }
    run.par(name, &format!("{} templates, {} ways to choose at most three of their repeated parts; one part repeated {one:?} times, two {two:?} times each, three {three:?} times each; the others once, or left out", ts.len(), jobs.len()), jobs.len() as u64, |w, i| {
        let (k, grow) = &jobs[i as usize];
        let t = &ts[*k];
        let ns = [one, two, three][grow.len() - 1];
        for others in [0, 1] {
            for mut c in 0..ns.len().pow(grow.len() as u32) {
                let mut n = vec![others; t.spots];
                for g in grow {
                    n[*g] = ns[c % ns.len()];
                    c /= ns.len();
                }
                for p in parts(&t.text(&n)) {
                    if !w.eval(o, &p) {
                        return;
                    }
                }
            }
        }
    });
}
fn upto(n: usize) -> Vec<usize> {
    (0..=n).collect()
}
pub fn programs(run: &Run, oracle: &str) {
    let th = run.thorough;
    over(run, "programs growing in several places", oracle, PROGRAMS, &upto(if th { 300 } else { 130 }), &places(th), if th { &[0, 1, 2, 3, 5, 8, 9, 17] } else { &[0, 1, 2, 3, 9] }, |t| vec![vec![Part::S(pspaces::lines_of(t))]]);
}
/// For oracles that run many variants of each program.
pub fn programs_few(run: &Run, oracle: &str) {
    let th = run.thorough;
    let two: &[usize] = if th { &[0, 1, 2, 3, 5, 9, 17] } else { &[0, 2, 3, 9] };
    over(run, "programs growing in several places", oracle, PROGRAMS, if th { &[0, 2, 3, 5, 9, 17, 20, 33] } else { &[0, 2, 3, 5, 9, 17, 20] }, two, if th { &[0, 1, 2, 3] } else { &[0, 2] }, |t| vec![vec![Part::S(pspaces::lines_of(t))]]);
}
/// Each program in the company of others.
pub fn programs_with(run: &Run, oracle: &str, parts: impl Fn(Vec<crate::syms::S>) -> Vec<Vec<Part>> + Sync) {
    let th = run.thorough;
    let two: &[usize] = if th { &[0, 1, 2, 3, 5, 9, 17] } else { &[0, 2, 3, 9] };
    over(run, "programs growing in several places, with others", oracle, PROGRAMS, if th { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 17, 20, 33, 65, 130] } else { &[0, 2, 3, 5, 9, 17, 33, 65] }, two, if th { &[0, 1, 2, 3] } else { &[0, 2] }, |t| parts(pspaces::lines_of(t)));
}
pub fn texts(run: &Run, oracle: &str) {
    let th = run.thorough;
    let mut one = upto(300);
    for k in 9..=if th { 17 } else { 12 } {
        one.extend([(1 << k) - 1, 1 << k, (1 << k) + 1]);
    }
    over(run, "texts growing in several places", oracle, TEXTS, &one, &places(th), if th { &[0, 1, 2, 3, 5, 8, 9, 17] } else { &[0, 1, 2, 3, 9] }, |t| vec![vec![Part::T(t.to_string())]]);
}
/// Each template with all parts repeated equally often.
pub fn samples() -> Vec<Vec<crate::syms::S>> {
    PROGRAMS.iter().map(|t| Template::new(t)).flat_map(|t| [0, 1, 2, 4].map(|n| pspaces::lines_of(&t.text(&vec![n; t.spots])))).collect()
}
