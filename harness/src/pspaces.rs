//! Parser properties: the spaces they are explored over.
use crate::engine::{Part, Run, Worker};
use crate::forms;
use crate::gen::{self, Viable};
use crate::lchecks::{self, strs, CORE};
use crate::lmodel;
use crate::pchecks::{self, BASE};
use crate::pmodel;
use crate::syms::{self, src, S};
use std::collections::HashMap;
use S::*;

fn all() -> Vec<Vec<S>> {
    gen::singles(&syms::all_syms())
}
/// One representative of every role a token can play.
pub const ROLES: &[S] = &[
    V, INT, STRN, NL, COMMA, ELL, BANG, QUEST, SLOT, COM1, COMM, PLUS, K_I_HAS_A, K_ITZ, K_R, K_HAS_A, K_VISIBLE, K_GIMMEH, K_FOUND_YR, K_GTFO,
    K_I_IZ, K_YR, K_AN, K_MKAY, K_SRS, K_HAI, K_NOT, K_SUM_OF, K_SMOOSH, K_O_RLY, K_YA_RLY, K_MEBBE, K_NO_WAI, K_OIC, K_WTF, K_OMG, K_OMGWTF,
    K_IM_IN_YR, K_UPPIN, K_TIL, K_IM_OUTTA_YR, K_HOW_IZ_I, K_IF_U_SAY_SO, K_NUMBR, K_NOOB, K_MAEK,
];
const EXPR: &[S] = &[V, INT, K_SRS, SLOT, K_AN, K_MKAY, K_NOT, K_SUM_OF, K_SMOOSH];
const SIMPLE: &[S] = &[
    V, INT, K_SRS, SLOT, K_AN, K_MKAY, K_NOT, K_SUM_OF, K_SMOOSH, K_R, K_I_HAS_A, K_ITZ, K_NUMBR, K_HAS_A, K_VISIBLE, BANG, K_GIMMEH, K_FOUND_YR, K_GTFO,
    K_I_IZ, K_YR, K_HAI, K_KTHXBYE,
];
/// Whole lines, for nesting constructs deep.
fn lines() -> Vec<Vec<S>> {
    [
        "v\n", "VISIBLE \"s\"\n", "O RLY?\n", "YA RLY\n", "MEBBE v\n", "NO WAI\n", "OIC\n", "WTF?\n", "OMG 1\n", "OMGWTF\n", "IM IN YR v\n", "IM OUTTA YR v\n",
        "HOW IZ I v\n", "IF U SAY SO\n", "GTFO\n", "IM IN YR v UPPIN YR w TIL v\n",
    ]
    .iter()
    .map(|l| with_nl(l))
    .collect()
}
fn with_nl(l: &str) -> Vec<S> {
    let mut v = src(l);
    if l.ends_with('\n') {
        v.push(NL);
    }
    v
}
/// Symbols of a text, line breaks before and after it included.
pub fn lines_of(t: &str) -> Vec<S> {
    let mut v = src_nl(t);
    let end = t.len() - t.trim_end_matches('\n').len();
    while v.len() > 1 && v[v.len() - 1] == NL {
        v.pop();
    }
    v.extend(vec![NL; end]);
    v
}
/// Error-free sample programs covering every form of the language.
pub const PROGRAMS: &[&str] = &[
    "HAI 1.5\nVISIBLE \"s\"!\nKTHXBYE",
    "I HAS A v\nI HAS A w ITZ NUMBR\nI HAS A Func_1 ITZ SUM OF v AN 1",
    "I HAS A SRS v ITZ BUKKIT\nv HAS A w ITZ 1\nv'Z w R 1.5\nGIMMEH v'Z SRS w",
    "v R SMOOSH v AN \"s\" AN w MKAY\nw R NOT FAIL",
    "VISIBLE v w 1 \"s\" SMOOSH v w MKAY SUM OF 1 1!",
    "I IZ Func_1 YR 1 AN YR SUM OF v AN w AN YR \"s\" MKAY",
    "I IZ Func_1 MKAY, I IZ SRS v YR ALL OF WIN AN FAIL MKAY MKAY",
    "BOTH SAEM v AN 1, O RLY?\nYA RLY\nVISIBLE v\nMEBBE BOTH OF v AN w\nGTFO\nMEBBE v\nNO WAI\nv R 1\nOIC",
    "O RLY?\nYA RLY\nOIC\nv",
    "O RLY?\nOIC",
    "O RLY?\nNO WAI\nv\nOIC\nw",
    "O RLY?\nMEBBE v\nw\nOIC",
    "v, WTF?\nOMG 1\nVISIBLE v\nGTFO\nOMG \"s\"\nOMGWTF\nw R 1\nOIC\nVISIBLE w",
    "WTF?\nOIC",
    "WTF?\nOMGWTF\nv\nOIC",
    "WTF?\nOMG SUM OF 1 AN 1\nOIC, GTFO",
    "IM IN YR v UPPIN YR w TIL BOTH SAEM w AN 1\nVISIBLE w\nGTFO\nIM OUTTA YR v",
    "IM IN YR v NERFIN YR w'Z v WILE DIFFRINT w AN 1\nIM OUTTA YR v",
    "IM IN YR v\nIM OUTTA YR v",
    "IM IN YR v WILE WIN\nv\nIM OUTTA YR v\nv",
    "IM IN YR v UPPIN YR w\nw\nIM OUTTA YR v",
    "HOW IZ I Func_1 YR v AN YR w\nFOUND YR SUM OF v AN w\nIF U SAY SO\nv R I",
    "HOW IZ I Func_1\nGTFO\nIF U SAY SO",
    "HOW IZ I SRS v YR SRS w\nIF U SAY SO\nv",
    "O RLY?\nYA RLY\nO RLY?\nYA RLY\nv\nNO WAI\nw\nOIC\nMEBBE w\nv\nNO WAI\nO RLY?\nOIC\nOIC\nv",
    "WTF?\nOMG 1\nWTF?\nOMG 1\nv\nOMGWTF\nw\nOIC\nOMGWTF\nWTF?\nOIC\nv\nOIC\nw",
    "IM IN YR v\nIM IN YR w\nv\nIM OUTTA YR w\nw\nIM OUTTA YR v\nv",
    "HOW IZ I v\nIM IN YR w\nO RLY?\nYA RLY\nWTF?\nOMG 1\nFOUND YR v\nOIC\nOIC\nIM OUTTA YR w\nIF U SAY SO\nv",
    "HOW IZ I v\nHOW IZ I w\nv\nIF U SAY SO\nw\nIF U SAY SO",
    "EITHER OF WON OF v AN w AN ANY OF v AN w MKAY\nBIGGR OF 1 AN SMALLR OF 1 AN 1",
    "PRODUKT OF QUOSHUNT OF 1 1 MOD OF DIFF OF 1 1 1",
    "NOT NOT NOT v\nALL OF NOT v AN ANY OF v w MKAY AN w",
    "SMOOSH SMOOSH v MKAY SMOOSH SMOOSH w MKAY MKAY\nSMOOSH MKAY\nSMOOSH",
    "v'Z w'Z Func_1'Z SRS v\nSRS v'Z SRS w",
    "FOUND YR v\nGTFO\nKTHXBYE\nHAI\nHAI 1.5 v",
    "1\nWIN\nNOOB\n\"s\"\n1.5",
    "VISIBLE\nVISIBLE!\nVISIBLE \"s\nt\" v!\nv R \"s\nt\", GTFO",
];
pub fn programs() -> Vec<Vec<S>> {
    PROGRAMS.iter().map(|p| src(p)).collect()
}
/// Where an expression may stand: what comes before it and after it.
const PLACES: &[(&str, &str)] = &[
    ("", ""),
    ("VISIBLE", ""),
    ("VISIBLE v", "!"),
    ("v R", ""),
    ("I HAS A v ITZ", ""),
    ("v HAS A w ITZ", ""),
    ("FOUND YR", ""),
    ("I IZ v YR", ""),
    ("I IZ v YR w AN YR", "MKAY"),
    ("IM IN YR v TIL", "\nIM OUTTA YR v"),
    ("IM IN YR v UPPIN YR w WILE", "\nIM OUTTA YR v"),
    ("O RLY?\nMEBBE", "\nOIC"),
    ("WTF?\nOMG", "\nv\nOIC"),
];
fn src_nl(l: &str) -> Vec<S> {
    // leading line breaks count too
    let mut v = vec![];
    for _ in 0..l.len() - l.trim_start_matches('\n').len() {
        v.push(NL);
    }
    v.extend(src(l.trim_start_matches('\n')));
    if l.ends_with('\n') && l.len() > 1 {
        v.push(NL);
    }
    v
}
fn conts() -> Vec<Vec<S>> {
    let mut v = vec![vec![]];
    v.extend(gen::singles(ROLES));
    for l in ["\nv", "\nOIC", "\nIM OUTTA YR v", "\nIF U SAY SO", "v\nOIC\nOIC", "\nYA RLY", "\nOMGWTF\nv", "MKAY MKAY", "AN v", "YR v MKAY", "v v v"] {
        v.push(src_nl(l));
    }
    v
}
fn closing_conts() -> Vec<Vec<S>> {
    let mut v = vec![];
    // one to three closers after each other, in every order, then a statement
    let c = ["\nOIC", "\nIM OUTTA YR v", "\nIF U SAY SO", " v", " MKAY", ""];
    for a in c {
        for b in c {
            for d in c {
                let t = format!("{a}{b}{d}\nv");
                let mut s = src_nl(&t);
                if s.is_empty() {
                    s = vec![NL];
                }
                v.push(s);
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

fn ev(o: usize) -> impl Fn(&mut Worker, &[S], bool) + Sync {
    move |w, s, _| {
        w.eval(o, &[Part::S(s.to_vec())]);
    }
}
fn ev_acc(o: usize) -> impl Fn(&mut Worker, &[S], bool) + Sync {
    move |w, s, acc| {
        if acc {
            w.eval(o, &[Part::S(s.to_vec())]);
        }
    }
}
/// Viable-prefix search, evaluating accepted sequences only when `acc`.
fn viable(run: &Run, name: &str, oracle: &str, groups: &[Vec<S>], max: usize, pre: &[S], post: &[S], acc: bool) {
    let o = run.oracle(oracle);
    let v = Viable { groups, max, pre: pre.to_vec(), post: post.to_vec() };
    if acc {
        v.explore(run, name, ev_acc(o));
    } else {
        v.explore(run, name, ev(o));
    }
}
fn list(run: &Run, name: &str, bound: &str, oracle: &str, v: Vec<Vec<S>>) {
    let v: Vec<Vec<Part>> = v.into_iter().map(|s| vec![Part::S(s)]).collect();
    run.list(name, bound, oracle, &v);
}

/// All results of one change to a program: delete, insert, replace, swap, duplicate, cut.
fn mutants(s: &[S]) -> Vec<Vec<S>> {
    let mut v = Vec::new();
    for i in 0..=s.len() {
        v.push(s[..i].to_vec());
        v.push(s[i..].to_vec());
        for &x in syms::ALL {
            let mut t = s.to_vec();
            t.insert(i, x);
            v.push(t);
            if i < s.len() && s[i] != x {
                let mut t = s.to_vec();
                t[i] = x;
                v.push(t);
            }
        }
        if i < s.len() {
            let mut t = s.to_vec();
            t.remove(i);
            v.push(t);
        }
        if i + 1 < s.len() {
            let mut t = s.to_vec();
            t.swap(i, i + 1);
            v.push(t);
        }
    }
    // whole lines deleted, doubled, swapped
    let ls: Vec<Vec<S>> = s.split(|x| *x == NL).map(|l| l.to_vec()).collect();
    for i in 0..ls.len() {
        let mut t = ls.clone();
        t.remove(i);
        v.push(t.join(&NL));
        let mut t = ls.clone();
        t.insert(i, ls[i].clone());
        v.push(t.join(&NL));
        if i + 1 < ls.len() {
            let mut t = ls.clone();
            t.swap(i, i + 1);
            v.push(t.join(&NL));
        }
    }
    v
}
fn mutations(run: &Run, oracle: &str, thorough: bool) {
    let ps = programs();
    let o = run.oracle(oracle);
    run.par("one change to a sample program", &format!("{} programs, every deletion, insertion and replacement of one of {} tokens, swap, cut, line change", ps.len(), syms::ALL.len()), ps.len() as u64, |w, i| {
        for m in mutants(&ps[i as usize]) {
            if !w.eval(o, &[Part::S(m)]) {
                return;
            }
        }
    });
    if thorough {
        // two changes, on the shorter programs, with the role alphabet
        let short: Vec<Vec<S>> = ps.iter().filter(|p| p.len() <= 14).cloned().collect();
        let jobs: Vec<Vec<S>> = short.iter().flat_map(|p| mutants(p)).collect();
        run.par("two changes to a sample program", &format!("{} programs of at most 14 tokens", short.len()), jobs.len() as u64, |w, i| {
            let s = &jobs[i as usize];
            for k in 0..=s.len() {
                for &x in ROLES {
                    let mut t = s.clone();
                    t.insert(k, x);
                    if !w.eval(o, &[Part::S(t)]) {
                        return;
                    }
                }
                if k < s.len() {
                    let mut t = s.clone();
                    t.remove(k);
                    if !w.eval(o, &[Part::S(t)]) {
                        return;
                    }
                }
            }
        });
    }
}

/// Sequences by structure: every one of `v` evaluated, in each of the given surroundings.
fn shapes(run: &Run, name: &str, bound: &str, oracle: &str, v: &[Vec<S>], around: &[(&str, &str)]) {
    let o = run.oracle(oracle);
    let ar: Vec<(Vec<S>, Vec<S>)> = around.iter().map(|(a, z)| (forms::line(a), forms::line(z))).collect();
    run.par(name, &format!("{} {bound}, in {} surroundings", v.len(), ar.len()), v.len() as u64, |w, i| {
        for (a, z) in &ar {
            if !w.eval(o, &[Part::S([a, &v[i as usize][..], z].concat())]) {
                return;
            }
        }
    });
}
const ALONE: &[(&str, &str)] = &[("", "")];
/// Every single-token change to the statements and blocks of every documented form.
fn form_mutants(run: &Run, oracle: &str) {
    let o = run.oracle(oracle);
    let mut v = forms::simple_few();
    v.extend(forms::blocks_few());
    if run.thorough {
        v.extend(forms::simple());
    }
    run.par("one change to every documented form", &format!("{} statements and blocks, every deletion, insertion and replacement of one of {} tokens, swap, cut, line change", v.len(), syms::ALL.len()), v.len() as u64, |w, i| {
        for m in mutants(&v[i as usize]) {
            if !w.eval(o, &[Part::S(m)]) {
                return;
            }
        }
    });
}
fn all_forms() -> Vec<Vec<S>> {
    let mut v = forms::product(forms::SIMPLE, &forms::Fill::few());
    v.extend(forms::simple());
    v.extend(forms::blocks_few());
    v.extend(forms::nested(1));
    v
}

/// Names, values, comments and places other than the usual ones: programs x dressings.
fn dressed(run: &Run, oracle: &str, bad: bool) {
    let o = run.oracle(oracle);
    let th = run.thorough;
    let mut v = programs();
    v.extend(all_forms());
    v.extend(forms::nested(2));
    v.extend(crate::grid::samples());
    for n in [2usize, 5, 20, 70] {
        v.extend(families(n));
        if bad {
            v.extend(bad_families(n));
        }
    }
    let n = v.len();
    let ds: Vec<u32> = (1..=syms::DRESSINGS).collect();
    run.par("other names, values and places", &format!("{n} programs and documented forms, {} dressings: names equal, distinct, long, spelled like keywords or not like names; extreme values; comment texts; shifted, stretched and reversed columns, lines and offsets; lists of names, values, texts and symbols", ds.len()), n as u64, |w, i| {
        for k in &ds {
            if !w.eval(o, &[Part::S(v[i as usize].clone()), Part::N(vec![*k as i64])]) {
                return;
            }
        }
    });
    if bad {
        let mut small = forms::simple_few();
        small.extend(programs());
        small.extend(forms::blocks_few());
        small.retain(|s| th || s.len() <= 16);
        let ds: &[i64] = if th { &[1, 2, 3, 4, 6, 9, 12, 16] } else { &[1, 2, 4, 16] };
        run.par("other names, values and places in malformed programs", &format!("{} programs and documented forms, every deletion, insertion and replacement of one token, {} dressings", small.len(), ds.len()), small.len() as u64, |w, i| {
            for m in mutants(&small[i as usize]) {
                for k in ds {
                    if !w.eval(o, &[Part::S(m.clone()), Part::N(vec![*k])]) {
                        return;
                    }
                }
            }
        });
        let stray = [PLUS, V, INT, STR, FLOAT, COM1];
        let more = syms::DRESSINGS - syms::BASIC;
        let mut short: Vec<Vec<S>> = small.iter().filter(|s| s.len() <= if th { 7 } else { 5 }).cloned().collect();
        short.extend(["VISIBLE \"s\"!", "VISIBLE \"s\" v", "v R \"s\"", "1.5", "O RLY?", "WTF?", "OMG \"s\"", "OMG 1", "MEBBE \"s\"", "HAI 1.5\nv"].iter().map(|s| src(s)));
        short.sort();
        short.dedup();
        run.par("listed names, values and symbols in malformed statements", &format!("{} short statements, every deletion, insertion and replacement of one token, {more} dressings", short.len()), short.len() as u64, |w, i| {
            for m in mutants(&short[i as usize]) {
                for k in syms::BASIC + 1..=syms::DRESSINGS {
                    if !w.eval(o, &[Part::S(m.clone()), Part::N(vec![k as i64])]) {
                        return;
                    }
                }
            }
        });
        let some = if th { small } else { small.into_iter().step_by(4).collect::<Vec<_>>() };
        run.par("stray names, values and symbols of every listed spelling", &format!("{} programs and documented forms, one of {} tokens inserted or put in another's place, {more} dressings", some.len(), stray.len()), some.len() as u64, |w, i| {
            let s = &some[i as usize];
            for x in stray {
                for at in 0..=s.len() {
                    for cut in 0..=1 {
                        if at + cut > s.len() {
                            continue;
                        }
                        let mut m = s.clone();
                        m.splice(at..at + cut, [x]);
                        for k in syms::BASIC + 1..=syms::DRESSINGS {
                            if !w.eval(o, &[Part::S(m.clone()), Part::N(vec![k as i64])]) {
                                return;
                            }
                        }
                    }
                }
            }
        });
    }
    let is_name = |x: &&S| matches!(x, V | W | FN);
    run.par("equal names", &format!("{n} programs and documented forms, every two of the first 40 names equal, all others distinct"), n as u64, |w, i| {
        let s = &v[i as usize];
        let c = s.iter().filter(is_name).count().min(40) as u32;
        for a in 0..c {
            for b in a + 1..c {
                if !w.eval(o, &[Part::S(s.clone()), Part::N(vec![(syms::PAIR + a * 64 + b) as i64])]) {
                    return;
                }
            }
        }
    });
}
pub fn c27(run: &Run) {
    let th = run.thorough;
    let same = "dressing_same";
    gen::trie(run, "token sequences, every token at one place of its line", same, &gen::singles(ROLES), if th { 4 } else { 3 }, &[], &[]);
    viable(run, "programs of whole lines, every token at one place of its line", same, &lines(), if th { 6 } else { 5 }, &[], &[], false);
    viable(run, "expressions, every token at one place of its line", same, &gen::singles(EXPR), if th { 7 } else { 6 }, &[], &[], false);
    let mut v = programs();
    v.extend(all_forms());
    list(run, "sample programs and documented forms, every token at one place of its line", "all", same, v);
    scale(run, "growing programs, every token at one place of its line", same, families);
    scale(run, "growing malformed programs, every token at one place of its line", same, bad_families);
    crate::grid::programs(run, same);
    dressed(run, "dressing", true);
    let o = run.oracle("dressing");
    for (n, last) in [(3, syms::DRESSINGS), (4, syms::BASIC)] {
        if n == 4 && !th {
            continue;
        }
        let total = gen::words_upto(ROLES.len(), n);
        run.par(&format!("token sequences of at most {n}"), &format!("every sequence of <= {n} of {} tokens by role, {last} dressings", ROLES.len()), total, |w, i| {
            let s: Vec<S> = gen::word_upto(i, ROLES.len(), n).iter().map(|k| ROLES[*k]).collect();
            for k in 1..=last {
                if !w.eval(o, &[Part::S(s.clone()), Part::N(vec![k as i64])]) {
                    return;
                }
            }
        });
    }
    // statements about the same few names, in every combination of lines
    let ls = src_lines();
    let n = if th { 4 } else { 3 };
    let total = gen::pow(ls.len(), n);
    run.par("programs of whole lines", &format!("every sequence of {n} of {} lines, names equal, distinct or spelled like keywords", ls.len()), total, |w, i| {
        let s: Vec<S> = gen::word(i, ls.len(), n).iter().flat_map(|k| [&ls[*k][..], &[NL]].concat()).collect();
        for k in [1i64, 2, 4, 7, 16] {
            if !w.eval(o, &[Part::S(s.clone()), Part::N(vec![k])]) {
                return;
            }
        }
    });
}
pub fn c28(run: &Run) {
    let th = run.thorough;
    let kinds: Vec<S> = syms::ALL.iter().copied().filter(|s| s.tt().is_some()).collect();
    let (o, od) = (run.oracle("convert"), run.oracle("convert_dressed"));
    let before: Vec<Vec<S>> = vec![vec![], vec![NL], vec![V], vec![NL, NL, V, STR, NL], vec![NL; 300]];
    run.par("tokens", &format!("each of {} kinds of token, at {} places, as written and in {} dressings: as a type, as a value, in each of the 22 operators and types", kinds.len(), before.len(), syms::DRESSINGS), kinds.len() as u64, |w, i| {
        for b in &before {
            let s: Vec<S> = b.iter().copied().chain([kinds[i as usize]]).collect();
            if !w.eval(o, &[Part::S(s.clone())]) {
                return;
            }
            for k in 1..=syms::DRESSINGS {
                if !w.eval(od, &[Part::S(s.clone()), Part::N(vec![k as i64])]) {
                    return;
                }
            }
        }
    });
    let mut v = programs();
    v.extend(all_forms());
    v.extend(forms::nested(2));
    for n in [1usize, 2, 5, 9, 17, 40, 300] {
        v.extend(families(n));
        v.extend(bad_families(n));
    }
    v.extend(crate::grid::samples());
    let (o, od) = (run.oracle("wrap"), run.oracle("wrap_dressed"));
    run.par("nodes of programs", &format!("{} programs and documented forms, as written and in {} dressings: every node wrapped again, every block taken apart and rebuilt", v.len(), syms::DRESSINGS), v.len() as u64, |w, i| {
        let s = &v[i as usize];
        if !w.eval(o, &[Part::S(s.clone())]) {
            return;
        }
        for k in 1..=syms::DRESSINGS {
            if !w.eval(od, &[Part::S(s.clone()), Part::N(vec![k as i64])]) {
                return;
            }
        }
    });
    let o = run.oracle("arrays");
    run.par("blocks made from arrays", &format!("{} programs and documented forms: every array of at most 6 of the first, second and last node, and arrays of up to 17 equal nodes", v.len()), v.len() as u64, |w, i| {
        w.eval(o, &[Part::S(v[i as usize].clone())]);
    });
    let mut small = forms::simple_few();
    small.extend(programs());
    small.extend(forms::blocks_few());
    small.retain(|s| th || s.len() <= 12);
    run.par("nodes of malformed programs", &format!("{} programs and documented forms, every deletion, insertion and replacement of one token", small.len()), small.len() as u64, |w, i| {
        for m in mutants(&small[i as usize]) {
            if !w.eval(o, &[Part::S(m)]) {
                return;
            }
        }
    });
    let n = if th { 4 } else { 3 };
    let total = gen::words_upto(ROLES.len(), n);
    run.par("nodes of short token sequences", &format!("every sequence of <= {n} of {} tokens by role", ROLES.len()), total, |w, i| {
        w.eval(o, &[Part::S(gen::word_upto(i, ROLES.len(), n).iter().map(|k| ROLES[*k]).collect())]);
    });
    let ls = src_lines();
    let n = if th { 4 } else { 3 };
    run.par("blocks of whole lines", &format!("every sequence of {n} of {} lines", ls.len()), gen::pow(ls.len(), n), |w, i| {
        w.eval(o, &[Part::S(gen::word(i, ls.len(), n).iter().flat_map(|k| [&ls[*k][..], &[NL]].concat()).collect())]);
    });
    let vals: Vec<i64> = vec![0, 1, -1, 9, 10, 255, 256, 65_536, i32::MAX as i64, i32::MIN as i64];
    let nv = vals.len() as u64;
    let o = run.oracle("places");
    run.par("places", &format!("every pair of positions with lines and columns from {nv} values up to the extremes, offsets from 3 pairs"), nv * nv * nv * nv * 9, |w, i| {
        let at = |k: u64| vals[(k % nv) as usize];
        let off = [[0, 0], [7, 6], [i32::MAX as i64, i32::MIN as i64]];
        let j = i / 9;
        let (x, y) = (off[(i % 3) as usize], off[(i / 3 % 3) as usize]);
        w.eval(o, &[Part::N(vec![at(j), at(j / nv), x[0], x[1], at(j / nv / nv), at(j / nv / nv / nv), y[0], y[1]])]);
    });
}
fn src_lines() -> Vec<Vec<S>> {
    [
        "v", "I HAS A v", "I HAS A v ITZ w", "I HAS A SRS v ITZ NUMBR", "v R w", "v R 1", "v'Z w R v", "v HAS A w ITZ v", "VISIBLE v w \"s\"!", "GIMMEH v", "FOUND YR v", "GTFO", "I IZ v YR w AN YR v MKAY", "SUM OF v AN w", "NOT v", "ALL OF v AN w AN 1",
        "O RLY?", "YA RLY", "MEBBE v", "NO WAI", "OIC", "WTF?", "OMG 1", "OMG v", "OMGWTF", "IM IN YR v UPPIN YR w TIL v", "IM IN YR v", "IM OUTTA YR v", "IM OUTTA YR w", "HOW IZ I v YR w AN YR v", "HOW IZ I v", "IF U SAY SO", "v w", "v R", "I HAS A", "HAI 1.5", "KTHXBYE",
    ]
    .iter()
    .map(|l| src(l))
    .collect()
}
/// Programs that grow with n, well-formed.
pub fn families(n: usize) -> Vec<Vec<S>> {
    let rep = |x: &str, n: usize| -> Vec<S> { std::iter::repeat_with(|| with_nl(x)).take(n).flatten().collect() };
    let cat = |p: &[&[S]]| p.concat();
    let s = |x: &str| with_nl(x);
    let mut v = vec![
        rep("v\n", n),
        rep("VISIBLE \"s\" v!\n", n),
        rep("v R 1,", n),
        rep("I HAS A v ITZ 1\n", n),
        rep("GTFO, ", n),
        cat(&[&s("VISIBLE"), &rep("v", n)]),
        cat(&[&s("VISIBLE"), &rep("1", n), &s("!")]),
        cat(&[&s("VISIBLE"), &rep("SUM OF 1 AN v", n), &s("!")]),
        cat(&[&s("SMOOSH"), &rep("v AN", n), &s("v MKAY")]),
        cat(&[&s("ALL OF"), &rep("WIN", n)]),
        cat(&[&s("v R ANY OF"), &rep("NOT v AN", n), &s("WIN")]),
        cat(&[&s("I IZ Func_1 YR v"), &rep("AN YR 1", n), &s("MKAY")]),
        cat(&[&s("HOW IZ I Func_1 YR v"), &rep("AN YR w", n), &s("\n"), &[NL], &s("IF U SAY SO\n")]),
        cat(&[&s("HAI"), &rep("1.5", n)]),
        cat(&[&s("v"), &rep("'Z w", n), &s("R 1")]),
        cat(&[&s("v"), &rep("'Z SRS w", n)]),
        cat(&[&s("O RLY?\n"), &rep("MEBBE v\nw\n", n), &s("OIC\n")]),
        cat(&[&s("O RLY?\nYA RLY\n"), &rep("v\n", n), &s("NO WAI\n"), &rep("w\n", n), &s("OIC\n")]),
        cat(&[&s("WTF?\n"), &rep("OMG 1\nv\nGTFO\n", n), &s("OMGWTF\nw\nOIC\n")]),
        cat(&[&s("WTF?\nOMG 1\n"), &rep("v\n", n), &s("OIC\n")]),
        cat(&[&s("IM IN YR v\n"), &rep("v\n", n), &s("IM OUTTA YR v\n")]),
        cat(&[&s("HOW IZ I v\n"), &rep("v R 1\n", n), &s("IF U SAY SO\nv\n")]),
        cat(&[&rep("\n,", 1), &vec![NL; n], &s("v"), &vec![NL; n], &s("w")]),
        cat(&[&vec![COMMA; n], &s("v"), &vec![COMMA; n], &s("w"), &vec![COMMA; n]]),
        cat(&[&s("v R"), &[ELL, NL].repeat(n), &s("1\nw")]),
        cat(&[&s("VISIBLE"), &[V, ELL, NL].repeat(n), &s("w")]),
        cat(&[&s("v R"), &vec![ELL; n], &s("1\nw")]),
        cat(&[&rep("BTW c\n", n), &s("v")]),
        cat(&[&vec![COMM; n], &s("v R"), &vec![COMM; n], &s("1")]),
    ];
    for x in &mut v {
        // a blank line break source gives nothing; keep sequences as they are otherwise
        if x.is_empty() {
            x.push(NL);
        }
    }
    v.extend(nested(n.min(500)));
    v
}
/// Nesting to depth n.
fn nested(n: usize) -> Vec<Vec<S>> {
    let rep = |x: &str| -> Vec<S> { std::iter::repeat_with(|| with_nl(x)).take(n).flatten().collect() };
    let cat = |p: &[&[S]]| p.concat();
    let s = |x: &str| with_nl(x);
    vec![
        cat(&[&rep("NOT"), &s("v")]),
        cat(&[&rep("SUM OF 1 AN"), &s("v")]),
        cat(&[&rep("SUM OF"), &s("v"), &rep("AN 1")]),
        cat(&[&rep("SMOOSH v AN"), &s("w"), &vec![K_MKAY; n]]),
        cat(&[&rep("ALL OF"), &s("v"), &vec![K_MKAY; n / 2]]),
        cat(&[&rep("ANY OF v")]),
        cat(&[&s("v R"), &rep("BOTH OF NOT v AN SMOOSH w MKAY"), &s("v")]),
        cat(&[&rep("O RLY?\nYA RLY\nv\n"), &rep("OIC\n")]),
        cat(&[&rep("O RLY?\nMEBBE v\n"), &s("v\n"), &rep("NO WAI\nw\nOIC\n"), &s("v")]),
        cat(&[&rep("WTF?\nOMG 1\n"), &s("v\n"), &rep("OMGWTF\nOIC\n")]),
        cat(&[&rep("IM IN YR v\n"), &s("v\n"), &rep("IM OUTTA YR v\n"), &s("v\n")]),
        cat(&[&rep("HOW IZ I v\n"), &s("v\n"), &rep("IF U SAY SO\n"), &s("v\n")]),
        cat(&[&rep("HOW IZ I v\nIM IN YR v\nO RLY?\nYA RLY\nWTF?\nOMGWTF\n"), &s("v\n"), &rep("OIC\nOIC\nIM OUTTA YR v\nIF U SAY SO\n"), &s("v\n")]),
    ]
}
/// Malformed programs that grow with n.
pub fn bad_families(n: usize) -> Vec<Vec<S>> {
    let rep = |x: &str, n: usize| -> Vec<S> { std::iter::repeat_with(|| with_nl(x)).take(n).flatten().collect() };
    let cat = |p: &[&[S]]| p.concat();
    let s = |x: &str| with_nl(x);
    let mut v = vec![
        rep("v R\n", n),
        rep("I HAS A\n", n),
        rep("AN\n", n),
        rep("OIC,", n),
        rep("GTFO 1\n", n),
        cat(&[&s("GTFO"), &vec![V; n]]),
        vec![PLUS; n],
        cat(&[&s("VISIBLE"), &vec![PLUS; n]]),
        vec![K_AN; n],
        vec![K_NOT; n.min(500)],
        vec![K_SUM_OF; n.min(500)],
        vec![K_SRS; n],
        vec![BANG; n],
        [V, SLOT].repeat(n),
        rep("O RLY?\nYA RLY\n", n.min(500)),
        rep("WTF?\nOMG 1\n", n.min(500)),
        rep("IM IN YR v\n", n.min(500)),
        rep("HOW IZ I v\n", n.min(500)),
        rep("O RLY\n", n),
        rep("MEBBE v\n", n),
        rep("IF U SAY SO\nIM OUTTA YR v\n", n),
        cat(&[&s("O RLY?\nYA RLY\n"), &rep("v R\n", n), &s("OIC\n"), &s("w")]),
        cat(&[&s("HOW IZ I v\n"), &rep("VISIBLE AN\nv\n", n), &s("IF U SAY SO\n"), &s("w")]),
        cat(&[&s("WTF?\n"), &rep("OMG 1\nv R\n", n), &s("OMGWTF\nI HAS A 1\nOIC\nw")]),
        cat(&[&s("O RLY?\n"), &rep("MEBBE v\nGIMMEH\n", n), &s("NO WAI\nAN\nOIC\nw")]),
        cat(&[&rep("IM IN YR v\nv R\n", n.min(400)), &rep("AN\nIM OUTTA YR v\n", n.min(400)), &s("AN")]),
        cat(&[&rep("O RLY?\nYA RLY\nAN\n", n.min(400)), &rep("NO WAI\nOIC v\nOIC\n", n.min(400)), &s("AN")]),
        cat(&[&s("I IZ v YR 1"), &rep("AN YR 1", n)]),
    ];
    v.push(vec![ELL; n]);
    v.push([ELL, NL].repeat(n));
    v.push([ELL, COMMA].repeat(n));
    v
}
fn sizes(thorough: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (1..=20).collect();
    v.extend([31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 254, 255, 256, 257, 300]);
    if thorough {
        v.extend([511, 512, 513, 1000, 1023, 1024, 1025, 2000]);
    }
    v
}
fn scale(run: &Run, name: &str, oracle: &str, f: fn(usize) -> Vec<Vec<S>>) {
    let ns = sizes(run.thorough);
    let o = run.oracle(oracle);
    let count = f(1).len() as u64;
    run.par(name, &format!("{count} growing programs, each at the {} sizes {:?}", ns.len(), ns), count * ns.len() as u64, |w, i| {
        let n = ns[ns.len() - 1 - (i / count) as usize];
        w.eval(o, &[Part::S(f(n).swap_remove((i % count) as usize))]);
    });
}

/// Very long programs without deep nesting: more tokens, statements, operands, branches and lines than 16 bits count.
fn giant(run: &Run, oracle: &str, bad: bool) {
    crate::grid::programs(run, oracle);
    let o = run.oracle(oracle);
    let fams = |n: usize| -> Vec<Vec<S>> {
        let mut v = families(n);
        v.truncate(v.len() - nested(1).len());
        if bad {
            v.extend(bad_families(n));
        }
        v
    };
    let ns: &[usize] = if run.thorough { &[32_767, 32_768, 65_535, 65_536, 65_537, 70_000, 140_000] } else { &[66_000] };
    // nested without end, and (bad) with an error at the bottom
    let deep: &[usize] = if run.thorough { &[400, 513, 700, 1025, 1500, 2049, 4097] } else { &[400, 513, 1025, 2049] };
    let kinds = nested(1).len() as u64;
    run.par("very deep programs", &format!("{kinds} kinds of nesting at the depths {deep:?}{}", if bad { ", with and without an error at the bottom" } else { "" }), kinds * deep.len() as u64, |w, i| {
        let s = nested(deep[deep.len() - 1 - (i / kinds) as usize]).swap_remove((i % kinds) as usize);
        if w.eval(o, &[Part::S(s.clone())]) && bad {
            let mut t = s;
            let mid = t.iter().position(|x| matches!(*x, K_OIC | K_IM_OUTTA_YR | K_IF_U_SAY_SO | K_MKAY | K_NO_WAI | K_OMGWTF)).unwrap_or(t.len());
            t.splice(mid..mid, [PLUS, NL]);
            w.eval(o, &[Part::S(t)]);
        }
    });
    let count = fams(1).len() as u64;
    run.par("very long programs", &format!("{count} growing programs at the sizes {ns:?}"), count * ns.len() as u64, |w, i| {
        let n = ns[ns.len() - 1 - (i / count) as usize];
        w.eval(o, &[Part::S(fams(n).swap_remove((i % count) as usize))]);
    });
}

/// Long programs without nesting, on a small stack.
pub fn flat(run: &Run) {
    let nests = |s: S| pmodel::binary(s).is_some() || pmodel::nary(s).is_some() || matches!(s, K_NOT | K_O_RLY | K_WTF | K_IM_IN_YR | K_HOW_IZ_I);
    let a: Vec<S> = ROLES.iter().copied().filter(|s| !nests(*s)).collect();
    let pres = ["", "v R", "VISIBLE", "SMOOSH", "I IZ v YR v", "HAI", "O RLY?\nYA RLY\n", "WTF?\nOMG 1\n", "IM IN YR v\n", "HOW IZ I v\n", "HOW IZ I v YR v"];
    let n = if run.thorough { 40_000i64 } else { 10_000 };
    let o = run.oracle("ptotal_flat");
    let units = gen::words_upto(a.len(), 2);
    run.par("long flat programs on a small stack, unoptimised build", &format!("every sequence of <= 2 of {} tokens that open no nesting, repeated {n} times, after each of {pres:?}", a.len()), units, |w, i| {
        let unit: Vec<S> = gen::word_upto(i, a.len(), 2).iter().map(|k| a[*k]).collect();
        for pre in pres {
            if !w.eval(o, &[Part::S(with_nl(pre)), Part::S(unit.clone()), Part::N(vec![n]), Part::S(vec![])]) {
                return;
            }
        }
    });
}

pub fn c09(run: &Run) {
    let th = run.thorough;
    crate::grid::programs(run, "ptotal");
    gen::trie(run, "token sequences", "ptotal", &all(), if th { 4 } else { 3 }, &[], &[]);
    gen::trie(run, "token sequences by role", "ptotal", &gen::singles(ROLES), if th { 5 } else { 4 }, &[], &[]);
    gen::cover(run, "parser configurations", "ptotal", &all(), &if th { all() } else { conts() }, &[], 3, 100_000);
    mutations(run, "ptotal", th);
    form_mutants(run, "ptotal");
    scale(run, "growing programs", "ptotal", families);
    run.unoptimised("C09:flat");
    scale(run, "growing malformed programs", "ptotal", bad_families);
    // arbitrary positions
    let alpha: Vec<S> = ROLES.iter().copied().filter(|s| *s != NL).collect();
    let b = alpha.len();
    let lines: &[i64] = &[0, 1, 2, -1, i32::MAX as i64, i32::MIN as i64];
    let o = run.oracle("ptotal_pos");
    let n = if th { 3 } else { 2 };
    let per = lines.len().pow(2);
    run.par("hand-made positions", &format!("every sequence of <= {n} of {b} tokens, each with every start and end line of {lines:?}"), gen::words_upto(b, n), |w, i| {
        let idx = gen::word_upto(i, b, n);
        let s: Vec<S> = idx.iter().map(|k| alpha[*k]).collect();
        let few = idx.len() >= 3;
        let combos = if few { lines.len().pow(3) } else { per.pow(idx.len() as u32) };
        for c in 0..combos {
            let mut k = c;
            let mut p = Vec::new();
            for _ in 0..idx.len() {
                if few {
                    // start and end line equal for the longest sequences
                    p.push(lines[k % lines.len()]);
                    p.push(lines[k % lines.len()]);
                    k /= lines.len();
                } else {
                    p.push(lines[k % lines.len()]);
                    k /= lines.len();
                    p.push(lines[k % lines.len()]);
                    k /= lines.len();
                }
            }
            if !w.eval(o, &[Part::S(s.clone()), Part::N(p)]) {
                return;
            }
        }
    });
    // four layout-relevant tokens with positions going back and forth
    let small = [V, COMMA, ELL, K_NOT, K_O_RLY, QUEST, K_OIC, COMM];
    let m = if th { 5u32 } else { 4 };
    let lv = [1i64, 2, 0];
    run.par("positions going back and forth", &format!("every sequence of {m} of {} tokens with lines from {lv:?}", small.len()), gen::pow(small.len(), m) * gen::pow(lv.len(), m), |w, i| {
        let q = gen::pow(lv.len(), m);
        let s: Vec<S> = gen::word(i / q, small.len(), m).iter().map(|k| small[*k]).collect();
        let p: Vec<i64> = gen::word(i % q, lv.len(), m).iter().flat_map(|k| [lv[*k], lv[*k]]).collect();
        w.eval(o, &[Part::S(s), Part::N(p)]);
    });
    lchecks::text_trie(run, "texts", "ptotal_text", &lchecks::pieces(), if th { 3 } else { 2 }, "", "");
    lchecks::text_trie(run, "texts of core pieces", "ptotal_text", &strs(CORE), if th { 4 } else { 3 }, "", "");
    dressed(run, "ptotal_dressed", true);
}

fn no_joins(v: &[S]) -> Vec<Vec<S>> {
    gen::singles(&v.iter().copied().filter(|s| *s != ELL && !s.is_comment()).collect::<Vec<_>>())
}
pub fn c10(run: &Run) {
    let th = run.thorough;
    gen::trie(run, "token sequences", "separators", &no_joins(&syms::all_syms()), 3, &[], &[]);
    gen::trie(run, "token sequences by role", "separators", &no_joins(ROLES), if th { 4 } else { 3 }, &[], &[]);
    viable(run, "well-formed prefixes", "separators", &no_joins(ROLES), if th { 5 } else { 4 }, &[], &[], false);
    viable(run, "programs of whole lines", "separators", &lines(), if th { 6 } else { 5 }, &[], &[], false);
    list(run, "sample programs", "all separator and continuation deviations, singly and in pairs", "separators", programs());
    list(run, "every documented form", "all separator and continuation deviations", "separators", all_forms());
    mutations_small(run, "separators");
    crate::grid::programs_few(run, "separators");
    scale_small(run, "separators");
    let mut runs = Vec::new();
    for s in ["v\nw", "v R 1\nVISIBLE w!\nGTFO", "O RLY?\nYA RLY\nv\nNO WAI\nw\nOIC\nv", "WTF?\nOMG 1\nv\nOMGWTF\nw\nOIC", "IM IN YR v\nw\nIM OUTTA YR v", "HOW IZ I v YR w\nFOUND YR w\nIF U SAY SO\nI IZ v MKAY", "v R\nv 1\nw", "I HAS A\nOIC"] {
        for kind in 0..3 {
            for n in [10i64, 100, 127, 128, 254, 255, 256, 257, 511, 512, 1023, 1024, 1025, 32767, 32768, 65535, 65536, 65537] {
                runs.push(vec![Part::S(src(s)), Part::N(vec![kind, n])]);
            }
        }
    }
    run.list("long runs of separators", "8 programs, every separator a run of up to 65537 newlines, commas or both", "separator_runs", &runs);
    viable(run, "layouts of well-formed prefixes", "layout_text", &gen::singles(ROLES), if th { 5 } else { 4 }, &[], &[], false);
    gen::trie(run, "layouts of token sequences", "layout_text", &gen::singles(ROLES), 3, &[], &[]);
    list(run, "layouts of sample programs", "all layouts", "layout_text", programs());
}
pub fn c11(run: &Run) {
    let th = run.thorough;
    gen::trie(run, "token sequences", "comments", &all(), if th { 3 } else { 2 }, &[], &[]);
    gen::trie(run, "token sequences by role", "comments", &gen::singles(ROLES), if th { 4 } else { 3 }, &[], &[]);
    viable(run, "well-formed prefixes", "comments", &gen::singles(ROLES), if th { 5 } else { 4 }, &[], &[], false);
    viable(run, "programs of whole lines", "comments", &lines(), if th { 5 } else { 4 }, &[], &[], false);
    list(run, "sample programs", "a comment at every place, and every pair of places", "comments", programs());
    list(run, "every documented form", "a comment at every place, and every pair of places", "comments", all_forms());
    mutations_small(run, "comments");
    crate::grid::programs_few(run, "comments");
    notes(run);
    viable(run, "layouts of well-formed prefixes", "layout_text", &gen::singles(ROLES), if th { 5 } else { 4 }, &[], &[], false);
    list(run, "layouts of sample programs", "all layouts", "layout_text", programs());
}
/// What comments may say.
fn notes(run: &Run) {
    const A: &[&str] = &["", " ", "x", "B", "\u{e9}", "\"", ":", ",", ".", "\u{2026}", "!", "?", "\t", "0", "-", "\r", "'", "_", "\n"];
    let th = run.thorough;
    let mut v: Vec<String> = vec![];
    let n = if th { 4 } else { 3 };
    for k in 0..A.len().pow(n) {
        let mut k = k;
        let mut t = String::new();
        for _ in 0..n {
            t.push_str(A[k % A.len()]);
            k /= A.len();
        }
        v.push(t);
    }
    for s in syms::ALL.iter().filter(|s| s.tt().is_some()) {
        let t = s.text();
        v.extend([t.to_string(), format!(" {t}"), format!(" {t} "), format!("  {t} v {t}")]);
    }
    for c in (0..0x250u32).chain([0x2028, 0x2029, 0x200b, 0xfeff, 0xfffd, 0x1f600, 0x10ffff, 0x3000, 0x85, 0xa0]).filter_map(char::from_u32) {
        v.extend([format!(" {c}"), format!("{c} "), format!("{c}")]);
    }
    for x in ["x", " ", "\u{e9}", "BTW ", "\u{1F600}", ".", "TLD"] {
        let mut l: Vec<usize> = (1..300).collect();
        for k in 9..=if th { 17 } else { 12 } {
            l.extend([(1 << k) - 1, 1 << k, (1 << k) + 1]);
        }
        v.extend(l.iter().map(|n| format!(" {}", x.repeat(*n))));
    }
    v.extend(["#!/bin/lol", " TODO", " TODO: x", " noqa", " @generated", " eslint-disable", " fmt: off", " -*- mode: lol -*-", " vim: ft=lol", "TLDR", " OBTW", " KTHXBYE\n"].map(String::from));
    v.sort();
    v.dedup();
    let o = run.oracle("notes");
    run.par("texts of comments", &format!("{} texts: all of at most {n} of {} pieces, all keywords and signs, single characters, lengths to 4096 and beyond; in comments of both kinds at the line ends and between the tokens of {} programs", v.len(), A.len(), NOTED.len()), v.len() as u64, |w, i| {
        for p in NOTED {
            if !w.eval(o, &[Part::S(src(p)), Part::T(v[i as usize].clone())]) {
                return;
            }
        }
    });
}
const NOTED: &[&str] = &["v", "v R 1\nw", "VISIBLE v!\nAN\nO RLY?\nYA RLY\nv\nOIC", "HOW IZ I v YR w\nFOUND YR w\nIF U SAY SO", "v R\nSMOOSH 1 2\nw", ""];
/// Role-alphabet mutations of the sample programs (for oracles that run many variants).
fn mutations_small(run: &Run, oracle: &str) {
    let ps = programs();
    let o = run.oracle(oracle);
    let jobs: Vec<(usize, usize)> = ps.iter().enumerate().flat_map(|(i, p)| (0..p.len()).map(move |k| (i, k))).collect();
    run.par("one token of a sample program deleted or replaced", &format!("{} programs x every place x 9 replacements", ps.len()), jobs.len() as u64, |w, i| {
        let (p, k) = jobs[i as usize];
        let mut t = ps[p].clone();
        t.remove(k);
        if t.len() < 40 && !w.eval(o, &[Part::S(t)]) {
            return;
        }
        for x in [PLUS, K_AN, K_MKAY, V, NL, K_OIC, K_R, K_NOT, K_SRS] {
            let mut t = ps[p].clone();
            t[k] = x;
            if t.len() < 40 && !w.eval(o, &[Part::S(t)]) {
                return;
            }
        }
    });
}
fn scale_small(run: &Run, oracle: &str) {
    let o = run.oracle(oracle);
    let jobs: Vec<Vec<S>> = [2usize, 5, 9, 17].iter().flat_map(|n| families(*n)).filter(|s| s.len() < 80).collect();
    run.par("growing programs", "sizes 2, 5, 9, 17 (up to 80 tokens)", jobs.len() as u64, |w, i| {
        w.eval(o, &[Part::S(jobs[i as usize].clone())]);
    });
}

pub fn c12(run: &Run) {
    let th = run.thorough;
    for (i, (pre, post)) in PLACES.iter().enumerate() {
        let pre = src_nl(pre);
        let post = src_nl(post);
        let n = match (i, th) {
            (0, true) => 9,
            (0, false) => 8,
            (_, true) => 8,
            (_, false) => 6,
        };
        viable(run, &format!("expressions in {:?}", PLACES[i].0), "wf", &gen::singles(EXPR), n, &pre, &post, true);
    }
    // every operator, every operand, every place
    let any: Vec<S> = syms::ALL
        .iter()
        .copied()
        .filter(|s| pmodel::is_ident(*s) || pmodel::is_literal(*s) || pmodel::binary(*s).is_some() || pmodel::nary(*s).is_some() || matches!(s, K_SRS | SLOT | K_AN | K_MKAY | K_NOT))
        .collect();
    for (i, (pre, post)) in PLACES.iter().enumerate() {
        viable(run, &format!("every operator and operand in {:?}", PLACES[i].0), "wf", &gen::singles(&any), if th { 5 } else { 4 }, &src_nl(pre), &src_nl(post), true);
    }
    shapes(run, "operators over operands of every shape", "expressions", "wf", &operations(th), PLACES);
    scale(run, "growing programs", "wf", families);
    list(run, "sample programs", "all", "wf", programs());
    dressed(run, "wf_dressed", false);
    giant(run, "wf", false);
}
/// Every operand form (with all triples of operand shapes when `wide`).
fn operations(wide: bool) -> Vec<Vec<S>> {
    let e = forms::Fill::full();
    let mut v = forms::product(&["<E>", "<O>", "NOT <E>", "NOT <O>", "SUM OF <E> <E>", "BOTH SAEM <E> AN <E>", "DIFFRINT <E> AN <O>", "SMOOSH <E> <E> MKAY", "ALL OF <E> AN <E>", "ANY OF <E> AN <E> AN MKAY", "SMOOSH <E> <O>"], &e);
    let three = ["SMOOSH <E> AN <E> <E> MKAY", "SUM OF <E> AN MOD OF <E> <E>", "EITHER OF ANY OF <E> AN <E> MKAY AN <E>", "NOT ALL OF <E> ALL OF <E> <E> MKAY MKAY"];
    v.extend(forms::product(&three, &if wide { forms::Fill::full() } else { forms::Fill::few() }));
    v
}
pub fn c13(run: &Run) {
    let th = run.thorough;
    viable(run, "all tokens", "wf", &all(), if th { 5 } else { 4 }, &[], &[], true);
    shapes(run, "every filling of every statement form", "statements", "wf", &forms::product(forms::SIMPLE, &forms::Fill { v: forms::Fill::few().v, ..forms::Fill::full() }), ALONE);
    shapes(run, "every variable in every statement form", "statements", "wf", &forms::product(forms::SIMPLE, &forms::Fill { e: forms::exprs_few(), ..forms::Fill::full() }), ALONE);
    shapes(run, "statements that end in an open expression", "statements", "wf", &forms::product(forms::SIMPLE_OPEN, &forms::Fill::full()), ALONE);
    let mut every = forms::vary(forms::SIMPLE, &forms::Fill::full(), true);
    every.extend(forms::simple());
    shapes(run, "statement forms within programs", "statements", "wf", &every, AROUND);
    let mut few = forms::simple_few();
    few.extend(forms::blocks_few());
    pairs_of(run, "pairs of documented forms", "wf", &few, &few);
    viable(run, "simple statements", "wf", &gen::singles(SIMPLE), if th { 7 } else { 6 }, &[], &[], true);
    let mut sl = SIMPLE.to_vec();
    sl.extend([NL, COMMA]);
    viable(run, "sequences of simple statements", "wf", &gen::singles(&sl), if th { 7 } else { 5 }, &[], &[], true);
    for (pre, post) in AROUND {
        viable(run, &format!("simple statements after {pre:?}"), "wf", &gen::singles(SIMPLE), if th { 6 } else { 5 }, &src_nl(pre), &src_nl(post), true);
    }
    scale(run, "growing programs", "wf", families);
    list(run, "sample programs", "all", "wf", programs());
    history_pairs(run, "wf_pair");
    dressed(run, "wf_dressed", false);
    giant(run, "wf", false);
}
const AROUND: &[(&str, &str)] = &[
    ("O RLY?\nYA RLY\n", "\nOIC"),
    ("WTF?\nOMG 1\n", "\nOIC\nv"),
    ("IM IN YR v\n", "\nIM OUTTA YR v"),
    ("HOW IZ I v\nv\n", "\nv\nIF U SAY SO"),
    ("v R 1\n", "\nGTFO"),
    ("VISIBLE v!,", ", KTHXBYE"),
];
/// All ordered pairs of accepted short statements, so that what came before cannot matter.
fn history_pairs(run: &Run, oracle: &str) {
    let stmts = short_statements(3);
    let o = run.oracle(oracle);
    let n = stmts.len() as u64;
    let lim = if run.thorough { n } else { n.min(700) };
    run.par("pairs of statements", &format!("{lim} x {n} well-formed statements of at most 3 tokens by role"), lim * n, |w, i| {
        let mut v = stmts[(i / n) as usize].clone();
        v.push(NL);
        v.extend_from_slice(&stmts[(i % n) as usize]);
        w.eval(o, &[Part::S(v)]);
    });
}
/// Well-formed single statements of at most n tokens over the roles, plus longer samples.
pub fn short_statements(n: u32) -> Vec<Vec<S>> {
    let alpha: Vec<S> = ROLES.iter().copied().filter(|s| !matches!(s, NL | COMMA | ELL | COM1 | COMM | STRN)).collect();
    let mut v: Vec<Vec<S>> = Vec::new();
    for i in 1..gen::words_upto(alpha.len(), n) {
        let s: Vec<S> = gen::word_upto(i, alpha.len(), n).iter().map(|k| alpha[*k]).collect();
        if pmodel::parse(&s).errors == 0 {
            v.push(s);
        }
    }
    v.sort_by_key(|s| s.len());
    let mut long: Vec<Vec<S>> = programs();
    long.extend(v);
    long
}
pub fn c14(run: &Run) {
    let th = run.thorough;
    let ls = lines();
    shapes(run, "every block form with every statement in its branches", "blocks", "wf", &forms::blocks(&forms::simple()), ALONE);
    shapes(run, "block forms with two fillings varied", "blocks", "wf", &forms::vary(forms::BLOCKS, &forms::Fill::full(), true), if th { AROUND } else { ALONE });
    shapes(run, "block forms inside block forms", "blocks", "wf", &forms::nested(2), AROUND);
    shapes(run, "three levels of block forms", "blocks", "wf", &forms::nested(3), ALONE);
    let few = forms::nested(1);
    pairs_of(run, "pairs of block forms", "wf", &few, &few);
    viable(run, "programs of whole lines", "wf", &ls, if th { 8 } else { 7 }, &[], &[], true);
    for (pre, post) in [
        ("O RLY?\nYA RLY\n", "OIC\nv"),
        ("O RLY?\nNO WAI\n", "OIC"),
        ("O RLY?\nMEBBE v\n", "NO WAI\nw\nOIC\nv"),
        ("WTF?\nOMG 1\n", "OIC\nv"),
        ("WTF?\nOMGWTF\n", "OIC\nv"),
        ("IM IN YR v\n", "IM OUTTA YR v\nv"),
        ("HOW IZ I v\n", "IF U SAY SO\nv"),
        ("HOW IZ I v\nIM IN YR v\nO RLY?\nYA RLY\n", "OIC\nIM OUTTA YR v\nIF U SAY SO\nv"),
        ("WTF?\nOMG 1\nO RLY?\nMEBBE v\n", "OIC\nOIC\nv"),
    ] {
        viable(run, &format!("lines inside {pre:?}"), "wf", &ls, if th { 6 } else { 5 }, &src_nl(pre), &src_nl(post), true);
        viable(run, &format!("tokens inside {pre:?}"), "wf", &gen::singles(ROLES), if th { 5 } else { 4 }, &src_nl(pre), &[&[NL], &src_nl(post)[..]].concat(), true);
    }
    // headers
    for (pre, post) in [
        ("IM IN YR v", "\nv\nIM OUTTA YR v"),
        ("HOW IZ I", "\nv\nIF U SAY SO"),
        ("O RLY?\nMEBBE", "\nv\nOIC"),
        ("WTF?\nOMG", "\nv\nOIC"),
        ("O RLY?\n", "\nv\nOIC"),
        ("WTF?\n", "\nOIC"),
        ("IM IN YR v UPPIN YR v WILE", "\nIM OUTTA YR v"),
    ] {
        viable(run, &format!("headers after {pre:?}"), "wf", &all(), if th { 5 } else { 4 }, &src_nl(pre), &src_nl(post), true);
    }
    gen::cover(run, "parser configurations, closed", "wf", &all(), &closing_conts(), &[], if th { 3 } else { 2 }, 100_000);
    scale(run, "growing programs", "wf", families);
    list(run, "sample programs", "all", "wf", programs());
    history_pairs(run, "wf_pair");
    dressed(run, "wf_dressed", false);
    giant(run, "wf", false);
}
pub fn c15(run: &Run) {
    let th = run.thorough;
    viable(run, "all tokens", "accept", &all(), if th { 4 } else { 3 }, &[], &[], true);
    viable(run, "tokens by role", "accept", &gen::singles(ROLES), if th { 5 } else { 4 }, &[], &[], true);
    viable(run, "simple statements", "accept", &gen::singles(SIMPLE), if th { 6 } else { 5 }, &[], &[], true);
    viable(run, "programs of whole lines", "accept", &lines(), if th { 7 } else { 5 }, &[], &[], true);
    viable(run, "expressions", "accept", &gen::singles(EXPR), if th { 7 } else { 6 }, &[], &[], true);
    list(run, "sample programs", "every layout", "accept", programs());
    shapes(run, "every documented form", "statements and blocks, every layout", "accept", &all_forms(), ALONE);
    shapes(run, "block forms inside block forms", "programs, every layout", "accept", &forms::nested(2), ALONE);
    pairs_of(run, "pairs of sample programs", "accept", &programs(), &programs());
    scale(run, "growing programs", "accept", families);
    // values and names of every spelling, in every place that takes one
    let vals = strs(&[
        "0", "-0", "7", "+7", "-7", "007", "2147483647", "-2147483648", "1.5", "-1.5", ".5", "5.", "+.5", "0.0", "\"\"", "\":\"\"", "\"::\"", "\"a b\"", "\"é\"", "\"\n\"", "\"BTW\"", "\"OIC\"", "\"...\"", "\",\"", "\"!\"",
        "\":)\"", "\"'Z\"", "WIN", "FAIL", "NOOB", "a", "A1", "_", "__x", "visible", "VISIBLEx", "OICc", "x9", "an", "Z", "BT", "OMGW", "IM", "OUTTA", "aBTW", "x_OBTW",
    ]);
    let o = run.oracle("accept_text");
    let spots = [
        "VISIBLE {}", "VISIBLE {}!", "VISIBLE {} {} v!", "v R {}", "I HAS A v ITZ {}", "v HAS A w ITZ {}", "FOUND YR {}", "I IZ f YR {} MKAY", "I IZ f YR {} AN YR {} MKAY", "SUM OF {} AN {}", "SUM OF {} {}",
        "NOT {}", "SMOOSH {} AN {} MKAY", "ALL OF {} {}", "{}, O RLY?\nYA RLY\n {}\nMEBBE {}\n {}\nOIC", "{}, WTF?\nOMG {}\n {}\nOIC", "IM IN YR x UPPIN YR y TIL {}\n {}\nIM OUTTA YR x", "HAI {}", "{}", "{},{}",
        "HOW IZ I f\nFOUND YR {}\nIF U SAY SO", "VISIBLE {}, VISIBLE {} BTW {}", "VISIBLE {} ...\n {} \u{2026}\n {}",
    ];
    run.par("spellings of values and names", &format!("{} spellings x {} spellings x {} places", vals.len(), vals.len(), spots.len()), (vals.len() * vals.len()) as u64, |w, i| {
        let (a, b) = (&vals[i as usize / vals.len()], &vals[i as usize % vals.len()]);
        for s in spots {
            let mut t = String::new();
            for (k, piece) in s.split("{}").enumerate() {
                if k > 0 {
                    t.push_str(if k % 2 == 1 { a } else { b });
                }
                t.push_str(piece);
            }
            // a numeral directly before a mark or the dots reads on; that is a matter of spelling
            if t.contains("BTW \"\n\"") || !w.eval(o, &[Part::T(t)]) {
                if w.stopped() {
                    return;
                }
            }
        }
    });
    let names = strs(&["a", "A1", "_", "__x", "visible", "VISIBLEx", "OICc", "x9", "an", "Z", "BT", "OMGW", "IM", "OUTTA", "aBTW", "x_OBTW", "I", "HAS", "SUM", "OF", "YRS", "Func_1", "W1N"]);
    let nspots = [
        "I HAS A {}", "I HAS A SRS {} ITZ NUMBR", "{} R 1", "{}'Z {} R 1", "{}'Z SRS {}", "{} HAS A {} ITZ 1", "GIMMEH {}", "GIMMEH {}'Z {}", "I IZ {} MKAY", "I IZ SRS {} YR {} MKAY", "HOW IZ I {} YR {} AN YR {}\n{} R 1\nIF U SAY SO",
        "IM IN YR {} UPPIN YR {} TIL {}\n{}\nIM OUTTA YR {}", "VISIBLE SRS {} {}",
    ];
    run.par("spellings of names", &format!("{} x {} names x {} places", names.len(), names.len(), nspots.len()), (names.len() * names.len()) as u64, |w, i| {
        let (a, b) = (&names[i as usize / names.len()], &names[i as usize % names.len()]);
        for s in nspots {
            let mut t = String::new();
            for (k, piece) in s.split("{}").enumerate() {
                if k > 0 {
                    t.push_str(if k % 2 == 1 { a } else { b });
                }
                t.push_str(piece);
            }
            // two names side by side must not spell a keyword ("I" "HAS" "A ...", "SUM" "OF")
            let count = |t: &str| lmodel::lex(&t.chars().collect::<Vec<char>>(), true).res.map_or(0, |l| l.len());
            if count(&t) != count(&s.replace("{}", "q")) {
                continue;
            }
            if !w.eval(o, &[Part::T(t)]) {
                return;
            }
        }
    });
    giant(run, "accept_long", false);
}
fn pairs_of(run: &Run, name: &str, oracle: &str, a: &[Vec<S>], b: &[Vec<S>]) {
    let o = run.oracle(oracle);
    let n = b.len() as u64;
    run.par(name, &format!("{} x {}", a.len(), b.len()), a.len() as u64 * n, |w, i| {
        let mut v = a[(i / n) as usize].clone();
        v.push(NL);
        v.extend_from_slice(&b[(i % n) as usize]);
        w.eval(o, &[Part::S(v)]);
    });
}
fn malformed(run: &Run, oracle: &str) {
    let th = run.thorough;
    gen::trie(run, "token sequences", oracle, &all(), if th { 4 } else { 3 }, &[], &[]);
    gen::trie(run, "token sequences by role", oracle, &gen::singles(ROLES), if th { 5 } else { 4 }, &[], &[]);
    gen::cover(run, "parser configurations", oracle, &all(), &if th { all() } else { conts() }, &[], 3, 100_000);
    gen::cover(run, "parser configurations, closed", oracle, &all(), &closing_conts(), &[], 2, 100_000);
    mutations(run, oracle, th);
    form_mutants(run, oracle);
    for (pre, post) in [("O RLY?\nYA RLY\n", "\nOIC\nv"), ("IM IN YR v\n", "\nIM OUTTA YR v\nv"), ("HOW IZ I v\n", "\nIF U SAY SO\nv"), ("WTF?\nOMG 1\n", "\nOIC\nv"), ("v\n", "\nv")] {
        gen::trie(run, &format!("token sequences inside {pre:?}"), oracle, &if th { all() } else { gen::singles(ROLES) }, 3, &src_nl(pre), &src_nl(post));
    }
    for l in ["IM IN YR", "IM IN YR v", "IM IN YR v UPPIN", "IM IN YR v UPPIN YR v", "HOW IZ I v YR v", "I IZ v", "I IZ v YR v", "I HAS A v", "v HAS A", "v'Z", "SUM OF v", "SMOOSH v", "VISIBLE v", "O RLY", "WTF", "IM IN YR v\nIM OUTTA YR"] {
        gen::trie(run, &format!("token sequences after {l:?}"), oracle, &all(), if th { 3 } else { 2 }, &src_nl(l), &[]);
    }
    let mut deep = lines();
    deep.extend(gen::singles(&[V, K_R, K_AN, PLUS]));
    gen::trie(run, "lines and stray tokens", oracle, &deep, if th { 6 } else { 5 }, &[], &[]);
    scale(run, "growing malformed programs", oracle, bad_families);
}
pub fn c16(run: &Run) {
    malformed(run, "silent");
    dressed(run, "silent_dressed", true);
    giant(run, "silent", true);
}
pub fn c17(run: &Run) {
    malformed(run, "errors");
    dressed(run, "errors_dressed", true);
    giant(run, "errors", true);
}

/// Where a malformed statement is put: before, after.
const HOLES: &[(&str, &str)] = &[
    ("", ""),
    ("v R 1", ""),
    ("", "v R 1"),
    ("VISIBLE v", "GTFO"),
    ("v\nw", "I HAS A v\nKTHXBYE"),
    ("O RLY?\nYA RLY", "OIC"),
    ("O RLY?\nYA RLY\nv", "w\nMEBBE v\nw\nNO WAI\nv\nOIC\nw"),
    ("O RLY?\nYA RLY\nv\nMEBBE v", "NO WAI\nv\nOIC\nw"),
    ("O RLY?\nMEBBE v\nv", "w\nMEBBE w\nv\nOIC\nw"),
    ("O RLY?\nNO WAI", "OIC\nw"),
    ("v, O RLY?\nYA RLY\nv\nNO WAI\nv", "w\nOIC\nw"),
    ("WTF?\nOMG 1", "OIC\nv"),
    ("WTF?\nOMG 1\nv", "GTFO\nOMG 1\nv\nOMGWTF\nv\nOIC\nw"),
    ("WTF?\nOMG 1\nv\nOMGWTF", "OIC\nw"),
    ("WTF?\nOMGWTF\nv", "w\nOIC\nw"),
    ("IM IN YR v", "IM OUTTA YR v\nw"),
    ("w\nIM IN YR v UPPIN YR w TIL v\nv", "v\nIM OUTTA YR v\nw"),
    ("HOW IZ I v", "IF U SAY SO\nw"),
    ("HOW IZ I v YR w\nv", "FOUND YR v\nIF U SAY SO\nw"),
    ("HOW IZ I v\nIM IN YR v\nO RLY?\nYA RLY", "OIC\nv\nIM OUTTA YR v\nw\nIF U SAY SO\nw"),
    ("O RLY?\nYA RLY\nWTF?\nOMG 1\nv", "OIC\nNO WAI\nIM IN YR v\nw\nIM OUTTA YR v\nOIC\nw"),
    ("IM IN YR v\nIM IN YR w\nv", "IM OUTTA YR w\nv\nIM OUTTA YR v\nv"),
    ("I HAS A\nv", "w R\nv"),
];
fn is_block_word(s: S) -> bool {
    matches!(
        s,
        K_O_RLY | K_WTF | K_IM_IN_YR | K_HOW_IZ_I | K_YA_RLY | K_MEBBE | K_NO_WAI | K_OIC | K_OMG | K_OMGWTF | K_IM_OUTTA_YR | K_IF_U_SAY_SO
    )
}
pub fn c18(run: &Run) {
    let th = run.thorough;
    let holes: Vec<(Vec<S>, Vec<S>)> = HOLES.iter().map(|(a, b)| (src(a), src(b))).collect();
    let o = run.oracle("locality");
    let line: Vec<S> = syms::ALL.iter().copied().filter(|s| !matches!(s, NL | COMMA | ELL) && !s.is_comment()).collect();
    let roles: Vec<S> = ROLES.iter().copied().filter(|s| !matches!(s, NL | COMMA | ELL) && !s.is_comment()).collect();
    let nh = holes.len() as u64;
    for (alpha, n, what) in [(&line, if th { 3u32 } else { 2 }, "all tokens"), (&roles, if th { 4 } else { 3 }, "tokens by role")] {
        let b = alpha.len();
        run.par(&format!("malformed simple statements, {what}"), &format!("every malformed line of <= {n} of {b} tokens not starting with a block word, in each of {nh} places"), gen::words_upto(b, n), |w, i| {
            let s: Vec<S> = gen::word_upto(i, b, n).iter().map(|k| alpha[*k]).collect();
            if s.is_empty() || is_block_word(s[0]) || pmodel::parse(&s).errors == 0 {
                return;
            }
            for (x, y) in &holes {
                if !w.eval(o, &[Part::S(x.clone()), Part::S(s.clone()), Part::S(y.clone())]) {
                    return;
                }
            }
        });
    }
    // longer malformed lines: mutated simple statements
    let long: Vec<Vec<S>> = [
        "I HAS A v ITZ SUM OF 1 AN v", "v HAS A w ITZ 1", "v'Z SRS w R NOT v", "VISIBLE v SMOOSH v AN w MKAY 1!", "I IZ v YR 1 AN YR w MKAY", "FOUND YR BOTH OF v AN w", "GIMMEH v'Z w", "ALL OF v AN ANY OF w v MKAY AN w", "HAI 1.5", "v R \"s\nt\"",
    ]
    .iter()
    .map(|s| src(s))
    .collect();
    run.par("mutated simple statements", &format!("{} statements, every single change that breaks them, in each of {nh} places", long.len()), long.len() as u64, |w, i| {
        for s in mutants(&long[i as usize]) {
            if s.is_empty() || is_block_word(s[0]) || s.iter().any(|x| matches!(x, NL | COMMA | ELL) || x.is_comment()) || pmodel::parse(&s).errors == 0 {
                continue;
            }
            for (x, y) in &holes {
                if !w.eval(o, &[Part::S(x.clone()), Part::S(s.clone()), Part::S(y.clone())]) {
                    return;
                }
            }
        }
    });
    let every = forms::simple_few();
    let some: Vec<&(Vec<S>, Vec<S>)> = if th { holes.iter().collect() } else { holes.iter().step_by(4).collect() };
    run.par("one change to every simple statement form", &format!("{} statements, every single change that breaks them, in each of {} places", every.len(), some.len()), every.len() as u64, |w, i| {
        for s in mutants(&every[i as usize]) {
            if s.is_empty() || is_block_word(s[0]) || s.iter().any(|x| matches!(x, NL | COMMA | ELL) || x.is_comment()) || pmodel::parse(&s).errors == 0 {
                continue;
            }
            for (x, y) in &some {
                if !w.eval(o, &[Part::S(x.clone()), Part::S(s.clone()), Part::S(y.clone())]) {
                    return;
                }
            }
        }
    });
    // many mistakes in a row, of one kind or of two
    let bad: Vec<Vec<S>> = ["AN", "v R", "I HAS A", "v v", "VISIBLE SUM OF", "I IZ v", "v R 1 2", "MKAY", "FOUND YR", "GIMMEH v v", "SUM OF 1", "I HAS A v ITZ", "v HAS A", "+", "OIC v"].iter().map(|s| src(s)).filter(|s| !is_block_word(s[0]) && pmodel::parse(s).errors > 0).collect();
    let up: Vec<usize> = if th { (0..=66).collect() } else { vec![0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 65] };
    let jobs: Vec<(usize, usize, usize)> = (0..holes.len()).flat_map(|h| (0..bad.len()).flat_map(move |x| (0..2).map(move |k| (h, x, k)))).collect();
    run.par("many mistakes in a row", &format!("{} malformed statements after {up:?} copies of themselves or of another, before 0 to 2 of another, in each of {nh} places", bad.len()), jobs.len() as u64, |w, i| {
        let (h, x, k) = jobs[i as usize];
        let (a, z) = &holes[h];
        for &n in &up {
            for y in 0..bad.len() {
                if k == 0 && y != x {
                    continue;
                }
                if y != x && n > 9 && !th {
                    continue;
                }
                for m in 0..3 {
                    let before: Vec<S> = std::iter::once(a.clone()).filter(|a| !a.is_empty()).chain((0..n).map(|_| bad[y].clone())).collect::<Vec<_>>().join(&NL);
                    let after: Vec<S> = (0..m).map(|_| bad[y].clone()).chain(std::iter::once(z.clone())).collect::<Vec<_>>().join(&NL);
                    if !w.eval(o, &[Part::S(before), Part::S(bad[x].clone()), Part::S(after)]) {
                        return;
                    }
                }
            }
        }
    });
    let (few, z) = (["AN", "v R", "MKAY", "v v"].map(|s| src(s)), src("VISIBLE v"));
    crate::grid::programs_with(run, "locality", |a| {
        if !pmodel::whole(&a) {
            return vec![];
        }
        few.iter().flat_map(|b| [vec![Part::S(a.clone()), Part::S(b.clone()), Part::S(z.clone())], vec![Part::S(z.clone()), Part::S(b.clone()), Part::S(a.clone())]]).collect()
    });
    // malformed headers, outside blocks
    let top: Vec<&(Vec<S>, Vec<S>)> = holes[..5].iter().chain(&holes[22..]).collect();
    let heads = ["O RLY", "WTF", "IM IN YR", "IM IN YR v", "IM IN YR v UPPIN", "IM IN YR v UPPIN YR w", "IM IN YR v TIL", "HOW IZ I", "HOW IZ I v YR", "HOW IZ I v YR v AN", "O RLY?", "WTF?", "IM IN YR v NERFIN YR w'Z"];
    let al = &line;
    let n = if th { 3u32 } else { 2 };
    let b = al.len();
    let nw = gen::words_upto(b, n);
    run.par("malformed headers", &format!("{} header beginnings followed by every line rest of <= {n} of {b} tokens that breaks them, in each of {} places outside blocks", heads.len(), top.len()), nw * heads.len() as u64, |w, i| {
        let mut s = src(heads[(i / nw) as usize]);
        s.extend(gen::word_upto(i % nw, b, n).iter().map(|k| al[*k]));
        let mut t = s.clone();
        t.push(NL);
        t.push(V);
        // the header itself is refused: the next line is a statement again
        let m = pmodel::parse(&t);
        let mut u = s.clone();
        u.push(NL);
        if !pmodel::parse(&u).hard || m.errors == 0 || pmodel::parse_config(&u).depth > 1 {
            return;
        }
        for (x, y) in &top {
            if !w.eval(o, &[Part::S(x.clone()), Part::S(s.clone()), Part::S(y.clone())]) {
                return;
            }
        }
    });
}
pub fn c19(run: &Run) {
    let th = run.thorough;
    let o = run.oracle("compose");
    let alpha = gen::singles(ROLES);
    let b = alpha.len();
    let seq = |n: u32| -> Vec<Vec<S>> { (0..gen::words_upto(b, n)).map(|i| gen::word_upto(i, b, n).iter().map(|k| ROLES[*k]).collect()).collect() };
    let two = seq(2);
    let (n2, nn) = (two.len() as u64, two.len() as u64);
    run.par("pairs of short sequences", &format!("every pair of sequences of <= 2 of {b} tokens by role, well-formed or not"), n2 * nn, |w, i| {
        w.eval(o, &[Part::S(two[(i / nn) as usize].clone()), Part::S(two[(i % nn) as usize].clone())]);
    });
    let mut st = short_statements(3);
    st.extend(HOLES.iter().map(|(a, _)| src(a)));
    st.extend(PROGRAMS.iter().flat_map(|p| {
        let s = src(p);
        (1..s.len()).map(move |k| s[..k].to_vec()).collect::<Vec<_>>()
    }));
    let ns = st.len() as u64;
    let lim = if th { ns } else { 500 };
    run.par("pairs of statements and programs", &format!("{lim} x {ns} programs: samples, all their prefixes, well-formed statements of at most 3 tokens"), lim * ns, |w, i| {
        let (x, y) = ((i / ns) as usize, (i % ns) as usize);
        if w.eval(o, &[Part::S(st[x].clone()), Part::S(st[y].clone())]) && x != y {
            w.eval(o, &[Part::S(st[y].clone()), Part::S(st[x].clone())]);
        }
    });
    let mut fo = forms::simple_few();
    fo.extend(forms::blocks_few());
    fo.extend(["AN", "v R", "v v v", "O RLY", "IM IN YR v w", "I HAS A 1"].iter().map(|s| src(s)));
    let nf = fo.len() as u64;
    run.par("pairs of documented forms", &format!("{nf} x {nf}"), nf * nf, |w, i| {
        w.eval(o, &[Part::S(fo[(i / nf) as usize].clone()), Part::S(fo[(i % nf) as usize].clone())]);
    });
    // one after three, three after one
    let three = seq(3);
    let nt = three.len() as u64;
    let few: Vec<Vec<S>> = HOLES.iter().map(|(_, z)| src(z)).chain(["v", "AN", "O RLY?", "VISIBLE v!", "I HAS A"].iter().map(|s| src(s))).collect();
    run.par("short sequences with samples", &format!("{nt} sequences of <= 3 tokens by role before and after each of {} samples", few.len()), nt, |w, i| {
        for f in &few {
            let x = &three[i as usize];
            if !w.eval(o, &[Part::S(x.clone()), Part::S(f.clone())]) || !w.eval(o, &[Part::S(f.clone()), Part::S(x.clone())]) {
                return;
            }
        }
    });
    // long histories before short ones
    let ns = sizes(th);
    let count = (families(1).len() + bad_families(1).len()) as u64;
    run.par("growing programs before others", &format!("{count} growing programs at {} sizes, each before and after samples", ns.len()), count * ns.len() as u64, |w, i| {
        let n = ns[ns.len() - 1 - (i / count) as usize];
        let mut f = families(n);
        f.extend(bad_families(n));
        let a = f.swap_remove((i % count) as usize);
        for z in ["v", "AN\nv", "O RLY?\nYA RLY\nv\nOIC\nw", "v R"] {
            if !w.eval(o, &[Part::S(a.clone()), Part::S(src(z))]) || !w.eval(o, &[Part::S(src(z)), Part::S(a.clone())]) {
                return;
            }
        }
    });
    let others = ["v", "AN\nv", "O RLY?\nYA RLY\nv\nOIC\nw", "v R"].map(|z| src(z));
    crate::grid::programs_with(run, "compose", |a| others.iter().flat_map(|z| [vec![Part::S(a.clone()), Part::S(z.clone())], vec![Part::S(z.clone()), Part::S(a.clone())]]).collect());
    let n = if th { 140_000 } else { 66_000 };
    let mut f = families(n);
    f.truncate(f.len() - nested(1).len());
    f.extend(bad_families(n));
    run.par("very long programs before others", &format!("{} growing programs at size {n}, each before and after samples", f.len()), f.len() as u64, |w, i| {
        let a = &f[i as usize];
        for z in ["v", "AN\nv"] {
            if !w.eval(o, &[Part::S(a.clone()), Part::S(src(z))]) || !w.eval(o, &[Part::S(src(z)), Part::S(a.clone())]) {
                return;
            }
        }
    });
}
pub fn c20(run: &Run) {
    let th = run.thorough;
    let o = "iter_errors";
    gen::trie(run, "token sequences", o, &all(), 3, &[], &[]);
    let mut ls = lines();
    ls.extend(["AN\n", "v R\n", "v v\n", "I HAS A 1\n"].iter().map(|l| with_nl(l)));
    gen::trie(run, "programs of good and bad lines", o, &ls, if th { 6 } else { 5 }, &[], &[]);
    viable_errors(run, o, th);
    // an error, or several, in every place of every construct
    let holes: Vec<(Vec<S>, Vec<S>)> = HOLES.iter().map(|(a, b)| (src(a), src(b))).collect();
    let oi = run.oracle(o);
    let bads: Vec<Vec<S>> = ["AN", "v R", "v v v", "I HAS A", "I HAS A 1", "IM OUTTA YR v", "NOT", "v HAS A", "GIMMEH", "+", "I IZ v YR", "O RLY", "IM IN YR", "OIC OIC", "HOW IZ I 1"].iter().map(|s| src(s)).collect();
    let nb = bads.len() as u64;
    run.par("several errors per block", &format!("{nb}^3 error triples in {} places", holes.len()), nb * nb * nb, |w, i| {
        for (a, z) in &holes {
            let mut v = a.clone();
            for k in [i / nb / nb, i / nb % nb, i % nb] {
                v.push(NL);
                v.extend_from_slice(&bads[k as usize]);
            }
            v.push(NL);
            v.extend_from_slice(z);
            if !w.eval(oi, &[Part::S(v)]) {
                return;
            }
        }
    });
    mutations(run, o, th);
    form_mutants(run, o);
    gen::cover(run, "parser configurations, closed", o, &gen::singles(ROLES), &closing_conts(), &[], if th { 3 } else { 2 }, 100_000);
    scale(run, "growing malformed programs", o, bad_families);
    scale(run, "growing programs", o, families);
    dressed(run, "iter_errors_dressed", true);
    giant(run, "iter_errors", true);
}
/// Nested constructs in which every statement position may hold a good or a bad statement.
fn viable_errors(run: &Run, oracle: &str, th: bool) {
    let skel = [
        "O RLY?\nYA RLY\n@\nMEBBE v\n@\nMEBBE w\n@\nNO WAI\n@\nOIC\n@",
        "WTF?\nOMG 1\n@\nOMG 1\n@\nOMGWTF\n@\nOIC\n@",
        "@\nIM IN YR v\n@\nIM OUTTA YR v\n@",
        "@\nHOW IZ I v\n@\n@\nIF U SAY SO\n@",
        "O RLY?\nYA RLY\n@\nO RLY?\nYA RLY\n@\nNO WAI\n@\nOIC\n@\nNO WAI\n@\nOIC\n@",
        "WTF?\nOMG 1\nWTF?\nOMG 1\n@\nOMGWTF\n@\nOIC\n@\nOMGWTF\n@\nOIC\n@",
        "HOW IZ I v\n@\nIM IN YR v\n@\nO RLY?\nYA RLY\n@\nWTF?\nOMG 1\n@\nOIC\n@\nOIC\n@\nIM OUTTA YR v\n@\nIF U SAY SO\n@",
        "IM IN YR v\nIM IN YR v\n@\nIM OUTTA YR v\n@\nIM OUTTA YR v\nHOW IZ I v\n@\nIF U SAY SO\n@",
        "O RLY?\nMEBBE v\nWTF?\nOMG 1\n@\nOMGWTF\n@\nOIC\n@\nNO WAI\nIM IN YR v\n@\nIM OUTTA YR v\n@\nOIC\n@",
    ];
    let fill = if th { vec!["v", "AN", "v v", ""] } else { vec!["v", "AN", "v v"] };
    let o = run.oracle(oracle);
    let jobs: Vec<(usize, u64)> = skel
        .iter()
        .enumerate()
        .flat_map(|(i, s)| {
            let n = s.matches('@').count() as u32;
            (0..gen::pow(fill.len(), n)).map(move |k| (i, k))
        })
        .collect();
    run.par("good or bad statement at every place", &format!("{} nested skeletons, every filling of all their statement places with {fill:?}", skel.len()), jobs.len() as u64, |w, i| {
        let (k, f) = jobs[i as usize];
        let n = skel[k].matches('@').count() as u32;
        let c = gen::word(f, fill.len(), n);
        let mut t = String::new();
        for (j, piece) in skel[k].split('@').enumerate() {
            if j > 0 {
                t.push_str(fill[c[j - 1]]);
            }
            t.push_str(piece);
        }
        w.eval(o, &[Part::S(src_nl(&t))]);
    });
}
fn expression_spaces(run: &Run, oracle: &str) {
    let th = run.thorough;
    viable(run, "expressions", oracle, &gen::singles(EXPR), if th { 9 } else { 8 }, &[], &[], true);
    let any: Vec<S> = syms::ALL
        .iter()
        .copied()
        .filter(|s| pmodel::is_ident(*s) || pmodel::is_literal(*s) || pmodel::binary(*s).is_some() || pmodel::nary(*s).is_some() || matches!(s, K_SRS | SLOT | K_AN | K_MKAY | K_NOT))
        .collect();
    viable(run, "every operator and operand", oracle, &gen::singles(&any), if th { 6 } else { 5 }, &[], &[], true);
    let mut lay = EXPR.to_vec();
    lay.extend([NL, COMMA, ELL, COMM, STRN]);
    viable(run, "expressions over several lines", oracle, &gen::singles(&lay), if th { 7 } else { 6 }, &[], &[], true);
    let mut asg = EXPR.to_vec();
    asg.push(K_R);
    viable(run, "expressions and assignments", oracle, &gen::singles(&asg), if th { 8 } else { 7 }, &[], &[], true);
    viable(run, "values assigned", oracle, &gen::singles(&any), if th { 5 } else { 4 }, &src("v R"), &[], true);
    viable(run, "values assigned to a slot, over several lines", oracle, &gen::singles(&lay), if th { 6 } else { 5 }, &src("v'Z SRS w R"), &[], true);
    scale(run, "growing programs", oracle, families);
    list(run, "sample programs", "all", oracle, programs());
    // every shape of variable next to every operator
    let vars = ["v", "SRS v", "v'Z w", "SRS v'Z w", "v'Z SRS w", "SRS v'Z SRS w", "v'Z w'Z v", "v'Z SRS w'Z SRS v", "1", "\"s\"", "NOOB", "SMOOSH", "SMOOSH MKAY", "ALL OF v AN", "ALL OF v AN MKAY", "NOT v", "SUM OF v w", "SUM OF v AN w"];
    let mut v = Vec::new();
    for a in vars {
        for b in vars {
            for c in vars {
                v.push(src(&format!("SUM OF {a} AN {b}")));
                v.push(src(&format!("BOTH SAEM {a} {b}")));
                v.push(src(&format!("SMOOSH {a} AN {b} AN {c} MKAY")));
                v.push(src(&format!("ANY OF {a} {b} {c}")));
                v.push(src(&format!("ALL OF {a} AN {b} {c} AN MKAY")));
                v.push(src(&format!("NOT EITHER OF {a} AN BOTH OF {b} {c}")));
                v.push(src(&format!("SUM OF SMOOSH {a} AN {b} MKAY AN {c}")));
                v.push(src(&format!("{a}\n{b}\n{c}")));
                v.push(src(&format!("{a} R {b}\n{c}")));
                v.push(src(&format!("{a} R SUM OF {b} AN {c}")));
            }
        }
    }
    v.sort();
    v.dedup();
    shapes(run, "operators over operands of every shape", "expressions", oracle, &operations(th), ALONE);
    list(run, "every shape of operand", "18 operand shapes in 8 forms with 3 operands", oracle, v);
}
pub fn c21(run: &Run) {
    expression_spaces(run, "etokens");
    dressed(run, "etokens_dressed", false);
    giant(run, "etokens", false);
}
pub fn c22(run: &Run) {
    expression_spaces(run, "erange");
    dressed(run, "erange_dressed", false);
    giant(run, "erange", false);
}
pub fn c25(run: &Run) {
    let th = run.thorough;
    let o = "provenance";
    gen::trie(run, "token sequences", o, &all(), if th { 4 } else { 3 }, &[], &[]);
    gen::trie(run, "token sequences by role", o, &gen::singles(ROLES), if th { 5 } else { 4 }, &[], &[]);
    gen::cover(run, "parser configurations", o, &all(), &conts(), &[], if th { 3 } else { 2 }, 100_000);
    viable(run, "programs of whole lines", o, &lines(), if th { 7 } else { 6 }, &[], &[], false);
    viable(run, "expressions", o, &gen::singles(EXPR), if th { 8 } else { 7 }, &[], &[], false);
    mutations(run, o, th);
    form_mutants(run, o);
    list(run, "every documented form", "all", o, all_forms());
    scale(run, "growing programs", o, families);
    scale(run, "growing malformed programs", o, bad_families);
    lchecks::text_trie(run, "texts", "provenance_text", &lchecks::pieces(), if th { 3 } else { 2 }, "", "");
    lchecks::text_trie(run, "texts of core pieces", "provenance_text", &strs(CORE), if th { 4 } else { 3 }, "", "");
    let v: Vec<Vec<Part>> = PROGRAMS.iter().flat_map(|p| pchecks::layouts(&src(p))).map(|t| vec![Part::T(t)]).collect();
    run.list("sample programs as text", "every layout", "provenance_text", &v);
    dressed(run, "provenance_dressed", true);
    giant(run, "provenance", true);
}
pub fn c26(run: &Run) {
    let th = run.thorough;
    let o = run.oracle("equality");
    let al = syms::all_syms();
    let b = al.len();
    let one: Vec<Vec<S>> = (0..gen::words_upto(b, 1)).map(|i| gen::word_upto(i, b, 1).iter().map(|k| al[*k]).collect()).collect();
    let two: Vec<Vec<S>> = (0..gen::words_upto(ROLES.len(), 2)).map(|i| gen::word_upto(i, ROLES.len(), 2).iter().map(|k| ROLES[*k]).collect()).collect();
    let (na, nb) = (one.len() as u64, two.len() as u64);
    run.par("pairs of single tokens", &format!("{na} x {na}"), na * na, |w, i| {
        w.eval(o, &[Part::S(one[(i / na) as usize].clone()), Part::S(one[(i % na) as usize].clone())]);
    });
    run.par("pairs of short sequences", &format!("every pair of sequences of <= 2 tokens by role ({nb} x {nb})"), nb * nb, |w, i| {
        w.eval(o, &[Part::S(two[(i / nb) as usize].clone()), Part::S(two[(i % nb) as usize].clone())]);
    });
    let mut st = short_statements(if th { 4 } else { 3 });
    st.truncate(if th { 6000 } else { 1500 });
    let ns = st.len() as u64;
    run.par("pairs of well-formed statements", &format!("{ns} x {ns}"), ns * ns, |w, i| {
        w.eval(o, &[Part::S(st[(i / ns) as usize].clone()), Part::S(st[(i % ns) as usize].clone())]);
    });
    let em = run.oracle("equality_mut");
    let mut progs = programs();
    progs.extend(HOLES.iter().map(|(a, z)| [src(a), vec![NL, K_AN, NL], src(z)].concat()));
    progs.extend(["v R", "I HAS A 1", "I IZ", "I IZ v YR", "I IZ v", "O RLY", "O RLY?\nMEBBE", "IM IN YR", "IM IN YR 1", "IM IN YR v UPPIN", "IM IN YR v UPPIN v", "IM IN YR v R", "IM IN YR v UPPIN YR v R", "IM IN YR v TIL", "IM IN YR v\nv\nIM OUTTA YR", "IM IN YR v\nIM OUTTA YR 1", "IM IN YR v", "HOW IZ I", "HOW IZ I v\n", "v v", "v v v v", "SUM OF", "GIMMEH", "v HAS A", "I HAS A v ITZ", "+ ! ? ,", "v BTW c\nw", "OBTW c TLDR v"].iter().map(|s| src(s)));
    progs.extend(forms::simple_few());
    progs.extend(forms::blocks_few());
    progs.extend(crate::grid::samples().into_iter().filter(|s| s.len() < if th { 400 } else { 100 }));
    let jobs: Vec<(usize, usize)> = progs.iter().enumerate().flat_map(|(i, p)| (0..p.len()).map(move |k| (i, k))).collect();
    run.par("one token of a program changed", &format!("{} programs, every token, every shift of its places by +-1, every value change, every other token", progs.len()), jobs.len() as u64, |w, i| {
        let (p, k) = jobs[i as usize];
        for kind in 0..7i64 {
            for d in [1i64, -1] {
                if !w.eval(em, &[Part::S(progs[p].clone()), Part::N(vec![k as i64, kind, d])]) {
                    return;
                }
            }
        }
        for x in 0..syms::ALL.len() as i64 {
            if !w.eval(em, &[Part::S(progs[p].clone()), Part::N(vec![k as i64, 9, x])]) {
                return;
            }
        }
    });
    let ed = run.oracle("equality_del");
    let mut forms = progs.clone();
    forms.extend(forms::simple());
    forms.extend(forms::blocks(&[vec![], src("VISIBLE v"), src("v\nGTFO")]));
    run.par("a program without some of its tokens", &format!("{} programs, every 1, 2 or 3 consecutive tokens left out, the others keeping their places", forms.len()), forms.len() as u64, |w, i| {
        let p = &forms[i as usize];
        for c in 1..=3 {
            for k in 0..p.len() {
                if !w.eval(ed, &[Part::S(p.clone()), Part::N(vec![k as i64, c])]) {
                    return;
                }
            }
        }
    });
    // a program against its own mutants
    run.par("a program against its mutants", &format!("{} programs, every single change", progs.len()), progs.len() as u64, |w, i| {
        for m in mutants(&progs[i as usize]) {
            if !w.eval(o, &[Part::S(progs[i as usize].clone()), Part::S(m)]) {
                return;
            }
        }
    });
    let mut ts = lchecks::pieces();
    for a in CORE {
        for b in CORE {
            ts.push(format!("{a}{b}"));
        }
    }
    ts.extend(strs(&[
        "0.00000001", "0.00000002", "0.00000003", "-0.00000001", "0.12345678", "0.12345679", "1.0000001", "1.0000002", "16777216.0", "16777217.0", "16777218.0", "2147483647", "2147483646", "-2147483648", "-2147483647", "1.0", "1.00", "1", "01", "+1", "0.0",
        "abc", "abd", "ABC", "aBc", "abcd", "\"a\"", "\"b\"", "\"A\"", "\"a", "\"\"", "\" \"", "BTW a", "BTW b", "OBTW a TLDR", "OBTW b TLDR", "OBTW a\nTLDR", "1\n", "\n1", "\n\n1", " 1", "SRS v", "    v",
    ]));
    ts.sort();
    ts.dedup();
    let nt = ts.len() as u64;
    let ot = run.oracle("equality_text");
    run.par("pairs of texts", &format!("{nt} x {nt} texts of at most two pieces"), nt * nt, |w, i| {
        w.eval(ot, &[Part::T(ts[(i / nt) as usize].clone()), Part::T(ts[(i % nt) as usize].clone())]);
    });
}
/// Texts for histories and schedules of calls; records the answers of fresh processes.
/// Short texts, and longer ones.
fn call_pool() -> (Vec<String>, Vec<String>) {
    let mut pool: Vec<String> = strs(&[
        "", "v", "w", "VISIBLE v", "VISIBLE w", "VISIBLE \"s\"!", "\"open", "\"", "BTW c", "BTW d\nv", "OBTW", "OBTW open", "OBTW c TLDR v", "v R 1", "v R 2", "v R", "1", "1.5", "-1", "x ...\ny", "O RLY?", "O RLY?\nYA RLY\nv\nOIC", "O RLY?\nYA RLY",
        "IM IN YR a\nIM OUTTA YR a", "IM IN YR a", "HOW IZ I f\nIF U SAY SO", "I IZ f MKAY", "I IZ f", "WTF?\nOMG 1\nOIC", "GTFO GTFO", "é", "\n\n\nv", "   v", "HAI 1.2\nKTHXBYE", "+ + +", "SMOOSH a b", "SMOOSH a b MKAY", "AN", "a, b, c", "2147483648",
    ]);
    // same length, same letters, same beginnings: what a faulty memory might confuse
    pool.extend(strs(&["VISIBLE vv", "VISIBLE wv", "VISIBLE vw", "VISIBLE v ", " VISIBLE v", "v R 12", "v R 21", "v R \"1\"", "v\nw", "w\nv", "v w", "V", "OIC", "v...", "v\u{2026}"]));
    let mut long: Vec<String> = PROGRAMS.iter().map(|p| p.to_string()).filter(|p| p.len() > 60).take(3).collect();
    for n in [9, 17, 33] {
        long.extend([vec!["v"; n].join("\n"), vec!["AN"; n].join(","), format!("SMOOSH {}MKAY", "1 ".repeat(n)), format!("{}v", "NOT ".repeat(n)), format!("\"{}\"", "a".repeat(n * n)), format!("{}v\n{}", "O RLY?\nYA RLY\n".repeat(n), "OIC\n".repeat(n))]);
    }
    long.extend(strs(&["WTF?\nOMG 1\nv\nOMG 2\nw\nGTFO\nOMG \"s\"\nv R 1\nOMGWTF\nVISIBLE v\nOIC\nv\nw\nv\nw", "O RLY?\nYA RLY\nv\nMEBBE w\nv\nMEBBE 1\nw\nNO WAI\nVISIBLE v w 1!\nOIC", "HOW IZ I f YR a AN YR b AN YR c\nI HAS A d ITZ SUM OF a AN b\nFOUND YR d\nIF U SAY SO\nVISIBLE I IZ f YR 1 AN YR 2 AN YR 3 MKAY", "v R\nI HAS A\nAN\nI IZ f\nO RLY\nIM IN YR a UPPIN\nHOW IZ I\nv v\nSUM OF 1\nGIMMEH", "OBTW a\nb\nTLDR\nv BTW c\n\n\n, ,\n  w ...\n  R 1\n"]));
    let all: Vec<String> = pool.iter().chain(&long).cloned().collect();
    let fresh = pchecks::fresh(&all);
    if fresh.iter().any(|f| f.is_empty()) {
        // a fresh process died: the answer itself is what is wrong, and C01/C09 own that
        eprintln!("some texts have no answer in a fresh process");
    }
    let _ = BASE.set(all.into_iter().zip(fresh).collect::<HashMap<_, _>>());
    (pool, long)
}
/// A longer call and another one, short or long, at the same time, cut once.
fn long_schedules(run: &Run, oracle: &str, pool: &[String], long: &[String]) {
    let o = run.oracle(oracle);
    let th = run.thorough;
    let others: Vec<&String> = long.iter().step_by(if th { 1 } else { 3 }).chain(pool.iter().step_by(if th { 4 } else { 16 })).collect();
    // the cost of trying every place grows with the square of their number
    let long: Vec<&String> = long.iter().filter(|t| pchecks::points(t) <= if th { 30_000 } else { 9_000 }).collect();
    let at: Vec<u64> = long.iter().map(|t| pchecks::points(t)).collect();
    let others: Vec<&String> = others.into_iter().filter(|t| !long.is_empty() && pchecks::points(t) <= 9_000).collect();
    let short: Vec<u64> = others.iter().map(|t| pchecks::points(t)).collect();
    let blocks = oracle == "schedule_block";
    // (longer text, other text, the longer one first?, first place, last place)
    let mut units = vec![];
    for a in 0..long.len() {
        for b in 0..others.len() {
            for (first, n) in [(true, at[a]), (false, short[b])] {
                units.extend((0..n.div_ceil(64)).map(|k| (a, b, first, k * 64 + 1, n.min(k * 64 + 64))));
            }
        }
    }
    run.par(&format!("schedules of a longer call and another, 1 switch, {}", if blocks { "at basic blocks" } else { "at heap operations" }), &format!("every pair of one of {} longer texts with up to {} scheduling points and one of {} texts, either first, every place of the switch", long.len(), at.iter().max().unwrap_or(&0), others.len()), units.len() as u64, |w, i| {
        let (a, b, first, from, to) = units[i as usize];
        let (x, y) = if first { (long[a], others[b]) } else { (others[b], long[a]) };
        for k in from..=to {
            if !w.eval(o, &[Part::T(x.clone()), Part::T(y.clone()), Part::N(vec![k as i64])]) {
                return;
            }
        }
    });
}
/// Two calls at the same time, each cut at the scheduling points of this build: every schedule of up to `most`
/// switches between short calls, and of `all` switches for every pair.
fn schedules(run: &Run, oracle: &str, pool: &[String], most: u32, texts: usize, all: u32) {
    let o = run.oracle(oracle);
    let mut two: Vec<(String, u64)> = pool.iter().map(|t| (t.clone(), pchecks::points(t))).collect();
    two.sort_by_key(|t| t.1);
    for switches in 1..=most {
        let lim = if switches <= all { texts } else { (texts / 4).max(2) };
        let tx: Vec<&(String, u64)> = if switches <= all { two.iter().step_by((two.len() / lim).max(1)).collect() } else { two.iter().take(lim).collect() };
        let n = tx.len();
        // one unit: a pair and the place of the first switch
        let units: Vec<(usize, usize, u64)> = (0..n * n).flat_map(|q| (1..=tx[q / n].1).map(move |k| (q / n, q % n, k))).collect();
        let top = tx.iter().map(|t| t.1).max().unwrap_or(0);
        run.par(
            &format!("schedules of two calls, {switches} switches, {}", if oracle == "schedule_heap" { "at heap operations" } else { "at basic blocks" }),
            &format!("every pair of {n} texts with up to {top} scheduling points each, every place of each switch"),
            units.len() as u64,
            |w, i| {
                let (a, b, k) = units[i as usize];
                let m = [tx[b].1, tx[a].1 - k, tx[b].1, tx[a].1 - k];
                let mut plan = vec![k as i64];
                // odometer over the places of the later switches
                plan.extend(std::iter::repeat(1).take(switches as usize - 1));
                if (1..switches as usize).any(|j| m[j - 1] == 0) {
                    return;
                }
                loop {
                    if !w.eval(o, &[Part::T(tx[a].0.clone()), Part::T(tx[b].0.clone()), Part::N(plan.clone())]) {
                        return;
                    }
                    let mut j = switches as usize;
                    loop {
                        j -= 1;
                        if j == 0 {
                            return;
                        }
                        plan[j] += 1;
                        if plan[j] as u64 <= m[j - 1] {
                            break;
                        }
                        plan[j] = 1;
                    }
                }
            },
        );
    }
}
/// Run in the build whose library code has a scheduling point in every basic block.
pub fn sched(run: &Run) {
    let (pool, long) = call_pool();
    schedules(run, "schedule_block", &pool, 2, if run.thorough { pool.len() } else { 27 }, 1);
    long_schedules(run, "schedule_block", &pool, &long);
}
pub fn c23(run: &Run) {
    let th = run.thorough;
    lchecks::text_trie(run, "texts", "staged", &lchecks::pieces(), if th { 3 } else { 2 }, "", "");
    lchecks::text_trie(run, "texts of core pieces", "staged", &strs(CORE), if th { 4 } else { 3 }, "", "");
    let v: Vec<Vec<Part>> = PROGRAMS.iter().flat_map(|p| pchecks::layouts(&src(p))).map(|t| vec![Part::T(t)]).collect();
    run.list("sample programs as text", "every layout", "staged", &v);
    let v: Vec<Vec<Part>> = PROGRAMS.iter().flat_map(|p| { let c: Vec<char> = p.chars().collect(); (0..c.len()).map(|k| c[..k].iter().collect::<String>()).collect::<Vec<_>>() }).map(|t| vec![Part::T(t)]).collect();
    run.list("truncated sample programs", "every prefix", "staged", &v);
    let (pool, long) = call_pool();
    let o = run.oracle("history");
    let both: Vec<&String> = pool.iter().chain(&long).collect();
    let m = both.len() as u64;
    run.par("histories of calls on longer texts", &format!("every sequence of 3 calls on {m} texts of which at least one is one of {} longer ones", long.len()), m * m * m, |w, i| {
        let h = [i / m / m, i / m % m, i % m].map(|k| k as usize);
        if h.iter().any(|k| *k >= pool.len()) {
            w.eval(o, &h.map(|k| Part::T(both[k].clone())));
        }
    });
    let n = pool.len() as u64;
    run.par("histories of one call", &format!("each of {n} texts against a fresh process"), n, |w, i| {
        w.eval(o, &[Part::T(pool[i as usize].clone())]);
    });
    let k = if th { 4u32 } else { 3 };
    let sub = if th { 30.min(pool.len()) } else { pool.len() };
    let total = gen::pow(sub, k);
    run.par("histories of calls", &format!("every sequence of {k} calls on {sub} texts"), total, |w, i| {
        let h: Vec<Part> = gen::word(i, sub, k).iter().map(|x| Part::T(pool[*x].clone())).collect();
        w.eval(o, &h);
    });
    run.par("repeated calls", "each text 5000 times, then every text once", n, |w, i| {
        let mut h: Vec<Part> = (0..5000).map(|_| Part::T(pool[i as usize].clone())).collect();
        h.extend(pool.iter().map(|t| Part::T(t.clone())));
        w.eval(o, &h);
    });
    run.par("long mixed histories", "all texts in turn, from each starting text, in steps of 1..=7", n * 7, |w, i| {
        let (s, d) = ((i / 7) as usize, (i % 7) as usize + 1);
        let h: Vec<Part> = (0..300).map(|k| Part::T(pool[(s + k * d) % pool.len()].clone())).collect();
        w.eval(o, &h);
    });
    // which thread makes which call
    let ot = run.oracle("threads");
    let few: Vec<&String> = pool.iter().step_by(if th { 2 } else { 4 }).collect();
    let nf = few.len() as u64;
    let asg: Vec<Vec<i64>> = vec![vec![0, 0, 0], vec![0, 0, 1], vec![0, 1, 0], vec![0, 1, 1], vec![0, 1, 2]];
    run.par("calls on several threads", &format!("every sequence of 3 calls on {nf} texts, every assignment to threads (5, up to renaming), threads otherwise idle but alive"), nf * nf * nf, |w, i| {
        for a in &asg {
            let h = vec![
                Part::T(few[(i / nf / nf) as usize].clone()),
                Part::T(few[(i / nf % nf) as usize].clone()),
                Part::T(few[(i % nf) as usize].clone()),
                Part::N(a.clone()),
            ];
            if !w.eval(ot, &h) {
                return;
            }
        }
    });
    schedules(run, "schedule_heap", &pool, if th { 5 } else { 4 }, pool.len(), if th { 3 } else { 2 });
    long_schedules(run, "schedule_heap", &pool, &long);
    run.other_build("sched/release/vh", "C23:sched");
    run.assume("calls on several threads: a call is atomic in the sections that assign calls to threads; in the sections with schedules it can be cut at every heap operation and at every basic block of the library's own code (compiler-inserted scheduling points), but not inside the standard library's compiled code");
}

/// Run in the build that counts blocks and copies: what costs in proportion at these sizes, for every repeated part.
pub fn count(run: &Run) {
    let th = run.thorough;
    let o = run.oracle("cost_tokens");
    let n = if th { 128 } else { 64 };
    let ctx = [
        ("", ""), ("v R", ""), ("VISIBLE", "!"), ("SMOOSH", "MKAY"), ("I IZ v YR v", "MKAY"), ("HAI", ""), ("O RLY?\nYA RLY\n", "\nOIC"), ("WTF?\nOMG 1\n", "\nOIC"), ("IM IN YR v\n", "\nIM OUTTA YR v"), ("HOW IZ I v\n", "\nIF U SAY SO"), ("HOW IZ I v YR v", ""),
        ("AN", "\nv"),
    ];
    let a = ROLES;
    let len = 2;
    run.par("repeated token sequences", &format!("every sequence of <= {len} of {} tokens, {n} and {} times, in each of {} places, with names and values all alike and all different", a.len(), 16 * n, ctx.len()), gen::words_upto(a.len(), len), |w, i| {
        let unit: Vec<S> = gen::word_upto(i, a.len(), len).iter().map(|k| a[*k]).collect();
        for (pre, post) in ctx {
            for d in [0, 1] {
                if !w.eval(o, &[Part::S(with_nl(pre)), Part::S(unit.clone()), Part::S(with_nl(post)), Part::S(vec![]), Part::S(vec![]), Part::N(vec![n, d])]) {
                    return;
                }
            }
        }
    });
    run.par("repeated triples of tokens", &format!("every 3 of {} tokens, {n} and {} times, in each of {} places, with names and values all different", a.len(), 16 * n, ctx.len()), (a.len() as u64).pow(3), |w, i| {
        let unit: Vec<S> = gen::word(i, a.len(), 3).iter().map(|k| a[*k]).collect();
        for (pre, post) in ctx {
            if !w.eval(o, &[Part::S(with_nl(pre)), Part::S(unit.clone()), Part::S(with_nl(post)), Part::S(vec![]), Part::S(vec![]), Part::N(vec![n, 1])]) {
                return;
            }
        }
    });
    // the elements of everything that is a list, many more of them
    let lists: &[(&str, &[&str], &[&str])] = &[
        ("HOW IZ I v YR v", &["AN YR v", "AN YR SRS v"], &["\nIF U SAY SO", "", "\n", " v\nIF U SAY SO", "AN\nIF U SAY SO", "AN YR\nIF U SAY SO"]),
        ("I IZ v YR v", &["AN YR v", "AN YR 1", "AN YR v 'Z v", "AN YR SUM OF v AN 1"], &["MKAY", "", "AN MKAY", "AN YR MKAY", "v"]),
        ("WTF?\nOMG 1\n", &["OMG 1\n", "OMG 1\nGTFO\n", "OMG \"\"\n", "OMG v\nv\n", "OMG 1\nVISIBLE v\nGTFO\n", "v\n", "OMGWTF\n", "OMG NOT v\n"], &["OIC", "OMGWTF\nv\nOIC", "", "OMG\nOIC", "OMG v v\nOIC"]),
        ("O RLY?\nYA RLY\n", &["MEBBE v\n", "MEBBE v\nv\n", "MEBBE NOT v\nVISIBLE v\n", "v\n", "NO WAI\n", "MEBBE\n"], &["OIC", "NO WAI\nv\nOIC", "", "v", "MEBBE\nOIC", "MEBBE v v\nOIC"]),
        ("SMOOSH v", &["AN v", "v", "AN 1", "SUM OF v AN 1", "AN v 'Z v"], &["MKAY", "", "AN MKAY", "AN OIC", "+"]),
        ("ALL OF v", &["AN v", "NOT v"], &["MKAY", "", "OIC"]),
        ("VISIBLE v", &["v", "1", "SUM OF v AN v", "v 'Z v", "SMOOSH v AN v MKAY"], &["!", "", "AN", "+", "SUM OF"]),
        ("v", &["'Z v", "'Z SRS v"], &["R 1", "HAS A v", "", "'Z", "R", "v"]),
        ("HAI", &["v", "1", ","], &["", "\nKTHXBYE"]),
        ("GTFO", &["v", "1", "+", "OIC"], &["", "\nv"]),
        ("IM IN YR v\n", &["v\n", "VISIBLE v\n", "v R v\n", "I HAS A v\n", "I HAS A v ITZ 1\n", "+\n", "GTFO 1\n", "IM IN YR v\nIM OUTTA YR v\n", "HOW IZ I v\nIF U SAY SO\n"], &["IM OUTTA YR v", "", "IM OUTTA YR", "IM OUTTA"]),
        ("HOW IZ I v\n", &["v\n", "I HAS A v ITZ 1\n", "FOUND YR v\n", "I IZ v MKAY\n", "HOW IZ I v YR v\nIF U SAY SO\n", "OIC\n"], &["IF U SAY SO", "", "IF U SAY SO v"]),
        ("v\n", &["v\n", "I HAS A v ITZ 1\n", "v R 1\n", "GIMMEH v\n", "HOW IZ I v\nIF U SAY SO\n", "IM IN YR v\nIM OUTTA YR v\n", "O RLY?\nOIC\n", "WTF?\nOMG v\nOIC\n", "+\n", "GTFO v\n", "...\n", ",", "BTW\n", "OBTW TLDR ", "v ...\n"], &["", "+"]),
    ];
    let cases: Vec<Vec<Part>> = lists.iter().flat_map(|(pre, us, posts)| us.iter().flat_map(move |u| posts.iter().flat_map(move |post| [0, 1].map(|d| vec![Part::S(with_nl(pre)), Part::S(with_nl(u)), Part::S(with_nl(post)), Part::S(vec![]), Part::S(vec![]), Part::N(vec![4 * n, d])])))).collect();
    run.list("elements of lists", &format!("{} kinds of list, closed in every way, not at all or wrongly, {} and {} elements, with names and values all alike and all different", lists.len(), 4 * n, 64 * n), "cost_tokens", &cases);
    let mut units = forms::simple_few();
    units.extend(forms::blocks_few());
    units.extend(programs());
    units.extend(["AN", "v R", "O RLY", "IM IN YR", "HOW IZ I", "I HAS A", "v v v", "OIC v", "GTFO 1"].iter().map(|x| src(x)));
    run.par("repeated statements", &format!("{} statements, blocks and malformed lines, separated by line breaks and by commas, with names and values all alike and all different", units.len()), units.len() as u64, |w, i| {
        for sep in [NL, COMMA] {
            for pre in ["", "O RLY?\nYA RLY\n", "HOW IZ I v\n"] {
                for d in [0, 1] {
                    if !w.eval(o, &[Part::S(with_nl(pre)), Part::S([&units[i as usize][..], &[sep]].concat()), Part::S(vec![]), Part::S(vec![]), Part::S(vec![]), Part::N(vec![n, d])]) {
                        return;
                    }
                }
            }
        }
    });
    let opens = ["NOT", "SUM OF 1", "SUM OF", "ALL OF", "SMOOSH v AN", "ANY OF v", "O RLY?\nYA RLY\n", "O RLY?\nMEBBE v\n", "O RLY?\nNO WAI\n", "O RLY?\nYA RLY\nv\nNO WAI\n", "WTF?\nOMG 1\n", "WTF?\nOMGWTF\n", "IM IN YR v\n", "HOW IZ I v\n", "v R NOT", "VISIBLE SMOOSH", "v'Z", "SRS", "I IZ v YR NOT", "O RLY\n", "AN\nO RLY?\nYA RLY\nv R\n"];
    let closes = ["", "v", "AN v", "MKAY", "AN v MKAY", "OIC\n", "v\nOIC\n", "NO WAI\nv\nOIC\n", "MEBBE v\nv\nOIC\n", "OMG 2\nOIC\n", "IM OUTTA YR v\n", "IF U SAY SO\n", "AN\nOIC\n", "v v\n", ",", "!"];
    let mids = ["", "v", "v\n", "AN\n"];
    let total = opens.len() * closes.len();
    run.par("nested constructs", &format!("{} ways to open x {} middles x {} ways to close, {n} and {} deep, with names and values all alike and all different", opens.len(), mids.len(), closes.len(), 16 * n), total as u64, |w, i| {
        for m in mids {
            let (a, b) = (opens[i as usize / closes.len()], closes[i as usize % closes.len()]);
            for d in [0, 1] {
                if !w.eval(o, &[Part::S(vec![]), Part::S(with_nl(a)), Part::S(with_nl(m)), Part::S(with_nl(b)), Part::S(vec![]), Part::N(vec![n, d])]) {
                    return;
                }
            }
        }
    });
    let o = run.oracle("cost_text");
    let ps = lchecks::pieces();
    let pres = ["", "x", "\"", "BTW ", "OBTW ", "v R ", "1", "\n"];
    let n = if th { 256 } else { 96 };
    run.par("repeated pieces of text", &format!("every sequence of <= 2 of {} pieces, {n} and {} times, after each of {pres:?}", ps.len(), 16 * n), gen::words_upto(ps.len(), 2), |w, i| {
        let unit: String = gen::word_upto(i, ps.len(), 2).iter().map(|k| &ps[*k][..]).collect();
        for pre in pres {
            if !w.eval(o, &[Part::T(pre.into()), Part::T(unit.clone()), Part::T(" x\"".into()), Part::N(vec![n])]) {
                return;
            }
        }
    });
    let v: Vec<Vec<Part>> = ["x{} ", "{} ", "\"{}\" ", "BTW {}\n", "OBTW {} TLDR ", "x{}\n", "x{}'Z y{} ", "{}.5,", "VISIBLE x{}\n", "I HAS A x{} ITZ {}\n"].iter().flat_map(|u| pres.iter().map(move |p| vec![Part::T(p.to_string()), Part::T(u.to_string()), Part::T(" x\"".into()), Part::N(vec![n])])).collect();
    run.list("repeated pieces that are never the same", "names, numerals, strings and comments all different", "cost_text", &v);
}
pub fn c29(run: &Run) {
    run.other_build("count/x86_64-unknown-linux-gnu/release/vh", "C29:count");
    run.assume("steps are the basic blocks run in the library and in the standard library's core and alloc, heap operations and 16-byte units copied; other code of the standard library and the C library is not counted");
}
pub fn c30(run: &Run) {
    let th = run.thorough;
    let o = run.oracle("kept_tokens");
    let len = if th { 4 } else { 3 };
    run.par("token sequences by role", &format!("every sequence of <= {len} of {} tokens, parsed 20 times, then 20 times more", ROLES.len()), gen::words_upto(ROLES.len(), len), |w, i| {
        let s: Vec<S> = gen::word_upto(i, ROLES.len(), len).iter().map(|k| ROLES[*k]).collect();
        w.eval(o, &[Part::S(s), Part::N(vec![20])]);
    });
    let mut v = programs();
    v.extend(all_forms());
    v.extend(forms::nested(2));
    for n in [2usize, 20, 200] {
        v.extend(families(n));
        v.extend(bad_families(n));
    }
    run.par("programs", &format!("{} programs and documented forms, well-formed or not, parsed 20 times, then 20 times more", v.len()), v.len() as u64, |w, i| {
        w.eval(o, &[Part::S(v[i as usize].clone()), Part::N(vec![20])]);
    });
    let ps = programs();
    run.par("changed programs", &format!("{} programs, every deletion, insertion and replacement of one token, parsed 20 times, then 20 times more", ps.len()), ps.len() as u64, |w, i| {
        for m in mutants(&ps[i as usize]) {
            if !w.eval(o, &[Part::S(m), Part::N(vec![20])]) {
                return;
            }
        }
    });
    let o = run.oracle("kept_text");
    let n = if th { 3000 } else { 600 };
    let ps = lchecks::pieces();
    run.par("texts that are never the same", &format!("{} x {} texts of two pieces with a number of their own as a name, a word, a string, a comment or a numeral, {n} and {n} more", ps.len(), ps.len()), (ps.len() * ps.len()) as u64, |w, i| {
        let (a, b) = (&ps[i as usize / ps.len()], &ps[i as usize % ps.len()]);
        for t in ["{a} x{} {b}", "{a} \"{}\" {b}", "{a} BTW {}\n{b}", "{a} {} {b}", "OBTW {} TLDR {a}\n{b}", "{a}\nv'Z {}\n{b}"] {
            if !th && (i as usize + t.len()) % 3 != 0 && a.len() + b.len() > 3 {
                continue;
            }
            if !w.eval(o, &[Part::T(t.replace("{a}", a).replace("{b}", b)), Part::N(vec![n])]) {
                return;
            }
        }
    });
    let v: Vec<Vec<Part>> = PROGRAMS.iter().flat_map(|p| ["v", "w", "1", "\""].iter().map(|x| vec![Part::T(p.replace(x, &format!("{}{{}}", if *x == "\"" { "\"" } else { x }))), Part::N(vec![n])]).collect::<Vec<_>>()).collect();
    run.list("programs that are never the same", "sample programs with a number of their own in every name, numeral or string", "kept_text", &v);
    let v: Vec<Vec<Part>> = ["\"{*}\"", "x{*}", "{*}", "BTW {*}", "OBTW {*} TLDR", "OBTW {*}", "v R \"{*}", "+{*}", "VISIBLE {*}!", "{*} R 1", "HOW IZ I {*}"].iter().map(|t| vec![Part::T(t.to_string()), Part::N(vec![n])]).collect();
    run.list("texts of ever new lengths", &format!("11 kinds of text of {n} and {n} more lengths"), "kept_text", &v);
}
