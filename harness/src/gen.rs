//! Enumerators: tries, viable-prefix search, configuration search.
use crate::engine::{Part, Run, Worker};
use crate::pmodel;
use crate::syms::S;
use std::collections::HashMap;

pub fn pow(b: usize, e: u32) -> u64 {
    (b as u64).pow(e)
}
/// The i-th word of length n over an alphabet of size b, as indices.
pub fn word(mut i: u64, b: usize, n: u32) -> Vec<usize> {
    let mut v = vec![0; n as usize];
    for k in (0..n as usize).rev() {
        v[k] = (i % b as u64) as usize;
        i /= b as u64;
    }
    v
}
/// Number of words of length 0..=n.
pub fn words_upto(b: usize, n: u32) -> u64 {
    (0..=n).map(|k| pow(b, k)).sum()
}
/// The i-th word of length 0..=n (shortest first).
pub fn word_upto(mut i: u64, b: usize, n: u32) -> Vec<usize> {
    for k in 0..=n {
        let c = pow(b, k);
        if i < c {
            return word(i, b, k);
        }
        i -= c;
    }
    unreachable!()
}

/// All sequences of at most n of the given token groups, wrapped in a prefix and suffix.
pub fn trie(run: &Run, name: &str, oracle: &str, groups: &[Vec<S>], n: u32, pre: &[S], post: &[S]) {
    let o = run.oracle(oracle);
    let b = groups.len();
    let bound = format!("every sequence of 0..={n} of {b} token groups");
    run.par(name, &bound, words_upto(b, n), |w, i| {
        let mut v = pre.to_vec();
        for g in word_upto(i, b, n) {
            v.extend_from_slice(&groups[g]);
        }
        v.extend_from_slice(post);
        w.eval(o, &[Part::S(v)]);
    });
}
pub fn singles(a: &[S]) -> Vec<Vec<S>> {
    a.iter().map(|s| vec![*s]).collect()
}

/// Depth-first search over viable prefixes (prefixes of well-formed programs), pruned by the reference model.
/// `groups`: alphabet of token groups; `visit` is called for every viable prefix (with `accepted`).
pub struct Viable<'a> {
    pub groups: &'a [Vec<S>],
    pub max: usize,
    pub pre: Vec<S>,
    pub post: Vec<S>,
}
impl Viable<'_> {
    fn rec(&self, w: &mut Worker, cur: &mut Vec<S>, left: usize, visit: &(dyn Fn(&mut Worker, &[S], bool) + Sync)) {
        let m = if self.post.is_empty() {
            pmodel::parse(cur)
        } else {
            let mut full = cur.clone();
            full.extend_from_slice(&self.post);
            let f = pmodel::parse(&full);
            let p = pmodel::parse(cur);
            pmodel::Out { errors: f.errors, hard: p.hard, ..p }
        };
        if m.hard || w.stopped() {
            return;
        }
        if self.post.is_empty() {
            visit(w, cur, m.errors == 0);
        } else {
            let n = cur.len();
            cur.extend_from_slice(&self.post);
            visit(w, cur, m.errors == 0);
            cur.truncate(n);
        }
        if left == 0 {
            return;
        }
        for g in self.groups {
            let n = cur.len();
            cur.extend_from_slice(g);
            self.rec(w, cur, left - 1, visit);
            cur.truncate(n);
        }
    }
    pub fn explore(&self, run: &Run, name: &str, visit: impl Fn(&mut Worker, &[S], bool) + Sync) {
        let b = self.groups.len();
        let split = 2.min(self.max) as u32;
        let bound = format!("every viable prefix of 0..={} of {} token groups", self.max, b);
        run.par(name, &bound, words_upto(b, split), |w, i| {
            let idx = word_upto(i, b, split);
            let mut cur = self.pre.clone();
            // shorter words are visited on their own, longer ones from their length-`split` prefix
            for g in &idx {
                if pmodel::parse(&cur).hard {
                    return;
                }
                cur.extend_from_slice(&self.groups[*g]);
            }
            let left = if idx.len() == split as usize { self.max - split as usize } else { 0 };
            self.rec(w, &mut cur, left, &visit);
        });
    }
}

/// Breadth-first search over the reference parser's control configurations.
pub struct Bfs {
    /// shortest access word of each configuration, in discovery order
    pub access: Vec<Vec<S>>,
    pub transitions: u64,
}
pub fn bfs(groups: &[Vec<S>], start: &[S], max_depth: u32, max_states: usize) -> (Bfs, bool) {
    let mut seen: HashMap<Vec<u8>, ()> = HashMap::new();
    let mut access = vec![start.to_vec()];
    seen.insert(pmodel::parse_config(start).config, ());
    let mut i = 0;
    let mut transitions = 0;
    let mut complete = true;
    while i < access.len() {
        let cur = access[i].clone();
        for g in groups {
            transitions += 1;
            let mut nx = cur.clone();
            nx.extend_from_slice(g);
            let m = pmodel::parse_config(&nx);
            if m.depth > max_depth {
                continue;
            }
            if access.len() >= max_states {
                complete = false;
                break;
            }
            if let std::collections::hash_map::Entry::Vacant(e) = seen.entry(m.config) {
                e.insert(());
                access.push(nx);
            }
        }
        i += 1;
    }
    (Bfs { access, transitions }, complete)
}

/// Transition cover: access word, symbol, continuation, each replayed on the real code.
pub fn cover(run: &Run, name: &str, oracle: &str, groups: &[Vec<S>], conts: &[Vec<S>], start: &[S], depth: u32, cap: usize) {
    if run.stopped() {
        return;
    }
    let o = run.oracle(oracle);
    let (b, complete) = bfs(groups, start, depth, cap);
    let bound = format!(
        "{} parser configurations of stack depth <= {depth}{}, every one of {} symbols from each, then each of {} continuations",
        b.access.len(),
        if complete { "" } else { " (capped)" },
        groups.len(),
        conts.len()
    );
    let n = b.access.len() as u64 * groups.len() as u64;
    run.par(name, &bound, n, |w, i| {
        let a = &b.access[(i / groups.len() as u64) as usize];
        let g = &groups[(i % groups.len() as u64) as usize];
        for c in conts {
            let mut v = Vec::with_capacity(a.len() + g.len() + c.len());
            v.extend_from_slice(a);
            v.extend_from_slice(g);
            v.extend_from_slice(c);
            if !w.eval(o, &[Part::S(v)]) {
                return;
            }
        }
    });
    run.add_states(b.access.len() as u64, b.transitions);
}
