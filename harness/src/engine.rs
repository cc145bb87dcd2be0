//! Exploration engine: parallel exhaustive enumeration, panic / hang / crash / memory guards, counterexample
//! shrinking, replay files and evidence.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use crate::syms::{self, S};

// ---------------------------------------------------------------- memory guard
pub struct Alloc;
const MEM_LIMIT: usize = 3 << 30;
thread_local! {
    static LIVE: Cell<usize> = const { Cell::new(0) };
    static PEAK: Cell<usize> = const { Cell::new(0) };
    static GUARDED: Cell<bool> = const { Cell::new(false) };
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
}
fn grow(n: usize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get().saturating_add(n);
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
        if v > MEM_LIMIT && GUARDED.try_with(|g| g.get()).unwrap_or(false) {
            let s = SLOT.try_with(|s| s.get()).unwrap_or(usize::MAX);
            trap(s, 2);
        }
    });
}
/// Heap memory this thread holds, and the most it held since the last reset.
pub fn live() -> usize {
    LIVE.with(|l| l.get())
}
pub fn peak() -> usize {
    PEAK.with(|l| l.get())
}
pub fn reset_peak() {
    PEAK.with(|l| l.set(live()))
}
fn shrink_by(n: usize) {
    let _ = LIVE.try_with(|l| l.set(l.get().saturating_sub(n)));
}
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        crate::sched::point();
        grow(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        crate::sched::point();
        shrink_by(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        crate::sched::point();
        shrink_by(l.size());
        grow(n);
        System.realloc(p, l, n)
    }
}

// ---------------------------------------------------------------- slots: what each worker is running
const MAXW: usize = 32;
struct Slot {
    parts: AtomicPtr<Part>,
    len: AtomicUsize,
    oracle: AtomicUsize,
    start: AtomicU64, // watchdog tick at which the evaluation started, 0 when idle
    trap: AtomicUsize,
}
#[allow(clippy::declare_interior_mutable_const)]
const IDLE: Slot = Slot {
    parts: AtomicPtr::new(std::ptr::null_mut()),
    len: AtomicUsize::new(0),
    oracle: AtomicUsize::new(0),
    start: AtomicU64::new(0),
    trap: AtomicUsize::new(0),
};
static SLOTS: [Slot; MAXW] = [IDLE; MAXW];
static TICK: AtomicU64 = AtomicU64::new(1); // 100 ms each
const HANG_TICKS: u64 = 900;

/// Parks the thread; the watchdog reports what it was running and ends the process.
fn trap(slot: usize, why: usize) -> ! {
    if slot < MAXW {
        SLOTS[slot].trap.store(why, SeqCst);
    } else {
        STRAY.store(why, SeqCst);
    }
    loop {
        std::thread::sleep(Duration::from_secs(1000));
    }
}
static STRAY: AtomicUsize = AtomicUsize::new(0);

extern "C" {
    fn sigaction(sig: i32, act: *const SigAction, old: *mut SigAction) -> i32;
    fn _exit(code: i32) -> !;
}
#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
extern "C" fn on_signal(sig: i32, _info: usize, _ctx: usize) {
    let s = SLOT.try_with(|s| s.get()).unwrap_or(usize::MAX);
    trap(s, if sig == 6 { 4 } else { 3 });
}
fn install_handlers() {
    for sig in [11, 7, 6] {
        let a = SigAction { handler: on_signal as usize, mask: [0; 16], flags: 0x0800_0000 | 4, restorer: 0 };
        unsafe {
            sigaction(sig, &a, std::ptr::null_mut());
        }
    }
}

// ---------------------------------------------------------------- inputs and oracles
#[derive(Clone, PartialEq, Debug)]
pub enum Part {
    T(String),
    S(Vec<S>),
    N(Vec<i64>),
}
impl Part {
    pub fn t(&self) -> &str {
        match self {
            Part::T(s) => s,
            _ => panic!("part is not a text"),
        }
    }
    pub fn s(&self) -> &[S] {
        match self {
            Part::S(s) => s,
            _ => panic!("part is not a token list"),
        }
    }
    pub fn n(&self) -> &[i64] {
        match self {
            Part::N(s) => s,
            _ => panic!("part is not a number list"),
        }
    }
}
#[derive(Clone, Debug)]
pub struct Fail {
    pub what: String,
    pub expected: String,
    pub got: String,
}
pub fn fail<T>(what: impl Into<String>, expected: impl Into<String>, got: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { what: what.into(), expected: expected.into(), got: got.into() })
}
/// What an oracle reports when the property held on an input.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Held {
    /// Checked, on this many executions of the real code.
    Yes(u32),
    /// Checked; the input shows exactly the listed finding with this key.
    Known(&'static str),
    /// The property says nothing about this input.
    Skip,
}
pub type OracleFn = fn(&[Part]) -> Result<Held, Fail>;
pub struct Oracle {
    pub name: &'static str,
    pub f: OracleFn,
}

pub struct Violation {
    pub oracle: &'static str,
    pub parts: Vec<Part>,
    pub fail: Fail,
}

// ---------------------------------------------------------------- the run of one check
pub struct Run {
    pub prop: &'static str,
    pub thorough: bool,
    pub seed: u64,
    pub threads: usize,
    t0: Instant,
    oracles: &'static [Oracle],
    stop: AtomicBool,
    violation: Mutex<Option<Violation>>,
    known_seen: Mutex<Vec<String>>,
    /// lines of the known-findings file
    listed: Vec<String>,
    /// findings listed under another property, met here in passing
    others: Vec<String>,
    sections: Mutex<Vec<SectionStat>>,
    samples: Mutex<Vec<String>>,
    pub assumptions: Mutex<Vec<String>>,
}
#[derive(Default, Clone)]
struct SectionStat {
    name: String,
    bound: String,
    inputs: u64,
    checked: u64,
    execs: u64,
    states: u64,
    transitions: u64,
    steps: u64,
    secs: f64,
    max_len: u64,
    exhaustive: bool,
}
static RUN: AtomicPtr<Run> = AtomicPtr::new(std::ptr::null_mut());

pub struct Worker<'a> {
    pub run: &'a Run,
    slot: usize,
    pub inputs: u64,
    pub checked: u64,
    pub execs: u64,
    pub states: u64,
    pub transitions: u64,
    pub steps: u64,
    pub max_len: u64,
    first: Option<String>,
    last: Option<(usize, Vec<Part>)>,
    probe: u64,
}

fn oracle_index(run: &Run, name: &str) -> usize {
    run.oracles.iter().position(|o| o.name == name).unwrap_or_else(|| panic!("no oracle {name}"))
}

/// Runs the oracle with panics turned into failures.
fn guarded(f: OracleFn, parts: &[Part]) -> Result<Held, Fail> {
    match catch_unwind(AssertUnwindSafe(|| f(parts))) {
        Ok(r) => r,
        Err(p) => Err(Fail {
            what: "panic".into(),
            expected: "no panic".into(),
            got: format!("panicked: {}", panic_text(&p)),
        }),
    }
}
/// Runs f on a thread with the default stack of a Rust thread (2 MB); a panic goes on in the caller.
pub fn small_stack<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    let slot = SLOT.with(|s| s.get());
    let r = std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn_scoped(sc, move || {
                SLOT.with(|s| s.set(slot));
                GUARDED.with(|g| g.set(true));
                f()
            })
            .unwrap()
            .join()
    });
    match r {
        Ok(r) => r,
        Err(p) => std::panic::resume_unwind(p),
    }
}
pub fn panic_text(p: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "?".into()
    }
}

impl<'a> Worker<'a> {
    /// Evaluates one input. Returns false when the exploration should stop.
    pub fn eval(&mut self, oracle: usize, parts: &[Part]) -> bool {
        let o = &self.run.oracles[oracle];
        self.inputs += 1;
        let s = &SLOTS[self.slot];
        s.parts.store(parts.as_ptr() as *mut Part, Relaxed);
        s.len.store(parts.len(), Relaxed);
        s.oracle.store(oracle, Relaxed);
        s.start.store(TICK.load(Relaxed), Release);
        GUARDED.with(|g| g.set(true));
        LIVE.with(|l| l.set(0));
        let r = guarded(o.f, parts);
        GUARDED.with(|g| g.set(false));
        s.start.store(0, Release);
        match r {
            Ok(Held::Skip) => {}
            Ok(h @ (Held::Yes(_) | Held::Known(_))) => {
                let n = match h {
                    Held::Yes(n) => n,
                    Held::Known(k) => {
                        if !self.run.known(k) {
                            let f = Fail { what: format!("unlisted finding {k}"), expected: "the property to hold".into(), got: "the finding".into() };
                            self.run.report(Violation { oracle: o.name, parts: parts.to_vec(), fail: f });
                            return false;
                        }
                        1
                    }
                    Held::Skip => 0,
                };
                self.checked += 1;
                self.execs += n as u64;
                let len: usize = parts
                    .iter()
                    .map(|p| match p {
                        Part::T(t) => t.len(),
                        Part::S(v) => v.len(),
                        Part::N(_) => 0,
                    })
                    .sum();
                self.steps += len as u64;
                self.max_len = self.max_len.max(len as u64);
                if self.checked.is_power_of_two() {
                    self.last = Some((oracle, parts.to_vec()));
                }
                if self.first.is_none() {
                    self.first = Some(show_parts(o.name, parts));
                }
            }
            Err(f) => {
                self.run.report(Violation { oracle: o.name, parts: parts.to_vec(), fail: f });
                return false;
            }
        }
        self.probe = self.probe.wrapping_add(1);
        if self.probe & 63 == 0 {
            return !self.run.stop.load(Relaxed);
        }
        true
    }
    pub fn stopped(&self) -> bool {
        self.run.stop.load(Relaxed)
    }
}

pub fn show_parts(oracle: &str, parts: &[Part]) -> String {
    let mut s = String::new();
    let _ = write!(s, "{oracle}(");
    for (i, p) in parts.iter().enumerate() {
        if i > 0 {
            s.push_str(" ; ");
        }
        match p {
            Part::T(t) => {
                let c: String = t.chars().take(300).collect();
                let _ = write!(s, "text {:?}{}", c, if c.len() < t.len() { "..." } else { "" });
            }
            Part::S(v) => {
                let _ = write!(s, "tokens [{}]", syms::names(&v[..v.len().min(80)]));
                if v.len() > 80 {
                    let _ = write!(s, "... ({} tokens)", v.len());
                }
            }
            Part::N(v) => {
                let _ = write!(s, "{:?}", v);
            }
        }
    }
    s.push(')');
    s
}

impl Run {
    pub fn new(prop: &'static str, thorough: bool, oracles: &'static [Oracle]) -> Run {
        let file = std::fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
        let listed: Vec<String> = file.lines().filter(|l| l.starts_with("finding: ")).map(|l| l.to_string()).collect();
        let others = listed
            .iter()
            .filter(|l| !l.contains(&format!("property={prop} ")))
            .filter_map(|l| l.split("key=").nth(1).and_then(|r| r.split(' ').next()).map(|s| s.to_string()))
            .collect();
        Run {
            listed,
            others,
            prop,
            thorough,
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            threads: std::thread::available_parallelism().map_or(4, |n| n.get()).clamp(1, 16),
            t0: Instant::now(),
            oracles,
            stop: AtomicBool::new(false),
            violation: Mutex::new(None),
            known_seen: Mutex::new(Vec::new()),
            sections: Mutex::new(Vec::new()),
            samples: Mutex::new(Vec::new()),
            assumptions: Mutex::new(Vec::new()),
        }
    }
    pub fn activate(&self) {
        RUN.store(self as *const Run as *mut Run, SeqCst);
        std::panic::set_hook(Box::new(|p| {
            // a panic of the code under test is caught and judged; one of the harness is not
            if p.location().map_or(false, |l| l.file().starts_with("src/")) {
                eprintln!("harness: {p}");
            }
        }));
        install_handlers();
        std::thread::Builder::new().stack_size(64 << 20).spawn(watchdog).unwrap();
    }
    pub fn oracle(&self, name: &str) -> usize {
        oracle_index(self, name)
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(Relaxed)
    }
    pub fn elapsed(&self) -> f64 {
        self.t0.elapsed().as_secs_f64()
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.to_string());
    }
    fn report(&self, v: Violation) {
        let mut g = self.violation.lock().unwrap();
        // keep the smallest input seen
        let size = |v: &Violation| -> usize {
            v.parts
                .iter()
                .map(|p| match p {
                    Part::T(t) => t.len(),
                    Part::S(x) => x.len(),
                    Part::N(_) => 0,
                })
                .sum()
        };
        if g.as_ref().map_or(true, |old| size(&v) < size(old)) {
            *g = Some(v);
        }
        self.stop.store(true, SeqCst);
    }
    /// Records that a listed finding was seen again (it does not stop the exploration). False: it is not listed.
    pub fn known(&self, key: &str) -> bool {
        let mark = format!("finding: property={} key={} ", self.prop, key);
        match self.listed.iter().find_map(|l| l.strip_prefix(&mark[..])) {
            None => self.others.contains(&key.to_string()),
            Some(what) => {
                let mut k = self.known_seen.lock().unwrap();
                if !k.iter().any(|x| x == what) {
                    k.push(what.to_string());
                }
                true
            }
        }
    }

    /// Explores items 0..n in parallel, in chunks. `f` is called with each item.
    pub fn par<F>(&self, name: &str, bound: &str, n: u64, f: F)
    where
        F: Fn(&mut Worker, u64) + Sync,
    {
        if self.stopped() {
            return;
        }
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let total = Mutex::new(SectionStat { name: name.into(), bound: bound.into(), exhaustive: true, ..Default::default() });
        let chunk = (n / (self.threads as u64 * 64)).clamp(1, 4096);
        std::thread::scope(|sc| {
            for slot in 0..self.threads.min(n.max(1) as usize) {
                let (next, total, f) = (&next, &total, &f);
                std::thread::Builder::new()
                    .stack_size(1 << 30)
                    .spawn_scoped(sc, move || {
                        SLOT.with(|s| s.set(slot));
                        let mut w = Worker {
                            run: self, slot, inputs: 0, checked: 0, execs: 0, states: 0, transitions: 0, steps: 0,
                            max_len: 0, first: None, last: None, probe: 0,
                        };
                        loop {
                            let a = next.fetch_add(chunk, Relaxed);
                            if a >= n || self.stopped() {
                                break;
                            }
                            for i in a..(a + chunk).min(n) {
                                f(&mut w, i);
                                if self.stopped() {
                                    break;
                                }
                            }
                        }
                        let mut t = total.lock().unwrap();
                        t.inputs += w.inputs;
                        t.checked += w.checked;
                        t.execs += w.execs;
                        t.states += w.states;
                        t.transitions += w.transitions;
                        t.steps += w.steps;
                        t.max_len = t.max_len.max(w.max_len);
                        let mut sm = self.samples.lock().unwrap();
                        if slot == 0 {
                            if let Some(x) = w.first {
                                sm.push(format!("[{name}] {x}"));
                            }
                            if let Some((o, x)) = w.last {
                                sm.push(format!("[{name}] {}", show_parts(self.oracles[o].name, &x)));
                            }
                        }
                    })
                    .unwrap();
            }
        });
        let mut t = total.into_inner().unwrap();
        t.secs = t0.elapsed().as_secs_f64();
        if std::env::var("VH_VERBOSE").is_ok() {
            eprintln!(
                "  [{}] {:<46} inputs {:>9} checked {:>9} execs {:>10} {:6.2}s ({})",
                self.prop, t.name, t.inputs, t.checked, t.execs, t.secs, t.bound
            );
        }
        self.sections.lock().unwrap().push(t);
    }
    /// Attaches model states / transitions to the last section.
    pub fn add_states(&self, states: u64, transitions: u64) {
        if let Some(t) = self.sections.lock().unwrap().last_mut() {
            t.states += states;
            t.transitions += transitions;
        }
    }

    /// Runs the check `id` in the unoptimised build of this program: the compiler may turn recursion into loops in
    /// the optimised one.
    pub fn unoptimised(&self, id: &str) {
        self.other_build("plain/vh", id)
    }
    /// Runs the check `id` in another build of this program (under .build) and takes over its verdict and statistics.
    pub fn other_build(&self, path: &str, id: &str) {
        if self.stopped() {
            return;
        }
        let exe = std::env::current_exe().unwrap();
        let exe = exe.parent().and_then(|d| d.parent()).unwrap().join(path);
        let out = match std::process::Command::new(&exe).args(["check", id]).env("VH_CHILD", "1").stderr(std::process::Stdio::inherit()).output() {
            Ok(o) => o,
            Err(e) => {
                eprintln!("check error: cannot run {}: {e}", exe.display());
                std::process::exit(2);
            }
        };
        let text = String::from_utf8_lossy(&out.stdout).to_string();
        for l in text.lines() {
            match l.strip_prefix("SECTION\t") {
                Some(r) => {
                    let f: Vec<&str> = r.split('\t').collect();
                    let n = |i: usize| f.get(i).and_then(|x| x.parse().ok()).unwrap_or(0u64);
                    self.sections.lock().unwrap().push(SectionStat {
                        name: f[0].into(), bound: f[1].into(), inputs: n(2), checked: n(3), execs: n(4), steps: n(5), max_len: n(6),
                        secs: n(7) as f64 / 1000.0, exhaustive: true, ..Default::default()
                    });
                }
                None => println!("{l}"),
            }
        }
        match out.status.code() {
            Some(0) => {}
            Some(1) => {
                self.evidence(1);
                use std::io::Write;
                let _ = std::io::stdout().flush();
                std::process::exit(1)
            }
            _ => {
                eprintln!("check error: the unoptimised build ended with {}", out.status);
                std::process::exit(2)
            }
        }
    }
    /// One oracle over an explicit list of inputs.
    pub fn list(&self, name: &str, bound: &str, oracle: &str, inputs: &[Vec<Part>]) {
        let o = self.oracle(oracle);
        self.par(name, bound, inputs.len() as u64, |w, i| {
            w.eval(o, &inputs[i as usize]);
        });
    }

    pub fn finish(self: &Run) -> i32 {
        let v = self.violation.lock().unwrap().take();
        let code = match v {
            None => {
                let mut dead = Vec::new();
                for s in self.sections.lock().unwrap().iter() {
                    if s.checked == 0 {
                        dead.push(s.name.clone());
                    }
                }
                if !dead.is_empty() {
                    eprintln!("check error: sections with nothing checked: {:?}", dead);
                    self.evidence(0);
                    return 2;
                }
                0
            }
            Some(v) => {
                let f = self.oracles[oracle_index(self, v.oracle)].f;
                let (parts, fl) = shrunk(f, v.parts, v.fail);
                let path = write_replay(self.prop, v.oracle, &parts, &fl);
                println!("{}", show_parts(v.oracle, &parts));
                println!("what: {}\nexpected: {}\ngot:      {}", fl.what, clip(&fl.expected), clip(&fl.got));
                println!("VIOLATION property={} replay={}", self.prop, path);
                1
            }
        };
        for k in self.known_seen.lock().unwrap().iter() {
            println!("KNOWN-FINDING: property={} {}", self.prop, k);
        }
        self.evidence(code as u64);
        code
    }

    fn evidence(&self, violations: u64) {
        let secs = self.sections.lock().unwrap();
        if std::env::var_os("VH_CHILD").is_some() {
            for s in secs.iter() {
                println!("SECTION\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}", s.name, s.bound, s.inputs, s.checked, s.execs, s.steps, s.max_len, (s.secs * 1000.0) as u64);
            }
            return;
        }
        let (mut st, mut tr, mut ex) = (0, 0, 0);
        let mut list = String::new();
        for s in secs.iter() {
            st += if s.states > 0 { s.states } else { s.checked };
            tr += if s.transitions > 0 { s.transitions } else { s.steps };
            ex += s.execs;
            let _ = write!(
                list,
                "{}{{\"name\":{},\"bound\":{},\"inputs\":{},\"checked\":{},\"impl_executions\":{},\"model_states\":{},\"model_transitions\":{},\"longest_input\":{},\"seconds\":{:.2}}}",
                if list.is_empty() { "" } else { ",\n   " },
                json(&s.name), json(&s.bound), s.inputs, s.checked, s.execs, s.states, s.transitions, s.max_len, s.secs
            );
        }
        let samples: Vec<String> = self.samples.lock().unwrap().iter().take(40).map(|s| json(&if s.chars().count() > 300 { s.chars().take(300).chain("...".chars()).collect() } else { s.clone() })).collect();
        let assumptions: Vec<String> = self.assumptions.lock().unwrap().iter().map(|s| json(s)).collect();
        let e = format!(
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {st},\n  \"transitions\": {tr},\n  \"traces_validated_against_impl\": {ex},\n  \"rule\": \"Every input of each listed section's bounded space is enumerated and executed on the real code. states: for sections that search model configurations, the distinct configurations visited; otherwise the distinct input histories on which the property says something. transitions: configuration x symbol pairs taken, otherwise the input symbols (characters or tokens) consumed along those histories. traces_validated_against_impl: executions of the real tokenizer/parser judged by the oracle.\",\n  \"exhaustive\": {},\n  \"sections\": [{list}],\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {violations}\n}}\n",
            json(self.prop),
            json(if self.thorough { "thorough" } else { "quick" }),
            self.seed,
            violations == 0 && secs.iter().all(|s| s.exhaustive),
            samples.join(",\n   "),
            assumptions.join(",\n  "),
            self.elapsed()
        );
        let dir = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        let _ = std::fs::write(dir.join(format!("{}.json", self.prop)), e);
    }
}

fn clip(s: &str) -> String {
    if s.len() <= 3000 {
        s.to_string()
    } else {
        let c: String = s.chars().take(3000).collect();
        format!("{c}... ({} bytes)", s.len())
    }
}

pub fn verif_dir() -> std::path::PathBuf {
    std::env::var_os("VERIF_DIR").map(Into::into).unwrap_or_else(|| "/verif".into())
}

pub fn json(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 || c as u32 == 127 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn watchdog() {
    loop {
        std::thread::sleep(Duration::from_millis(100));
        let now = TICK.fetch_add(1, Relaxed) + 1;
        let mut hit = None;
        for (i, s) in SLOTS.iter().enumerate() {
            let t = s.trap.load(SeqCst);
            let st = s.start.load(Acquire);
            if t != 0 {
                hit = Some((i, t));
            } else if st != 0 && now.saturating_sub(st) > HANG_TICKS {
                hit = Some((i, 1));
            }
        }
        let run = RUN.load(SeqCst);
        if run.is_null() {
            continue;
        }
        let run = unsafe { &*run };
        if let Some((i, why)) = hit {
            let s = &SLOTS[i];
            let parts: Vec<Part> = if s.start.load(Acquire) == 0 {
                vec![]
            } else {
                unsafe { std::slice::from_raw_parts(s.parts.load(Relaxed), s.len.load(Relaxed)) }.to_vec()
            };
            let o = run.oracles[s.oracle.load(Relaxed)].name;
            if parts.is_empty() {
                // not while evaluating an input: the harness itself broke
                eprintln!("check error: worker {i} died outside an evaluation (code {why})");
                unsafe { _exit(2) }
            }
            let got = match why {
                1 => format!("no answer after {} s", HANG_TICKS / 10),
                2 => format!("more than {} GB of memory in use", MEM_LIMIT >> 30),
                4 => "aborted".to_string(),
                _ => "crashed (stack overflow or memory error)".to_string(),
            };
            let fl = Fail { what: "termination".into(), expected: "an answer".into(), got };
            let path = write_replay(run.prop, o, &parts, &fl);
            println!("{}", show_parts(o, &parts));
            println!("what: {}\nexpected: {}\ngot:      {}", fl.what, fl.expected, fl.got);
            println!("VIOLATION property={} replay={}", run.prop, path);
            use std::io::Write;
            let _ = std::io::stdout().flush();
            if let Ok(_g) = run.sections.try_lock() {
                drop(_g);
                run.evidence(1);
            }
            unsafe { _exit(1) }
        }
        if STRAY.load(SeqCst) != 0 && !SHRINKING.load(SeqCst) {
            eprintln!("check error: the harness crashed outside a worker (code {})", STRAY.load(SeqCst));
            unsafe { _exit(2) }
        }
    }
}

// ---------------------------------------------------------------- shrinking and replay
static SHRINKING: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// The smallest failing input found in half a minute, by a thread of its own, which a smaller input may crash or keep for ever.
fn shrunk(f: OracleFn, parts: Vec<Part>, fl: Fail) -> (Vec<Part>, Fail) {
    SHRINKING.store(true, SeqCst);
    let best = std::sync::Arc::new(Mutex::new((parts.clone(), fl.clone())));
    let b = best.clone();
    let worker = std::thread::spawn(move || shrink(f, parts, fl, &b));
    let t0 = Instant::now();
    while t0.elapsed().as_secs() < 30 && !worker.is_finished() && STRAY.load(SeqCst) == 0 {
        std::thread::sleep(Duration::from_millis(20));
    }
    let r = best.lock().unwrap().clone();
    r
}
fn shrink(f: OracleFn, mut parts: Vec<Part>, mut fl: Fail, best: &Mutex<(Vec<Part>, Fail)>) {
    let t0 = Instant::now();
    let fails = |p: &[Part]| -> Option<Fail> {
        // keep the kind of failure
        match std::thread::scope(|sc| {
            std::thread::Builder::new()
                .stack_size(1 << 30)
                .spawn_scoped(sc, || guarded(f, p).err())
                .unwrap()
                .join()
        }) {
            Ok(r) => r,
            Err(_) => None,
        }
    };
    let same = |a: &Fail, b: &Fail| a.what == b.what;
    loop {
        let mut progress = false;
        for i in 0..parts.len() {
            let len = match &parts[i] {
                Part::T(t) => t.chars().count(),
                Part::S(v) => v.len(),
                Part::N(_) => 0,
            };
            let mut size = len;
            while size > 0 {
                let mut at = 0;
                loop {
                    if t0.elapsed().as_secs() > 20 {
                        return;
                    }
                    let cur = match &parts[i] {
                        Part::T(t) => t.chars().count(),
                        Part::S(v) => v.len(),
                        Part::N(_) => 0,
                    };
                    if at >= cur {
                        break;
                    }
                    let mut cand = parts.clone();
                    match &mut cand[i] {
                        Part::T(t) => {
                            *t = t.chars().enumerate().filter(|(k, _)| *k < at || *k >= at + size).map(|x| x.1).collect()
                        }
                        Part::S(v) => {
                            v.drain(at..(at + size).min(cur));
                        }
                        Part::N(_) => {}
                    }
                    match fails(&cand) {
                        Some(e) if same(&e, &fl) => {
                            parts = cand;
                            fl = e;
                            *best.lock().unwrap() = (parts.clone(), fl.clone());
                            progress = true;
                        }
                        _ => at += size,
                    }
                }
                size /= 2;
            }
        }
        if !progress {
            return;
        }
    }
}

fn write_replay(prop: &str, oracle: &str, parts: &[Part], fl: &Fail) -> String {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let mut s = String::new();
    let _ = writeln!(s, "# counterexample; run it again with: /verif/check.sh replay <this file>");
    let _ = writeln!(s, "property {prop}");
    let _ = writeln!(s, "oracle {oracle}");
    for p in parts {
        match p {
            Part::T(t) => {
                let _ = writeln!(s, "text {}", json(t));
            }
            Part::S(v) => {
                let _ = writeln!(s, "tokens {}", syms::names(v));
            }
            Part::N(v) => {
                let _ = writeln!(s, "numbers {}", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
            }
        }
    }
    let _ = writeln!(s, "# what: {}", fl.what.replace('\n', " "));
    let _ = writeln!(s, "# expected: {}", clip(&fl.expected).replace('\n', "\n#   "));
    let _ = writeln!(s, "# got:      {}", clip(&fl.got).replace('\n', "\n#   "));
    let _ = writeln!(s, "# as a plain unit test (prints what the code does with the input):");
    for (i, p) in parts.iter().enumerate() {
        let text = match p {
            Part::T(t) => t.clone(),
            Part::S(v) => syms::render(v),
            Part::N(_) => continue,
        };
        let _ = writeln!(s, "# #[test] fn replay_{i}() {{ println!(\"{{:?}}\", lolcode_ast::tokenize_and_parse({:?}.to_string())); }}", text);
    }
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    let path = dir.join(format!("{prop}-{:08x}.txt", h as u32));
    let _ = std::fs::write(&path, s);
    path.display().to_string()
}

pub fn unjson(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.trim().trim_start_matches('"').chars();
    while let Some(c) = it.next() {
        match c {
            '"' => break,
            '\\' => match it.next() {
                Some('n') => o.push('\n'),
                Some('r') => o.push('\r'),
                Some('t') => o.push('\t'),
                Some('u') => {
                    let h: String = it.by_ref().take(4).collect();
                    o.push(char::from_u32(u32::from_str_radix(&h, 16).unwrap_or(0xfffd)).unwrap_or('\u{fffd}'));
                }
                Some(c) => o.push(c),
                None => break,
            },
            c => o.push(c),
        }
    }
    o
}

/// Re-runs a replay file: prints what happens, returns 1 when it still fails.
pub fn replay(path: &str, find: &dyn Fn(&str) -> Option<OracleFn>) -> i32 {
    let text = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("cannot read {path}: {e}");
            return 2;
        }
    };
    let (mut parts, mut oracle, mut prop) = (vec![], String::new(), String::new());
    for l in text.lines() {
        if l.starts_with('#') || l.is_empty() {
            continue;
        }
        let (k, v) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "property" => prop = v.to_string(),
            "oracle" => oracle = v.to_string(),
            "text" => parts.push(Part::T(unjson(v))),
            "tokens" => parts.push(Part::S(syms::from_names(v))),
            "numbers" => parts.push(Part::N(v.split_whitespace().filter_map(|x| x.parse().ok()).collect())),
            _ => {}
        }
    }
    let f = match find(&oracle) {
        Some(f) => f,
        None => {
            eprintln!("unknown oracle {oracle}");
            return 2;
        }
    };
    println!("{}", show_parts(&oracle, &parts));
    let r = std::thread::Builder::new().stack_size(1 << 30).spawn(move || guarded(f, &parts)).unwrap().join();
    match r {
        Ok(Ok(h)) => {
            println!("{prop}: holds ({h:?})");
            0
        }
        Ok(Err(f)) => {
            println!("{prop}: FAILS\nwhat: {}\nexpected: {}\ngot:      {}", f.what, clip(&f.expected), clip(&f.got));
            1
        }
        Err(_) => 2,
    }
}
