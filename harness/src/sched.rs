//! Controlled scheduler for calls that run at the same time on two threads.
//!
//! Exactly one of the two threads runs at any time.  Every heap operation of the code under test (the harness
//! owns the global allocator) is a scheduling point.  A schedule is a list of segment lengths: the first thread runs
//! for that many points, then the other one for the next number, and so on; after the last segment each thread
//! runs to its end.  If the running thread waits for a lock the paused one holds (it asks the kernel to sleep, which goes
//! through `syscall` below), the paused one takes over - the only other schedule there is at that moment - and
//! keeps running until it has woken the sleeper.  A thread that neither sleeps nor reaches its next point, or that
//! spins, loses its turn after a while.
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Condvar, Mutex};
use std::time::Duration;

pub struct Ctl {
    turn: AtomicUsize,
    done: [AtomicBool; 2],
    steps: AtomicU64,
    plan: Vec<u64>,
    next: AtomicUsize,
    /// the word each thread sleeps on, or 0
    asleep: [AtomicUsize; 2],
    lock: Mutex<()>,
    moved: Condvar,
}
struct Me {
    ctl: *const Ctl,
    id: usize,
    left: Cell<u64>,
    seen: Cell<u64>,
}
thread_local! {
    static ME: Cell<*const Me> = const { Cell::new(std::ptr::null()) };
}
pub static STALLS: AtomicU64 = AtomicU64::new(0);
const STALL: Duration = Duration::from_millis(100);

/// A scheduling point; called by the allocator.
#[inline]
pub fn point() {
    crate::cost::work(1);
    let me = ME.try_with(|m| m.get()).unwrap_or(std::ptr::null());
    if me.is_null() {
        return;
    }
    at_point(unsafe { &*me });
}
/// In the scheduler's own code there are no scheduling points.
fn outside<T>(me: &Me, f: impl FnOnce() -> T) -> T {
    ME.with(|m| m.set(std::ptr::null()));
    let r = f();
    ME.with(|m| m.set(me));
    r
}
#[cold]
fn at_point(me: &Me) {
    let ctl = unsafe { &*me.ctl };
    ctl.steps.fetch_add(1, SeqCst);
    if ctl.turn.load(SeqCst) != me.id {
        outside(me, || wait(me, ctl));
    }
    me.seen.set(me.seen.get() + 1);
    let left = me.left.get();
    if left == 1 {
        let other = 1 - me.id;
        if !ctl.done[other].load(SeqCst) && ctl.asleep[other].load(SeqCst) == 0 {
            outside(me, || {
                hand(ctl, other);
                wait(me, ctl);
            });
        }
        me.left.set(segment(ctl));
    } else {
        me.left.set(left - 1);
    }
}
/// What a thread may run when the plan has ended: to its end, unless it spins.
const TAIL: u64 = 2_000_000;
fn segment(ctl: &Ctl) -> u64 {
    let i = ctl.next.fetch_add(1, SeqCst);
    ctl.plan.get(i).copied().unwrap_or(TAIL)
}
fn hand(ctl: &Ctl, to: usize) {
    let _g = ctl.lock.lock().unwrap();
    ctl.turn.store(to, SeqCst);
    ctl.moved.notify_all();
}
fn wait(me: &Me, ctl: &Ctl) {
    let other = 1 - me.id;
    let mine = || ctl.turn.load(SeqCst) == me.id || ctl.done[other].load(SeqCst);
    for _ in 0..50 {
        if mine() {
            return;
        }
        std::hint::spin_loop();
    }
    let mut last = ctl.steps.load(SeqCst);
    let mut g = ctl.lock.lock().unwrap();
    while !mine() {
        let (h, t) = ctl.moved.wait_timeout(g, STALL).unwrap();
        g = h;
        let now = ctl.steps.load(SeqCst);
        if t.timed_out() && !mine() && now == last {
            STALLS.fetch_add(1, SeqCst);
            ctl.turn.store(me.id, SeqCst);
        }
        last = now;
    }
}

/// Runs the two bodies under the schedule; gives each one's result and the number of points it passed.
pub fn run<R: Send>(plan: &[u64], a: impl FnOnce() -> R + Send, b: impl FnOnce() -> R + Send) -> [(Result<R, String>, u64); 2] {
    let ctl = Ctl { turn: AtomicUsize::new(0), done: [AtomicBool::new(false), AtomicBool::new(false)], steps: AtomicU64::new(0), plan: plan.to_vec(), next: AtomicUsize::new(0), asleep: [AtomicUsize::new(0), AtomicUsize::new(0)], lock: Mutex::new(()), moved: Condvar::new() };
    let ctl = &ctl;
    fn body<R>(ctl: &Ctl, id: usize, f: impl FnOnce() -> R) -> (Result<R, String>, u64) {
        let me = Me { ctl, id, left: Cell::new(TAIL), seen: Cell::new(0) };
        wait(&me, ctl);
        me.left.set(segment(ctl));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            ME.with(|m| m.set(&me));
            let r = f();
            ME.with(|m| m.set(std::ptr::null()));
            r
        }));
        ME.with(|m| m.set(std::ptr::null()));
        ctl.done[id].store(true, SeqCst);
        hand(ctl, 1 - id);
        (r.map_err(|p| format!("panicked: {}", crate::engine::panic_text(&p))), me.seen.get())
    }
    // the second body runs on this worker's helper thread, the first one here
    type Job = Box<dyn FnOnce() + Send>;
    thread_local! {
        static HELPER: (Sender<Job>, Receiver<()>) = {
            let (tx, rx) = channel::<Job>();
            let (back, done) = channel();
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    for job in rx {
                        job();
                        let _ = back.send(());
                    }
                })
                .expect("thread");
            (tx, done)
        };
    }
    let mut second = None;
    let first = {
        let place = &mut second;
        let job: Box<dyn FnOnce() + Send + '_> = Box::new(move || *place = Some(body(ctl, 1, b)));
        // this function does not return before the job has ended
        let job: Job = unsafe { std::mem::transmute(job) };
        HELPER.with(|h| {
            h.0.send(job).expect("helper thread");
            let first = body(ctl, 0, a);
            h.1.recv().expect("helper thread");
            first
        })
    };
    [first, second.expect("helper thread")]
}

/// In the build for this exploration the compiler adds a call to this at every basic block of the library.
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc() {
    point();
}

extern "C" {
    fn __errno_location() -> *mut i32;
}
/// The standard library sleeps and wakes through the C library's `syscall`; this one takes its place.
#[no_mangle]
unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    const FUTEX: i64 = 202;
    let raw = || {
        let r: i64;
        std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
        if (-4095..0).contains(&r) {
            *__errno_location() = -r as i32;
            return -1;
        }
        r
    };
    let me = if n == FUTEX { ME.try_with(|m| m.get()).unwrap_or(std::ptr::null()) } else { std::ptr::null() };
    if me.is_null() {
        return raw();
    }
    let me = &*me;
    let ctl = &*me.ctl;
    let other = 1 - me.id;
    match b & 0x7f {
        // FUTEX_WAIT, FUTEX_WAIT_BITSET
        0 | 9 if !ctl.done[other].load(SeqCst) => outside(me, || {
            ctl.asleep[me.id].store(a, SeqCst);
            hand(ctl, other);
            let r = raw();
            let errno = *__errno_location();
            ctl.asleep[me.id].store(0, SeqCst);
            wait(me, ctl);
            *__errno_location() = errno;
            r
        }),
        // FUTEX_WAKE, FUTEX_WAKE_BITSET
        1 | 10 => {
            let _ = ctl.asleep[other].compare_exchange(a, 0, SeqCst, SeqCst);
            raw()
        }
        _ => raw(),
    }
}
