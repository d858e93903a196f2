//! Runs real threads one at a time, in an order chosen by the run's choices.
//!
//! A simulated thread gives up its turn at every use of a synchronisation primitive of the
//! library, at the simulator's own yield points, and after a chosen number of allocations made
//! inside the library. A thread that waits in a primitive the simulator cannot see is noticed
//! because it sleeps; it is then left alone until it comes back.
use crate::core::*;
use prost_reflect::sim::Event;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

pub const MAX: usize = 8;

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Unused,
    Ready,
    Running,
    /// waits for the primitive at this address
    Blocked(usize),
    /// sleeps where the simulator cannot see it
    Stuck,
    Done,
}

struct State {
    turn: Option<usize>,
    st: [St; MAX],
    tid: [u64; MAX],
    why: [&'static str; MAX],
}

static S: Mutex<State> = Mutex::new(State { turn: None, st: [St::Unused; MAX], tid: [0; MAX], why: [""; MAX] });
static CTL: Condvar = Condvar::new();
#[allow(clippy::declare_interior_mutable_const)]
const CV: Condvar = Condvar::new();
static GO: [Condvar; MAX] = [CV; MAX];
#[allow(clippy::declare_interior_mutable_const)]
const ZERO: AtomicI64 = AtomicI64::new(0);
/// allocations left before the thread is preempted
static BUDGET: [AtomicI64; MAX] = [ZERO; MAX];
static CLOCK: AtomicU64 = AtomicU64::new(0);

thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
    static LIB: Cell<bool> = const { Cell::new(false) };
}

pub fn clock() -> u64 {
    CLOCK.fetch_add(1, Ordering::SeqCst)
}

/// Marks the code that belongs to the library, inside which allocations are counted.
pub fn in_lib<T>(on: bool, f: impl FnOnce() -> T) -> T {
    struct Reset(bool);
    impl Drop for Reset {
        fn drop(&mut self) {
            LIB.with(|l| l.set(self.0));
        }
    }
    let _r = Reset(LIB.with(|l| l.replace(on)));
    f()
}

pub struct Alloc;
#[global_allocator]
static ALLOC: Alloc = Alloc;

fn counted() {
    let hit = LIB.try_with(|l| l.get()).unwrap_or(false);
    if hit {
        let me = ME.with(|m| m.get());
        if me < MAX && BUDGET[me].fetch_sub(1, Ordering::Relaxed) == 1 && !std::thread::panicking() {
            give_up(St::Ready, "allocation");
        }
    }
}
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        counted();
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        counted();
        System.realloc(p, l, n)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        counted();
        System.alloc_zeroed(l)
    }
}

fn give_up(st: St, why: &'static str) {
    let me = ME.with(|m| m.get());
    if me >= MAX {
        return;
    }
    let lib = LIB.with(|l| l.replace(false));
    {
        let mut g = S.lock().unwrap_or_else(|e| e.into_inner());
        g.st[me] = st;
        g.why[me] = why;
        if g.turn == Some(me) {
            g.turn = None;
        }
        CTL.notify_one();
        while g.turn != Some(me) {
            g = GO[me].wait(g).unwrap_or_else(|e| e.into_inner());
        }
    }
    LIB.with(|l| l.set(lib));
}

pub fn yield_now() {
    give_up(St::Ready, "yield");
}

fn hook(e: Event) {
    if ME.with(|m| m.get()) >= MAX {
        return;
    }
    match e {
        Event::Before(_) => give_up(St::Ready, "before"),
        Event::Blocked(a) => give_up(St::Blocked(a), "blocked"),
        Event::Released(a) => {
            {
                let mut g = S.lock().unwrap_or_else(|e| e.into_inner());
                for s in g.st.iter_mut() {
                    if *s == St::Blocked(a) {
                        *s = St::Ready;
                    }
                }
            }
            give_up(St::Ready, "released");
        }
    }
}

fn gettid() -> u64 {
    extern "C" {
        fn syscall(n: i64, ...) -> i64;
    }
    unsafe { syscall(186) as u64 }
}

/// Is the thread asleep in the kernel?
fn asleep(tid: u64) -> bool {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).unwrap_or_default();
    s.rsplit(')').next().is_some_and(|r| r.trim_start().starts_with('S'))
}

pub enum End {
    AllDone,
    /// nobody can go on; what each unfinished thread waits for
    Deadlock(String),
}

/// Runs the given threads to their end. Only once per process.
pub fn run(ctx: &mut Ctx, bodies: Vec<Box<dyn FnOnce() + Send>>) -> End {
    prost_reflect::sim::set_hook(hook);
    let n = bodies.len();
    assert!(n <= MAX);
    for (i, b) in bodies.into_iter().enumerate() {
        S.lock().unwrap().st[i] = St::Running;
        std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn(move || {
                S.lock().unwrap().tid[i] = gettid();
                ME.with(|m| m.set(i));
                give_up(St::Ready, "start");
                b();
                ME.with(|m| m.set(usize::MAX));
                let mut g = S.lock().unwrap();
                g.st[i] = St::Done;
                if g.turn == Some(i) {
                    g.turn = None;
                }
                CTL.notify_one();
            })
            .expect("spawn simulated thread");
        let mut g = S.lock().unwrap();
        while g.st[i] == St::Running {
            g = CTL.wait(g).unwrap();
        }
    }
    // schedule
    let mode = ctx.src.below(3);
    let stick = 1 + ctx.src.below(6) as u64;
    let mut prio: Vec<usize> = (0..n).collect();
    let mut low = 0i64;
    let mut rank: Vec<i64> = vec![0; n];
    if mode == 1 {
        ctx.src.shuffle(&mut prio);
        for (i, p) in prio.iter().enumerate() {
            rank[*p] = (n - i) as i64;
        }
    }
    let mut change: Vec<usize> = Vec::new();
    if mode == 1 {
        for _ in 0..ctx.src.below(4) {
            let scale = 1 << ctx.src.below(8);
            change.push(ctx.src.below(scale + 1));
        }
    }
    let preempt = [0, 1, 3][ctx.src.below(3)];
    ctx.count("op", ["schedule-random", "schedule-priorities", "schedule-round-robin"][mode]);
    let mut cur = 0usize;
    let mut at = 0usize;
    loop {
        let mut ready: Vec<usize>;
        let waited = Instant::now();
        loop {
            let g = S.lock().unwrap();
            ready = (0..n).filter(|&i| g.st[i] == St::Ready).collect();
            if !ready.is_empty() {
                break;
            }
            if (0..n).all(|i| g.st[i] == St::Done) {
                return End::AllDone;
            }
            let stuck: Vec<usize> = (0..n).filter(|&i| g.st[i] == St::Stuck).collect();
            let sleeping = stuck.iter().all(|&i| asleep(g.tid[i]));
            if stuck.is_empty() || (sleeping && waited.elapsed() > Duration::from_millis(1500)) || waited.elapsed() > Duration::from_secs(15) {
                let who: Vec<String> = (0..n)
                    .filter(|&i| g.st[i] != St::Done)
                    .map(|i| format!("T{i} {}", if g.st[i] == St::Stuck { "sleeps inside the library" } else { "waits for a lock" }))
                    .collect();
                return End::Deadlock(who.join(", "));
            }
            let _ = CTL.wait_timeout(g, Duration::from_millis(20)).unwrap();
        }
        at += 1;
        if at > 20_000 {
            return End::Deadlock("no progress in 20000 turns".into());
        }
        let t = match mode {
            1 => {
                if change.contains(&at) {
                    low -= 1;
                    rank[cur] = low;
                }
                *ready.iter().max_by_key(|&&i| (rank[i], -(i as i64))).unwrap()
            }
            2 => ready.iter().copied().find(|&i| i > cur).unwrap_or(ready[0]),
            _ => {
                // the running thread first: a zero choice does not switch
                if let Some(k) = ready.iter().position(|&i| i == cur) {
                    ready.swap(0, k);
                    if ready.len() == 1 || !ctx.src.chance(1, stick) {
                        ready[0]
                    } else {
                        ready[ctx.src.range(1, ready.len() - 1)]
                    }
                } else {
                    *ctx.src.pick(&ready)
                }
            }
        };
        let budget = if preempt > 0 && ctx.src.chance(preempt, 4) {
            let scale = 1u64 << ctx.src.below(15);
            (scale + ctx.src.below(scale as usize + 1) as u64) as i64
        } else {
            0
        };
        BUDGET[t].store(budget, Ordering::Relaxed);
        if t != cur {
            ctx.count("op", "context-switch");
        }
        cur = t;
        let began = Instant::now();
        let mut g = S.lock().unwrap();
        let from = g.why[t];
        g.st[t] = St::Running;
        g.turn = Some(t);
        GO[t].notify_one();
        let mut nap = Duration::from_millis(40);
        while g.turn == Some(t) {
            let (g2, to) = CTL.wait_timeout(g, nap).unwrap();
            g = g2;
            if g.turn == Some(t) && to.timed_out() {
                if asleep(g.tid[t]) {
                    g.turn = None;
                    g.st[t] = St::Stuck;
                    g.why[t] = "stuck";
                    ctx.stats.entry("probe.waits-out-of-sight".into()).and_modify(|x| *x += 1).or_insert(1);
                } else if began.elapsed() > Duration::from_secs(30) {
                    return End::Deadlock(format!("T{t} runs on without an end"));
                } else {
                    nap = Duration::from_millis(40);
                }
            }
        }
        let (why, st) = (g.why[t], g.st[t]);
        drop(g);
        let to = match st {
            St::Done => "done",
            St::Blocked(_) => "blocked",
            _ => why,
        };
        if why == "allocation" && st == St::Ready {
            ctx.count("fault", "preempted-inside-the-library");
            ctx.faults += 1;
        }
        if to == "blocked" {
            ctx.count("probe", "lock-contended");
        }
        ctx.step(format_args!("turn {at}: T{t} from {from} to {to}{}", if budget > 0 { format!(" (budget {budget})") } else { String::new() }));
    }
}
