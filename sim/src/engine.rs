//! Runs simulations in worker processes, collects coverage, minimises and replays violations.
use crate::core::*;
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{mpsc, Mutex};
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Ctx) -> R,
    pub quick: u64,
    pub thorough: u64,
    /// every run gets a process of its own
    pub fork: bool,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

// ---------------------------------------------------------------- hash seeds

static HASH_SEED: AtomicU64 = AtomicU64::new(1);
static HASH_CTR: AtomicU64 = AtomicU64::new(0);
pub static HASH_READS: AtomicU64 = AtomicU64::new(0);

pub fn set_hash_seed(s: u64) {
    HASH_SEED.store(s, Ordering::SeqCst);
    HASH_CTR.store(0, Ordering::SeqCst);
}

fn fill_random(buf: &mut [u8]) {
    HASH_READS.fetch_add(1, Ordering::SeqCst);
    let mut r = Rng::new(HASH_SEED.load(Ordering::SeqCst) ^ HASH_CTR.fetch_add(1, Ordering::SeqCst).wrapping_mul(0x9E37));
    for c in buf.chunks_mut(8) {
        let v = r.next().to_le_bytes();
        c.copy_from_slice(&v[..c.len()]);
    }
}

/// Replaces the C library's source of randomness, from which std seeds its hash maps.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    fill_random(std::slice::from_raw_parts_mut(buf, len));
    len as isize
}

// ---------------------------------------------------------------- one run

pub static LAST_PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if let Ok(mut g) = LAST_PANIC.lock() {
            if g.is_none() {
                *g = Some((msg.clone(), loc.clone()));
            }
        }
        if std::env::var_os("PSIM_LOUD").is_some() {
            eprintln!("panic: {msg} at {loc}");
        }
    }));
}

pub fn panic_sig(msg: &str, loc: &str) -> String {
    let file = loc.rsplit_once(':').map_or(loc, |x| x.0);
    let file = file.rsplit("/src/").next().unwrap_or(file);
    let mut m: String = msg.chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).take(70).collect();
    while m.contains("##") {
        m = m.replace("##", "#");
    }
    if loc.contains("/verif/sim/") || loc.starts_with("src/") {
        format!("harness-panic:{file}:{m}")
    } else {
        format!("panic:{file}:{m}")
    }
}

pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, Viol> {
    *LAST_PANIC.lock().unwrap() = None;
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (m, l) = LAST_PANIC.lock().unwrap().take().unwrap_or_default();
            Err(viol!(panic_sig(&m, &l), "panicked: {m} ({l})"))
        }
    }
}

pub struct Outcome {
    pub res: R,
    pub ctx: Ctx,
}

pub fn run_once(p: &'static Prop, src: Src, trace: bool, thorough: bool, seed: u64) -> Outcome {
    let mut ctx = Ctx::new(p.id, src, trace);
    ctx.thorough = thorough;
    ctx.seed = seed;
    let h = ctx.src.u64();
    set_hash_seed(h);
    let th = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            *LAST_PANIC.lock().unwrap() = None;
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.run)(&mut ctx)));
            let res = match r {
                Ok(r) => r,
                Err(_) => {
                    let (m, l) = LAST_PANIC.lock().unwrap().take().unwrap_or_default();
                    if m == TOO_LONG {
                        // the run ends here; nothing it saw so far was wrong
                        ctx.probe("run-cut-short");
                        Ok(())
                    } else {
                        Err(viol!(panic_sig(&m, &l), "panicked: {m} ({l})"))
                    }
                }
            };
            Outcome { res, ctx }
        })
        .expect("spawn run thread");
    th.join().expect("run thread")
}

/// As `run_once`, in a process of its own when the property asks for it: what is initialised once
/// per process is then fresh, and threads that never end go with the process.
fn run_apart(p: &'static Prop, src: Src, trace: bool, thorough: bool, seed: u64) -> Outcome {
    if !p.fork {
        return run_once(p, src, trace, thorough, seed);
    }
    extern "C" {
        fn fork() -> i32;
        fn pipe(fds: *mut i32) -> i32;
        fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
        fn _exit(c: i32) -> !;
        fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
        fn getppid() -> i32;
    }
    use std::io::Read;
    use std::os::fd::FromRawFd;
    use std::os::unix::process::ExitStatusExt;
    let mut fds = [0i32; 2];
    let me = std::process::id() as i32;
    let pid = unsafe {
        assert!(pipe(fds.as_mut_ptr()) == 0, "pipe");
        fork()
    };
    assert!(pid >= 0, "fork");
    if pid == 0 {
        unsafe {
            prctl(1, 9, 0, 0, 0); // die with the worker
            if getppid() != me {
                _exit(3);
            }
        }
        let o = run_once(p, src, trace, thorough, seed);
        let j = json!({
            "sig": o.res.as_ref().err().map(|v| v.sig.clone()), "msg": o.res.as_ref().err().map(|v| v.msg.clone()),
            "stats": o.ctx.stats, "steps": o.ctx.steps, "faults": o.ctx.faults, "trace": o.ctx.trace,
            "digest": format!("{:016x}", o.ctx.digest()), "rec": o.ctx.src.rec,
        });
        let mut f = unsafe { std::fs::File::from_raw_fd(fds[1]) };
        let _ = f.write_all(j.to_string().as_bytes());
        unsafe { _exit(0) }
    }
    let mut text = String::new();
    unsafe {
        drop(std::fs::File::from_raw_fd(fds[1]));
        let _ = std::fs::File::from_raw_fd(fds[0]).read_to_string(&mut text);
    }
    let mut st = 0;
    unsafe { waitpid(pid, &mut st, 0) };
    let mut ctx = Ctx::new(p.id, Src::replay(Vec::new()), trace);
    match serde_json::from_str::<J>(&text) {
        Ok(j) => {
            ctx.steps = j["steps"].as_u64().unwrap_or(0);
            ctx.faults = j["faults"].as_u64().unwrap_or(0);
            for (k, v) in j["stats"].as_object().into_iter().flatten() {
                ctx.stats.insert(k.clone(), v.as_u64().unwrap_or(0));
            }
            if trace {
                ctx.trace = Some(j["trace"].as_array().into_iter().flatten().filter_map(|x| x.as_str().map(String::from)).collect());
            }
            ctx.set_digest(u64::from_str_radix(j["digest"].as_str().unwrap_or("0"), 16).unwrap_or(0));
            ctx.src.rec = j["rec"].as_array().into_iter().flatten().filter_map(|x| x.as_u64()).collect();
            let res = match j["sig"].as_str() {
                None => Ok(()),
                Some(s) => Err(viol!(s, "{}", j["msg"].as_str().unwrap_or(""))),
            };
            Outcome { res, ctx }
        }
        Err(_) => {
            let sig = crash_sig(Some(std::process::ExitStatus::from_raw(st)));
            Outcome { res: Err(viol!(sig.clone(), "the process of the run died: {sig}")), ctx }
        }
    }
}

fn run_seed(p: &Prop, seed: u64, i: u64) -> u64 {
    mix(&[seed, hash_str(p.id), i])
}

fn limit_memory() {
    #[repr(C)]
    struct Rl {
        cur: u64,
        max: u64,
    }
    extern "C" {
        fn setrlimit(r: i32, l: *const Rl) -> i32;
    }
    let l = Rl { cur: 6 << 30, max: 6 << 30 };
    unsafe {
        setrlimit(9, &l); // RLIMIT_AS
        let c = Rl { cur: 0, max: 0 };
        setrlimit(4, &c); // RLIMIT_CORE
    }
}

fn warm_up(p: &Prop) {
    set_hash_seed(7);
    crate::props::warm_up(!p.fork);
}

// ---------------------------------------------------------------- worker

pub fn worker(p: &'static Prop, seed: u64, thorough: bool, start: u64, end: u64, stride: u64, secs: u64) {
    limit_memory();
    install_panic_hook();
    warm_up(p);
    let out = std::io::stdout();
    let t0 = Instant::now();
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let mut i = start;
    let mut samples = Vec::new();
    let mut runs = 0u64;
    while i < end {
        if t0.elapsed().as_secs() >= secs {
            let _ = writeln!(out.lock(), "T {i}");
            break;
        }
        let want_trace = samples.len() < 2;
        {
            let mut o = out.lock();
            let _ = writeln!(o, "S {i}");
            let _ = o.flush();
        }
        let r = run_apart(p, Src::random(run_seed(p, seed, i)), want_trace, thorough, seed);
        runs += 1;
        for (k, v) in &r.ctx.stats {
            *stats.entry(k.clone()).or_insert(0) += v;
        }
        if want_trace && r.ctx.steps > 1 {
            let mut t = r.ctx.trace.clone().unwrap_or_default();
            t.truncate(if std::env::var_os("PSIM_LOUD").is_some() { 100000 } else { 14 });
            samples.push(json!({"run": i, "trace": t}));
        }
        match r.res {
            Ok(()) => {
                let _ = writeln!(out.lock(), "E {i} {:016x} {} {}", r.ctx.digest(), r.ctx.steps, r.ctx.faults);
            }
            Err(v) => {
                let j = json!({"sig": v.sig, "msg": v.msg});
                let mut o = out.lock();
                let _ = writeln!(o, "V {i} {j}");
                let _ = o.flush();
            }
        }
        i += stride;
    }
    let j = json!({"stats": stats, "samples": samples, "runs": runs});
    let mut o = out.lock();
    let _ = writeln!(o, "P {j}");
    let _ = o.flush();
    std::process::exit(0);
}

/// Evaluates choice sequences read from stdin, one per line.
pub fn serve(p: &'static Prop, thorough: bool, seed: u64) {
    limit_memory();
    install_panic_hook();
    warm_up(p);
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let Ok(line) = line else { break };
        let choices: Vec<u64> = line.split_whitespace().map(|x| x.parse().unwrap()).collect();
        let given = choices.clone();
        let mut r = run_apart(p, Src::replay(choices), true, thorough, seed);
        if p.fork && r.ctx.src.rec.is_empty() {
            r.ctx.src.rec = given; // the process died with its record
        }
        let used = r.ctx.src.rec.clone();
        let j = match r.res {
            Ok(()) => json!({"sig": null, "used": used, "digest": format!("{:016x}", r.ctx.digest()), "trace": r.ctx.trace}),
            Err(v) => json!({"sig": v.sig, "msg": v.msg, "used": used, "digest": format!("{:016x}", r.ctx.digest()), "trace": r.ctx.trace}),
        };
        let out = std::io::stdout();
        let mut o = out.lock();
        let _ = writeln!(o, "\nR {j}");
        let _ = o.flush();
    }
    std::process::exit(0);
}

struct Server {
    child: Option<(Child, std::process::ChildStdin, mpsc::Receiver<String>)>,
    prop: &'static str,
    thorough: bool,
    seed: u64,
}

impl Server {
    fn new(prop: &'static str, thorough: bool, seed: u64) -> Server {
        Server { child: None, prop, thorough, seed }
    }
    fn eval(&mut self, choices: &[u64], timeout: u64) -> (Option<String>, J) {
        if self.child.is_none() {
            let mut c = Command::new(std::env::current_exe().unwrap())
                .args(["serve", self.prop, if self.thorough { "thorough" } else { "quick" }, &self.seed.to_string()])
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .stderr(Stdio::null())
                .spawn()
                .expect("spawn server");
            let stdin = c.stdin.take().unwrap();
            let rx = line_reader(c.stdout.take().unwrap());
            self.child = Some((c, stdin, rx));
        }
        let (c, stdin, rx) = self.child.as_mut().unwrap();
        let s: Vec<String> = choices.iter().map(|x| x.to_string()).collect();
        let _ = writeln!(stdin, "{}", s.join(" "));
        let _ = stdin.flush();
        let deadline = Instant::now() + Duration::from_secs(timeout);
        loop {
            let left = deadline.saturating_duration_since(Instant::now());
            match rx.recv_timeout(left) {
                Ok(l) => {
                    if let Some(j) = l.strip_prefix("R ") {
                        let v: J = serde_json::from_str(j).unwrap_or(J::Null);
                        return (v["sig"].as_str().map(|s| s.to_string()), v);
                    }
                }
                Err(mpsc::RecvTimeoutError::Timeout) => {
                    let _ = c.kill();
                    let _ = c.wait();
                    self.child = None;
                    return (Some("hang".into()), json!({"msg": format!("no answer within {timeout} s"), "used": choices}));
                }
                Err(mpsc::RecvTimeoutError::Disconnected) => {
                    let st = c.wait().ok();
                    self.child = None;
                    let sig = crash_sig(st);
                    return (Some(sig.clone()), json!({"msg": format!("process died: {sig}"), "used": choices}));
                }
            }
        }
    }
}

fn crash_sig(st: Option<std::process::ExitStatus>) -> String {
    use std::os::unix::process::ExitStatusExt;
    match st {
        Some(s) => match s.signal() {
            Some(6) => "crash:SIGABRT".into(),
            Some(11) => "crash:SIGSEGV".into(),
            Some(n) => format!("crash:signal{n}"),
            None => format!("crash:exit{}", s.code().unwrap_or(-1)),
        },
        None => "crash:unknown".into(),
    }
}

fn line_reader(out: std::process::ChildStdout) -> mpsc::Receiver<String> {
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || {
        for l in BufReader::new(out).lines() {
            match l {
                Ok(l) => {
                    if tx.send(l).is_err() {
                        break;
                    }
                }
                Err(_) => break,
            }
        }
    });
    rx
}

// ---------------------------------------------------------------- known findings

/// Lines `KNOWN-FINDING: property=<id> sig=<signature> <text>`.
fn known_findings() -> Vec<(String, String, String)> {
    let path = verif_dir().join("known_findings.txt");
    let mut v = Vec::new();
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        if let Some(rest) = l.strip_prefix("KNOWN-FINDING: ") {
            let mut it = rest.splitn(3, ' ');
            let prop = it.next().and_then(|x| x.strip_prefix("property=")).unwrap_or("").to_string();
            let sig = it.next().and_then(|x| x.strip_prefix("sig=")).unwrap_or("").replace("%20", " ");
            let text = it.next().unwrap_or("").to_string();
            if !prop.is_empty() && !sig.is_empty() {
                v.push((prop, sig, text));
            }
        }
    }
    v
}

pub fn verif_dir() -> std::path::PathBuf {
    std::env::var_os("PSIM_VERIF").map(Into::into).unwrap_or_else(|| "/verif".into())
}

/// A directory for the files of runs, removed when the command ends.
struct Scratch(std::path::PathBuf);
impl Scratch {
    fn new() -> Scratch {
        let d = std::env::temp_dir().join(format!("psim-scratch-{}", std::process::id()));
        let _ = std::fs::create_dir_all(&d);
        std::env::set_var("PSIM_SCRATCH", &d);
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
/// The directory of this process.
pub fn scratch() -> std::path::PathBuf {
    let base = std::env::var_os("PSIM_SCRATCH").map(std::path::PathBuf::from).unwrap_or_else(std::env::temp_dir);
    base.join(format!("w{}", std::process::id()))
}

// ---------------------------------------------------------------- check

pub fn check(p: &'static Prop, thorough: bool, seed: u64, runs: Option<u64>, workers: u64) -> i32 {
    let t0 = Instant::now();
    let tier = if thorough { "thorough" } else { "quick" };
    let n = runs.unwrap_or(if thorough { p.thorough } else { p.quick });
    let secs: u64 = std::env::var("PSIM_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3600 } else { 420 });
    println!("property {} seed {seed} tier {tier} runs {n} workers {workers}", p.id);
    let _scratch = Scratch::new();

    enum Msg {
        Line(u64, String),
        Gone(u64),
    }
    let (tx, rx) = mpsc::channel::<Msg>();
    let spawn = |w: u64, start: u64| -> Child {
        let left = secs.saturating_sub(t0.elapsed().as_secs()).max(1);
        let mut c = Command::new(std::env::current_exe().unwrap())
            .args(["worker", p.id, &seed.to_string(), tier, &start.to_string(), &n.to_string(), &workers.to_string(), &left.to_string()])
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("spawn worker");
        let out = c.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in BufReader::new(out).lines() {
                let Ok(l) = l else { break };
                if tx.send(Msg::Line(w, l)).is_err() {
                    return;
                }
            }
            let _ = tx.send(Msg::Gone(w));
        });
        c
    };
    struct W {
        child: Option<Child>,
        cur: Option<u64>,
        since: Instant,
        done: bool,
        crashes: u32,
    }
    let mut ws: Vec<W> = (0..workers)
        .map(|w| W { child: Some(spawn(w, w)), cur: None, since: Instant::now(), done: false, crashes: 0 })
        .collect();
    let known = known_findings();
    let known_for = |sig: &str| known.iter().find(|(kp, ks, _)| kp == p.id && sig.starts_with(ks.as_str())).cloned();

    let mut digests: HashSet<u64> = HashSet::new();
    let mut distinct_faulty: HashSet<u64> = HashSet::new();
    let mut completed = 0u64;
    let mut steps = 0u64;
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<J> = Vec::new();
    let mut found: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let mut known_seen: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let mut timed_out = false;
    let mut errors: Vec<String> = Vec::new();
    let hang_limit = 45u64;
    let keep_going = std::env::var_os("PSIM_KEEP_GOING").is_some();

    while ws.iter().any(|w| !w.done) {
        let m = rx.recv_timeout(Duration::from_millis(500));
        let mut crashed: Option<(u64, u64, String)> = None;
        match m {
            Ok(Msg::Line(w, l)) => {
                let wk = &mut ws[w as usize];
                let mut it = l.splitn(3, ' ');
                match it.next().unwrap_or("") {
                    "S" => {
                        wk.cur = it.next().and_then(|x| x.parse().ok());
                        wk.since = Instant::now();
                    }
                    "E" => {
                        completed += 1;
                        let rest: Vec<&str> = l.split(' ').collect();
                        if rest.len() == 5 {
                            let d = u64::from_str_radix(rest[2], 16).unwrap_or(0);
                            let s: u64 = rest[3].parse().unwrap_or(0);
                            let f: u64 = rest[4].parse().unwrap_or(0);
                            steps += s;
                            digests.insert(d);
                            if s >= 2 {
                                distinct_faulty.insert(d);
                            }
                            let _ = f;
                        }
                        wk.cur = None;
                    }
                    "V" => {
                        completed += 1;
                        let i: u64 = it.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                        let v: J = serde_json::from_str(it.next().unwrap_or("{}")).unwrap_or(J::Null);
                        let sig = v["sig"].as_str().unwrap_or("?").to_string();
                        let msg = v["msg"].as_str().unwrap_or("").to_string();
                        wk.cur = None;
                        let map = if known_for(&sig).is_some() { &mut known_seen } else { &mut found };
                        let e = map.entry(sig).or_insert((i, msg.clone()));
                        if i < e.0 {
                            *e = (i, msg);
                        }
                    }
                    "T" => timed_out = true,
                    "P" => {
                        let body = l.strip_prefix("P ").unwrap_or("{}");
                        let v: J = serde_json::from_str(body).unwrap_or(J::Null);
                        if let Some(m) = v["stats"].as_object() {
                            for (k, x) in m {
                                *stats.entry(k.clone()).or_insert(0) += x.as_u64().unwrap_or(0);
                            }
                        }
                        if let Some(a) = v["samples"].as_array() {
                            samples.extend(a.iter().cloned());
                        }
                        wk.done = true;
                    }
                    _ => {}
                }
            }
            Ok(Msg::Gone(w)) => {
                let wk = &mut ws[w as usize];
                let st = wk.child.take().and_then(|mut c| c.wait().ok());
                if !wk.done {
                    match wk.cur {
                        Some(i) => crashed = Some((w, i, crash_sig(st))),
                        None => {
                            errors.push(format!("worker {w} died outside a run: {}", crash_sig(st)));
                            wk.done = true;
                        }
                    }
                }
            }
            Err(mpsc::RecvTimeoutError::Timeout) => {}
            Err(_) => break,
        }
        for w in 0..workers {
            let wk = &mut ws[w as usize];
            if let (Some(i), false) = (wk.cur, wk.done) {
                if wk.since.elapsed().as_secs() > hang_limit && wk.child.is_some() {
                    if let Some(c) = wk.child.as_mut() {
                        let _ = c.kill();
                    }
                    let _ = wk.child.take().map(|mut c| c.wait());
                    crashed = Some((w, i, "hang".into()));
                    break;
                }
            }
        }
        if let Some((w, i, sig)) = crashed {
            let map = if known_for(&sig).is_some() { &mut known_seen } else { &mut found };
            map.entry(sig.clone()).or_insert((i, sig.clone()));
            let wk = &mut ws[w as usize];
            wk.cur = None;
            wk.crashes += 1;
            completed += 1;
            if wk.crashes > 3 || i + workers >= n {
                wk.done = true;
            } else {
                wk.child = Some(spawn(w, i + workers));
                wk.since = Instant::now();
            }
        }
        if !found.is_empty() && !keep_going {
            break;
        }
    }
    for w in &mut ws {
        if let Some(c) = w.child.as_mut() {
            let _ = c.kill();
            let _ = c.wait();
        }
    }
    let sim_s = t0.elapsed().as_secs_f64();

    // report
    let mut exit = 0;
    let mut violations = 0u64;
    let rdir = verif_dir().join("replays");
    for (sig, (i, msg)) in &found {
        // regenerate the choices
        let mut srv = Server::new(p.id, thorough, seed);
        let Some((choices, sig2, msg2, trace)) = reproduce(p, &mut srv, thorough, seed, *i, sig) else {
            if sig == "hang" || sig == "crash:signal9" {
                println!("note: run {i} ended with {sig} once and passed when repeated");
                continue;
            }
            errors.push(format!("violation '{sig}' at run {i} did not reproduce: {msg}"));
            continue;
        };
        violations += 1;
        let _ = std::fs::create_dir_all(&rdir);
        let path = rdir.join(format!("{}-{:08x}.json", p.id, hash_str(&sig2) as u32));
        let j = json!({"property": p.id, "seed": seed, "run": i, "tier": tier, "sig": sig2, "msg": msg2,
            "choices": choices, "trace": trace});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
        println!("seed {seed} run {i}: {sig2}: {msg2}");
        if let Some(t) = trace.as_array() {
            for l in t.iter().take(60) {
                println!("  {}", l.as_str().unwrap_or(""));
            }
        }
        println!("VIOLATION property={} replay={}", p.id, path.display());
        exit = 1;
    }
    for (kp, ks, text) in &known {
        if kp == p.id {
            let seen = known_seen.keys().any(|s| s.starts_with(ks.as_str()));
            println!("KNOWN-FINDING: property={kp} {text}{}", if seen { "" } else { " (not met in this run)" });
        }
    }
    if !errors.is_empty() && exit == 0 {
        for e in &errors {
            println!("ERROR: {e}");
        }
        exit = 2;
    }

    let faults: BTreeMap<&str, u64> = stats.iter().filter_map(|(k, v)| k.strip_prefix("fault.").map(|k| (k, *v))).collect();
    let probes: BTreeMap<&str, u64> = stats.iter().filter_map(|(k, v)| k.strip_prefix("probe.").map(|k| (k, *v))).collect();
    let ops: BTreeMap<&str, u64> = stats.iter().filter_map(|(k, v)| k.strip_prefix("op.").map(|k| (k, *v))).collect();
    samples.truncate(6);
    if samples.is_empty() {
        samples.push(json!("the run ended before a complete sample was recorded"));
    }
    let ev = json!({
        "property": p.id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": completed,
            "distinct_nontrivial": distinct_faulty.len(),
            "rule": p.rule,
            "samples": samples,
            "runs_per_hour": (completed as f64 / sim_s * 3600.0) as u64,
            "seeds": format!("one seed per run, derived from VERIF_SEED={seed}, the property and the run index"),
            "simulated_steps": steps,
            "simulated_time": format!("{steps} simulator steps (the library has no clock; time is counted in steps)"),
            "distinct_histories": digests.len(),
            "distinctness_measure": "64-bit digest of the run's full event log (operations, schedule, faults, outcomes)",
            "faults_injected": faults,
            "operations": ops,
            "probes": probes,
            "real_components": p.real,
            "stubbed_components": p.stub,
            "stopped_by_time": timed_out,
            "known_findings_met": known_seen.keys().collect::<Vec<_>>(),
        },
        "assumptions": p.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let edir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&edir);
    let _ = std::fs::write(edir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap());
    println!(
        "{} runs, {} distinct histories, {} steps, {} faults, {:.1} s; exit {exit}",
        completed,
        digests.len(),
        steps,
        faults.values().sum::<u64>(),
        sim_s
    );
    exit
}

fn reproduce(
    p: &'static Prop,
    srv: &mut Server,
    thorough: bool,
    seed: u64,
    i: u64,
    sig: &str,
) -> Option<(Vec<u64>, String, String, J)> {
    let mut choices = recorded_choices(p, thorough, seed, i)?;
    let limit = if sig == "hang" { 45 } else { 90 };
    let (s, v) = srv.eval(&choices, limit);
    let class = s?;
    if let Some(u) = v["used"].as_array() {
        choices = u.iter().filter_map(|x| x.as_u64()).collect();
    }
    let mut best = (choices, v);
    minimise(srv, &class, &mut best);
    let (s, v) = srv.eval(&best.0, limit);
    if s.as_deref() != Some(class.as_str()) {
        println!("note: the minimised run ended in {s:?} when repeated");
    }
    let msg = v["msg"].as_str().or(best.1["msg"].as_str()).unwrap_or("").to_string();
    Some((best.0, class, msg, v["trace"].clone()))
}

/// The choices of run `i`, written out by a child as it draws them, so that it may crash or hang.
fn recorded_choices(p: &'static Prop, thorough: bool, seed: u64, i: u64) -> Option<Vec<u64>> {
    let path = format!("/tmp/psim-rec-{}-{}", std::process::id(), i);
    let mut c = Command::new(std::env::current_exe().unwrap())
        .args(["record", p.id, if thorough { "thorough" } else { "quick" }, &seed.to_string(), &i.to_string(), &path])
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .ok()?;
    let t0 = Instant::now();
    while t0.elapsed() < Duration::from_secs(30) {
        if let Ok(Some(_)) = c.try_wait() {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    let _ = c.kill();
    let _ = c.wait();
    let b = std::fs::read(&path).ok()?;
    let _ = std::fs::remove_file(&path);
    Some(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect())
}

fn minimise(srv: &mut Server, class: &str, best: &mut (Vec<u64>, J)) {
    let t0 = Instant::now();
    let budget = Duration::from_secs(if class == "hang" { 1 } else { 40 });
    let mut attempts = 0;
    let mut try_it = |srv: &mut Server, cand: Vec<u64>, best: &mut (Vec<u64>, J)| -> bool {
        attempts += 1;
        if attempts > 6000 || t0.elapsed() > budget || cand == best.0 {
            return false;
        }
        let (s, v) = srv.eval(&cand, 30);
        if s.as_deref() == Some(class) {
            let mut used: Vec<u64> = v["used"].as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).collect()).unwrap_or(cand.clone());
            while used.last() == Some(&0) {
                used.pop();
            }
            let smaller = (used.len(), used.iter().filter(|x| **x != 0).count(), used.iter().map(|x| *x as u128).sum::<u128>())
                < (best.0.len(), best.0.iter().filter(|x| **x != 0).count(), best.0.iter().map(|x| *x as u128).sum::<u128>());
            if smaller {
                *best = (used, v);
                return true;
            }
        }
        false
    };
    loop {
        let before = best.0.clone();
        // delete blocks
        let mut size = (best.0.len() / 2).max(1);
        while size >= 1 {
            let mut at = 0;
            while at < best.0.len() {
                let mut c = best.0.clone();
                let e = (at + size).min(c.len());
                c.drain(at..e);
                if !try_it(srv, c, best) {
                    at += size;
                }
                if t0.elapsed() > budget {
                    return;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero blocks
        let mut size = (best.0.len() / 2).max(1);
        while size >= 1 {
            let mut at = 0;
            while at < best.0.len() {
                let mut c = best.0.clone();
                let e = (at + size).min(c.len());
                if c[at..e].iter().any(|x| *x != 0) {
                    c[at..e].iter_mut().for_each(|x| *x = 0);
                    try_it(srv, c, best);
                }
                at += size;
                if t0.elapsed() > budget {
                    return;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // lower values
        let mut at = 0;
        while at < best.0.len() {
            for f in [|x: u64| x / 2, |x: u64| x.saturating_sub(1)] {
                if at < best.0.len() && best.0[at] > 0 {
                    let mut c = best.0.clone();
                    c[at] = f(c[at]);
                    try_it(srv, c, best);
                }
            }
            at += 1;
            if t0.elapsed() > budget {
                return;
            }
        }
        if best.0 == before {
            return;
        }
    }
}

pub fn record(p: &'static Prop, thorough: bool, seed: u64, i: u64, file: Option<String>) {
    limit_memory();
    install_panic_hook();
    warm_up(p);
    if let Some(f) = file {
        crate::core::set_spill(&f);
    }
    let r = run_apart(p, Src::random(run_seed(p, seed, i)), false, thorough, seed);
    let s: Vec<String> = r.ctx.src.rec.iter().map(|x| x.to_string()).collect();
    println!("\nC {}", s.join(" "));
    std::process::exit(0);
}

pub fn replay(path: &str, props: &'static [Prop]) -> i32 {
    let Ok(text) = std::fs::read_to_string(path) else {
        println!("cannot read {path}");
        return 2;
    };
    let j: J = serde_json::from_str(&text).unwrap();
    let id = j["property"].as_str().unwrap_or("");
    let Some(p) = props.iter().find(|p| p.id == id) else {
        println!("unknown property {id}");
        return 2;
    };
    let _scratch = Scratch::new();
    let choices: Vec<u64> = j["choices"].as_array().unwrap().iter().filter_map(|x| x.as_u64()).collect();
    let thorough = j["tier"].as_str() == Some("thorough");
    let mut srv = Server::new(p.id, thorough, j["seed"].as_u64().unwrap_or(0));
    let (sig, v) = srv.eval(&choices, 120);
    if let Some(t) = v["trace"].as_array() {
        for l in t {
            println!("  {}", l.as_str().unwrap_or(""));
        }
    }
    match sig {
        None => {
            println!("no violation (digest {})", v["digest"]);
            0
        }
        Some(s) => {
            println!("{s}: {}", v["msg"].as_str().unwrap_or(""));
            println!("same as recorded: {}", Some(s.as_str()) == j["sig"].as_str());
            println!("VIOLATION property={} replay={path}", p.id);
            1
        }
    }
}

/// Runs a sample twice, in different processes and with different worker counts, and compares the event logs.
pub fn selftest(p: &'static Prop, seed: u64, runs: u64) -> i32 {
    let _scratch = Scratch::new();
    let collect = |workers: u64| -> BTreeMap<u64, String> {
        let mut m = BTreeMap::new();
        let kids: Vec<Child> = (0..workers)
            .map(|w| {
                Command::new(std::env::current_exe().unwrap())
                    .args(["worker", p.id, &seed.to_string(), "quick", &w.to_string(), &runs.to_string(), &workers.to_string(), "600"])
                    .stdin(Stdio::null())
                    .stdout(Stdio::piped())
                    .stderr(Stdio::null())
                    .spawn()
                    .unwrap()
            })
            .collect();
        for c in kids {
            let out = c.wait_with_output().unwrap();
            for l in String::from_utf8_lossy(&out.stdout).lines() {
                let x: Vec<&str> = l.splitn(3, ' ').collect();
                if x.len() == 3 && (x[0] == "E" || x[0] == "V") {
                    m.insert(x[1].parse().unwrap_or(u64::MAX), format!("{} {}", x[0], x[2]));
                }
            }
        }
        m
    };
    let a = collect(8);
    let b = collect(5);
    let c = collect(13);
    let mut bad = 0;
    for (i, x) in &a {
        if b.get(i) != Some(x) || c.get(i) != Some(x) {
            bad += 1;
            println!("run {i} differs: {x} / {:?} / {:?}", b.get(i), c.get(i));
        }
    }
    println!("{}: {} runs compared over 3 process layouts, {bad} differ", p.id, a.len());
    (bad > 0) as i32
}
