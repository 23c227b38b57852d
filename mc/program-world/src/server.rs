//! Processes: the coordinator, its workers, and their children that run one execution each.

use crate::world;
use mcsched::explore::{show_log, taken};
use mcsched::*;
use report::{map, Check, Json, Tier, Violation};
use std::cell::RefCell;
use std::ffi::CString;
use std::mem::ManuallyDrop;
use std::os::raw::{c_char, c_int, c_void};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicUsize, Ordering};
use std::time::{Duration, Instant};

/// How an execution of the program came to an end.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Outcome {
    /// `main` returned.
    Returned,
    /// The program left by itself before that.
    Exited,
    /// Nothing can ever happen again.
    Stuck,
}

pub struct Run {
    pub ended: Ended,
    pub outcome: Outcome,
    pub stdout: Vec<u8>,
}

/// What must be true of the exit code.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Exit { Any, Zero, Nonzero }

pub struct Scenario {
    pub name: String,
    pub args: Vec<String>,
    pub setup: Box<dyn Fn()>,
    pub judge: Box<dyn Fn(&Run) -> Result<Exit, String>>,
    /// Run with these logs, and compare.
    pub logs: Vec<&'static str>,
}

pub struct Family {
    pub label: &'static str,
    pub bound: u32,
    pub scenarios: Vec<Scenario>,
}

/// What a process is for, once it leaves `become_child`.
pub enum Role {
    /// Runs one execution.
    Child(Job),
    /// Runs the program to its first connection, with the usual arguments and this log; from
    /// there it forks one child per job.
    Template { log: &'static str, jobs: c_int, results: c_int },
}

#[derive(Clone)]
pub struct Job {
    family: usize,
    scenario: usize,
    log: usize,
    verbose: bool,
    prefix: Vec<u8>,
}

// ---- the command line ------------------------------------------------------------------------

static mut ARGV: *mut *mut c_char = std::ptr::null_mut();
static mut ARGC: c_int = 0;
extern "C" fn keep_args(argc: c_int, argv: *mut *mut c_char, _: *mut *mut c_char) { unsafe { ARGC = argc; ARGV = argv; } }
#[used]
#[link_section = ".init_array"]
static KEEP: extern "C" fn(c_int, *mut *mut c_char, *mut *mut c_char) = keep_args;

/// Replaces the arguments the program sees. The explorer is started with room enough.
fn set_args(args: &[String]) {
    unsafe {
        assert!(args.len() < ARGC as usize, "too many arguments");
        for k in 1..ARGC as usize {
            *ARGV.add(k) = match args.get(k - 1) { Some(a) => CString::new(a.as_str()).expect("argument").into_raw(), None => std::ptr::null_mut() };
        }
    }
    assert_eq!(std::env::args().count(), args.len() + 1);
}

// ---- children --------------------------------------------------------------------------------

/// Not dropped with the thread: it is used while the process exits.
type Kept<T> = ManuallyDrop<RefCell<T>>;
thread_local! {
    static FAMILIES: Kept<Vec<Family>> = const { ManuallyDrop::new(RefCell::new(Vec::new())) };
    static CHILD: Kept<Option<Child>> = const { ManuallyDrop::new(RefCell::new(None)) };
}
struct Child { out: c_int, stdout: c_int, family: usize, scenario: usize, verbose: bool, outcome: Outcome }

/// Text the program has shown so far, log lines left out.
pub fn shown() -> Vec<u8> {
    let fd = CHILD.with(|c| c.borrow().as_ref().map(|c| c.stdout));
    let Some(fd) = fd else { return Vec::new() };
    let mut all = Vec::new();
    let mut buf = [0u8; 65536];
    loop {
        let n = unsafe { libc::pread(fd, buf.as_mut_ptr().cast(), buf.len(), all.len() as i64) };
        if n <= 0 { break; }
        all.extend_from_slice(&buf[..n as usize]);
    }
    all
}

/// How often standard output can still be written to, and what is wrong then.
static SHOWABLE: AtomicUsize = AtomicUsize::new(usize::MAX);
static SHOW_ERROR: AtomicI32 = AtomicI32::new(0);
static SHOW_FAILED: AtomicBool = AtomicBool::new(false);
/// Whether standard output could not be written to.
pub fn show_failed() -> bool { SHOW_FAILED.load(Ordering::Relaxed) }
pub fn show_only(times: usize, error: c_int) {
    SHOWABLE.store(times, Ordering::Relaxed);
    SHOW_ERROR.store(error, Ordering::Relaxed);
}

/// What the program writes; log records, each written at once, are left out.
#[no_mangle]
pub extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    if fd == 1 && unsafe { std::slice::from_raw_parts(buf.cast::<u8>(), n) }.starts_with(b"\x1b[2m") { return n as isize; }
    if fd == 1 && n > 0 {
        let left = SHOWABLE.load(Ordering::Relaxed);
        if left == 0 {
            SHOW_FAILED.store(true, Ordering::Relaxed);
            unsafe { *libc::__errno_location() = SHOW_ERROR.load(Ordering::Relaxed); }
            return -1;
        }
        if left < usize::MAX { SHOWABLE.store(left - 1, Ordering::Relaxed); }
    }
    unsafe { libc::syscall(libc::SYS_write, fd, buf, n) as isize }
}

fn with_scenario<T>(f: usize, s: usize, g: impl FnOnce(&Scenario) -> T) -> T { FAMILIES.with(|all| g(&all.borrow()[f].scenarios[s])) }

pub fn begin(role: &Role) {
    match role {
        Role::Child(job) => {
            mcsched::begin(Config { verbose: job.verbose, ..Config::default() }, &job.prefix);
            world::fresh();
            with_scenario(job.family, job.scenario, |s| (s.setup)());
        }
        Role::Template { log, jobs, results } => {
            unsafe { let null = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR); libc::dup2(null, 0); libc::dup2(null, 2); }
            let stdout = unsafe { libc::memfd_create(c"stdout".as_ptr(), 0) };
            unsafe { libc::dup2(stdout, 1); }
            set_args(&with_log(world::args(), log));
            report::mute_panics();
            mcsched::begin(Config::default(), &[]);
            prepare_stacks(12);
            TEMPLATE.with(|t| t.set((*jobs, *results, stdout)));
            net::before_first_connect(serve);
        }
    }
}
/// Only children get this far.
pub fn ready(role: &Role) {
    if let Role::Template { .. } = role { if CHILD.with(|c| c.borrow().is_none()) { unsafe { libc::_exit(0) } } }
}
fn with_log(mut args: Vec<String>, log: &str) -> Vec<String> { args.push(format!("--log={log}")); args }

thread_local! { static TEMPLATE: std::cell::Cell<(c_int, c_int, c_int)> = const { std::cell::Cell::new((0, 0, 0)) }; }

/// In a template, at the first connection: forks children for jobs. Comes back in the children.
fn serve() {
    let (jobs, results, stdout) = TEMPLATE.with(|t| t.get());
    if !pristine() { unsafe { libc::_exit(0) } }
    loop {
        let Some(m) = (unsafe { read_message(jobs) }) else { unsafe { libc::_exit(0) } };
        let job = job_from(&m);
        match fork_one(&job, Some(stdout)) {
            Forked::Parent(r) => unsafe { write_message(results, &r.pack()) },
            Forked::Child => {
                configure(&job.prefix, job.verbose);
                world::fresh();
                with_scenario(job.family, job.scenario, |s| (s.setup)());
                return;
            }
        }
    }
}

extern "C" fn at_exit() { report_outcome(); }
pub fn returned() { CHILD.with(|c| c.borrow_mut().as_mut().unwrap().outcome = Outcome::Returned); keep_records(); }
pub fn never_ends() -> ! {
    CHILD.with(|c| c.borrow_mut().as_mut().unwrap().outcome = Outcome::Stuck);
    keep_records();
    report_outcome();
    unsafe { libc::_exit(99) }
}

thread_local! { static RECORDS: Kept<Option<Ended>> = const { ManuallyDrop::new(RefCell::new(None)) }; }
fn keep_records() { RECORDS.with(|r| { let mut r = r.borrow_mut(); if r.is_none() { *r = Some(snapshot()); } }); }

fn put(out: &mut Vec<u8>, d: &[u8]) { out.extend((d.len() as u32).to_le_bytes()); out.extend(d); }
fn get<'a>(d: &mut &'a [u8]) -> &'a [u8] {
    let n = u32::from_le_bytes(d[..4].try_into().unwrap()) as usize;
    let (a, b) = d[4..].split_at(n);
    *d = b;
    a
}

fn report_outcome() {
    let Some(c) = CHILD.with(|c| c.borrow_mut().take()) else { return };
    if RECORDS.with(|r| r.borrow().is_none()) && active() { keep_records(); }
    let Some(ended) = RECORDS.with(|r| r.borrow_mut().take()) else { return };
    CHILD.with(|k| *k.borrow_mut() = Some(Child { ..c }));
    let stdout = shown();
    let c = CHILD.with(|c| c.borrow_mut().take()).unwrap();
    let run = Run { ended, outcome: c.outcome, stdout };
    let verdict = if let Some(d) = &run.ended.diverged { Err(format!("MACHINERY: replay diverged: {d}")) }
        else if let Err(e) = run.ended.disorder() { Err(e) }
        else if run.outcome == Outcome::Stuck { Err("the program never ends: nothing can happen any more".into()) }
        else { with_scenario(c.family, c.scenario, |s| (s.judge)(&run)) };
    let mut out = Vec::new();
    put(&mut out, &run.ended.trace.iter().flat_map(|t| [t.options, t.taken, t.cost]).collect::<Vec<u8>>());
    put(&mut out, &(run.ended.steps as u64).to_le_bytes());
    let (bad, text) = match &verdict { Ok(w) => (*w as u8, String::new()), Err(m) => (9, m.clone()) };
    put(&mut out, &[bad]);
    put(&mut out, text.as_bytes());
    let print = format!("{:?} {:?} {:?}", run.ended.log, run.outcome, report::show(&run.stdout));
    put(&mut out, print.as_bytes());
    let mut lines = String::new();
    if c.verbose {
        lines = show_log(&run.ended).join("\n");
        lines += &format!("\nstandard output: {}", report::show(&run.stdout));
    }
    put(&mut out, lines.as_bytes());
    let mut at = 0;
    while at < out.len() {
        let n = unsafe { libc::write(c.out, out[at..].as_ptr().cast(), out.len() - at) };
        if n <= 0 { break; }
        at += n as usize;
    }
    unsafe { libc::close(c.out); }
}

// ---- workers ---------------------------------------------------------------------------------

struct Result1 {
    trace: Vec<Choice>,
    steps: u64,
    verdict: Result<(), String>,
    print: String,
    lines: String,
}

/// Runs one execution in a child. In the child itself this returns.
enum Forked { Child, Parent(Result1) }
fn fork_one(job: &Job, before: Option<c_int>) -> Forked {
    unsafe {
        let stdout = libc::memfd_create(c"stdout".as_ptr(), libc::MFD_CLOEXEC);
        let mut p = [0; 2];
        assert!(stdout >= 0 && libc::pipe(p.as_mut_ptr()) == 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::close(p[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::dup2(stdout, 1);
            CHILD.with(|c| *c.borrow_mut() = Some(Child { out: p[1], stdout, family: job.family, scenario: job.scenario, verbose: job.verbose, outcome: Outcome::Exited }));
            libc::atexit(at_exit);
            match before {
                Some(fd) => {
                    // What the template has shown.
                    let mut buf = [0u8; 4096];
                    let mut at = 0;
                    loop {
                        let n = libc::pread(fd, buf.as_mut_ptr().cast(), buf.len(), at);
                        if n <= 0 { break; }
                        libc::write(stdout, buf.as_ptr().cast(), n as usize);
                        at += n as i64;
                    }
                }
                None => {
                    let null = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR);
                    libc::dup2(null, 0);
                    libc::dup2(null, 2);
                    with_scenario(job.family, job.scenario, |s| set_args(&with_log(s.args.clone(), s.logs[job.log])));
                    report::mute_panics();
                }
            }
            return Forked::Child;
        }
        libc::close(p[1]);
        let pidfd = libc::syscall(libc::SYS_pidfd_open, pid, 0) as c_int;
        let mut got = Vec::new();
        let mut buf = [0u8; 65536];
        let t0 = Instant::now();
        let mut hung = false;
        loop {
            let mut pf = libc::pollfd { fd: p[0], events: libc::POLLIN, revents: 0 };
            let left = 30_000 - t0.elapsed().as_millis() as i64;
            if left <= 0 { hung = true; break; }
            if libc::poll(&mut pf, 1, left as c_int) <= 0 { continue; }
            let n = libc::read(p[0], buf.as_mut_ptr().cast(), buf.len());
            if n <= 0 { break; }
            got.extend_from_slice(&buf[..n as usize]);
        }
        // The report comes just before the end.
        let mut status = 0;
        let mut pf = libc::pollfd { fd: pidfd, events: libc::POLLIN, revents: 0 };
        if hung || libc::poll(&mut pf, 1, 10_000) <= 0 { libc::kill(pid, libc::SIGKILL); hung = true; }
        libc::waitpid(pid, &mut status, 0);
        libc::close(pidfd);
        libc::close(p[0]);
        libc::close(stdout);
        Forked::Parent(read_result(&got, status, hung))
    }
}

impl Result1 {
    fn pack(&self) -> Vec<u8> {
        let mut out = Vec::new();
        put(&mut out, &self.trace.iter().flat_map(|t| [t.options, t.taken, t.cost]).collect::<Vec<u8>>());
        put(&mut out, &self.steps.to_le_bytes());
        put(&mut out, &[self.verdict.is_err() as u8]);
        put(&mut out, self.verdict.as_ref().err().map_or("", |s| s).as_bytes());
        put(&mut out, self.print.as_bytes());
        put(&mut out, self.lines.as_bytes());
        out
    }
    fn unpack(m: &[u8]) -> Result1 {
        let mut d = m;
        let trace = get(&mut d).chunks(3).map(|c| Choice { options: c[0], taken: c[1], cost: c[2] }).collect();
        let steps = u64::from_le_bytes(get(&mut d).try_into().unwrap());
        let bad = get(&mut d)[0] != 0;
        let mut text = || String::from_utf8_lossy(get(&mut d)).into_owned();
        let (what, print, lines) = (text(), text(), text());
        Result1 { trace, steps, verdict: if bad { Err(what) } else { Ok(()) }, print, lines }
    }
}
impl Job {
    fn pack(&self) -> Vec<u8> {
        let mut m = Vec::new();
        for n in [self.family, self.scenario, self.log, self.verbose as usize] { put(&mut m, &(n as u32).to_le_bytes()); }
        put(&mut m, &self.prefix);
        m
    }
}
fn job_from(m: &[u8]) -> Job {
    let mut d = m;
    let mut num = || u32::from_le_bytes(get(&mut d).try_into().unwrap()) as usize;
    let (family, scenario, log, verbose) = (num(), num(), num(), num() != 0);
    Job { family, scenario, log, verbose, prefix: get(&mut d).to_vec() }
}

fn read_result(mut d: &[u8], status: c_int, hung: bool) -> Result1 {
    let none = |m: String| Result1 { trace: vec![], steps: 0, verdict: Err(m), print: String::new(), lines: String::new() };
    if hung { return none("the program hangs: one poll of a task goes on for more than 30 s".into()); }
    let code = if libc::WIFEXITED(status) { Ok(libc::WEXITSTATUS(status)) } else { Err(libc::WTERMSIG(status)) };
    if d.is_empty() {
        return none(match code { Ok(c) => format!("the program leaves with code {c} without a trace"), Err(s) => format!("the program is ended by signal {s}") });
    }
    let trace = get(&mut d).chunks(3).map(|c| Choice { options: c[0], taken: c[1], cost: c[2] }).collect();
    let steps = u64::from_le_bytes(get(&mut d).try_into().unwrap());
    let want = get(&mut d)[0];
    let text = String::from_utf8_lossy(get(&mut d)).into_owned();
    let print = format!("{} exit {code:?}", String::from_utf8_lossy(get(&mut d)));
    let lines = format!("{}\nthe program ends: {}", String::from_utf8_lossy(get(&mut d)), match code { Ok(c) => format!("code {c}"), Err(s) => format!("signal {s}") });
    let verdict = match (want, code) {
        (9, _) => Err(text),
        (_, Err(s)) => Err(format!("the program is ended by signal {s}")),
        (_, Ok(101)) => Err("the program panicked".into()),
        (w, Ok(c)) if w == Exit::Zero as u8 && c != 0 => Err(format!("the program reports failure (code {c})")),
        (w, Ok(0)) if w == Exit::Nonzero as u8 => Err("the program reports success".into()),
        _ => Ok(()),
    };
    Result1 { trace, steps, verdict, print, lines }
}

unsafe fn read_exact(fd: c_int, buf: &mut [u8]) -> bool {
    let mut at = 0;
    while at < buf.len() {
        let n = libc::read(fd, buf[at..].as_mut_ptr().cast(), buf.len() - at);
        if n <= 0 { return false; }
        at += n as usize;
    }
    true
}
unsafe fn read_message(fd: c_int) -> Option<Vec<u8>> {
    let mut n = [0; 4];
    if !read_exact(fd, &mut n) { return None; }
    let mut d = vec![0; u32::from_le_bytes(n) as usize];
    if !read_exact(fd, &mut d) { return None; }
    Some(d)
}
unsafe fn write_message(fd: c_int, d: &[u8]) { if !send_message(fd, d) { libc::_exit(3); } }
unsafe fn send_message(fd: c_int, d: &[u8]) -> bool {
    let mut m = (d.len() as u32).to_le_bytes().to_vec();
    m.extend(d);
    let mut at = 0;
    while at < m.len() {
        let n = libc::write(fd, m[at..].as_ptr().cast(), m.len() - at);
        if n <= 0 { return false; }
        at += n as usize;
    }
    true
}

/// Serves jobs; returns only in children and templates.
fn work(jobs: c_int, results: c_int) -> Role {
    let mut templates: Vec<(&'static str, Option<(c_int, c_int)>)> = Vec::new();
    // One execution, by a template if there can be one.
    let mut run = |job: &Job| -> Result<Result1, Role> {
        let (usual, log) = with_scenario(job.family, job.scenario, |s| (s.args == world::args(), s.logs[job.log]));
        if usual {
            if !templates.iter().any(|t| t.0 == log) {
                let (mut a, mut b) = ([0; 2], [0; 2]);
                unsafe {
                    assert!(libc::pipe(a.as_mut_ptr()) == 0 && libc::pipe(b.as_mut_ptr()) == 0);
                    let pid = libc::fork();
                    assert!(pid >= 0, "fork");
                    if pid == 0 {
                        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                        libc::close(a[1]);
                        libc::close(b[0]);
                        return Err(Role::Template { log, jobs: a[0], results: b[1] });
                    }
                    libc::close(a[0]);
                    libc::close(b[1]);
                }
                templates.push((log, Some((a[1], b[0]))));
            }
            let t = templates.iter_mut().find(|t| t.0 == log).unwrap();
            if let Some((to, from)) = t.1 {
                let answer = unsafe { if send_message(to, &job.pack()) { read_message(from) } else { None } };
                if let Some(m) = answer { return Ok(Result1::unpack(&m)); }
                // The program does not get as far as a first connection by itself.
                t.1 = None;
            }
        }
        match fork_one(job, None) { Forked::Child => Err(Role::Child(job.clone())), Forked::Parent(r) => Ok(r) }
    };
    loop {
        let Some(m) = (unsafe { read_message(jobs) }) else { unsafe { libc::_exit(0) } };
        let mut job = job_from(&m);
        let mut r = match run(&job) { Err(role) => return role, Ok(r) => r };
        let logs = with_scenario(job.family, job.scenario, |s| s.logs.clone());
        for log in 1..logs.len() {
            if r.verdict.is_err() { break; }
            job.log = log;
            job.prefix = r.trace.iter().map(|c| c.taken).collect();
            let q = match run(&job) { Err(role) => return role, Ok(q) => q };
            let tell = |what: &str| format!("with --log={} {what} than with --log={}", logs[log], logs[0]);
            if let Err(m) = &q.verdict { r.verdict = Err(format!("with --log={} only: {m}", logs[log])); r.lines = q.lines; }
            else if q.print != r.print { r.verdict = Err(format!("{}\n  {}\n  {}", tell("something else happens"), r.print, q.print)); }
            else if q.trace != r.trace { r.verdict = Err(tell("other decisions come up")); }
        }
        r.print.clear();
        unsafe { write_message(results, &r.pack()); }
    }
}

// ---- the coordinator -------------------------------------------------------------------------

struct Workers { ends: Vec<(c_int, c_int)> }
#[derive(Default)]
struct Totals { executions: u64, nodes: u64, steps: u64, capped: bool }

impl Workers {
    fn ask(&self, w: usize, family: usize, scenario: usize, verbose: bool, prefix: &[u8]) {
        unsafe { write_message(self.ends[w].0, &Job { family, scenario, log: 0, verbose, prefix: prefix.to_vec() }.pack()); }
    }
    fn answer(&self, w: usize) -> Result1 {
        Result1::unpack(&unsafe { read_message(self.ends[w].1) }.unwrap_or_else(|| { eprintln!("a worker is gone"); std::process::exit(2) }))
    }

    /// Explores some scenarios of a family, all to the same bound.
    fn explore(&self, family: usize, scenarios: std::ops::Range<usize>, bound: u32, deadline: Instant) -> Result<Totals, (usize, String, Vec<u8>)> {
        const AHEAD: usize = 2;
        let mut todo: Vec<(usize, Vec<u8>)> = scenarios.rev().map(|s| (s, vec![])).collect();
        let mut busy: Vec<std::collections::VecDeque<(usize, Vec<u8>)>> = self.ends.iter().map(|_| Default::default()).collect();
        let mut t = Totals { nodes: todo.len() as u64, ..Default::default() };
        let mut failure = None;
        loop {
            for round in 0..AHEAD { for w in 0..busy.len() {
                if busy[w].len() > round || failure.is_some() || t.capped { continue; }
                let Some((s, p)) = todo.pop() else { continue };
                self.ask(w, family, s, false, &p);
                busy[w].push_back((s, p));
            } }
            if busy.iter().all(|b| b.is_empty()) { break; }
            let mut pf: Vec<libc::pollfd> = self.ends.iter().map(|e| libc::pollfd { fd: e.1, events: libc::POLLIN, revents: 0 }).collect();
            unsafe { libc::poll(pf.as_mut_ptr(), pf.len() as u64, 1000); }
            if Instant::now() > deadline { t.capped = !todo.is_empty() || t.capped; }
            for w in 0..busy.len() {
                if pf[w].revents == 0 || busy[w].is_empty() { continue; }
                let a = self.answer(w);
                let (s, p) = busy[w].pop_front().unwrap();
                if let Err(m) = a.verdict { if failure.is_none() { failure = Some((s, m, p)); } continue; }
                t.executions += 1;
                t.nodes += (a.trace.len().max(p.len()) - p.len()) as u64;
                t.steps += a.steps;
                let base: u32 = a.trace[..p.len()].iter().map(|c| if c.taken != 0 { c.cost as u32 } else { 0 }).sum();
                for i in p.len()..a.trace.len() {
                    let c = a.trace[i];
                    if base + c.cost as u32 > bound { continue; }
                    for alt in 1..c.options {
                        let mut q: Vec<u8> = a.trace[..i].iter().map(|c| c.taken).collect();
                        q.push(alt);
                        todo.push((s, q));
                    }
                }
            }
        }
        match failure { Some(f) => Err(f), None => Ok(t) }
    }
}

fn coordinate(property: &str, tier: Tier, workers: Workers) -> ! {
    let check = Check::new(property, tier);
    let t0 = Instant::now();
    let limit = std::env::var("MC_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == Tier::Quick { 500 } else { 7200 });
    let deadline = t0 + Duration::from_secs(limit);
    check.assume("Memory is sequentially consistent; sockets, the serial line and the operator's keyboard are simulated; one execution of the program is one process.");
    check.assume("When main ends, what other tasks have left to do is dropped, as the real runtime drops it.");
    let families: Vec<(String, u32, usize)> = FAMILIES.with(|f| f.borrow().iter().map(|f| (f.label.to_string(), f.bound, f.scenarios.len())).collect());
    for (k, (label, bound, n)) in families.iter().enumerate() {
        let from = Instant::now();
        match workers.explore(k, 0..*n, *bound, deadline) {
            Ok(t) => {
                if t.capped { check.capped(); }
                check.states.fetch_add(t.nodes, std::sync::atomic::Ordering::Relaxed);
                check.transitions.fetch_add(t.steps, std::sync::atomic::Ordering::Relaxed);
                check.traces.fetch_add(t.executions, std::sync::atomic::Ordering::Relaxed);
                check.space(&format!("{label} ({n} scenarios, up to {bound} deviations{})", if t.capped { "; cut short by the time limit" } else { "" }), t.executions, from.elapsed());
                with_scenario(k, n / 2, |s| check.sample(s.name.clone()));
            }
            Err((s, mut what, mut prefix)) => {
                let name = with_scenario(k, s, |s| s.name.clone());
                if what.contains("MACHINERY") { check.broken(&format!("{name}: {what}")); }
                for b in 0..*bound {
                    if let Err(f) = workers.explore(k, s..s + 1, b, Instant::now() + Duration::from_secs(20)) { (what, prefix) = (f.1, f.2); break; }
                }
                workers.ask(0, k, s, true, &prefix);
                let again = workers.answer(0);
                if again.verdict.is_ok() { eprintln!("warning: the execution does not fail again when replayed"); }
                let full = if again.trace.is_empty() { prefix } else { taken(&again.trace) };
                let end = full.iter().rposition(|c| *c != 0).map_or(0, |k| k + 1);
                let log: Vec<String> = again.lines.lines().map(String::from).collect();
                check.violation(Violation {
                    what: format!("{name}: {what}\n  {}", log.join("\n  ")),
                    size: log.len(),
                    replay: map([
                        ("scenario", name.into()),
                        ("choices", full[..end].iter().map(|c| c.to_string()).collect::<Vec<_>>().join(",").into()),
                        ("log", Json::List(log.into_iter().map(Json::Str).collect())),
                    ]),
                });
                break;
            }
        }
    }
    std::process::exit(check.finish_code())
}

/// Splits off workers and explores; comes back in children that are to run one execution.
pub fn become_child() -> Role {
    let property = std::env::var("MC_PROPERTY").expect("MC_PROPERTY: this build of the program explores itself");
    let tier = if std::env::var("MC_TIER").as_deref() == Ok("thorough") { Tier::Thorough } else { Tier::Quick };
    for name in ["MC_PROPERTY", "MC_TIER", "RUST_LOG", "RUST_BACKTRACE", "RUST_LIB_BACKTRACE"] { std::env::remove_var(name); }
    report::install_panic_hook();
    unsafe { libc::signal(libc::SIGPIPE, libc::SIG_IGN); }
    let families = match property.as_str() {
        "C20" => crate::ptt::c20(tier),
        "C21" => crate::show::c21(tier),
        "C22" => crate::log::c22(tier),
        "C24" => crate::cli::c24(tier),
        "C26" => crate::slow::c26(tier),
        other => panic!("unknown property {other}"),
    };
    FAMILIES.with(|f| *f.borrow_mut() = families);
    let n = std::thread::available_parallelism().map_or(4, |n| n.get()).min(8);
    let mut ends = Vec::new();
    for _ in 0..n {
        unsafe {
            let (mut a, mut b) = ([0; 2], [0; 2]);
            assert!(libc::pipe(a.as_mut_ptr()) == 0 && libc::pipe(b.as_mut_ptr()) == 0);
            let pid = libc::fork();
            assert!(pid >= 0, "fork");
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::close(a[1]);
                libc::close(b[0]);
                for (x, y) in ends { libc::close(x); libc::close(y); }
                return work(a[0], b[1]);
            }
            libc::close(a[0]);
            libc::close(b[1]);
            ends.push((a[1], b[0]));
        }
    }
    coordinate(&property, tier, Workers { ends })
}
