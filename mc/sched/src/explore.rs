//! Enumerates every execution of a scenario whose deviations from the default cost no more than a
//! bound.

use crate::*;
use report::{map, Check, Json, Violation};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

/// Judges one finished execution.
pub type Judge<'a> = dyn Fn(&Ended) -> Result<(), String> + Sync + 'a;

pub struct Totals {
    pub executions: u64,
    pub nodes: u64,
    pub steps: u64,
    pub capped: bool,
}

/// One scenario: how to set it up and how to judge its executions.
pub struct Scenario<'a> {
    pub name: String,
    pub setup: Box<dyn Fn() + Send + Sync + 'a>,
    pub judge: Box<dyn Fn(&Ended) -> Result<(), String> + Send + Sync + 'a>,
    pub config: fn() -> Config,
}

fn run(s: &Scenario, prefix: &[u8], verbose: bool) -> Result<Ended, String> {
    let mut cfg = (s.config)();
    cfg.verbose = verbose;
    report::running(&s.name, prefix);
    let r = report::guarded(|| execute(cfg, prefix, || (s.setup)()));
    report::ran();
    r
}

pub fn judged(s: &Scenario, e: &Ended) -> Result<(), String> {
    if let Some(d) = &e.diverged { return Err(format!("MACHINERY: replay diverged: {d}")); }
    if !(s.config)().lenient { e.disorder()?; }
    (s.judge)(e)
}

pub fn show_log(e: &Ended) -> Vec<String> {
    let mut out = Vec::new();
    for ev in &e.log {
        out.push(match ev {
            Event::Connect { addr, conn: Some(c) } => format!("program connects to {addr} (connection {c})"),
            Event::Connect { addr, conn: None } => format!("program's connection to {addr} is refused"),
            Event::Wrote { conn, data } => format!("[{conn}] program writes {}", report::show(data)),
            Event::Read { conn, data } => format!("[{conn}] program reads {}", report::show(data)),
            Event::Shut { conn } => format!("[{conn}] program shuts down its sending side"),
            Event::Closed { conn } => format!("[{conn}] program closes"),
            Event::Sent { conn, data } => format!("[{conn}] far end sends {}", report::show(data)),
            Event::Ended { conn, how } => format!("[{conn}] far end: {how}"),
            Event::Note(s) => s.clone(),
            Event::Mark(s, v) => format!("{s} {v}"),
        });
    }
    for t in &e.tasks { out.push(format!("task {}: {:?}{}", t.name, t.fate, t.panic.as_ref().map(|p| format!(" ({p})")).unwrap_or_default())); }
    out
}

pub fn taken(t: &[Choice]) -> Vec<u8> { t.iter().map(|c| c.taken).collect() }
fn cost_of(t: &[Choice]) -> u32 { t.iter().map(|c| if c.taken != 0 { c.cost as u32 } else { 0 }).sum() }

struct Pool {
    work: Mutex<(Vec<Vec<u8>>, usize)>,
    idle: Condvar,
    hungry: AtomicUsize,
    stop: AtomicBool,
}

/// Explores one scenario up to `bound` deviations with `threads` workers.
pub fn explore(s: &Scenario, bound: u32, threads: usize, max_executions: u64, deadline: Option<Instant>) -> Result<Totals, (String, Vec<u8>)> {
    let pool = Pool { work: Mutex::new((vec![Vec::new()], 0)), idle: Condvar::new(), hungry: AtomicUsize::new(0), stop: AtomicBool::new(false) };
    let executions = AtomicU64::new(0);
    let nodes = AtomicU64::new(1);
    let steps = AtomicU64::new(0);
    let capped = AtomicBool::new(false);
    let failure: Mutex<Option<(String, Vec<u8>)>> = Mutex::new(None);
    let worker = || {
        let mut local: Vec<Vec<u8>> = Vec::new();
        loop {
            if pool.stop.load(Ordering::Relaxed) { pool.idle.notify_all(); break; }
            let item = match local.pop() {
                Some(i) => i,
                None => {
                    let mut w = pool.work.lock().unwrap();
                    loop {
                        if let Some(i) = w.0.pop() { w.1 += 1; break i; }
                        if w.1 == 0 || pool.stop.load(Ordering::Relaxed) { pool.idle.notify_all(); return; }
                        pool.hungry.fetch_add(1, Ordering::Relaxed);
                        w = pool.idle.wait_timeout(w, Duration::from_millis(50)).unwrap().0;
                        pool.hungry.fetch_sub(1, Ordering::Relaxed);
                    }
                }
            };
            let n = executions.fetch_add(1, Ordering::Relaxed);
            if n >= max_executions || (n % 4 == 0 && deadline.is_some_and(|d| Instant::now() > d)) {
                capped.store(true, Ordering::Relaxed);
                pool.stop.store(true, Ordering::Relaxed);
                continue;
            }
            let outcome = run(s, &item, false).and_then(|e| judged(s, &e).map(|_| e).map_err(|m| m));
            match outcome {
                Err(m) => {
                    let mut f = failure.lock().unwrap();
                    if f.is_none() { *f = Some((m, item)); }
                    pool.stop.store(true, Ordering::Relaxed);
                    continue;
                }
                Ok(e) => {
                    nodes.fetch_add((e.trace.len() - item.len()) as u64, Ordering::Relaxed);
                    steps.fetch_add(e.steps as u64, Ordering::Relaxed);
                    let base = cost_of(&e.trace[..item.len()]);
                    for i in item.len()..e.trace.len() {
                        let c = e.trace[i];
                        if base + c.cost as u32 > bound { continue; }
                        for alt in 1..c.options {
                            let mut p = Vec::with_capacity(i + 1);
                            p.extend(e.trace[..i].iter().map(|c| c.taken));
                            p.push(alt);
                            local.push(p);
                        }
                    }
                    let starving = pool.hungry.load(Ordering::Relaxed) > 0;
                    if local.is_empty() || (starving && local.len() > 1) {
                        let mut w = pool.work.lock().unwrap();
                        if starving && local.len() > 1 {
                            // The shallow half has most of the work under it.
                            let half = local.len() / 2;
                            w.0.extend(local.drain(..half));
                        }
                        if local.is_empty() { w.1 -= 1; }
                        pool.idle.notify_all();
                    }
                }
            }
        }
    };
    if threads <= 1 { worker() } else {
        std::thread::scope(|sc| { for _ in 0..threads { sc.spawn(worker); } });
    }
    if let Some(f) = failure.into_inner().unwrap() { return Err(f); }
    Ok(Totals {
        executions: executions.into_inner(), nodes: nodes.into_inner(), steps: steps.into_inner(), capped: capped.into_inner(),
    })
}

/// Turns a failing execution into a violation, after confirming that it replays.
fn confirm(s: &Scenario, what: String, prefix: Vec<u8>) -> Violation {
    let again = run(s, &prefix, true);
    let (log, same) = match &again {
        Ok(e) => (show_log(e), judged(s, e).is_err()),
        Err(m) => (vec![m.clone()], true),
    };
    if !same || what.starts_with("MACHINERY") { eprintln!("warning: the execution does not fail again when replayed"); }
    let full = match &again { Ok(e) => taken(&e.trace), Err(_) => prefix };
    let end = full.iter().rposition(|c| *c != 0).map_or(0, |k| k + 1);
    Violation {
        what: format!("{}: {what}\n  {}", s.name, log.join("\n  ")),
        size: log.len(),
        replay: map([
            ("scenario", s.name.as_str().into()),
            ("choices", full[..end].iter().map(|c| c.to_string()).collect::<Vec<_>>().join(",").into()),
            ("log", Json::List(log.into_iter().map(Json::Str).collect())),
        ]),
    }
}

/// Explores a family of scenarios: small ones side by side, each to the given bound.
pub struct Family<'a> {
    pub label: String,
    pub bound: u32,
    pub scenarios: Vec<Scenario<'a>>,
}

pub fn explore_family(check: &Check, fam: &Family, deadline: Option<Instant>) {
    if check.violated() { return; }
    let t0 = Instant::now();
    let n = fam.scenarios.len();
    let (mut executions, mut nodes, mut steps, mut capped) = (0, 0, 0, false);
    let found: Mutex<Vec<(usize, String, Vec<u8>)>> = Mutex::new(Vec::new());
    if n >= 64 {
        // Many scenarios: one worker each.
        let next = AtomicUsize::new(0);
        let sums = Mutex::new((0u64, 0u64, 0u64, false));
        std::thread::scope(|sc| {
            for _ in 0..check.threads {
                sc.spawn(|| loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= n || !found.lock().unwrap().is_empty() { break; }
                    match explore(&fam.scenarios[i], fam.bound, 1, u64::MAX, deadline) {
                        Ok(t) => {
                            let mut s = sums.lock().unwrap();
                            s.0 += t.executions; s.1 += t.nodes; s.2 += t.steps; s.3 |= t.capped;
                        }
                        Err((m, p)) => found.lock().unwrap().push((i, m, p)),
                    }
                });
            }
        });
        let s = sums.into_inner().unwrap();
        (executions, nodes, steps, capped) = s;
    } else {
        for (i, s) in fam.scenarios.iter().enumerate() {
            match explore(s, fam.bound, check.threads, u64::MAX, deadline) {
                Ok(t) => { executions += t.executions; nodes += t.nodes; steps += t.steps; capped |= t.capped; }
                Err((m, p)) => { found.lock().unwrap().push((i, m, p)); break; }
            }
        }
    }
    let mut found = found.into_inner().unwrap();
    found.sort();
    if let Some((i, m, p)) = found.into_iter().next() {
        let s = &fam.scenarios[i];
        if m.contains("MACHINERY") { check.broken(&format!("{}: {m} {p:?}", s.name)); }
        // Look for the same kind of trouble with fewer deviations.
        let mut best = (m, p);
        for b in 0..fam.bound {
            if let Err(f) = explore(s, b, check.threads, u64::MAX, Some(Instant::now() + Duration::from_secs(20))) { best = f; break; }
        }
        check.violation(confirm(s, best.0, best.1));
        return;
    }
    if capped { check.capped(); }
    check.states.fetch_add(nodes, Ordering::Relaxed);
    check.transitions.fetch_add(steps, Ordering::Relaxed);
    check.traces.fetch_add(executions, Ordering::Relaxed);
    check.space(&format!("{} ({} scenarios, up to {} deviations{})", fam.label, n, fam.bound, if capped { "; cut short by the time limit" } else { "" }), executions, t0.elapsed());
}
