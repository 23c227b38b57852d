//! What every check has in common: tier, evidence file, violation and replay files, a parallel
//! exhaustive enumerator for sequential code, and a watchdog that turns hangs into verdicts.

use std::cell::Cell;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

/// A JSON value; hand-written so that the harness needs no dependencies of its own.
#[derive(Clone, Debug)]
pub enum Json {
    Str(String),
    Int(i64),
    Num(f64),
    Bool(bool),
    List(Vec<Json>),
    Map(BTreeMap<String, Json>),
    /// Already written.
    Raw(String),
}

impl From<&str> for Json { fn from(s: &str) -> Json { Json::Str(s.into()) } }
impl From<String> for Json { fn from(s: String) -> Json { Json::Str(s) } }
impl From<u64> for Json { fn from(n: u64) -> Json { Json::Int(n as i64) } }
impl From<usize> for Json { fn from(n: usize) -> Json { Json::Int(n as i64) } }
impl From<bool> for Json { fn from(b: bool) -> Json { Json::Bool(b) } }
impl<T: Into<Json>> From<Vec<T>> for Json { fn from(v: Vec<T>) -> Json { Json::List(v.into_iter().map(Into::into).collect()) } }

pub fn map<const N: usize>(items: [(&str, Json); N]) -> Json {
    Json::Map(items.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}

impl Json {
    pub fn write(&self, out: &mut String) {
        match self {
            Json::Str(s) => {
                out.push('"');
                for c in s.chars() {
                    match c {
                        '"' => out.push_str("\\\""),
                        '\\' => out.push_str("\\\\"),
                        '\n' => out.push_str("\\n"),
                        '\r' => out.push_str("\\r"),
                        '\t' => out.push_str("\\t"),
                        c if (c as u32) < 0x20 => { let _ = write!(out, "\\u{:04x}", c as u32); }
                        c => out.push(c),
                    }
                }
                out.push('"');
            }
            Json::Raw(s) => out.push_str(s),
            Json::Int(n) => { let _ = write!(out, "{}", n); }
            Json::Num(n) => { let _ = write!(out, "{:.3}", n); }
            Json::Bool(b) => { let _ = write!(out, "{}", b); }
            Json::List(v) => {
                out.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 { out.push_str(", "); }
                    x.write(out);
                }
                out.push(']');
            }
            Json::Map(m) => {
                out.push('{');
                for (i, (k, x)) in m.iter().enumerate() {
                    if i > 0 { out.push_str(", "); }
                    Json::Str(k.clone()).write(out);
                    out.push_str(": ");
                    x.write(out);
                }
                out.push('}');
            }
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.write(&mut s);
        s
    }
}

thread_local! {
    static LAST_PANIC: Cell<Option<String>> = const { Cell::new(None) };
    static GUARDED: Cell<bool> = const { Cell::new(false) };
}

/// Silences panic output and remembers the message, for use with [`guarded`].
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let at = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        if !GUARDED.with(|g| g.get()) { eprintln!("panic outside the code under test: {msg}{at}"); }
        LAST_PANIC.with(|p| p.set(Some(format!("{msg}{at}"))));
    }));
}

/// Takes the message of the last panic on this thread.
pub fn take_panic() -> Option<String> {
    LAST_PANIC.with(|p| p.take())
}

/// Panics are only remembered from here on.
pub fn mute_panics() { GUARDED.with(|g| g.set(true)); }

/// Runs code under test; a panic becomes `Err(message)`.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let outer = GUARDED.with(|g| g.replace(true));
    let result = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(outer));
    result.map_err(|_| format!("panicked: {}", take_panic().unwrap_or_default()))
}

pub fn hex(data: &[u8]) -> String {
    data.iter().map(|b| format!("{b:02x}")).collect()
}

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex")).collect()
}

/// Printable rendering of possibly long bytes.
pub fn show(data: &[u8]) -> String {
    let esc = |d: &[u8]| d.iter().flat_map(|b| std::ascii::escape_default(*b)).map(char::from).collect::<String>();
    if data.len() <= 96 { format!("b\"{}\"", esc(data)) } else { format!("b\"{}\"... ({} bytes)", esc(&data[..64]), data.len()) }
}

pub struct Check {
    pub property: String,
    pub tier: Tier,
    pub seed: u64,
    started: Instant,
    root: PathBuf,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    samples: Mutex<Vec<Json>>,
    extra: Mutex<BTreeMap<String, Json>>,
    assumptions: Mutex<Vec<String>>,
    exhaustive: AtomicBool,
    stop: AtomicBool,
    violations: Mutex<Vec<Violation>>,
    pub threads: usize,
    slots: Mutex<Vec<Arc<Mutex<Slot>>>>,
}

#[derive(Clone, Debug)]
pub struct Violation {
    /// What was violated, in words.
    pub what: String,
    /// Shortness key: the smallest is reported.
    pub size: usize,
    /// Everything needed to replay it.
    pub replay: Json,
}

#[derive(Default)]
struct Slot {
    since: Option<Instant>,
    label: String,
    case: Vec<u8>,
}

/// How long one case of sequential code may take before it counts as a hang. Cases take
/// microseconds to a few hundred milliseconds.
const HANG: Duration = Duration::from_secs(30);
const MAX_RSS: u64 = 8 << 30;

impl Check {
    pub fn new(property: &str, tier: Tier) -> Arc<Check> {
        let root = std::env::var_os("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"));
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let threads = std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok())
            .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8));
        let check = Arc::new(Check {
            property: property.into(), tier, seed, started: Instant::now(), root,
            states: AtomicU64::new(0), transitions: AtomicU64::new(0), traces: AtomicU64::new(0),
            samples: Mutex::default(), extra: Mutex::default(), assumptions: Mutex::default(),
            exhaustive: AtomicBool::new(true), stop: AtomicBool::new(false),
            violations: Mutex::default(), threads, slots: Mutex::default(),
        });
        let dog = check.clone();
        std::thread::spawn(move || dog.watch());
        check
    }

    pub fn thorough(&self) -> bool { self.tier == Tier::Thorough }
    pub fn elapsed(&self) -> Duration { self.started.elapsed() }
    pub fn pick<T>(&self, quick: T, thorough: T) -> T { if self.thorough() { thorough } else { quick } }

    fn watch(&self) {
        loop {
            std::thread::sleep(Duration::from_millis(100));
            let big = rss() > MAX_RSS;
            let mut worst: Option<(Duration, String, Vec<u8>)> = None;
            let running = RUNNING.lock().unwrap().clone();
            for slot in self.slots.lock().unwrap().iter().chain(&running) {
                let slot = slot.lock().unwrap();
                if let Some(since) = slot.since {
                    let d = since.elapsed();
                    if worst.as_ref().map_or(true, |w| d > w.0) {
                        worst = Some((d, slot.label.clone(), slot.case.clone()));
                    }
                }
            }
            if let Some((d, label, case)) = worst {
                if d > HANG || (big && d > Duration::from_millis(500)) {
                    self.violation(Violation {
                        what: format!("{label}: does not terminate ({}; stopped after {:.1} s{})", show(&case), d.as_secs_f64(), if big { ", memory growing without bound" } else { "" }),
                        size: 0,
                        replay: map([("case", label.into()), ("input", hex(&case).into())]),
                    });
                    std::process::exit(self.finish_code());
                }
            }
        }
    }

    pub fn violation(&self, v: Violation) {
        let mut all = self.violations.lock().unwrap();
        if all.len() < 1000 { all.push(v); }
        self.stop.store(true, Ordering::SeqCst);
    }
    /// The harness itself went wrong: no verdict.
    pub fn broken(&self, what: &str) -> ! {
        eprintln!("the check of {} itself went wrong: {what}", self.property);
        std::process::exit(2);
    }
    pub fn violated(&self) -> bool { self.stop.load(Ordering::SeqCst) }
    pub fn sample(&self, s: impl Into<Json>) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 40 { v.push(s.into()); }
    }
    pub fn note(&self, key: &str, v: impl Into<Json>) { self.extra.lock().unwrap().insert(key.into(), v.into()); }
    pub fn assume(&self, s: &str) { self.assumptions.lock().unwrap().push(s.into()); }
    pub fn capped(&self) { self.exhaustive.store(false, Ordering::SeqCst); }

    /// Enumerates cases 0..n in parallel. `f` returns the number of model transitions taken, or
    /// what went wrong. `f` gets a per-worker `Probe` to register the input in flight with.
    pub fn enumerate(&self, label: &str, n: usize, f: impl Fn(usize, &Probe) -> Result<u64, Violation> + Sync) {
        if self.violated() { return; }
        let t0 = Instant::now();
        let next = AtomicUsize::new(0);
        let done = AtomicUsize::new(0);
        let transitions = AtomicU64::new(0);
        let chunk = (n / (self.threads * 64)).clamp(1, 256);
        std::thread::scope(|s| {
            for _ in 0..self.threads.min(n.max(1)) {
                s.spawn(|| {
                    let probe = Probe { slot: Arc::new(Mutex::new(Slot::default())), label };
                    self.slots.lock().unwrap().push(probe.slot.clone());
                    'work: loop {
                        let from = next.fetch_add(chunk, Ordering::Relaxed);
                        if from >= n { break; }
                        for i in from..(from + chunk).min(n) {
                            if self.violated() { break 'work; }
                            match f(i, &probe) {
                                Ok(t) => { transitions.fetch_add(t, Ordering::Relaxed); done.fetch_add(1, Ordering::Relaxed); }
                                Err(v) => { self.violation(v); break 'work; }
                            }
                            probe.idle();
                        }
                    }
                    probe.idle();
                });
            }
        });
        let done = done.load(Ordering::Relaxed) as u64;
        self.states.fetch_add(done, Ordering::Relaxed);
        self.transitions.fetch_add(transitions.load(Ordering::Relaxed), Ordering::Relaxed);
        self.traces.fetch_add(done, Ordering::Relaxed);
        self.space(label, done, t0.elapsed());
    }

    pub fn space(&self, label: &str, cases: u64, took: Duration) {
        let mut extra = self.extra.lock().unwrap();
        let Json::List(list) = extra.entry("spaces".into()).or_insert_with(|| Json::List(vec![])) else { unreachable!() };
        list.push(map([("space", label.into()), ("explored", cases.into()), ("wall_s", Json::Num(took.as_secs_f64()))]));
        eprintln!("[{} {:6.1}s] {label}: {cases}", self.property, self.started.elapsed().as_secs_f64());
    }

    /// Writes evidence, prints the verdict, and returns the exit code.
    pub fn finish_code(&self) -> i32 {
        let mut violations = self.violations.lock().unwrap().clone();
        violations.sort_by_key(|v| v.size);
        let mut coverage = BTreeMap::new();
        coverage.insert("states".to_string(), self.states.load(Ordering::Relaxed).into());
        coverage.insert("transitions".to_string(), self.transitions.load(Ordering::Relaxed).into());
        coverage.insert("traces_validated_against_impl".to_string(), self.traces.load(Ordering::Relaxed).into());
        coverage.insert("samples".to_string(), Json::List(self.samples.lock().unwrap().clone()));
        coverage.insert("exhaustive".to_string(), (self.exhaustive.load(Ordering::SeqCst) && violations.is_empty()).into());
        if let Ok(part) = std::env::var("MC_PART") {
            coverage.insert("program".to_string(), Json::Raw(std::fs::read_to_string(part).expect("other part's evidence").trim().to_string()));
        }
        for (k, v) in self.extra.lock().unwrap().iter() { coverage.insert(k.clone(), v.clone()); }
        let evidence = map([
            ("property", self.property.as_str().into()),
            ("tier", if self.thorough() { "thorough" } else { "quick" }.into()),
            ("seed", self.seed.into()),
            ("level", "model_checking".into()),
            ("coverage", Json::Map(coverage)),
            ("assumptions", self.assumptions.lock().unwrap().clone().into()),
            ("wall_s", Json::Num(self.started.elapsed().as_secs_f64())),
            ("violations", violations.len().into()),
        ]);
        let dir = std::env::var_os("MC_EVIDENCE").map_or_else(|| self.root.join("evidence"), PathBuf::from);
        std::fs::create_dir_all(&dir).expect("evidence dir");
        std::fs::write(dir.join(format!("{}.json", self.property)), evidence.text() + "\n").expect("evidence file");
        let Some(v) = violations.first() else {
            println!("{}: held on everything explored ({} states, {} transitions)", self.property,
                self.states.load(Ordering::Relaxed), self.transitions.load(Ordering::Relaxed));
            return 0;
        };
        let dir = self.root.join("replays");
        std::fs::create_dir_all(&dir).expect("replay dir");
        let path = dir.join(format!("{}.json", self.property));
        let replay = map([("property", self.property.as_str().into()), ("what", v.what.as_str().into()), ("replay", v.replay.clone())]);
        std::fs::write(&path, replay.text() + "\n").expect("replay file");
        println!("{}", v.what);
        println!("VIOLATION property={} replay={}", self.property, path.display());
        1
    }
}

static RUNNING: Mutex<Vec<Arc<Mutex<Slot>>>> = Mutex::new(Vec::new());
thread_local! {
    static MINE: Arc<Mutex<Slot>> = {
        let s = Arc::new(Mutex::new(Slot::default()));
        RUNNING.lock().unwrap().push(s.clone());
        s
    };
}

/// Tells the watchdog what this thread is about to run.
pub fn running(label: &str, case: &[u8]) {
    MINE.with(|s| {
        let mut s = s.lock().unwrap();
        s.since = Some(Instant::now());
        s.label.clear();
        s.label.push_str(label);
        s.case.clear();
        s.case.extend_from_slice(case);
    });
}
/// Tells the watchdog that it came to an end.
pub fn ran() { MINE.with(|s| s.lock().unwrap().since = None); }

/// Registers the input a worker is busy with, for the watchdog.
pub struct Probe<'a> {
    slot: Arc<Mutex<Slot>>,
    label: &'a str,
}

impl Probe<'_> {
    pub fn busy(&self, case: &[u8]) {
        let mut s = self.slot.lock().unwrap();
        s.since = Some(Instant::now());
        if s.label != self.label { s.label = self.label.to_string(); }
        s.case.clear();
        s.case.extend_from_slice(case);
    }
    fn idle(&self) { self.slot.lock().unwrap().since = None; }
}

fn rss() -> u64 {
    std::fs::read_to_string("/proc/self/statm").ok()
        .and_then(|s| s.split_whitespace().nth(1).and_then(|p| p.parse::<u64>().ok()))
        .unwrap_or(0) * 4096
}
