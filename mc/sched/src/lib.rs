//! A controlled scheduler for asynchronous Rust code, and an explorer that drives it.
//!
//! Every task of an execution runs on a stack of its own, so it can be preempted in the middle of
//! a poll: at each [`point`] (every operation on a channel, lock, socket, timer or task handle)
//! any other runnable task may be run first. Environment nondeterminism (how many bytes a read
//! or write moves, which branch of a `select!` is polled first, ...) goes through [`choose`].
//! An execution is determined by the list of its choices; the explorer enumerates all lists whose
//! alternatives to the default cost at most a given number of deviations.

mod clock;
pub mod explore;
pub mod net;
pub mod sync;

use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::future::Future;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;

pub type TaskId = usize;

/// Who a task belongs to. Decides nothing but the default order: the environment acts last.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Side {
    /// The code under test and its callers.
    Program,
    /// The simulated outside world.
    World,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Status {
    /// Stopped at a point inside a poll.
    Preempted,
    /// Its poll returned pending.
    Waiting,
    /// Stopped inside a poll until some lock is released.
    LockWait,
    /// Stopped inside a poll until nothing else can run.
    Idle,
    Done,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fate {
    Blocked,
    Running,
    Finished,
    Panicked,
    Cancelled,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct TaskReport {
    pub name: String,
    pub side: Side,
    pub fate: Fate,
    pub panic: Option<String>,
}

struct Flag {
    woken: AtomicBool,
}

impl Wake for Flag {
    fn wake(self: Arc<Self>) { self.woken.store(true, Ordering::SeqCst); }
    fn wake_by_ref(self: &Arc<Self>) { self.woken.store(true, Ordering::SeqCst); }
}

struct Task {
    name: String,
    side: Side,
    status: Status,
    flag: Arc<Flag>,
    co: Option<Coroutine<(), (), (), DefaultStack>>,
    yielder: *const Yielder<(), ()>,
    /// Steps since its poll last returned.
    in_poll: usize,
    panic: Option<String>,
    cancelled: bool,
    fate: Fate,
    /// When it fell idle.
    idle_since: Duration,
}

/// One recorded decision.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Choice {
    pub options: u8,
    pub taken: u8,
    /// Cost of any alternative other than 0.
    pub cost: u8,
}

/// What the environment model and the harness record; oracles judge this.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Event {
    /// The program asked for a connection.
    Connect { addr: std::net::SocketAddr, conn: Option<usize> },
    /// The program wrote bytes.
    Wrote { conn: usize, data: Vec<u8> },
    /// The program read bytes.
    Read { conn: usize, data: Vec<u8> },
    /// The program shut down its sending side.
    Shut { conn: usize },
    /// The program closed its end.
    Closed { conn: usize },
    /// The outside world sent bytes.
    Sent { conn: usize, data: Vec<u8> },
    /// The outside world closed or reset its end.
    Ended { conn: usize, how: &'static str },
    /// Anything the harness wants to remember.
    Note(String),
    /// The same, with a value.
    Mark(&'static str, i64),
}

pub struct Config {
    /// Steps after which an execution counts as not making progress.
    pub horizon: usize,
    /// Polls and points one task may take without ever waiting.
    pub spin: usize,
    /// Cost of choosing other than the default task when one stops by itself.
    pub block_cost: u8,
    /// Cost of preempting a task.
    pub preempt_cost: u8,
    /// Cost of other `select!` orders.
    pub select_cost: u8,
    /// Keep the event log readable: also record scheduling.
    pub verbose: bool,
    /// Panics and livelocks are left to the oracle.
    pub lenient: bool,
}

impl Default for Config {
    fn default() -> Self {
        Config { horizon: 400_000, spin: 100_000, block_cost: 1, preempt_cost: 1, select_cost: 1, verbose: false, lenient: false }
    }
}

pub struct Rt {
    cfg: Config,
    tasks: Vec<Task>,
    cur: Option<TaskId>,
    /// The task that ran last, and the one picked to run next.
    last: TaskId,
    next: Option<TaskId>,
    pub trace: Vec<Choice>,
    prefix: Vec<u8>,
    pub steps: usize,
    now: Duration,
    looks: u64,
    timers: BTreeMap<(Duration, usize), Waker>,
    timer_ids: usize,
    ticks: (usize, (usize, usize, usize)),
    forgiven: usize,
    pub log: Vec<Event>,
    killing: bool,
    /// Decisions take their defaults and are not recorded.
    held: bool,
    /// Points pass: what is left of an execution is being dropped.
    quiet: bool,
    spinning: Option<String>,
    diverged: Option<String>,
    pub world: net::World,
    extras: Vec<Box<dyn Any>>,
}

thread_local! {
    static RT: Cell<*mut Rt> = const { Cell::new(std::ptr::null_mut()) };
    static STACKS: RefCell<Vec<DefaultStack>> = const { RefCell::new(Vec::new()) };
}

const STACK: usize = 1 << 20;

struct Kill;

/// Whether the calling code runs under the scheduler.
pub fn active() -> bool { !RT.with(|r| r.get()).is_null() }

/// The current execution. Callers must not keep the reference across a point.
#[allow(clippy::mut_from_ref)]
pub fn rt<'a>() -> &'a mut Rt {
    let p = RT.with(|r| r.get());
    assert!(!p.is_null(), "used outside a scheduled execution");
    unsafe { &mut *p }
}

fn unwinding() -> bool { std::thread::panicking() }

/// A place where any other task may run first.
pub fn point() {
    if !active() { return; }
    let r = rt();
    if r.killing {
        if r.cur.is_some() && !unwinding() && !r.quiet { resume_unwind(Box::new(Kill)); }
        return;
    }
    if unwinding() || r.cur.is_none() { return; }
    r.step();
    let me = r.cur.unwrap();
    let order = r.runnable_after(me, true);
    if order.len() > 1 {
        let cost = r.cfg.preempt_cost;
        let k = r.decide(order.len(), cost);
        if k != 0 {
            r.tasks[me].status = Status::Preempted;
            r.next = Some(order[k] as usize);
            r.suspend();
        }
    }
}

impl Rt {
    fn step(&mut self) {
        self.steps += 1;
        let me = self.cur.unwrap();
        self.tasks[me].in_poll += 1;
        if self.steps - self.forgiven > self.cfg.horizon || self.tasks[me].in_poll > self.cfg.spin {
            if self.spinning.is_none() {
                self.spinning = Some(self.tasks[me].name.clone());
            }
            // Leave for good: the main loop sees `spinning` and ends the execution.
            self.tasks[me].status = Status::Preempted;
            self.suspend();
        }
    }

    fn suspend(&mut self) {
        let y = self.tasks[self.cur.unwrap()].yielder;
        unsafe { (*y).suspend(()) };
        let r = rt();
        if r.killing && !unwinding() && !r.quiet { resume_unwind(Box::new(Kill)); }
    }

    fn is_runnable(&self, t: TaskId) -> bool {
        let task = &self.tasks[t];
        match task.status {
            Status::Preempted => true,
            Status::Waiting => task.flag.woken.load(Ordering::SeqCst),
            Status::LockWait | Status::Idle | Status::Done => false,
        }
    }

    /// Runnable tasks in default order: `me` first if it can go on, then the others in turn.
    fn runnable_after(&self, me: TaskId, me_first: bool) -> Order {
        let n = self.tasks.len();
        let mut out = Order { ids: [0; 32], n: 0, more: Vec::new() };
        if me_first { out.push(me); }
        for side in [Side::Program, Side::World] {
            for k in 1..=n {
                let t = (me + k) % n;
                if (me_first && t == me) || self.tasks[t].side != side { continue; }
                if self.is_runnable(t) { out.push(t); }
            }
        }
        out
    }

    /// Takes the next decision among `n` options.
    fn decide(&mut self, n: usize, cost: u8) -> usize {
        if n <= 1 || self.held { return 0; }
        let n = n.min(255);
        let i = self.trace.len();
        let taken = if i < self.prefix.len() { self.prefix[i] as usize } else { 0 };
        if taken >= n {
            self.diverged.get_or_insert_with(|| format!("decision {i}: option {taken} of {n}"));
        }
        let taken = taken.min(n - 1);
        self.trace.push(Choice { options: n as u8, taken: taken as u8, cost });
        taken
    }
}

/// A list that needs no allocation while it is short.
struct Order { ids: [u16; 32], n: usize, more: Vec<u16> }
impl Order {
    fn push(&mut self, t: TaskId) {
        if self.n < 32 { self.ids[self.n] = t as u16 } else { self.more.push(t as u16) }
        self.n += 1;
    }
    fn len(&self) -> usize { self.n }
}
impl std::ops::Index<usize> for Order {
    type Output = u16;
    fn index(&self, i: usize) -> &u16 { if i < 32 { &self.ids[..self.n.min(32)][i] } else { &self.more[i - 32] } }
}

/// A choice of the environment: 0 is the default, everything else costs one deviation.
pub fn choose(n: usize) -> usize { choose_at(n, 1) }

/// A choice explored in full.
pub fn choose_free(n: usize) -> usize { choose_at(n, 0) }

pub fn choose_at(n: usize, cost: u8) -> usize {
    if !active() { return 0; }
    let r = rt();
    if r.killing || unwinding() { return 0; }
    r.decide(n, cost)
}

/// Which branch a `select!` polls first.
pub fn choose_select(n: u32) -> u32 {
    if !active() { return 0; }
    let cost = rt().cfg.select_cost;
    choose_at(n as usize, cost) as u32
}

pub fn log(e: Event) {
    if !active() { return; }
    let r = rt();
    if !r.killing { r.log.push(e); }
}
pub fn note(s: impl Into<String>) { log(Event::Note(s.into())); }
pub fn mark(what: &'static str, v: i64) { log(Event::Mark(what, v)); }
pub fn verbose() -> bool { active() && rt().cfg.verbose }
/// Number of events so far.
pub fn log_len() -> usize { rt().log.len() }
pub fn killing() -> bool { active() && rt().killing }

pub fn now() -> Duration { if active() { rt().now } else { Duration::ZERO } }

/// Registers a wake-up at virtual time `at`; returns a key for [`cancel_timer`].
pub fn add_timer(at: Duration, waker: Waker) -> (Duration, usize) {
    let r = rt();
    r.timer_ids += 1;
    let key = (at, r.timer_ids);
    r.timers.insert(key, waker);
    key
}
pub fn cancel_timer(key: (Duration, usize)) { if active() { rt().timers.remove(&key); } }

/// Lets everything else run until it waits.
pub async fn settle() { quiesce(); }

/// Keeps a value alive until the execution is over.
pub fn keep<T: 'static>(value: T) { rt().extras.push(Box::new(value)); }

/// Blocks the current task (inside its poll) until some lock is released.
pub(crate) fn lock_wait() {
    let r = rt();
    if r.killing || unwinding() { panic!("a lock is still held at the end of an execution"); }
    let me = r.cur.expect("lock contention outside a task");
    r.step();
    r.tasks[me].status = Status::LockWait;
    r.suspend();
}
pub(crate) fn lock_released() {
    if !active() { return; }
    for t in rt().tasks.iter_mut() {
        if t.status == Status::LockWait { t.status = Status::Preempted; }
    }
}

/// Stops the current task until nothing else can run.
pub(crate) fn quiesce() {
    let r = rt();
    if r.killing || unwinding() { return; }
    let me = r.cur.expect("quiesce outside a task");
    r.step();
    r.tasks[me].status = Status::Idle;
    r.tasks[me].idle_since = r.now;
    r.suspend();
}

/// Result of a task, shared with whoever waits for it.
pub struct Joint<T> {
    pub state: RefCell<JointState<T>>,
    abort: Rc<Cell<bool>>,
    flag: Arc<Flag>,
}
pub struct JointState<T> {
    pub result: Option<Result<T, JoinFailure>>,
    pub waker: Option<Waker>,
    pub done: bool,
}
#[derive(Clone, Debug)]
pub enum JoinFailure { Panicked(String), Cancelled }

impl<T> Joint<T> {
    pub fn cancel(&self) {
        self.abort.set(true);
        self.flag.woken.store(true, Ordering::SeqCst);
    }
}

/// Adds a task to the current execution.
pub fn spawn<F: Future + 'static>(name: &str, side: Side, fut: F) -> Rc<Joint<F::Output>> {
    let r = rt();
    let flag = Arc::new(Flag { woken: AtomicBool::new(true) });
    let abort = Rc::new(Cell::new(false));
    let joint = Rc::new(Joint {
        state: RefCell::new(JointState { result: None, waker: None, done: false }),
        abort: abort.clone(),
        flag: flag.clone(),
    });
    let id = r.tasks.len();
    let waker: Waker = flag.clone().into();
    let stack = STACKS.with(|s| s.borrow_mut().pop()).unwrap_or_else(|| DefaultStack::new(STACK).expect("stack"));
    let out = joint.clone();
    let stop = abort.clone();
    let mut fut = Some(Box::pin(fut));
    let co = Coroutine::with_stack(stack, move |y: &Yielder<(), ()>, ()| {
        rt().tasks[id].yielder = y;
        let mut end: Option<Result<F::Output, JoinFailure>> = None;
        let mut cancelled = false;
        loop {
            if rt().killing { break; }
            if stop.get() { cancelled = true; break; }
            let polled = {
                let pinned = fut.as_mut().unwrap().as_mut();
                catch_unwind(AssertUnwindSafe(|| {
                    rt().tasks[id].flag.woken.store(false, Ordering::SeqCst);
                    pinned.poll(&mut Context::from_waker(&waker))
                }))
            };
            match polled {
                Ok(Poll::Ready(v)) => { end = Some(Ok(v)); break; }
                Ok(Poll::Pending) => {
                    if rt().killing { break; }
                    let r = rt();
                    r.tasks[id].status = Status::Waiting;
                    r.tasks[id].in_poll = 0;
                    y.suspend(());
                }
                Err(payload) => {
                    if payload.is::<Kill>() { break; }
                    let msg = report::take_panic().unwrap_or_else(|| "panic".into());
                    rt().tasks[id].panic = Some(msg.clone());
                    end = Some(Err(JoinFailure::Panicked(msg)));
                    break;
                }
            }
        }
        // Like the real runtime: the future goes before its result is announced.
        if rt().killing { rt().quiet = true; }
        let gone = catch_unwind(AssertUnwindSafe(|| drop(fut.take())));
        if let Err(payload) = gone {
            if !payload.is::<Kill>() && !rt().killing {
                let msg = report::take_panic().unwrap_or_else(|| "panic".into());
                rt().tasks[id].panic.get_or_insert(msg.clone());
                end = Some(Err(JoinFailure::Panicked(msg)));
            }
        }
        if rt().killing { rt().quiet = false; return; }
        if cancelled { rt().tasks[id].cancelled = true; end = Some(Err(JoinFailure::Cancelled)); }
        let waker = {
            let mut s = out.state.borrow_mut();
            s.result = end;
            s.done = true;
            s.waker.take()
        };
        if let Some(w) = waker { w.wake(); }
    });
    r.tasks.push(Task {
        name: name.into(), side, status: Status::Waiting, flag, co: Some(co), yielder: std::ptr::null(), in_poll: 0,
        panic: None, cancelled: false, fate: Fate::Blocked, idle_since: Duration::ZERO,
    });
    joint
}

/// Waits for a task spawned with [`spawn`].
pub struct Join<T>(pub Rc<Joint<T>>);
impl<T> Future for Join<T> {
    type Output = Result<T, JoinFailure>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        point();
        let mut s = self.0.state.borrow_mut();
        if s.done { return Poll::Ready(s.result.take().unwrap_or(Err(JoinFailure::Cancelled))); }
        s.waker = Some(cx.waker().clone());
        Poll::Pending
    }
}

/// Name of the task that is running.
pub fn current_name() -> String {
    let r = rt();
    r.cur.map(|c| r.tasks[c].name.clone()).unwrap_or_default()
}

/// How an execution ended.
pub struct Ended {
    pub trace: Vec<Choice>,
    pub steps: usize,
    pub log: Vec<Event>,
    pub tasks: Vec<TaskReport>,
    /// The task that would not stop, if the execution was cut short.
    pub spinning: Option<String>,
    /// The prefix could not be followed.
    pub diverged: Option<String>,
}

impl Ended {
    pub fn fate(&self, name: &str) -> Option<Fate> { self.tasks.iter().find(|t| t.name == name).map(|t| t.fate) }
    /// A panic or livelock, which no property tolerates.
    pub fn disorder(&self) -> Result<(), String> {
        if let Some(t) = &self.spinning { return Err(format!("task '{t}' loops without ever waiting or making progress")); }
        for t in &self.tasks {
            if let Some(p) = &t.panic { return Err(format!("task '{}' panicked: {p}", t.name)); }
        }
        Ok(())
    }
}

/// Runs one execution: `setup` spawns the first tasks; the rest follows the prefix, then defaults.
pub fn execute(cfg: Config, prefix: &[u8], setup: impl FnOnce()) -> Ended {
    begin(cfg, prefix);
    setup();
    run_until(|| false);
    let e = snapshot();
    finish();
    e
}

thread_local! {
    // Not dropped with the thread: handlers that run at the end of the process look into it.
    static OWNER: std::mem::ManuallyDrop<RefCell<Option<Box<Rt>>>> = const { std::mem::ManuallyDrop::new(RefCell::new(None)) };
}

/// Starts an execution by hand; [`execute`] does it all.
pub fn begin(cfg: Config, prefix: &[u8]) {
    assert!(!active(), "executions do not nest");
    let mut owner = Box::new(Rt {
        cfg, tasks: Vec::new(), cur: None, last: 0, next: None, trace: Vec::with_capacity(256), prefix: prefix.to_vec(),
        steps: 0, now: Duration::ZERO, looks: 0, timers: BTreeMap::new(), timer_ids: 0, ticks: (0, (0, 0, 0)), forgiven: 0, log: Vec::with_capacity(64),
        killing: false, held: false, quiet: false, spinning: None, diverged: None, world: net::World::default(), extras: Vec::new(),
    });
    RT.with(|p| p.set(&mut *owner));
    OWNER.with(|o| *o.borrow_mut() = Some(owner));
}

/// Sets what the rest of an execution has to follow.
pub fn configure(prefix: &[u8], verbose: bool) {
    let r = rt();
    r.prefix = prefix.to_vec();
    r.cfg.verbose = verbose;
}
/// While held, an execution is not explored: everything takes its default course.
pub fn hold(on: bool) { rt().held = on; }
/// Whether nothing has been decided or recorded yet.
pub fn pristine() -> bool { rt().trace.is_empty() && rt().log.is_empty() && rt().tasks.len() == 1 }

/// Prepares stacks for tasks to come.
pub fn prepare_stacks(n: usize) { STACKS.with(|s| { let mut s = s.borrow_mut(); while s.len() < n { s.push(DefaultStack::new(STACK).expect("stack")); } }) }

/// What has happened so far; takes the records out.
pub fn snapshot() -> Ended {
    for t in rt().tasks.iter_mut() {
        t.fate = match t.status {
            _ if t.panic.is_some() => Fate::Panicked,
            _ if t.cancelled => Fate::Cancelled,
            Status::Done => Fate::Finished,
            Status::Preempted => Fate::Running,
            _ => Fate::Blocked,
        };
    }
    let r = rt();
    let tasks = r.tasks.iter().map(|t| TaskReport { name: t.name.clone(), side: t.side, panic: t.panic.clone(), fate: t.fate }).collect();
    Ended {
        trace: std::mem::take(&mut r.trace), steps: r.steps, log: std::mem::take(&mut r.log), tasks,
        spinning: r.spinning.take(), diverged: r.diverged.take(),
    }
}

/// Drops what is left of an execution.
pub fn finish() {
    rt().killing = true;
    let mut t = 0;
    while t < rt().tasks.len() {
        while rt().tasks[t].status != Status::Done { resume(t); }
        t += 1;
    }
    let r = rt();
    r.cur = None;
    r.quiet = true;
    drop(std::mem::take(&mut r.extras));
    drop(std::mem::take(&mut r.timers));
    drop(std::mem::take(&mut r.world));
    RT.with(|p| p.set(std::ptr::null_mut()));
    drop(OWNER.with(|o| o.borrow_mut().take()));
}

fn resume(t: TaskId) {
    let r = rt();
    r.cur = Some(t);
    r.last = t;
    if r.tasks[t].status == Status::Waiting && !r.killing { r.steps += 1; }
    let mut co = r.tasks[t].co.take().expect("task is running already");
    let state = co.resume(());
    let r = rt();
    r.cur = None;
    match state {
        CoroutineResult::Yield(()) => r.tasks[t].co = Some(co),
        CoroutineResult::Return(()) => {
            r.tasks[t].status = Status::Done;
            let stack = co.into_stack();
            STACKS.with(|s| s.borrow_mut().push(stack));
        }
    }
}

/// How long somebody idle waits, in seconds.
static PATIENCE: AtomicU64 = AtomicU64::new(20 * 60);

/// From now on, the idle wait this long.
pub fn wait_long(d: Duration) { PATIENCE.store(d.as_secs(), Ordering::Relaxed); }

/// Timers that go off in a row, with nothing to see, after which nothing more is expected of them.
const TICKS: usize = 300;

/// Runs tasks until nothing can run any more, or it is time to stop.
pub fn run_until(stop: impl Fn() -> bool) {
    loop {
        let r = rt();
        if r.spinning.is_some() || r.tasks.is_empty() || stop() { return; }
        if r.steps - r.forgiven > r.cfg.horizon {
            r.spinning = Some(r.tasks[r.last].name.clone());
            return;
        }
        let next = match r.next.take() {
            Some(t) => t,
            None => {
                let order = r.runnable_after(r.last, false);
                if order.len() == 0 {
                    if !r.stir() { return; }
                    continue;
                }
                let cost = r.cfg.block_cost;
                let k = r.decide(order.len(), cost);
                order[k] as usize
            }
        };
        resume(next);
    }
}

impl Rt {
    /// Nothing can run: lets an idle task go on, or else the clock. Those who are idle - the modem,
    /// the remote station, the user - are so for minutes: what is due by then comes first.
    fn stir(&mut self) -> bool {
        let idle: Vec<TaskId> = (0..self.tasks.len()).filter(|t| self.tasks[*t].status == Status::Idle).collect();
        let span = Duration::from_secs(PATIENCE.load(Ordering::Relaxed));
        let patience = idle.iter().map(|t| self.tasks[*t].idle_since + span).min();
        let due = self.timers.keys().next().is_some_and(|k| patience.is_some_and(|p| k.0 < p));
        let fed_up = self.ticks.0 >= TICKS;
        if let (true, Some(p)) = (!due || fed_up, patience) {
            self.ticks.0 = 0;
            if !due { self.now = self.now.max(p); }
            let cost = self.cfg.block_cost;
            let k = self.decide(idle.len(), cost);
            self.tasks[idle[k]].status = Status::Preempted;
            return true;
        }
        let Some((&key, _)) = self.timers.iter().next() else { return false };
        let seen = (self.log.len(), self.tasks.len(), idle.len());
        if self.ticks.1 == seen {
            // Waking up now and then is no livelock.
            self.ticks.0 += 1;
            self.forgiven = self.steps.min(100 * self.cfg.horizon);
        } else { self.ticks = (0, seen); }
        if self.ticks.0 > TICKS { return false; }
        self.now = self.now.max(key.0);
        let waker = self.timers.remove(&key).unwrap();
        waker.wake();
        true
    }
}
