//! What the scenarios share: addresses, a scriptable modem, helpers for callers.

use mcsched::net::{self as sim, Cuts, Listen};
use mcsched::*;
use plusendi::modem::vara::{VaraTnc, VaraTncBuilder};
use plusendi::StationId;
use std::cell::RefCell;
use std::future::Future;
use std::net::SocketAddr;
use std::rc::Rc;

pub fn control() -> SocketAddr { ([127, 0, 0, 1], 8300).into() }
pub fn data() -> SocketAddr { ([127, 0, 0, 1], 8301).into() }
/// The numbers of the control and the data connection, in whichever order they were opened. (A stream
/// that was not asked for by address is the only one, and has number 0.)
pub fn ctl(e: &Ended) -> usize { number(e, control(), 0) }
pub fn dat(e: &Ended) -> usize { number(e, data(), 1) }
fn number(e: &Ended, at: SocketAddr, otherwise: usize) -> usize {
    e.log.iter().find_map(|ev| match ev { Event::Connect { addr, conn: Some(c) } if *addr == at => Some(*c), _ => None }).unwrap_or(otherwise)
}

pub fn network(read: Cuts, write: Cuts, stalls: bool) {
    sim::listen(control(), Listen::Accept);
    sim::listen(data(), Listen::Accept);
    let w = &mut rt().world;
    w.read_cuts = read;
    w.write_cuts = write;
    w.write_stalls = stalls;
}

pub fn builder() -> VaraTncBuilder {
    let mut b = VaraTnc::builder();
    b.host([127, 0, 0, 1].into()).control_port(8300.try_into().unwrap());
    b
}
pub async fn tnc() -> VaraTnc { builder().build().await.expect("both ports accept") }

pub fn id(s: &str) -> StationId { s.parse().unwrap_or_else(|_| panic!("harness station id {s}")) }

/// One thing the modem does.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Act {
    /// Takes the next command.
    Take,
    /// Takes the next command, if there is one once nothing moves any more.
    TakeIf,
    /// Once nothing moves any more, takes a teardown command if there is one, and answers it.
    TakeIfTeardown,
    /// Sends bytes on the control connection.
    Say(Vec<u8>),
    /// Delivers bytes of the remote station.
    Data(Vec<u8>),
    /// Takes up to this many bytes for the remote station.
    TakeData(usize),
    /// Waits until nothing else moves.
    Settle,
    CloseControl,
    ResetControl,
    FinControl,
    CloseData,
    ResetData,
    /// Waits until the harness raises this flag.
    Await(&'static str),
    /// Raises a flag.
    Raise(&'static str),
}

pub fn say(s: &str) -> Act { Act::Say(s.replace('|', "\r").into_bytes()) }

impl Act {
    pub fn short(&self) -> String {
        match self {
            Act::Take => "cmd".into(),
            Act::TakeIf => "cmd?".into(),
            Act::Say(b) => report::show(b).trim_start_matches("b\"").trim_end_matches('"').replace("\\r", "|"),
            Act::Data(b) => format!("data{}", report::show(b).trim_start_matches('b')),
            Act::TakeData(n) => format!("take{n}"),
            other => format!("{other:?}"),
        }
    }
}
pub fn shorts(acts: &[Act]) -> String { acts.iter().map(Act::short).collect::<Vec<_>>().join(", ") }

/// Plays the modem. Commands are noted as `modem takes "..."`.
pub async fn modem(script: Vec<Act>) {
    let ctl = sim::accepted(control(), 0).await;
    for act in script {
        if sim::is_closed(ctl) && !matches!(act, Act::Take) { point(); }
        match act {
            Act::Take => match sim::recv_until(ctl, b'\r').await {
                Ok(line) => note(format!("modem takes {}", String::from_utf8_lossy(&line[..line.len() - 1]))),
                Err(rest) => {
                    note(format!("modem sees the control connection end, {} bytes left over", rest.len()));
                    return;
                }
            },
            Act::TakeIf => {
                settle().await;
                if let Some(line) = sim::line_waiting(ctl, b'\r') { note(format!("modem takes {}", String::from_utf8_lossy(&line[..line.len() - 1]))); }
            }
            Act::TakeIfTeardown => {
                settle().await;
                if sim::waiting(ctl, |b| b.starts_with(b"DISCONNECT\r") || b.starts_with(b"ABORT\r")) {
                    let line = sim::line_waiting(ctl, b'\r').unwrap();
                    note(format!("modem takes {}", String::from_utf8_lossy(&line[..line.len() - 1])));
                    sim::send(ctl, b"OK\r");
                }
            }
            Act::Say(b) => sim::send(ctl, &b),
            Act::Data(b) => { let d = sim::accepted(data(), 0).await; sim::send(d, &b) }
            Act::TakeData(n) => {
                let d = sim::accepted(data(), 0).await;
                let got = sim::recv_some(d, n).await;
                note(format!("modem takes data {}", report::hex(&got)));
            }
            Act::Settle => settle().await,
            Act::CloseControl => sim::far_close(ctl),
            Act::ResetControl => sim::far_reset(ctl),
            Act::FinControl => sim::far_fin(ctl),
            Act::CloseData => { let d = sim::accepted(data(), 0).await; sim::far_close(d) }
            Act::ResetData => { let d = sim::accepted(data(), 0).await; sim::far_reset(d) }
            Act::Await(f) => flag_raised(f).await,
            Act::Raise(f) => raise(f),
        }
    }
    note("modem has played its script");
}

thread_local! {
    static FLAGS: RefCell<(Vec<&'static str>, Vec<std::task::Waker>)> = const { RefCell::new((Vec::new(), Vec::new())) };
}
/// Forgets the flags of the previous execution; every setup starts with this.
pub fn fresh() { FLAGS.with(|f| { let mut f = f.borrow_mut(); f.0.clear(); f.1.clear(); }); }
pub fn raise(flag: &'static str) {
    if killing() { return; }
    let wakers = FLAGS.with(|f| { let mut f = f.borrow_mut(); f.0.push(flag); std::mem::take(&mut f.1) });
    for w in wakers { w.wake(); }
}
/// The name of one of many flags.
pub fn nth(what: &str, i: usize) -> &'static str { Box::leak(format!("{what} {i}").into_boxed_str()) }
pub async fn flag_raised(flag: &'static str) {
    std::future::poll_fn(move |cx| FLAGS.with(|f| {
        let mut f = f.borrow_mut();
        if f.0.contains(&flag) { return std::task::Poll::Ready(()); }
        f.1.push(cx.waker().clone());
        std::task::Poll::Pending
    })).await
}

pub fn world(name: &str, f: impl Future<Output = ()> + 'static) { let _ = spawn(name, Side::World, f); }
pub fn caller(name: &str, f: impl Future<Output = ()> + 'static) { let _ = spawn(name, Side::Program, f); }

/// Polls a future at most `polls` times, then drops it.
pub async fn give_up_after<T>(polls: usize, f: impl Future<Output = T>) -> Option<T> {
    let mut f = Box::pin(f);
    let mut n = 0;
    std::future::poll_fn(move |cx| {
        if n == polls { return std::task::Poll::Ready(None); }
        n += 1;
        match f.as_mut().poll(cx) {
            std::task::Poll::Ready(v) => std::task::Poll::Ready(Some(v)),
            std::task::Poll::Pending => {
                if n == polls { cx.waker().wake_by_ref(); }
                std::task::Poll::Pending
            }
        }
    }).await
}

/// A modem handle that several callers share.
pub type Shared = Rc<VaraTnc>;

// ---- reading executions --------------------------------------------------------------------

pub fn written(e: &Ended, conn: usize) -> Vec<u8> {
    e.log.iter().flat_map(|ev| match ev { Event::Wrote { conn: c, data } if *c == conn => data.clone(), _ => vec![] }).collect()
}
pub fn read_by_program(e: &Ended, conn: usize) -> Vec<u8> {
    e.log.iter().flat_map(|ev| match ev { Event::Read { conn: c, data } if *c == conn => data.clone(), _ => vec![] }).collect()
}
pub fn notes<'a>(e: &'a Ended, prefix: &'a str) -> Vec<&'a str> {
    e.log.iter().filter_map(|ev| match ev { Event::Note(s) => s.strip_prefix(prefix), _ => None }).collect()
}
pub fn place(e: &Ended, what: &str) -> Option<usize> { e.log.iter().position(|ev| matches!(ev, Event::Note(s) if s == what)) }
/// Commands the modem has taken, in order.
pub fn taken(e: &Ended) -> Vec<&str> { notes(e, "modem takes ").into_iter().filter(|s| !s.starts_with("data ")).collect() }
pub fn closed(e: &Ended, conn: usize) -> Option<usize> { e.log.iter().position(|ev| matches!(ev, Event::Closed { conn: c } if *c == conn)) }

/// Every task of the program and its callers is over.
pub fn all_finished(e: &Ended) -> Result<(), String> {
    for t in &e.tasks {
        if t.side == Side::Program && t.fate != Fate::Finished { return Err(format!("task '{}' never ends: {:?}", t.name, t.fate)); }
    }
    Ok(())
}
pub fn finished(e: &Ended, name: &str) -> Result<(), String> {
    match e.fate(name) {
        Some(Fate::Finished) => Ok(()),
        f => Err(format!("'{name}' does not come to an end ({f:?})")),
    }
}
pub fn outcome<T, E>(r: &Result<T, E>) -> &'static str { if r.is_ok() { "ok" } else { "error" } }
