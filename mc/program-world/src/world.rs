//! The world around the program: modem, remote station, rig and operator follow scripts.

use mcsched::net::{self as sim, Cuts, Listen};
use mcsched::*;
use std::cell::RefCell;
use std::net::SocketAddr;
use std::task::Waker;

pub fn control() -> SocketAddr { ([127, 0, 0, 1], 8300).into() }
pub fn data() -> SocketAddr { ([127, 0, 0, 1], 8301).into() }
/// Stands for the serial line.
pub fn rig() -> SocketAddr { ([0, 0, 0, 0], 1).into() }

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Act {
    /// The modem takes a command.
    Take,
    /// The modem says something.
    Say(Vec<u8>),
    /// Takes commands and answers them until the link is gone.
    Serve,
    /// The remote station sends something.
    Data(Vec<u8>),
    CloseControl,
    ResetControl,
    FinControl,
    CloseData,
    ResetData,
    RigSays(Vec<u8>),
    /// The rig takes up to this many bytes.
    RigTakes(usize),
    RigHangs,
    RigFails,
    /// Waits until nothing else moves.
    Settle,
    /// Waits until the program waits for the operator, and remembers what it has shown.
    Asked,
    Type(&'static str),
    EndInput,
    Await(&'static str),
    Raise(&'static str),
    /// From here on, the execution is explored.
    Explore,
    /// Remembers how much the program has shown.
    Look(&'static str),
}

pub fn say(s: &str) -> Act { Act::Say(s.replace('|', "\r").into_bytes()) }
pub fn text(s: &str) -> Act { Act::Data(s.replace('|', "\r").into_bytes()) }

fn inner(b: &[u8]) -> String { report::show(b).trim_start_matches("b\"").trim_end_matches('"').replace("\\r", "|") }
impl Act {
    pub fn short(&self) -> String {
        match self {
            Act::Take => "cmd".into(),
            Act::Say(b) => inner(b),
            Act::Data(b) => format!("\"{}\"", inner(b)),
            Act::RigSays(b) => format!("rig\"{}\"", inner(b)),
            other => format!("{other:?}"),
        }
    }
}
pub fn shorts(acts: &[Act]) -> String { acts.iter().map(Act::short).collect::<Vec<_>>().join(", ") }

thread_local! { static FLAGS: RefCell<(Vec<&'static str>, Vec<Waker>)> = const { RefCell::new((Vec::new(), Vec::new())) }; }
pub fn fresh() { FLAGS.with(|f| *f.borrow_mut() = (Vec::new(), Vec::new())); }
pub fn raise(flag: &'static str) {
    let wakers = FLAGS.with(|f| { let mut f = f.borrow_mut(); f.0.push(flag); std::mem::take(&mut f.1) });
    for w in wakers { w.wake(); }
}
async fn flag_raised(flag: &'static str) {
    std::future::poll_fn(move |cx| FLAGS.with(|f| {
        let mut f = f.borrow_mut();
        if f.0.contains(&flag) { return std::task::Poll::Ready(()); }
        f.1.push(cx.waker().clone());
        std::task::Poll::Pending
    })).await
}

fn took(line: &[u8]) { note(format!("modem takes {}", String::from_utf8_lossy(&line[..line.len() - 1]))); }

/// Follows a script.
pub async fn follow(script: Vec<Act>) {
    for act in script {
        match act {
            Act::Take => {
                let c = sim::accepted(control(), 0).await;
                match sim::recv_until(c, b'\r').await { Ok(l) => took(&l), Err(_) => { note("modem sees the link end"); return; } }
            }
            Act::Say(b) => { let c = sim::accepted(control(), 0).await; sim::send(c, &b) }
            Act::Serve => {
                let c = sim::accepted(control(), 0).await;
                while let Ok(l) = sim::recv_until(c, b'\r').await {
                    took(&l);
                    let ends = l == b"DISCONNECT\r" || l == b"ABORT\r";
                    sim::send(c, if ends { b"OK\rDISCONNECTED\r" } else { b"OK\r" });
                }
            }
            Act::Data(b) => { let c = sim::accepted(data(), 0).await; sim::send(c, &b) }
            Act::CloseControl => sim::far_close(sim::accepted(control(), 0).await),
            Act::ResetControl => sim::far_reset(sim::accepted(control(), 0).await),
            Act::FinControl => sim::far_fin(sim::accepted(control(), 0).await),
            Act::CloseData => sim::far_close(sim::accepted(data(), 0).await),
            Act::ResetData => sim::far_reset(sim::accepted(data(), 0).await),
            Act::RigSays(b) => { let c = sim::accepted(rig(), 0).await; sim::send(c, &b) }
            Act::RigTakes(n) => { let c = sim::accepted(rig(), 0).await; sim::recv_some(c, n).await; }
            Act::RigHangs => sim::far_close(sim::accepted(rig(), 0).await),
            Act::RigFails => sim::far_reset(sim::accepted(rig(), 0).await),
            Act::Settle => settle().await,
            Act::Asked => { sim::operator_asked().await; mark("asked", crate::server::shown().len() as i64); }
            Act::Type(t) => sim::type_text(t.as_bytes()),
            Act::EndInput => sim::end_keyboard(),
            Act::Await(f) => flag_raised(f).await,
            Act::Raise(f) => raise(f),
            Act::Explore => { settle().await; hold(false); }
            Act::Look(what) => mark(what, crate::server::shown().len() as i64),
        }
    }
}

/// Explores nothing until some script says so.
pub fn hold_unless_told(scripts: &[&[Act]]) { if scripts.iter().any(|s| s.contains(&Act::Explore)) { hold(true); } }
pub fn actor(name: &str, script: Vec<Act>) { let _ = spawn(name, Side::World, follow(script)); }

pub fn network(read: Cuts, write: Cuts, stalls: bool) {
    sim::listen(control(), Listen::Accept);
    sim::listen(data(), Listen::Accept);
    let w = &mut rt().world;
    w.read_cuts = read;
    w.write_cuts = write;
    w.write_stalls = stalls;
    w.serial.push(("/dev/rig".into(), 38400, rig()));
}

pub const ME: &str = "KC1GSL";
pub const THEM: &str = "W1AW";
pub fn args() -> Vec<String> {
    ["-d", ME, "--rig-control", "/dev/rig", "--rig-baud", "38400", THEM].map(String::from).to_vec()
}

/// What the modem does until the session is up.
pub fn opening() -> Vec<Act> {
    let mut v = vec![];
    for _ in 0..4 { v.extend([Act::Take, say("OK|")]); }
    v.push(say("CONNECTED KC1GSL W1AW|"));
    v
}

/// The same, explored only from the last step on.
pub fn opened() -> Vec<Act> {
    let mut v = opening();
    let k = v.len() - 1;
    v.insert(k, Act::Explore);
    v
}

// ---- reading executions ----------------------------------------------------------------------

/// Number of the first connection to an address.
pub fn conn_of(e: &Ended, to: SocketAddr) -> Option<usize> {
    e.log.iter().find_map(|ev| match ev { Event::Connect { addr, conn: Some(c) } if *addr == to => Some(*c), _ => None })
}
pub fn written(e: &Ended, conn: Option<usize>) -> Vec<u8> {
    e.log.iter().flat_map(|ev| match ev { Event::Wrote { conn: c, data } if Some(*c) == conn => data.clone(), _ => vec![] }).collect()
}
pub fn sent(e: &Ended, conn: Option<usize>) -> Vec<u8> {
    e.log.iter().flat_map(|ev| match ev { Event::Sent { conn: c, data } if Some(*c) == conn => data.clone(), _ => vec![] }).collect()
}
