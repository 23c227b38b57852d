//! What a user of the modem does: a scripted caller.

use crate::commands::Ask;
use crate::kit::*;
use mcsched::*;
use plusendi::modem::vara::*;
use std::io::IoSlice;
use std::pin::Pin;
use tokio::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt};

/// One thing a user does. Outcomes are noted as `user <number> <what>: <outcome>`.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Do {
    Cmd(Ask),
    /// Connects; what follows, up to the end of the session, is skipped if that fails.
    Connect,
    /// One read with a buffer of this size.
    Read(usize),
    /// Reads until the end (or an error), with a buffer of this size.
    ReadAll(usize),
    /// Writes all of this.
    Write(Vec<u8>),
    /// One write call.
    WriteOnce(Vec<u8>),
    /// One vectored write call.
    WriteVec(Vec<Vec<u8>>),
    Flush,
    Shut,
    /// A reader and a writer at the same time, on the two halves of the session.
    Both(Vec<Do>, Vec<Do>),
    Disconnect,
    Abort,
    /// Disconnects or aborts, giving up after so many polls.
    QuitDisconnect(usize),
    QuitAbort(usize),
    /// Drops the session.
    Drop,
    /// Drops the modem handle.
    DropTnc,
    /// Starts a command and gives up after so many polls.
    GiveUp(Ask, usize),
    Settle,
    Raise(&'static str),
    Await(&'static str),
    /// Waits for the next change of the PTT state.
    Ptt,
}

impl Do {
    pub fn ends_session(&self) -> bool { matches!(self, Do::Disconnect | Do::Abort | Do::Drop | Do::QuitDisconnect(_) | Do::QuitAbort(_)) }
    pub fn short(&self) -> String {
        match self {
            Do::Cmd(a) => format!("{a:?}"),
            Do::Write(d) => format!("Write({})", d.len()),
            Do::WriteOnce(d) => format!("WriteOnce({})", d.len()),
            Do::WriteVec(d) => format!("WriteVec({:?})", d.iter().map(Vec::len).collect::<Vec<_>>()),
            Do::Both(r, w) => format!("[{} | {}]", doings(r), doings(w)),
            other => format!("{other:?}"),
        }
    }
}
pub fn doings(ops: &[Do]) -> String { ops.iter().map(Do::short).collect::<Vec<_>>().join(", ") }

fn tell(k: usize, what: &str, how: impl std::fmt::Display) { note(format!("user {k} {what}: {how}")); }
fn io_outcome<T>(r: &std::io::Result<T>) -> String { match r { Ok(_) => "ok".into(), Err(e) => format!("error {:?}", e.kind()) } }

async fn read_op<R: AsyncRead + Unpin>(k: usize, op: &Do, r: &mut R) -> bool {
    match op {
        Do::Read(n) => {
            let mut buf = vec![0; *n];
            let got = r.read(&mut buf).await;
            match &got { Ok(n) => tell(k, "Read", format!("got {}", report::hex(&buf[..*n]))), Err(_) => tell(k, "Read", io_outcome(&got)) }
        }
        Do::ReadAll(n) => {
            let mut all = vec![];
            let mut buf = vec![0; *n];
            let end = loop {
                match r.read(&mut buf).await {
                    Ok(0) => break "end".to_string(),
                    Ok(n) => all.extend_from_slice(&buf[..n]),
                    Err(e) => break format!("error {:?}", e.kind()),
                }
            };
            tell(k, "ReadAll", format!("got {} {end}", report::hex(&all)));
        }
        _ => return false,
    }
    true
}

async fn write_op<W: AsyncWrite + Unpin>(k: usize, op: &Do, w: &mut W) -> bool {
    match op {
        Do::Write(d) => { let r = w.write_all(d).await; tell(k, "Write", io_outcome(&r)); }
        Do::WriteOnce(d) => { let r = w.write(d).await; tell(k, "WriteOnce", match &r { Ok(n) => format!("took {n}"), Err(_) => io_outcome(&r) }); }
        Do::WriteVec(d) => {
            let bufs: Vec<IoSlice<'_>> = d.iter().map(|b| IoSlice::new(b)).collect();
            let r = w.write_vectored(&bufs).await;
            tell(k, "WriteVec", match &r { Ok(n) => format!("took {n}"), Err(_) => io_outcome(&r) });
        }
        Do::Flush => { let r = w.flush().await; tell(k, "Flush", io_outcome(&r)); }
        Do::Shut => { let r = w.shutdown().await; tell(k, "Shut", io_outcome(&r)); }
        _ => return false,
    }
    true
}

async fn common(op: &Do) {
    match op {
        Do::Settle => settle().await,
        Do::Raise(f) => raise(f),
        Do::Await(f) => flag_raised(f).await,
        other => panic!("harness: {other:?} is out of place"),
    }
}

/// Goes on inside a session; returns how far it got.
async fn in_session(mut s: VaraStream<'_>, ops: &[Do], mut k: usize) -> usize {
    while k < ops.len() {
        match &ops[k] {
            Do::Disconnect => { let r = s.disconnect().await; tell(k, "Disconnect", outcome(&r)); return k + 1; }
            Do::Abort => { let r = s.abort().await; tell(k, "Abort", outcome(&r)); return k + 1; }
            Do::QuitDisconnect(n) => { let r = give_up_after(*n, s.disconnect()).await; tell(k, "QuitDisconnect", r.as_ref().map_or("gave up", outcome)); return k + 1; }
            Do::QuitAbort(n) => { let r = give_up_after(*n, s.abort()).await; tell(k, "QuitAbort", r.as_ref().map_or("gave up", outcome)); return k + 1; }
            Do::Drop => { drop(s); tell(k, "Drop", "done"); return k + 1; }
            Do::Both(a, b) => {
                let (mut r, mut w) = tokio::io::split(s);
                let reading = async { for (i, op) in a.iter().enumerate() { let n = k * 100 + i; if !read_op(n, op, &mut r).await { common(op).await; } } };
                let writing = async { for (i, op) in b.iter().enumerate() { let n = k * 100 + 50 + i; if !write_op(n, op, &mut w).await { common(op).await; } } };
                let mut reading: Pin<Box<dyn std::future::Future<Output = ()> + '_>> = Box::pin(reading);
                let mut writing: Pin<Box<dyn std::future::Future<Output = ()> + '_>> = Box::pin(writing);
                let (mut x, mut y) = (false, false);
                std::future::poll_fn(|cx| {
                    if !x { x = reading.as_mut().poll(cx).is_ready(); }
                    if !y { y = writing.as_mut().poll(cx).is_ready(); }
                    if x && y { std::task::Poll::Ready(()) } else { std::task::Poll::Pending }
                }).await;
                drop((reading, writing));
                s = r.unsplit(w);
            }
            op => if !read_op(k, op, &mut s).await && !write_op(k, op, &mut s).await { common(op).await; },
        }
        k += 1;
    }
    k
}

/// Does everything in turn.
pub async fn user(ops: Vec<Do>) {
    let mut t = Some(tnc().await);
    let mut ptt = t.as_ref().unwrap().subscribe_rig_command();
    let mut k = 0;
    while k < ops.len() {
        match &ops[k] {
            Do::Connect => {
                tell(k, "Connect", "begins");
                match t.as_mut().expect("harness: no handle").connect(id("KC1GSL"), id("W1AW")).await {
                    Ok(s) => { tell(k, "Connect", "ok"); k = in_session(s, &ops, k + 1).await; }
                    Err(_) => {
                        tell(k, "Connect", "error");
                        k += 1;
                        while k < ops.len() && !ops[k].ends_session() { k += 1; }
                        k += 1;
                    }
                }
                continue;
            }
            Do::Cmd(a) => { let r = a.send(t.as_mut().expect("harness: no handle")).await; tell(k, "Cmd", if r { "ok" } else { "error" }); }
            Do::GiveUp(a, n) => {
                let r = give_up_after(*n, a.send(t.as_mut().expect("harness: no handle"))).await;
                tell(k, "GiveUp", match r { None => "gave up", Some(true) => "ok", Some(false) => "error" });
            }
            Do::DropTnc => { drop(t.take()); tell(k, "DropTnc", "done"); }
            Do::Ptt => { let r = ptt.changed().await; tell(k, "Ptt", outcome(&r)); }
            op => common(op).await,
        }
        k += 1;
    }
    drop(t);
    note("user is done");
}

/// The outcome of operation `k`.
pub fn result(e: &Ended, k: usize) -> Option<&str> {
    let head = format!("user {k} ");
    e.log.iter().rev().find_map(|ev| match ev { Event::Note(s) => s.strip_prefix(&head).and_then(|s| s.split_once(": ")).map(|s| s.1), _ => None })
}
/// Where the outcome of operation `k` is in the log.
pub fn result_place(e: &Ended, k: usize) -> Option<usize> {
    let head = format!("user {k} ");
    e.log.iter().rposition(|ev| matches!(ev, Event::Note(s) if s.starts_with(&head)))
}
/// The bytes a read delivered.
pub fn got(r: &str) -> Option<Vec<u8>> { r.strip_prefix("got ").map(|s| report::unhex(s.split(' ').next().unwrap())) }
