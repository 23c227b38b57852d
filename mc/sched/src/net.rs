//! A simulated network: sockets whose far ends are held by world tasks.
//!
//! Readiness works as in tokio 1.14 on Linux: arriving bytes set a socket's read-readiness, only
//! a read that would block clears it, and the end of the stream keeps it set for good.

use crate::*;
use std::collections::VecDeque;
use std::io;
use std::net::SocketAddr;

/// How finely reads and writes of a connection may be cut by the environment.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub enum Cuts {
    #[default]
    Never,
    /// One byte, half, all but one byte.
    Some,
    /// Every length.
    All,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Listen { Accept, Refuse, Ignore }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum End { Open, Fin, Closed, Reset }

pub struct Conn {
    pub addr: SocketAddr,
    inbound: VecDeque<u8>,
    outbound: VecDeque<u8>,
    read_ready: bool,
    far: End,
    near_shut: bool,
    near_closed: bool,
    error_due: bool,
    dead_writes: usize,
    pub cap: usize,
    pub read_cuts: Cuts,
    pub write_cuts: Cuts,
    /// Whether writes may have to wait although there is room.
    pub write_stalls: bool,
    near_read: Vec<Waker>,
    near_write: Vec<Waker>,
    far_wait: Vec<Waker>,
}

#[derive(Default)]
pub struct World {
    pub listeners: Vec<(SocketAddr, Listen)>,
    pub conns: Vec<Conn>,
    accept_wait: Vec<Waker>,
    pub read_cuts: Cuts,
    pub write_cuts: Cuts,
    pub write_stalls: bool,
    pub default: Option<Listen>,
    /// How many bytes may be on their way to an address.
    pub caps: Vec<(SocketAddr, usize)>,
    pub keyboard: Keyboard,
    /// Serial lines: name, speed, and the address that stands for them.
    pub serial: Vec<(String, u32, SocketAddr)>,
}

fn wake_all(v: &mut Vec<Waker>) { for w in v.drain(..) { w.wake(); } }
fn register(v: &mut Vec<Waker>, cx: &Context<'_>) {
    if !v.iter().any(|w| w.will_wake(cx.waker())) { v.push(cx.waker().clone()); }
}
fn world<'a>() -> &'a mut World { &mut rt().world }
fn conn<'a>(i: usize) -> &'a mut Conn { &mut rt().world.conns[i] }

// ---- the program's side -----------------------------------------------------------------

thread_local! { static BEFORE_CONNECT: std::cell::Cell<Option<fn()>> = const { std::cell::Cell::new(None) }; }
/// Called once, when the program is about to open its first connection.
pub fn before_first_connect(f: fn()) { BEFORE_CONNECT.with(|b| b.set(Some(f))); }

/// A connection attempt of the program.
pub fn connect(addr: SocketAddr) -> Poll<io::Result<usize>> {
    if let Some(f) = BEFORE_CONNECT.with(|b| b.take()) { f(); }
    point();
    let w = world();
    let mode = w.listeners.iter().find(|l| l.0 == addr).map(|l| l.1).or(w.default).unwrap_or(Listen::Refuse);
    match mode {
        Listen::Refuse => {
            log(Event::Connect { addr, conn: None });
            Poll::Ready(Err(io::Error::new(io::ErrorKind::ConnectionRefused, "connection refused")))
        }
        Listen::Ignore => Poll::Pending,
        Listen::Accept => {
            let id = open(addr);
            log(Event::Connect { addr, conn: Some(id) });
            wake_all(&mut world().accept_wait);
            Poll::Ready(Ok(id))
        }
    }
}

/// A connection that exists without having been asked for (a serial line, a test stream).
pub fn open(addr: SocketAddr) -> usize {
    let w = world();
    let id = w.conns.len();
    let c = Conn {
        addr, inbound: VecDeque::new(), outbound: VecDeque::new(), read_ready: false, far: End::Open, near_shut: false,
        near_closed: false, error_due: false, dead_writes: 0, cap: w.caps.iter().find(|c| c.0 == addr).map_or(usize::MAX, |c| c.1), read_cuts: w.read_cuts, write_cuts: w.write_cuts,
        write_stalls: w.write_stalls, near_read: vec![], near_write: vec![], far_wait: vec![],
    };
    w.conns.push(c);
    id
}

fn cut(n: usize, cuts: Cuts) -> usize {
    if n <= 1 { return n; }
    match cuts {
        Cuts::Never => n,
        Cuts::All if n <= 200 => n - choose(n),
        _ => {
            let mut lens = vec![n, 1];
            for l in [n / 2, n - 1] { if !lens.contains(&l) { lens.push(l); } }
            lens[choose(lens.len())]
        }
    }
}

/// A non-blocking read.
pub fn try_read(i: usize, buf: &mut [u8]) -> io::Result<usize> {
    point();
    read_now(i, buf)
}

fn read_now(i: usize, buf: &mut [u8]) -> io::Result<usize> {
    let c = conn(i);
    if !c.read_ready { return Err(io::ErrorKind::WouldBlock.into()); }
    if buf.is_empty() { return Ok(0); }
    let n = c.inbound.len().min(buf.len());
    if n > 0 {
        let n = cut(n, c.read_cuts);
        for b in buf[..n].iter_mut() { *b = c.inbound.pop_front().unwrap(); }
        log(Event::Read { conn: i, data: buf[..n].to_vec() });
        return Ok(n);
    }
    match c.far {
        End::Reset if c.error_due => {
            c.error_due = false;
            Err(io::Error::new(io::ErrorKind::ConnectionReset, "connection reset by peer"))
        }
        End::Open => {
            c.read_ready = false;
            Err(io::ErrorKind::WouldBlock.into())
        }
        _ => Ok(0),
    }
}

pub fn poll_read(i: usize, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
    point();
    match read_now(i, buf) {
        Err(e) if e.kind() == io::ErrorKind::WouldBlock => {
            register(&mut conn(i).near_read, cx);
            Poll::Pending
        }
        r => Poll::Ready(r),
    }
}

pub fn poll_readable(i: usize, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
    point();
    let c = conn(i);
    if c.read_ready { return Poll::Ready(Ok(())); }
    register(&mut c.near_read, cx);
    Poll::Pending
}

pub fn peek(i: usize, buf: &mut [u8]) -> io::Result<usize> {
    point();
    let c = conn(i);
    if !c.read_ready { return Err(io::ErrorKind::WouldBlock.into()); }
    if c.inbound.is_empty() { return read_now(i, buf); }
    let n = c.inbound.len().min(buf.len());
    for (k, b) in buf[..n].iter_mut().enumerate() { *b = c.inbound[k]; }
    Ok(n)
}
pub fn poll_peek(i: usize, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
    match peek(i, buf) {
        Err(e) if e.kind() == io::ErrorKind::WouldBlock => {
            register(&mut conn(i).near_read, cx);
            Poll::Pending
        }
        r => Poll::Ready(r),
    }
}

pub fn poll_writable(i: usize, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
    point();
    let c = conn(i);
    if c.far != End::Open && c.far != End::Fin || c.outbound.len() < c.cap { return Poll::Ready(Ok(())); }
    register(&mut c.near_write, cx);
    Poll::Pending
}

fn write_now(i: usize, data: &[u8]) -> io::Result<usize> {
    let c = conn(i);
    if c.near_shut { return Err(io::Error::new(io::ErrorKind::BrokenPipe, "broken pipe")); }
    if data.is_empty() { return Ok(0); }
    match c.far {
        End::Reset => {
            let first = std::mem::replace(&mut c.error_due, false);
            return Err(if first { io::Error::new(io::ErrorKind::ConnectionReset, "connection reset by peer") }
                       else { io::Error::new(io::ErrorKind::BrokenPipe, "broken pipe") });
        }
        End::Closed => {
            c.dead_writes += 1;
            // The first write after the far end has gone may still be accepted.
            if c.dead_writes > 1 || choose(2) == 1 { return Err(io::Error::new(io::ErrorKind::BrokenPipe, "broken pipe")); }
            log(Event::Wrote { conn: i, data: data.to_vec() });
            return Ok(data.len());
        }
        End::Open | End::Fin => {}
    }
    let room = c.cap - c.outbound.len().min(c.cap);
    if room == 0 { return Err(io::ErrorKind::WouldBlock.into()); }
    let n = cut(data.len().min(room), c.write_cuts);
    c.outbound.extend(&data[..n]);
    log(Event::Wrote { conn: i, data: data[..n].to_vec() });
    wake_all(&mut c.far_wait);
    Ok(n)
}

pub fn try_write(i: usize, data: &[u8]) -> io::Result<usize> {
    point();
    if conn(i).write_stalls && choose(2) == 1 { return Err(io::ErrorKind::WouldBlock.into()); }
    write_now(i, data)
}

pub fn poll_write(i: usize, cx: &mut Context<'_>, data: &[u8]) -> Poll<io::Result<usize>> {
    point();
    if conn(i).write_stalls && conn(i).far == End::Open && !data.is_empty() && choose(2) == 1 {
        cx.waker().wake_by_ref();
        return Poll::Pending;
    }
    match write_now(i, data) {
        Err(e) if e.kind() == io::ErrorKind::WouldBlock => {
            register(&mut conn(i).near_write, cx);
            Poll::Pending
        }
        r => Poll::Ready(r),
    }
}

pub fn shutdown(i: usize) -> io::Result<()> {
    point();
    let c = conn(i);
    if c.far == End::Reset { return Err(io::ErrorKind::NotConnected.into()); }
    if !c.near_shut {
        c.near_shut = true;
        log(Event::Shut { conn: i });
        wake_all(&mut c.far_wait);
    }
    Ok(())
}

pub fn close(i: usize) {
    if !active() || rt().quiet { return; }
    point();
    let c = conn(i);
    if c.near_closed { return; }
    c.near_closed = true;
    c.near_shut = true;
    log(Event::Closed { conn: i });
    wake_all(&mut c.far_wait);
}

// ---- the world's side --------------------------------------------------------------------

pub fn listen(addr: SocketAddr, mode: Listen) { world().listeners.push((addr, mode)); }

struct When<F>(F);
impl<T, F: FnMut(&mut Context<'_>) -> Poll<T> + Unpin> Future for When<F> {
    type Output = T;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> { (self.0)(cx) }
}

/// The `nth` connection the program has opened to `addr`.
pub async fn accepted(addr: SocketAddr, nth: usize) -> usize {
    When(move |cx: &mut Context<'_>| {
        let w = world();
        match w.conns.iter().enumerate().filter(|c| c.1.addr == addr).nth(nth) {
            Some((i, _)) => Poll::Ready(i),
            None => { register(&mut w.accept_wait, cx); Poll::Pending }
        }
    }).await
}

/// Delivers bytes to the program.
pub fn send(i: usize, data: &[u8]) {
    point();
    let c = conn(i);
    if c.near_closed || c.far != End::Open || data.is_empty() { return; }
    c.inbound.extend(data);
    c.read_ready = true;
    log(Event::Sent { conn: i, data: data.to_vec() });
    wake_all(&mut conn(i).near_read);
}

fn end(i: usize, how: End, name: &'static str) {
    point();
    let c = conn(i);
    if matches!(c.far, End::Closed | End::Reset) || c.far == how { return; }
    c.far = how;
    c.read_ready = true;
    c.error_due = how == End::Reset;
    log(Event::Ended { conn: i, how: name });
    let c = conn(i);
    wake_all(&mut c.near_read);
    wake_all(&mut c.near_write);
    wake_all(&mut c.far_wait);
}
/// The far end stops sending but keeps reading.
pub fn far_fin(i: usize) { end(i, End::Fin, "fin") }
/// The far end closes.
pub fn far_close(i: usize) { end(i, End::Closed, "closed") }
/// The far end resets the connection.
pub fn far_reset(i: usize) { end(i, End::Reset, "reset") }

/// The next bytes up to and including `delim` written by the program, or what is left when the
/// program has closed its end.
pub async fn recv_until(i: usize, delim: u8) -> Result<Vec<u8>, Vec<u8>> {
    point();
    When(move |cx: &mut Context<'_>| {
        let c = conn(i);
        if let Some(k) = c.outbound.iter().position(|b| *b == delim) {
            let line = c.outbound.drain(..=k).collect();
            wake_all(&mut c.near_write);
            return Poll::Ready(Ok(line));
        }
        if c.near_shut || matches!(c.far, End::Closed | End::Reset) {
            return Poll::Ready(Err(c.outbound.drain(..).collect()));
        }
        register(&mut c.far_wait, cx);
        Poll::Pending
    }).await
}

/// The next complete line written by the program, if it is there already.
pub fn line_waiting(i: usize, delim: u8) -> Option<Vec<u8>> {
    let c = conn(i);
    let k = c.outbound.iter().position(|b| *b == delim)?;
    let line = c.outbound.drain(..=k).collect();
    wake_all(&mut c.near_write);
    Some(line)
}

/// Whether what the program has written fits.
pub fn waiting(i: usize, fits: impl Fn(&[u8]) -> bool) -> bool { fits(conn(i).outbound.make_contiguous()) }

/// At least one byte written by the program, at most `max`; empty once the program has closed.
pub async fn recv_some(i: usize, max: usize) -> Vec<u8> {
    point();
    When(move |cx: &mut Context<'_>| {
        let c = conn(i);
        if !c.outbound.is_empty() {
            let k = c.outbound.len().min(max);
            let data = c.outbound.drain(..k).collect();
            wake_all(&mut c.near_write);
            return Poll::Ready(data);
        }
        if c.near_shut || matches!(c.far, End::Closed | End::Reset) { return Poll::Ready(Vec::new()); }
        register(&mut c.far_wait, cx);
        Poll::Pending
    }).await
}

/// Waits until the program has closed its end.
pub async fn until_closed(i: usize) {
    When(move |cx: &mut Context<'_>| {
        let c = conn(i);
        if c.near_closed { return Poll::Ready(()); }
        register(&mut c.far_wait, cx);
        Poll::Pending
    }).await
}
pub fn is_closed(i: usize) -> bool { conn(i).near_closed }
pub fn unread(i: usize) -> usize { conn(i).inbound.len() }

/// A world-side queue of bytes without a far end: the operator's keyboard.
#[derive(Default)]
pub struct Keyboard {
    pub text: VecDeque<u8>,
    pub ended: bool,
    pub wait: Vec<Waker>,
    pub waiting: bool,
    pub asked: Vec<Waker>,
}

/// A read of the operator's keyboard.
pub fn poll_keyboard(cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<usize> {
    point();
    let k = &mut rt().world.keyboard;
    if !k.text.is_empty() {
        let n = k.text.len().min(buf.len());
        for b in buf[..n].iter_mut() { *b = k.text.pop_front().unwrap(); }
        k.waiting = false;
        return Poll::Ready(n);
    }
    if k.ended { k.waiting = false; return Poll::Ready(0); }
    register(&mut k.wait, cx);
    if !k.waiting {
        k.waiting = true;
        log(Event::Note("program waits for the operator".into()));
        wake_all(&mut rt().world.keyboard.asked);
    }
    Poll::Pending
}
/// The operator types.
pub fn type_text(text: &[u8]) {
    point();
    let k = &mut rt().world.keyboard;
    k.text.extend(text);
    log(Event::Note(format!("operator types {}", report::show(text))));
    let k = &mut rt().world.keyboard;
    k.waiting = false;
    wake_all(&mut k.wait);
}
/// The operator's input ends.
pub fn end_keyboard() {
    point();
    log(Event::Note("operator's input ends".into()));
    let k = &mut rt().world.keyboard;
    k.ended = true;
    k.waiting = false;
    wake_all(&mut k.wait);
}
/// Waits until the program waits for the operator.
pub async fn operator_asked() {
    When(|cx: &mut Context<'_>| {
        let k = &mut rt().world.keyboard;
        if k.waiting { return Poll::Ready(()); }
        register(&mut k.asked, cx);
        Poll::Pending
    }).await
}

/// Opens a serial line by name.
pub fn open_serial(path: &str, baud: u32) -> io::Result<usize> {
    point();
    let addr = world().serial.iter().find(|s| s.0 == path && s.1 == baud).map(|s| s.2);
    let Some(addr) = addr else { return Err(io::Error::new(io::ErrorKind::NotFound, "no such serial port")) };
    let id = open(addr);
    log(Event::Connect { addr, conn: Some(id) });
    wake_all(&mut world().accept_wait);
    Ok(id)
}
