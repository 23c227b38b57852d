use mcsched::{Join, JoinFailure, Side};
use std::fmt;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};

pub use tokio_core::task::*;

pub struct JoinHandle<T>(Join<T>);
// Tasks of one execution never leave their thread.
unsafe impl<T: Send> Send for JoinHandle<T> {}
unsafe impl<T: Send> Sync for JoinHandle<T> {}
impl<T> Unpin for JoinHandle<T> {}
impl<T> fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_struct("JoinHandle").finish() }
}

pub struct JoinError(JoinFailure);
impl JoinError {
    pub fn is_cancelled(&self) -> bool { matches!(self.0, JoinFailure::Cancelled) }
    pub fn is_panic(&self) -> bool { matches!(self.0, JoinFailure::Panicked(_)) }
    pub fn into_panic(self) -> Box<dyn std::any::Any + Send + 'static> { Box::new(format!("{self}")) }
}
unsafe impl Send for JoinError {}
unsafe impl Sync for JoinError {}
impl fmt::Display for JoinError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(if self.is_panic() { "panic" } else { "cancelled" }) }
}
impl fmt::Debug for JoinError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "JoinError::{}", if self.is_panic() { "Panic(...)" } else { "Cancelled" }) }
}
impl std::error::Error for JoinError {}
impl From<JoinError> for std::io::Error {
    fn from(e: JoinError) -> Self { std::io::Error::new(std::io::ErrorKind::Other, e.to_string()) }
}

impl<T> JoinHandle<T> {
    pub fn abort(&self) { mcsched::point(); self.0 .0.cancel(); }
}
impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        Pin::new(&mut self.0).poll(cx).map(|r| r.map_err(JoinError))
    }
}

#[track_caller]
pub fn spawn<T>(fut: T) -> JoinHandle<T::Output>
where T: Future + Send + 'static, T::Output: Send + 'static {
    assert!(mcsched::active(), "there is no reactor running, must be called from the context of a Tokio 1.x runtime");
    let at = std::panic::Location::caller();
    let name = format!("spawned at {}:{}", at.file().rsplit("/src/").next().unwrap_or(""), at.line());
    JoinHandle(Join(mcsched::spawn(&name, Side::Program, fut)))
}
#[track_caller]
pub fn spawn_local<T>(fut: T) -> JoinHandle<T::Output> where T: Future + 'static, T::Output: 'static {
    JoinHandle(Join(mcsched::spawn("local task", Side::Program, fut)))
}
pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R> where F: FnOnce() -> R + Send + 'static, R: Send + 'static {
    JoinHandle(Join(mcsched::spawn("blocking task", Side::Program, async move { f() })))
}
pub fn block_in_place<F: FnOnce() -> R, R>(f: F) -> R { f() }

pub async fn yield_now() {
    let mut done = false;
    std::future::poll_fn(move |cx| {
        mcsched::point();
        if done { return Poll::Ready(()); }
        done = true;
        cx.waker().wake_by_ref();
        Poll::Pending
    }).await
}
