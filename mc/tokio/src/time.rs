//! Virtual time: it passes only while nothing can run.
use std::fmt;
use std::future::Future;
use std::ops::{Add, AddAssign, Sub, SubAssign};
use std::pin::Pin;
use std::task::{Context, Poll};
pub use std::time::Duration;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Instant(Duration);
impl Instant {
    pub fn now() -> Instant { Instant(mcsched::now()) }
    pub fn elapsed(&self) -> Duration { mcsched::now().saturating_sub(self.0) }
    pub fn duration_since(&self, o: Instant) -> Duration { self.0.saturating_sub(o.0) }
    pub fn saturating_duration_since(&self, o: Instant) -> Duration { self.0.saturating_sub(o.0) }
    pub fn into_std(self) -> std::time::Instant { std::time::Instant::now() - mcsched::now() + self.0 }
    pub fn from_std(at: std::time::Instant) -> Instant { Instant((at + mcsched::now()).saturating_duration_since(std::time::Instant::now())) }
    pub fn checked_sub(&self, d: Duration) -> Option<Instant> { self.0.checked_sub(d).map(Instant) }
    pub fn checked_add(&self, d: Duration) -> Option<Instant> { self.0.checked_add(d).map(Instant) }
}
impl Add<Duration> for Instant { type Output = Instant; fn add(self, d: Duration) -> Instant { Instant(self.0 + d) } }
impl AddAssign<Duration> for Instant { fn add_assign(&mut self, d: Duration) { self.0 += d } }
impl Sub<Duration> for Instant { type Output = Instant; fn sub(self, d: Duration) -> Instant { Instant(self.0.saturating_sub(d)) } }
impl SubAssign<Duration> for Instant { fn sub_assign(&mut self, d: Duration) { *self = *self - d } }
impl Sub for Instant { type Output = Duration; fn sub(self, o: Instant) -> Duration { self.0.saturating_sub(o.0) } }

#[derive(Debug)]
pub struct Sleep { at: Instant, key: Option<(Duration, usize)> }
pub fn sleep(d: Duration) -> Sleep { sleep_until(Instant::now() + d) }
pub fn sleep_until(at: Instant) -> Sleep { Sleep { at, key: None } }
impl Sleep {
    pub fn deadline(&self) -> Instant { self.at }
    pub fn is_elapsed(&self) -> bool { Instant::now() >= self.at }
    pub fn reset(mut self: Pin<&mut Self>, at: Instant) {
        if let Some(k) = self.key.take() { mcsched::cancel_timer(k); }
        self.at = at;
    }
}
impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        mcsched::point();
        if let Some(k) = self.key.take() { mcsched::cancel_timer(k); }
        if self.is_elapsed() { return Poll::Ready(()); }
        self.key = Some(mcsched::add_timer(self.at.0, cx.waker().clone()));
        Poll::Pending
    }
}
impl Drop for Sleep {
    fn drop(&mut self) { if let Some(k) = self.key.take() { mcsched::cancel_timer(k); } }
}

pub mod error {
    #[derive(Debug, PartialEq, Eq)]
    pub struct Elapsed(pub(super) ());
}
pub use error::Elapsed;
impl fmt::Display for Elapsed { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("deadline has elapsed") } }
impl std::error::Error for Elapsed {}
impl From<Elapsed> for std::io::Error { fn from(_: Elapsed) -> Self { std::io::ErrorKind::TimedOut.into() } }

pub struct Timeout<F> { fut: Pin<Box<F>>, sleep: Sleep }
pub fn timeout<F: Future>(d: Duration, fut: F) -> Timeout<F> { Timeout { fut: Box::pin(fut), sleep: sleep(d) } }
pub fn timeout_at<F: Future>(at: Instant, fut: F) -> Timeout<F> { Timeout { fut: Box::pin(fut), sleep: sleep_until(at) } }
impl<F: Future> Future for Timeout<F> {
    type Output = Result<F::Output, Elapsed>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if let Poll::Ready(v) = self.fut.as_mut().poll(cx) { return Poll::Ready(Ok(v)); }
        Pin::new(&mut self.sleep).poll(cx).map(|_| Err(Elapsed(())))
    }
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub enum MissedTickBehavior { #[default] Burst, Delay, Skip }

#[derive(Debug)]
pub struct Interval { next: Instant, period: Duration }
pub fn interval(period: Duration) -> Interval { interval_at(Instant::now(), period) }
pub fn interval_at(start: Instant, period: Duration) -> Interval { Interval { next: start, period } }
impl Interval {
    pub async fn tick(&mut self) -> Instant {
        sleep_until(self.next).await;
        let at = self.next;
        self.next = at + self.period;
        at
    }
    /// Time passes only while nothing can run: ticks are hardly ever missed.
    pub fn set_missed_tick_behavior(&mut self, _: MissedTickBehavior) {}
    pub fn missed_tick_behavior(&self) -> MissedTickBehavior { MissedTickBehavior::default() }
    pub fn period(&self) -> Duration { self.period }
    pub fn reset(&mut self) { self.next = Instant::now() + self.period; }
}
