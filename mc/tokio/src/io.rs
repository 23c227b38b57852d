pub use tokio_core::io::*;
use std::pin::Pin;
use std::task::{Context, Poll};

/// The operator's keyboard.
#[derive(Debug)]
pub struct Stdin(());
pub fn stdin() -> Stdin { Stdin(()) }
impl AsyncRead for Stdin {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<std::io::Result<()>> {
        let space = buf.initialize_unfilled();
        match mcsched::net::poll_keyboard(cx, space) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(n) => { buf.advance(n); Poll::Ready(Ok(())) }
        }
    }
}

macro_rules! output {
    ($name:ident, $make:ident, $std:expr) => {
        #[derive(Debug)]
        pub struct $name(());
        pub fn $make() -> $name { $name(()) }
        impl AsyncWrite for $name {
            fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, buf: &[u8]) -> Poll<std::io::Result<usize>> {
                mcsched::point();
                Poll::Ready(std::io::Write::write(&mut $std, buf))
            }
            fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
                Poll::Ready(std::io::Write::flush(&mut $std))
            }
            fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> { self.poll_flush(cx) }
        }
    };
}
output!(Stdout, stdout, std::io::stdout());
output!(Stderr, stderr, std::io::stderr());

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Interest(u8);
impl Interest {
    pub const READABLE: Interest = Interest(1);
    pub const WRITABLE: Interest = Interest(2);
    pub const fn is_readable(self) -> bool { self.0 & 1 != 0 }
    pub const fn is_writable(self) -> bool { self.0 & 2 != 0 }
    pub const fn add(self, o: Interest) -> Interest { Interest(self.0 | o.0) }
}
impl std::ops::BitOr for Interest { type Output = Interest; fn bitor(self, o: Interest) -> Interest { self.add(o) } }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Ready(u8);
impl Ready {
    pub const EMPTY: Ready = Ready(0);
    pub const READABLE: Ready = Ready(1);
    pub const WRITABLE: Ready = Ready(2);
    pub fn is_readable(self) -> bool { self.0 & 1 != 0 }
    pub fn is_writable(self) -> bool { self.0 & 2 != 0 }
    pub fn is_empty(self) -> bool { self.0 == 0 }
}
impl std::ops::BitOr for Ready { type Output = Ready; fn bitor(self, o: Ready) -> Ready { Ready(self.0 | o.0) } }
