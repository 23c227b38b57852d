use crate::io::{AsyncRead, AsyncWrite, Interest, ReadBuf, Ready};
use mcsched::net as sim;
use std::future::poll_fn;
use std::io;
use std::net::SocketAddr;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};

pub trait ToSocketAddrs {
    #[doc(hidden)]
    fn resolve(&self) -> io::Result<Vec<SocketAddr>>;
}
impl<T: std::net::ToSocketAddrs + ?Sized> ToSocketAddrs for T {
    fn resolve(&self) -> io::Result<Vec<SocketAddr>> { Ok(self.to_socket_addrs()?.collect()) }
}

pub async fn lookup_host<T: ToSocketAddrs>(host: T) -> io::Result<impl Iterator<Item = SocketAddr>> { Ok(host.resolve()?.into_iter()) }

#[derive(Debug)]
pub struct TcpStream { conn: usize, peer: SocketAddr }

impl Drop for TcpStream {
    fn drop(&mut self) { sim::close(self.conn); }
}

fn read_into(conn: usize, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
    let space = buf.initialize_unfilled();
    match sim::poll_read(conn, cx, space) {
        Poll::Pending => Poll::Pending,
        Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
        Poll::Ready(Ok(n)) => { buf.advance(n); Poll::Ready(Ok(())) }
    }
}
fn gather(bufs: &[io::IoSlice<'_>]) -> Vec<u8> { bufs.iter().flat_map(|b| b.iter().copied()).collect() }

impl TcpStream {
    pub async fn connect<A: ToSocketAddrs>(addr: A) -> io::Result<TcpStream> {
        let mut last = None;
        for peer in addr.resolve()? {
            match poll_fn(|_| sim::connect(peer)).await {
                Ok(conn) => return Ok(TcpStream { conn, peer }),
                Err(e) => last = Some(e),
            }
        }
        Err(last.unwrap_or_else(|| io::Error::new(io::ErrorKind::InvalidInput, "could not resolve to any address")))
    }
    pub async fn ready(&self, interest: Interest) -> io::Result<Ready> {
        if interest.is_readable() && !interest.is_writable() { self.readable().await?; return Ok(Ready::READABLE); }
        if interest.is_writable() && !interest.is_readable() { self.writable().await?; return Ok(Ready::WRITABLE); }
        poll_fn(|cx| {
            let r = sim::poll_readable(self.conn, cx).is_ready();
            let w = sim::poll_writable(self.conn, cx).is_ready();
            match (r, w) {
                (true, true) => Poll::Ready(Ok(Ready::READABLE | Ready::WRITABLE)),
                (true, false) => Poll::Ready(Ok(Ready::READABLE)),
                (false, true) => Poll::Ready(Ok(Ready::WRITABLE)),
                (false, false) => Poll::Pending,
            }
        }).await
    }
    pub async fn readable(&self) -> io::Result<()> { poll_fn(|cx| sim::poll_readable(self.conn, cx)).await }
    pub async fn writable(&self) -> io::Result<()> { poll_fn(|cx| sim::poll_writable(self.conn, cx)).await }
    pub fn poll_read_ready(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>> { sim::poll_readable(self.conn, cx) }
    pub fn poll_write_ready(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>> { sim::poll_writable(self.conn, cx) }
    pub fn try_read(&self, buf: &mut [u8]) -> io::Result<usize> { sim::try_read(self.conn, buf) }
    pub fn try_read_buf<B: bytes::BufMut>(&self, buf: &mut B) -> io::Result<usize> {
        let n = buf.chunk_mut().len();
        let mut space = vec![0; n];
        let n = sim::try_read(self.conn, &mut space)?;
        buf.put_slice(&space[..n]);
        Ok(n)
    }
    pub fn try_write(&self, buf: &[u8]) -> io::Result<usize> { sim::try_write(self.conn, buf) }
    pub fn try_write_vectored(&self, bufs: &[io::IoSlice<'_>]) -> io::Result<usize> { sim::try_write(self.conn, &gather(bufs)) }
    pub async fn peek(&self, buf: &mut [u8]) -> io::Result<usize> { poll_fn(|cx| sim::poll_peek(self.conn, cx, buf)).await }
    pub fn poll_peek(&self, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<usize>> {
        let space = buf.initialize_unfilled();
        match sim::poll_peek(self.conn, cx, space) {
            Poll::Ready(Ok(n)) => { buf.advance(n); Poll::Ready(Ok(n)) }
            r => r,
        }
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> { Ok(([127, 0, 0, 1], 40000 + self.conn as u16).into()) }
    pub fn peer_addr(&self) -> io::Result<SocketAddr> { Ok(self.peer) }
    pub fn nodelay(&self) -> io::Result<bool> { Ok(false) }
    pub fn set_nodelay(&self, _: bool) -> io::Result<()> { Ok(()) }
    pub fn linger(&self) -> io::Result<Option<std::time::Duration>> { Ok(None) }
    pub fn set_linger(&self, _: Option<std::time::Duration>) -> io::Result<()> { Ok(()) }
    pub fn ttl(&self) -> io::Result<u32> { Ok(64) }
    pub fn set_ttl(&self, _: u32) -> io::Result<()> { Ok(()) }
    pub fn take_error(&self) -> io::Result<Option<io::Error>> { Ok(None) }
    pub fn split(&mut self) -> (tcp::ReadHalf<'_>, tcp::WriteHalf<'_>) { (tcp::ReadHalf(self), tcp::WriteHalf(self)) }
    pub fn into_split(self) -> (tcp::OwnedReadHalf, tcp::OwnedWriteHalf) {
        let s = Arc::new(self);
        (tcp::OwnedReadHalf(s.clone()), tcp::OwnedWriteHalf(s, true))
    }
}

impl AsyncRead for TcpStream {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> { read_into(self.conn, cx, buf) }
}
impl AsyncWrite for TcpStream {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> { sim::poll_write(self.conn, cx, buf) }
    fn poll_write_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &[io::IoSlice<'_>]) -> Poll<io::Result<usize>> { sim::poll_write(self.conn, cx, &gather(bufs)) }
    fn is_write_vectored(&self) -> bool { true }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(sim::shutdown(self.conn)) }
}

pub mod tcp {
    use super::*;

    #[derive(Debug)]
    pub struct ReadHalf<'a>(pub(super) &'a TcpStream);
    #[derive(Debug)]
    pub struct WriteHalf<'a>(pub(super) &'a TcpStream);
    #[derive(Debug)]
    pub struct OwnedReadHalf(pub(super) Arc<TcpStream>);
    #[derive(Debug)]
    pub struct OwnedWriteHalf(pub(super) Arc<TcpStream>, pub(super) bool);
    #[derive(Debug)]
    pub struct ReuniteError(pub OwnedReadHalf, pub OwnedWriteHalf);
    impl std::fmt::Display for ReuniteError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("tried to reunite halves that are not from the same socket") }
    }
    impl std::error::Error for ReuniteError {}

    macro_rules! read_half {
        ($t:ty) => {
            impl $t {
                pub async fn readable(&self) -> io::Result<()> { self.0.readable().await }
                pub fn try_read(&self, buf: &mut [u8]) -> io::Result<usize> { self.0.try_read(buf) }
                pub fn try_read_buf<B: bytes::BufMut>(&self, buf: &mut B) -> io::Result<usize> { self.0.try_read_buf(buf) }
                pub async fn peek(&mut self, buf: &mut [u8]) -> io::Result<usize> { self.0.peek(buf).await }
                pub fn peer_addr(&self) -> io::Result<SocketAddr> { self.0.peer_addr() }
                pub fn local_addr(&self) -> io::Result<SocketAddr> { self.0.local_addr() }
            }
            impl AsyncRead for $t {
                fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> { read_into(self.0.conn, cx, buf) }
            }
        };
    }
    macro_rules! write_half {
        ($t:ty) => {
            impl $t {
                pub async fn writable(&self) -> io::Result<()> { self.0.writable().await }
                pub fn try_write(&self, buf: &[u8]) -> io::Result<usize> { self.0.try_write(buf) }
                pub fn peer_addr(&self) -> io::Result<SocketAddr> { self.0.peer_addr() }
                pub fn local_addr(&self) -> io::Result<SocketAddr> { self.0.local_addr() }
            }
            impl AsyncWrite for $t {
                fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> { sim::poll_write(self.0.conn, cx, buf) }
                fn poll_write_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &[io::IoSlice<'_>]) -> Poll<io::Result<usize>> { sim::poll_write(self.0.conn, cx, &gather(bufs)) }
                fn is_write_vectored(&self) -> bool { true }
                fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
                fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(sim::shutdown(self.0.conn)) }
            }
        };
    }
    read_half!(ReadHalf<'_>);
    read_half!(OwnedReadHalf);
    write_half!(WriteHalf<'_>);
    write_half!(OwnedWriteHalf);
    impl OwnedReadHalf {
        pub fn reunite(self, mut other: OwnedWriteHalf) -> Result<TcpStream, ReuniteError> {
            if !Arc::ptr_eq(&self.0, &other.0) { return Err(ReuniteError(self, other)); }
            other.1 = false;
            drop(other);
            Ok(Arc::try_unwrap(self.0).expect("two halves"))
        }
    }
    impl OwnedWriteHalf {
        pub fn forget(mut self) { self.1 = false; }
    }
    impl Drop for OwnedWriteHalf {
        fn drop(&mut self) { if self.1 && mcsched::active() && !mcsched::killing() { let _ = sim::shutdown(self.0.conn); } }
    }
}
