//! Stands in for tokio-serial: the serial line is a simulated connection.
use std::io;
use std::pin::Pin;
use std::task::{Context, Poll};
use std::time::Duration;
use mcsched::net as sim;
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

pub type Error = io::Error;
pub type Result<T> = io::Result<T>;
#[derive(Clone, Copy, Debug, PartialEq, Eq)] pub enum DataBits { Five, Six, Seven, Eight }
#[derive(Clone, Copy, Debug, PartialEq, Eq)] pub enum Parity { None, Odd, Even }
#[derive(Clone, Copy, Debug, PartialEq, Eq)] pub enum StopBits { One, Two }
#[derive(Clone, Copy, Debug, PartialEq, Eq)] pub enum FlowControl { None, Software, Hardware }

#[derive(Clone, Debug)]
pub struct SerialPortBuilder { path: String, baud: u32 }
pub fn new<'a>(path: impl Into<std::borrow::Cow<'a, str>>, baud: u32) -> SerialPortBuilder { SerialPortBuilder { path: path.into().into_owned(), baud } }
impl SerialPortBuilder {
    pub fn path<'a>(mut self, p: impl Into<std::borrow::Cow<'a, str>>) -> Self { self.path = p.into().into_owned(); self }
    pub fn baud_rate(mut self, b: u32) -> Self { self.baud = b; self }
    pub fn data_bits(self, _: DataBits) -> Self { self }
    pub fn parity(self, _: Parity) -> Self { self }
    pub fn stop_bits(self, _: StopBits) -> Self { self }
    pub fn flow_control(self, _: FlowControl) -> Self { self }
    pub fn timeout(self, _: Duration) -> Self { self }
    pub fn open_native_async(self) -> Result<SerialStream> { SerialStream::open(&self) }
}
pub trait SerialPortBuilderExt { fn open_native_async(self) -> Result<SerialStream>; }
impl SerialPortBuilderExt for SerialPortBuilder { fn open_native_async(self) -> Result<SerialStream> { SerialStream::open(&self) } }

#[derive(Debug)]
pub struct SerialStream { conn: usize }
impl SerialStream {
    pub fn open(b: &SerialPortBuilder) -> Result<SerialStream> { sim::open_serial(&b.path, b.baud).map(|conn| SerialStream { conn }) }
    pub fn set_exclusive(&mut self, _: bool) -> Result<()> { Ok(()) }
    pub fn exclusive(&self) -> bool { true }
    pub async fn readable(&self) -> io::Result<()> { std::future::poll_fn(|cx| sim::poll_readable(self.conn, cx)).await }
    pub async fn writable(&self) -> io::Result<()> { std::future::poll_fn(|cx| sim::poll_writable(self.conn, cx)).await }
    pub fn try_read(&mut self, buf: &mut [u8]) -> io::Result<usize> { sim::try_read(self.conn, buf) }
    pub fn try_write(&mut self, buf: &[u8]) -> io::Result<usize> { sim::try_write(self.conn, buf) }
}
impl Drop for SerialStream { fn drop(&mut self) { sim::close(self.conn) } }
impl AsyncRead for SerialStream {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let space = buf.initialize_unfilled();
        match sim::poll_read(self.conn, cx, space) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
            Poll::Ready(Ok(n)) => { buf.advance(n); Poll::Ready(Ok(())) }
        }
    }
}
impl AsyncWrite for SerialStream {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> { sim::poll_write(self.conn, cx, buf) }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
}
