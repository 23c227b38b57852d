use crate::task::JoinHandle;
use std::future::Future;
use std::io;

#[derive(Debug)]
pub struct Builder(());
impl Builder {
    pub fn new_multi_thread() -> Builder { Builder(()) }
    pub fn new_current_thread() -> Builder { Builder(()) }
    pub fn enable_all(&mut self) -> &mut Self { self }
    pub fn enable_io(&mut self) -> &mut Self { self }
    pub fn enable_time(&mut self) -> &mut Self { self }
    pub fn worker_threads(&mut self, _: usize) -> &mut Self { self }
    pub fn max_blocking_threads(&mut self, _: usize) -> &mut Self { self }
    pub fn thread_name(&mut self, _: impl Into<String>) -> &mut Self { self }
    pub fn thread_stack_size(&mut self, _: usize) -> &mut Self { self }
    pub fn build(&mut self) -> io::Result<Runtime> { Ok(Runtime(())) }
}

#[derive(Debug)]
pub struct Runtime(());
#[derive(Debug, Clone)]
pub struct Handle(());
#[derive(Debug)]
pub struct EnterGuard<'a>(std::marker::PhantomData<&'a ()>);

impl Runtime {
    pub fn new() -> io::Result<Runtime> { Ok(Runtime(())) }
    pub fn handle(&self) -> &Handle { &Handle(()) }
    pub fn enter(&self) -> EnterGuard<'_> { EnterGuard(std::marker::PhantomData) }
    #[track_caller]
    pub fn spawn<F>(&self, fut: F) -> JoinHandle<F::Output> where F: Future + Send + 'static, F::Output: Send + 'static { crate::spawn(fut) }
    pub fn shutdown_timeout(self, _: std::time::Duration) {}
    pub fn shutdown_background(self) {}
    #[cfg(feature = "program")]
    pub fn block_on<F: Future>(&self, fut: F) -> F::Output { mcprogram::block_on(fut) }
    #[cfg(not(feature = "program"))]
    pub fn block_on<F: Future>(&self, _: F) -> F::Output { unimplemented!("no runtime in this harness") }
}
impl Handle {
    pub fn current() -> Handle { Handle(()) }
    pub fn enter(&self) -> EnterGuard<'_> { EnterGuard(std::marker::PhantomData) }
    #[track_caller]
    pub fn spawn<F>(&self, fut: F) -> JoinHandle<F::Output> where F: Future + Send + 'static, F::Output: Send + 'static { crate::spawn(fut) }
}
