//! Explores the whole program. The binary built from the repository's `main.rs` is its own
//! explorer: its `Runtime::block_on` ends up here, with the program's main future not yet polled.
//! The process forks workers, every worker forks one child per execution, and only in such a child
//! does `block_on` run the future and return, so that `main` ends as it would.

mod cli;
mod log;
mod ptt;
mod server;
mod show;
mod slow;
mod world;

use mcsched::*;
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;

pub fn block_on<F: Future>(fut: F) -> F::Output {
    let role = server::become_child();
    let out: Rc<RefCell<Option<F::Output>>> = Rc::default();
    let sink = out.clone();
    // The future outlives the execution: `finish` is called before this function returns.
    let body: Pin<Box<dyn Future<Output = ()> + '_>> = Box::pin(async move { *sink.borrow_mut() = Some(fut.await); });
    let body: Pin<Box<dyn Future<Output = ()> + 'static>> = unsafe { std::mem::transmute(body) };
    server::begin(&role);
    let main = spawn("main", Side::Program, body);
    let done = || main.state.borrow().done && !rt().world.keyboard.waiting;
    run_until(done);
    server::ready(&role);
    if !done() { server::never_ends(); }
    let failed = matches!(main.state.borrow().result, Some(Err(_)));
    server::returned();
    finish();
    if failed { std::process::exit(101); }
    let v = out.borrow_mut().take();
    v.expect("main has come to an end")
}
