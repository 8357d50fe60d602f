pub use crate::runtime::JoinHandle;
use std::future::Future;
pub fn spawn<F>(f: F) -> JoinHandle<F::Output> where F: Future + Send + 'static, F::Output: Send + 'static { crate::runtime::Handle::current().spawn(f) }
pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R> where F: FnOnce() -> R + Send + 'static, R: Send + 'static { crate::runtime::Handle::current().spawn(async move { f() }) }
