use std::future::Future;
#[derive(Clone, Debug)]
pub struct Handle { _p: () }
pub struct JoinHandle<T> { v: Option<T> }
impl<T: Unpin> Future for JoinHandle<T> { type Output = Result<T, std::io::Error>; fn poll(mut self: std::pin::Pin<&mut Self>, _c: &mut std::task::Context<'_>) -> std::task::Poll<Self::Output> { std::task::Poll::Ready(Ok(self.v.take().unwrap())) } }
impl Handle {
  pub fn current() -> Handle { Handle { _p: () } }
  /// Runs the task to its end before returning (one client at a time).
  pub fn spawn<F>(&self, f: F) -> JoinHandle<F::Output> where F: Future + Send + 'static, F::Output: Send + 'static { JoinHandle { v: Some(block_on(f)) } }
  pub fn block_on<F: Future>(&self, f: F) -> F::Output { block_on(f) }
}
pub fn block_on<F: Future>(f: F) -> F::Output {
  let mut f = Box::pin(f); let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
  for _ in 0..64 { if let std::task::Poll::Ready(v) = f.as_mut().poll(&mut cx) { return v } }
  panic!("no progress")
}
