//! Stand-in for tokio over an in-memory model of the environment: a small
//! file system with symbolic links, one control connection and any number of
//! data connections. Every operation completes at once; every file system
//! effect is recorded with the location it really reaches.
#![allow(clippy::all, static_mut_refs)]
pub mod model;
pub mod fs;
pub mod io;
pub mod net;
pub mod runtime;
pub mod task;
pub mod sync { pub use std::sync::mpsc; }
pub mod time {
  pub use std::time::Duration;
  pub async fn timeout<F: std::future::Future>(_d: Duration, f: F) -> Result<F::Output, std::io::Error> { Ok(f.await) }
  pub async fn sleep(_d: Duration) {}
}
pub use task::spawn;
