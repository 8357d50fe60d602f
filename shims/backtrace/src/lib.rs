//! Verification stand-in: a backtrace is diagnostic output only.
#[derive(Clone)]
pub struct Backtrace;
impl Backtrace {
  pub fn new() -> Self { Backtrace }
  pub fn new_unresolved() -> Self { Backtrace }
}
impl Default for Backtrace { fn default() -> Self { Backtrace } }
impl core::fmt::Debug for Backtrace {
  fn fmt(&self, _f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) }
}
