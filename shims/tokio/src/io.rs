pub use std::io::{Error, ErrorKind, Result};
/// One step of a stream: everything that is available now; empty at the end.
pub trait AsyncRead { fn read_chunk(&mut self) -> Result<Vec<u8>>; }
pub trait AsyncWrite { fn write_chunk(&mut self, b: &[u8]) -> Result<()>; }
impl AsyncWrite for Vec<u8> { fn write_chunk(&mut self, b: &[u8]) -> Result<()> { self.extend_from_slice(b); Ok(()) } }
pub async fn copy<R: AsyncRead + ?Sized, W: AsyncWrite + ?Sized>(r: &mut R, w: &mut W) -> Result<u64> { let mut n = 0; loop { let c = r.read_chunk()?; if c.is_empty() { return Ok(n) } w.write_chunk(&c)?; n += c.len() as u64 } }
#[allow(async_fn_in_trait)]
pub trait AsyncReadExt: AsyncRead {
  fn read_to_end(&mut self, v: &mut Vec<u8>) -> impl std::future::Future<Output = Result<usize>> + Send where Self: Send { async move { let mut n = 0; loop { let c = self.read_chunk()?; if c.is_empty() { return Ok(n) } v.extend_from_slice(&c); n += c.len() } } }
  /// as tokio: at most what is available, 0 at the end (buffers smaller than a chunk are not supported)
  fn read(&mut self, b: &mut [u8]) -> impl std::future::Future<Output = Result<usize>> + Send where Self: Send { let r = self.read_chunk().map(|c| { b[..c.len()].copy_from_slice(&c); c.len() }); async move { r } }
}
impl<T: AsyncRead + ?Sized> AsyncReadExt for T {}
pub trait AsyncWriteExt: AsyncWrite {
  fn write_all(&mut self, b: &[u8]) -> impl std::future::Future<Output = Result<()>> + Send { let r = self.write_chunk(b); async move { r } }
  fn flush(&mut self) -> impl std::future::Future<Output = Result<()>> + Send { async { Ok(()) } }
  fn shutdown(&mut self) -> impl std::future::Future<Output = Result<()>> + Send { async { Ok(()) } }
}
impl<T: AsyncWrite + ?Sized> AsyncWriteExt for T {}
