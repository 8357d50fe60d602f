use crate::model::{err, fault, get};
use std::io::{self, ErrorKind};
use std::net::{SocketAddr, ToSocketAddrs};
/// A connection: the control connection, or data connection number n.
pub struct TcpStream { pub control: bool, pub id: usize }
impl Drop for TcpStream { fn drop(&mut self) { if self.control { get().control_open = false } } }
pub struct TcpListener { addr: SocketAddr, control: bool }
fn data() -> TcpStream { let m = get(); m.data_opened += 1; TcpStream { control: false, id: m.data_opened - 1 } }
impl TcpStream {
  pub fn local_addr(&self) -> io::Result<SocketAddr> { Ok(get().local.unwrap()) }
  pub fn peer_addr(&self) -> io::Result<SocketAddr> { Ok(get().peer.unwrap()) }
  pub fn set_nodelay(&self, _b: bool) -> io::Result<()> { Ok(()) }
  pub async fn connect<A: ToSocketAddrs>(a: A) -> io::Result<TcpStream> { let a = a.to_socket_addrs()?.next().unwrap(); get().connects.push(a); if fault("connect") { return Err(err(ErrorKind::ConnectionRefused)) } Ok(data()) }
  pub fn into_split(self) -> (tcp::OwnedReadHalf, tcp::OwnedWriteHalf) { (tcp::OwnedReadHalf { id: self.id, done: false }, tcp::OwnedWriteHalf { id: self.id }) }
}
impl crate::io::AsyncRead for TcpStream {
  fn read_chunk(&mut self) -> io::Result<Vec<u8>> {
    let m = get();
    if !self.control { return Ok(vec![]) }
    if let Some(f) = m.on_read { f() }
    if m.control_pos >= m.control_in.len() { return Ok(vec![]) }
    m.control_pos += 1; Ok(m.control_in[m.control_pos - 1].clone())
  }
}
impl crate::io::AsyncWrite for TcpStream { fn write_chunk(&mut self, b: &[u8]) -> io::Result<()> { let m = get(); if self.control { m.control_out.extend_from_slice(b) } else { m.data_out.extend_from_slice(b) } Ok(()) } }
impl TcpListener {
  pub async fn bind<A: ToSocketAddrs>(a: A) -> io::Result<TcpListener> { let m = get(); let mut a = a.to_socket_addrs()?.next().unwrap(); if m.control_taken && fault("bind") { return Err(err(ErrorKind::AddrInUse)) } m.binds.push(a); if a.port() == 0 { a.set_port(m.data_port) } Ok(TcpListener { addr: a, control: m.binds.len() == 1 }) }
  pub fn local_addr(&self) -> io::Result<SocketAddr> { Ok(self.addr) }
  /// The first listener hands out the control connection once, later ones data connections.
  pub async fn accept(&self) -> io::Result<(TcpStream, SocketAddr)> {
    let m = get();
    if self.control { if m.control_taken { return Err(err(ErrorKind::Interrupted)) } m.control_taken = true; return Ok((TcpStream { control: true, id: 0 }, m.peer.unwrap())) }
    if fault("accept") { return Err(err(ErrorKind::ConnectionAborted)) }
    Ok((data(), m.peer.unwrap()))
  }
}
pub mod tcp {
  use crate::model::get;
  use std::io;
  pub struct OwnedReadHalf { pub(crate) id: usize, pub(crate) done: bool }
  pub struct OwnedWriteHalf { pub(crate) id: usize }
  impl crate::io::AsyncRead for OwnedReadHalf { fn read_chunk(&mut self) -> io::Result<Vec<u8>> { let m = get(); let _ = self.id; if self.done || m.data_in.is_empty() { self.done = true; return Ok(vec![]) } Ok(m.data_in.remove(0)) } }
  impl crate::io::AsyncWrite for OwnedWriteHalf { fn write_chunk(&mut self, b: &[u8]) -> io::Result<()> { let _ = self.id; if crate::model::fault("send") { return Err(crate::model::err(std::io::ErrorKind::BrokenPipe)) } get().data_out.extend_from_slice(b); Ok(()) } }
  impl Drop for OwnedWriteHalf { fn drop(&mut self) { get().data_closed += 1 } }
}
