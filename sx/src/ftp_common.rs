//! FTP server (crate embedftp) driven through `server::serve` over the model
//! file system and connections of ../shims/tokio.
use crate::sym::*;
use embedftp::config::{Config, FtpCallback, User};
use std::path::PathBuf;
use tokio::model::{self, Kind, Model, Op};
#[derive(Clone)] pub struct NoFilter;
impl FtpCallback for NoFilter {}
/// Nodes of the model file system. The served root is /r.
pub const ROOT: usize = 1;
pub const D: usize = 2;   // /r/d/
pub const G: usize = 3;   // /r/d/g
pub const F: usize = 4;   // /r/f
pub const X: usize = 5;   // /x/
pub const S: usize = 6;   // /x/s
pub const RD: usize = 7;  // /rd/   (sibling sharing the prefix of the root's name)
pub const RDF: usize = 8; // /rd/q
pub fn setup(links: bool) {
  let mut m = Model::new();
  m.add(0, b"r", Kind::Dir); m.add(ROOT, b"d", Kind::Dir); m.add(D, b"g", Kind::File(b"gg".to_vec())); m.add(ROOT, b"f", Kind::File(b"fff".to_vec()));
  m.add(0, b"x", Kind::Dir); m.add(X, b"s", Kind::File(b"secret".to_vec())); m.add(0, b"rd", Kind::Dir); m.add(RD, b"q", Kind::File(b"sibling".to_vec()));
  if links {
    m.add(ROOT, b"l", Kind::Link(b"/x".to_vec()));    // directory outside
    m.add(ROOT, b"m", Kind::Link(b"../x/s".to_vec())); // file outside
    m.add(ROOT, b"n", Kind::Link(b"d".to_vec()));     // directory inside
    m.add(ROOT, b"k", Kind::Link(b"/x/z".to_vec()));  // dangling, outside
  }
  m.local = Some("10.0.0.1:2121".parse().unwrap()); m.peer = Some("10.0.0.2:40000".parse().unwrap()); m.data_port = 5000;
  model::set(m);
}
pub fn conf(anonymous: bool, users: &[(&str, &str)]) -> Config {
  Config { server_port: 2121, server_addr: "10.0.0.1".parse().unwrap(), users: users.iter().map(|u| User { name: u.0.into(), password: u.1.into() }).collect(), anonymous, greeting: "Hi".into() }
}
pub fn push(line: &[u8]) { let m = model::get(); let mut v = line.to_vec(); v.extend_from_slice(b"\r\n"); m.control_in.push(v); }
pub fn login() { push(b"USER anonymous"); push(b"PASS x"); }
/// Serve the one model client to the end of its input.
pub fn run(root: &str, c: Config) { let _ = tokio::runtime::block_on(embedftp::server::serve(tokio::runtime::Handle::current(), PathBuf::from(root), c, NoFilter)); }
/// Name and argument of a command, the argument being n symbolic ASCII bytes
/// without line ends.
pub fn cmd(name: &str, arg: &[u8]) -> Vec<u8> { let mut v = name.as_bytes().to_vec(); v.push(b' '); v.extend_from_slice(arg); v }
pub fn path(name: &str, n: usize) -> Vec<u8> { let v = vec8(name, n); for &b in &v { assume(b != b'\r' && b != b'\n' && b < 128 && b != 0) } v }
/// Control replies: (code, is the last line of its reply), in order.
pub fn replies() -> Vec<u32> {
  let o = &model::get().control_out; let mut v = vec![]; let mut i = 0; let mut multi = 0u32;
  while i < o.len() {
    let mut e = i; while e + 1 < o.len() && !(o[e] == b'\r' && o[e + 1] == b'\n') { e += 1 }
    if e - i >= 3 && o[i] >= b'1' && o[i] <= b'5' {
      let code = (o[i] - b'0') as u32 * 100 + (o[i + 1] - b'0') as u32 * 10 + (o[i + 2] - b'0') as u32;
      if multi == 0 { if e - i > 3 && o[i + 3] == b'-' { multi = code } else { v.push(code) } } else if code == multi && (e - i == 3 || o[i + 3] == b' ') { multi = 0; v.push(code) }
    }
    i = e + 2;
  }
  v
}
/// Nothing outside the root was read, listed, written, created or removed
/// (looking up what a name refers to does not count).
pub fn contained() -> bool { let m = model::get(); for e in &m.effects { if e.op != Op::Stat && !m.inside(e.node, ROOT) { return false } } true }
/// The nodes outside the root are as they were.
pub fn outside_intact() -> bool {
  let m = model::get();
  for i in [X, S, RD, RDF, ROOT] { if m.nodes[i].gone { return false } }
  if m.nodes[S].kind != Kind::File(b"secret".to_vec()) || m.nodes[RDF].kind != Kind::File(b"sibling".to_vec()) { return false }
  for i in 9..m.nodes.len() { if !m.inside(i, ROOT) { return false } }
  true
}

/// The names listed over the data connection (NLST: name per line, LIST: name
/// is the last word), a directory's trailing slash removed.
pub fn listed() -> Vec<Vec<u8>> {
  let o = &model::get().data_out; let mut v = vec![]; let mut cur: Vec<u8> = vec![]; let mut i = 0;
  while i < o.len() { if o[i] == b'\r' && i + 1 < o.len() && o[i + 1] == b'\n' { if cur.last() == Some(&b'/') { cur.pop(); } v.push(std::mem::take(&mut cur)); i += 2 } else { if o[i] == b' ' { cur.clear() } else { cur.push(o[i]) } i += 1 } }
  v
}
