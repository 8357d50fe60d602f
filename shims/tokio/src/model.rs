use std::io;
use std::path::{Path, PathBuf};
use std::os::unix::ffi::{OsStrExt, OsStringExt};

#[derive(Clone, PartialEq, Debug)]
pub enum Kind { Dir, File(Vec<u8>), Link(Vec<u8>) }
#[derive(Clone, Debug)]
pub struct Node { pub name: Vec<u8>, pub parent: usize, pub kind: Kind, pub gone: bool }
/// What was done to a location.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op { Stat, List, Read, Create, Write, Remove }
#[derive(Clone, Debug)]
pub struct Effect { pub op: Op, /// node reached (for Create: the directory)
  pub node: usize }
#[derive(Default)]
pub struct Model {
  pub nodes: Vec<Node>,
  pub effects: Vec<Effect>,
  /// effects up to here happened before the last control reply
  pub control_in: Vec<Vec<u8>>,
  pub control_pos: usize,
  pub control_out: Vec<u8>,
  pub control_open: bool,
  pub control_taken: bool,
  pub data_in: Vec<Vec<u8>>,
  pub data_out: Vec<u8>,
  pub data_opened: usize,
  pub data_closed: usize,
  pub connects: Vec<std::net::SocketAddr>,
  pub binds: Vec<std::net::SocketAddr>,
  pub local: Option<std::net::SocketAddr>,
  pub peer: Option<std::net::SocketAddr>,
  pub data_port: u16,
  /// decides whether the next fallible operation fails; kind tells which one
  pub fault: Option<fn(&'static str) -> bool>,
  /// called when the server asks for the next control input
  pub on_read: Option<fn()>,
}
static mut M: Option<Model> = None;
pub fn set(m: Model) { unsafe { M = Some(m) } }
pub fn get() -> &'static mut Model { unsafe { M.as_mut().unwrap() } }
pub fn fault(k: &'static str) -> bool { match get().fault { Some(f) => f(k), None => false } }
pub fn err(k: io::ErrorKind) -> io::Error { io::Error::from(k) }

pub enum Found { Node(usize), Missing { dir: usize, name: Vec<u8> } }
impl Model {
  pub fn new() -> Self { let mut m = Model::default(); m.nodes.push(Node { name: vec![], parent: 0, kind: Kind::Dir, gone: false }); m.control_open = true; m }
  pub fn add(&mut self, parent: usize, name: &[u8], kind: Kind) -> usize { self.nodes.push(Node { name: name.to_vec(), parent, kind, gone: false }); self.nodes.len() - 1 }
  pub fn child(&self, dir: usize, name: &[u8]) -> Option<usize> { for i in 1..self.nodes.len() { let n = &self.nodes[i]; if !n.gone && n.parent == dir && n.name.len() == name.len() && n.name == name { return Some(i) } } None }
  pub fn inside(&self, mut n: usize, root: usize) -> bool { loop { if n == root { return true } if n == 0 { return false } n = self.nodes[n].parent } }
  pub fn path(&self, mut n: usize) -> Vec<u8> { let mut parts = vec![]; while n != 0 { parts.push(n); n = self.nodes[n].parent } let mut o = vec![]; for p in parts.iter().rev() { o.push(b'/'); o.extend_from_slice(&self.nodes[*p].name) } if o.is_empty() { o.push(b'/') } o }
  /// Kernel path resolution: symbolic links, "." and "..", a trailing slash
  /// requires a directory. Relative paths start at the directory "/".
  pub fn walk(&self, path: &[u8], follow_last: bool) -> io::Result<Found> {
    let mut cur = 0usize; let mut depth = 0;
    if path.is_empty() { return Err(err(io::ErrorKind::NotFound)) }
    if path.contains(&0) { return Err(err(io::ErrorKind::InvalidInput)) }
    let mut todo: Vec<Vec<u8>> = split(path); // last first
    loop {
      let Some(c) = todo.pop() else { return Ok(Found::Node(cur)) };
      let last = todo.is_empty();
      match self.nodes[cur].kind { Kind::Dir => (), _ => return Err(err(io::ErrorKind::NotADirectory)) }
      if c.is_empty() || (c.len() == 1 && c[0] == b'.') { continue }
      if c.len() == 2 && c[0] == b'.' && c[1] == b'.' { cur = self.nodes[cur].parent; continue }
      match self.child(cur, &c) {
        None => { if todo.iter().all(|x| x.is_empty()) && (last || true) { if todo.is_empty() { return Ok(Found::Missing { dir: cur, name: c }) } } return Err(err(io::ErrorKind::NotFound)) }
        Some(n) => match &self.nodes[n].kind {
          Kind::Link(t) if !last || follow_last => {
            depth += 1; if depth > 8 { return Err(io::Error::from_raw_os_error(40)) }
            if t[0] == b'/' { cur = 0 }
            todo.extend(split(t));
          }
          _ => cur = n,
        }
      }
    }
  }
  pub fn find(&self, path: &Path, follow: bool) -> io::Result<usize> { match self.walk(path.as_os_str().as_bytes(), follow)? { Found::Node(n) => Ok(n), _ => Err(err(io::ErrorKind::NotFound)) } }
  pub fn effect(&mut self, op: Op, node: usize) { self.effects.push(Effect { op, node }) }
  pub fn remove(&mut self, n: usize) { self.nodes[n].gone = true; for i in 1..self.nodes.len() { if !self.nodes[i].gone && self.nodes[i].parent == n { self.remove(i) } } }
}
fn split(path: &[u8]) -> Vec<Vec<u8>> { let mut v: Vec<Vec<u8>> = vec![]; let mut c = vec![]; for &b in path { if b == b'/' { v.push(std::mem::take(&mut c)) } else { c.push(b) } } v.push(c); v.reverse(); v }
pub fn to_path(b: Vec<u8>) -> PathBuf { PathBuf::from(std::ffi::OsString::from_vec(b)) }
