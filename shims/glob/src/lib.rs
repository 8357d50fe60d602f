//! Stand-in for the glob crate over the model file system: '*' and '?' per
//! path component, hidden files included, as glob() with default options.
use std::path::{Path, PathBuf};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
#[derive(Debug)] pub struct PatternError;
impl std::fmt::Display for PatternError { fn fmt(&self, _f: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } }
impl std::error::Error for PatternError {}
#[derive(Debug)] pub struct GlobError;
pub type GlobResult = Result<PathBuf, GlobError>;
pub struct Paths { v: std::vec::IntoIter<PathBuf> }
impl Iterator for Paths { type Item = GlobResult; fn next(&mut self) -> Option<GlobResult> { self.v.next().map(Ok) } }
fn m(p: &[u8], s: &[u8]) -> bool { if p.is_empty() { return s.is_empty() } if p[0] == b'*' { return m(&p[1..], s) || (!s.is_empty() && m(p, &s[1..])) } !s.is_empty() && (p[0] == b'?' || p[0] == s[0]) && m(&p[1..], &s[1..]) }
pub fn glob(pattern: &str) -> Result<Paths, PatternError> {
  let b = pattern.as_bytes();
  for &c in b { if c == b'[' { return Err(PatternError) } }
  let mut cur: Vec<Vec<u8>> = vec![if !b.is_empty() && b[0] == b'/' { b"/".to_vec() } else { vec![] }];
  let fs = tokio::model::get();
  for c in Path::new(pattern).components() {
    let c = match c { std::path::Component::RootDir => continue, std::path::Component::CurDir => continue, std::path::Component::ParentDir => { for x in cur.iter_mut() { if x.last() != Some(&b'/') && !x.is_empty() { x.push(b'/') } x.extend_from_slice(b"..") } continue } c => c.as_os_str().as_bytes() };
    let mut next = vec![];
    for d in &cur {
      let dir = match fs.find(Path::new(std::ffi::OsStr::from_bytes(if d.is_empty() { b"/" } else { d })), true) { Ok(n) => n, Err(_) => continue };
      for i in 1..fs.nodes.len() {
        if fs.nodes[i].gone || fs.nodes[i].parent != dir || !m(c, &fs.nodes[i].name) { continue }
        let mut p = d.clone(); if p.last() != Some(&b'/') && !p.is_empty() { p.push(b'/') } p.extend_from_slice(&fs.nodes[i].name); next.push(p);
      }
    }
    cur = next;
  }
  let mut v: Vec<PathBuf> = vec![]; for p in cur { let p = PathBuf::from(std::ffi::OsString::from_vec(p)); if fs.find(&p, false).is_ok() { v.push(p) } }
  Ok(Paths { v: v.into_iter() })
}
