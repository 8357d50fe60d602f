use crate::model::{self, err, fault, get, Found, Kind, Op};
use std::io::{self, ErrorKind};
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};
use std::time::SystemTime;

#[derive(Clone, Debug)]
pub struct Metadata { dir: bool, file: bool, link: bool, size: u64 }
#[derive(Clone, Copy, Debug)]
pub struct FileType { dir: bool, file: bool, link: bool }
impl FileType { pub fn is_dir(&self) -> bool { self.dir } pub fn is_file(&self) -> bool { self.file } pub fn is_symlink(&self) -> bool { self.link } }
impl Metadata {
  fn of(n: usize) -> Self { let k = &get().nodes[n].kind; Metadata { dir: matches!(k, Kind::Dir), file: matches!(k, Kind::File(_)), link: matches!(k, Kind::Link(_)), size: match k { Kind::File(d) => d.len() as u64, _ => 0 } } }
  pub fn is_dir(&self) -> bool { self.dir }
  pub fn is_file(&self) -> bool { self.file }
  pub fn is_symlink(&self) -> bool { self.link }
  pub fn file_type(&self) -> FileType { FileType { dir: self.dir, file: self.file, link: self.link } }
  pub fn len(&self) -> u64 { self.size }
  pub fn modified(&self) -> io::Result<SystemTime> { Ok(SystemTime::UNIX_EPOCH) }
  pub fn permissions(&self) -> std::fs::Permissions { std::os::unix::fs::PermissionsExt::from_mode(0o644) }
}
impl std::os::unix::fs::MetadataExt for Metadata {
  fn dev(&self) -> u64 { 1 } fn ino(&self) -> u64 { 1 } fn mode(&self) -> u32 { 0o644 } fn nlink(&self) -> u64 { 1 }
  fn uid(&self) -> u32 { 0 } fn gid(&self) -> u32 { 0 } fn rdev(&self) -> u64 { 0 } fn size(&self) -> u64 { self.size }
  fn atime(&self) -> i64 { 0 } fn atime_nsec(&self) -> i64 { 0 } fn mtime(&self) -> i64 { 0 } fn mtime_nsec(&self) -> i64 { 0 }
  fn ctime(&self) -> i64 { 0 } fn ctime_nsec(&self) -> i64 { 0 } fn blksize(&self) -> u64 { 512 } fn blocks(&self) -> u64 { 1 }
}
pub async fn canonicalize<P: AsRef<Path>>(p: P) -> io::Result<PathBuf> { let m = get(); let n = m.find(p.as_ref(), true)?; Ok(model::to_path(m.path(n))) }
pub async fn metadata<P: AsRef<Path>>(p: P) -> io::Result<Metadata> { let m = get(); let n = m.find(p.as_ref(), true)?; if fault("stat") { return Err(err(ErrorKind::PermissionDenied)) } m.effect(Op::Stat, n); Ok(Metadata::of(n)) }
pub async fn symlink_metadata<P: AsRef<Path>>(p: P) -> io::Result<Metadata> { let m = get(); let n = m.find(p.as_ref(), false)?; m.effect(Op::Stat, n); Ok(Metadata::of(n)) }
pub async fn try_exists<P: AsRef<Path>>(p: P) -> io::Result<bool> { Ok(get().find(p.as_ref(), true).is_ok()) }
pub async fn read_link<P: AsRef<Path>>(p: P) -> io::Result<PathBuf> { let m = get(); let n = m.find(p.as_ref(), false)?; match &m.nodes[n].kind { Kind::Link(t) => Ok(model::to_path(t.clone())), _ => Err(err(ErrorKind::InvalidInput)) } }

pub struct DirEntry { path: PathBuf, node: usize }
impl DirEntry {
  pub fn path(&self) -> PathBuf { self.path.clone() }
  pub fn file_name(&self) -> std::ffi::OsString { self.path.file_name().unwrap().to_os_string() }
  pub async fn metadata(&self) -> io::Result<Metadata> { Ok(Metadata::of(self.node)) }
  pub async fn file_type(&self) -> io::Result<FileType> { Ok(Metadata::of(self.node).file_type()) }
}
pub struct ReadDir { items: Vec<DirEntry>, pos: usize }
impl ReadDir {
  pub async fn next_entry(&mut self) -> io::Result<Option<DirEntry>> {
    if self.pos >= self.items.len() { return Ok(None) }
    let e = &self.items[self.pos]; self.pos += 1; Ok(Some(DirEntry { path: e.path.clone(), node: e.node }))
  }
}
pub async fn read_dir<P: AsRef<Path>>(p: P) -> io::Result<ReadDir> {
  let m = get(); let n = m.find(p.as_ref(), true)?;
  if !matches!(m.nodes[n].kind, Kind::Dir) { return Err(err(ErrorKind::NotADirectory)) }
  if fault("read_dir") { return Err(err(ErrorKind::PermissionDenied)) }
  m.effect(Op::List, n);
  let mut items = vec![];
  for i in 1..m.nodes.len() { if !m.nodes[i].gone && m.nodes[i].parent == n { items.push(DirEntry { path: p.as_ref().join(std::ffi::OsStr::from_bytes(&m.nodes[i].name)), node: i }) } }
  Ok(ReadDir { items, pos: 0 })
}
pub async fn create_dir<P: AsRef<Path>>(p: P) -> io::Result<()> {
  let m = get(); let b = p.as_ref().as_os_str().as_bytes();
  let mut e = b.len(); while e > 1 && b[e - 1] == b'/' { e -= 1 }
  match m.walk(&b[..e], false)? {
    Found::Node(_) => Err(err(ErrorKind::AlreadyExists)),
    Found::Missing { dir, name } => { if fault("create_dir") { return Err(err(ErrorKind::PermissionDenied)) } m.effect(Op::Create, dir); m.add(dir, &name, Kind::Dir); Ok(()) }
  }
}
pub async fn create_dir_all<P: AsRef<Path>>(p: P) -> io::Result<()> { create_dir(p).await }
pub async fn remove_dir_all<P: AsRef<Path>>(p: P) -> io::Result<()> {
  let m = get(); let n = m.find(p.as_ref(), false)?;
  if !matches!(m.nodes[n].kind, Kind::Dir) { return Err(err(ErrorKind::NotADirectory)) }
  if fault("remove") { return Err(err(ErrorKind::PermissionDenied)) }
  m.effect(Op::Remove, n); m.remove(n); Ok(())
}
pub async fn remove_dir<P: AsRef<Path>>(p: P) -> io::Result<()> {
  let m = get(); let n = m.find(p.as_ref(), false)?;
  if !matches!(m.nodes[n].kind, Kind::Dir) { return Err(err(ErrorKind::NotADirectory)) }
  for i in 1..m.nodes.len() { if !m.nodes[i].gone && m.nodes[i].parent == n { return Err(err(ErrorKind::DirectoryNotEmpty)) } }
  if fault("remove") { return Err(err(ErrorKind::PermissionDenied)) }
  m.effect(Op::Remove, n); m.remove(n); Ok(())
}
pub async fn remove_file<P: AsRef<Path>>(p: P) -> io::Result<()> {
  let m = get(); let n = m.find(p.as_ref(), false)?;
  if matches!(m.nodes[n].kind, Kind::Dir) { return Err(err(ErrorKind::IsADirectory)) }
  if fault("remove") { return Err(err(ErrorKind::PermissionDenied)) }
  m.effect(Op::Remove, n); m.remove(n); Ok(())
}
fn create(p: &Path) -> io::Result<usize> {
  let m = get();
  match m.walk(p.as_os_str().as_bytes(), true)? {
    Found::Node(n) => { if matches!(m.nodes[n].kind, Kind::Dir) { return Err(err(ErrorKind::IsADirectory)) } if fault("write") { return Err(err(ErrorKind::PermissionDenied)) } m.effect(Op::Write, n); m.nodes[n].kind = Kind::File(vec![]); Ok(n) }
    Found::Missing { dir, name } => { if fault("write") { return Err(err(ErrorKind::PermissionDenied)) } m.effect(Op::Create, dir); Ok(m.add(dir, &name, Kind::File(vec![]))) }
  }
}
pub async fn write<P: AsRef<Path>, C: AsRef<[u8]>>(p: P, c: C) -> io::Result<()> { let n = create(p.as_ref())?; get().nodes[n].kind = Kind::File(c.as_ref().to_vec()); Ok(()) }
pub async fn read<P: AsRef<Path>>(p: P) -> io::Result<Vec<u8>> { let f = File::open(p).await?; Ok(f.rest()) }
pub async fn rename<P: AsRef<Path>, Q: AsRef<Path>>(p: P, q: Q) -> io::Result<()> {
  let m = get(); let n = m.find(p.as_ref(), false)?;
  match m.walk(q.as_ref().as_os_str().as_bytes(), false)? {
    Found::Node(t) => { m.effect(Op::Write, t); m.remove(t); let (pp, nm) = (m.nodes[t].parent, m.nodes[t].name.clone()); m.effect(Op::Remove, n); m.nodes[n].parent = pp; m.nodes[n].name = nm; Ok(()) }
    Found::Missing { dir, name } => { m.effect(Op::Create, dir); m.effect(Op::Remove, n); m.nodes[n].parent = dir; m.nodes[n].name = name; Ok(()) }
  }
}
pub struct File { node: usize, pos: usize }
impl File {
  pub async fn open<P: AsRef<Path>>(p: P) -> io::Result<File> { let m = get(); let n = m.find(p.as_ref(), true)?; if fault("open") { return Err(err(ErrorKind::PermissionDenied)) } m.effect(Op::Read, n); Ok(File { node: n, pos: 0 }) }
  pub async fn create<P: AsRef<Path>>(p: P) -> io::Result<File> { Ok(File { node: create(p.as_ref())?, pos: 0 }) }
  pub async fn metadata(&self) -> io::Result<Metadata> { Ok(Metadata::of(self.node)) }
  pub async fn sync_all(&self) -> io::Result<()> { Ok(()) }
  fn rest(&self) -> Vec<u8> { match &get().nodes[self.node].kind { Kind::File(d) => d[self.pos..].to_vec(), _ => vec![] } }
}
impl crate::io::AsyncRead for File { fn read_chunk(&mut self) -> io::Result<Vec<u8>> { if let Kind::Dir = get().nodes[self.node].kind { return Err(err(ErrorKind::IsADirectory)) } let r = self.rest(); self.pos += r.len(); Ok(r) } }
impl crate::io::AsyncWrite for File { fn write_chunk(&mut self, b: &[u8]) -> io::Result<()> { if fault("write") { return Err(err(ErrorKind::Other)) } if let Kind::File(d) = &mut get().nodes[self.node].kind { d.truncate(self.pos); d.extend_from_slice(b); self.pos = d.len() } Ok(()) } }
