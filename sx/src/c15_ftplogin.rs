//! C15: file commands work after a correct login and only then.
use crate::ftp_common::*;
use crate::sym::*;
use crate::{check, entry};
use tokio::model;
/// Accounts: a/p, c/pq, b without password; with `anonymous` also anonymous
/// with any password.
const USERS: &[(&str, &str)] = &[("a", "p"), ("b", ""), ("c", "pq")];
struct Oracle { anon: bool, name: Option<Vec<u8>>, ok: bool }
impl Oracle {
  fn user(&mut self, u: &[u8]) -> u32 {
    if u.is_empty() { return 501 }
    if self.anon && u == b"anonymous" { self.name = Some(u.to_vec()); self.ok = false; return 331 }
    for (n, p) in USERS { if n.as_bytes() == u { self.name = Some(u.to_vec()); self.ok = p.is_empty(); return if self.ok { 230 } else { 331 } } }
    530
  }
  fn pass(&mut self, w: &[u8]) -> u32 {
    if self.ok { return 530 }
    let Some(n) = &self.name else { return 530 };
    if self.anon && n == b"anonymous" { self.ok = true; return 230 }
    for (u, p) in USERS { if u.as_bytes() == &n[..] && p.as_bytes() == w { self.ok = true; return 230 } }
    530
  }
}
const OPS: &[&str] = &["DELE f", "RMD d", "MKD z", "RETR f", "LIST", "STOR f", "NLST", "CWD d"];
fn arg(name: &str, hi: usize) -> Vec<u8> { let n = pick("len", 0, hi); path(name, n) }
/// k login commands with symbolic arguments, then one file command.
fn session(k: usize, hi: usize, anon: bool) {
  setup(false); let mut o = Oracle { anon, name: None, ok: false };
  let mut want = vec![220u32];
  for _ in 0..k {
    match pick("kind", 0, 2) {
      0 => { let u = arg("user", hi); push(&cmd("USER", &u)); want.push(o.user(&u)) }
      1 => { let w = arg("password", hi); push(&cmd("PASS", &w)); want.push(o.pass(&w)) }
      _ => { push(b"USER anonymous"); want.push(o.user(b"anonymous")) }
    }
  }
  let c = OPS[pick("op", 0, OPS.len() - 1)];
  model::get().data_in.push(b"new".to_vec());
  let data = matches!(&c[..4], "RETR" | "LIST" | "STOR" | "NLST");
  if data { push(b"PASV") } push(c.as_bytes());
  run("/r", conf(anon, USERS));
  let m = model::get(); let r = replies();
  if o.ok {
    if c == "CWD d" { check!(r[r.len() - 1] == 250) } else { check!(!m.effects.is_empty()) }
    check!(r[r.len() - 1] >= 200 && r[r.len() - 1] < 300);
    reach(1);
  } else {
    check!(m.effects.is_empty()); check!(m.data_opened == 0 && m.connects.is_empty() && m.binds.len() == 1);
    check!(r[r.len() - 1] == 530);
    reach(2);
  }
  // the login dialogue itself
  for i in 0..want.len() { check!(i < r.len() && (r[i] == want[i])) }
}
// up to 3 of USER x, PASS y, USER anonymous in any order, x and y any ASCII strings of up to 2 characters, then any file command; anonymous access off
entry!(c15_named, { let k = pick("k", 0, 3); session(k, 2, false) });
// the same with anonymous access on
entry!(c15_anon, { let k = pick("k", 0, 3); session(k, 2, true) });
// up to 4 login commands, arguments of up to 2 characters, anonymous access on or off
entry!(c15_deep, { let a = any_bool("anonymous"); let k = pick("k", 4, 4); session(k, 2, a) });
