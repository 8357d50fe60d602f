//! C16: every command is answered exactly once and transfers are exact.
use crate::ftp_common::*;
use crate::sym::*;
use crate::{check, entry};
use tokio::model::{self, Kind};
fn hits(kind: &'static str) -> bool { let _ = kind; any_bool("fault") }
const ALL: &[&str] = &["AUTH", "CWD", "LIST", "NLST", "MKD", "NOOP", "PASS", "EPSV", "PWD", "RETR", "RMD", "DELE", "STOR", "SYST", "FEAT", "CDUP", "XYZ", "USER", "PORT 1,2,3,4,5,6", "TYPE A", "TYPE I", "PASV", "EPSV ALL"];
/// The replies to the one command between two NOOPs.
fn between(r: &[u32]) -> Vec<u32> { let mut v = vec![]; let mut seen = 0; for &c in r { if c == 200 && seen == 0 { seen = 1; continue } if seen == 1 { v.push(c) } } v.pop(); v }
fn answered(logged: bool, transfer: usize, faults: bool, hi: usize) {
  let k = pick("cmd", 0, ALL.len() - 1);
  if matches!(ALL[k], "PASV" | "EPSV" | "EPSV ALL") { assume(transfer != 1) }
  setup(true); if logged { login() }
  let n = if matches!(ALL[k], "CWD" | "LIST" | "NLST" | "MKD" | "RETR" | "RMD" | "DELE" | "STOR" | "USER" | "EPSV") { pick("n", 0, hi) } else { 0 };
  let p = path("path", n);
  if transfer == 1 { push(b"PASV") }
  if transfer == 2 { push(b"PORT 9,9,9,9,19,137") }
  push(b"SYST"); // 215 marks the begin
  let bare = matches!(ALL[k], "LIST" | "NLST" | "EPSV") && n == 0;
  if bare || k >= 18 { push(ALL[k].as_bytes()) } else { push(&cmd(ALL[k], &p)) }
  push(b"FEAT"); // 211 marks the end
  push(b"QUIT");
  model::get().data_in.push(b"new".to_vec());
  if faults { model::get().fault = Some(hits) }
  run("/r", conf(true, &[("u", "w")]));
  let r = replies();
  let m = model::get();
  // PORT takes only the port: the server connects to nobody but its client
  for a in &m.connects { check!(a.ip() == m.peer.unwrap().ip() && a.port() == 5001) }
  let b = r.iter().position(|&c| c == 215).unwrap();
  let mine: Vec<u32> = if ALL[k] == "SYST" || ALL[k] == "FEAT" { r[b + 1..b + 2].to_vec() } else { let e = r.iter().rposition(|&c| c == 211); match e { Some(e) => r[b + 1..e].to_vec(), None => { check!(false); vec![] } } };
  let fin = mine.iter().filter(|&&c| c >= 200).count(); let pre = mine.iter().filter(|&&c| c < 200).count();
  check!(fin == 1); check!(pre <= 1);
  check!(mine[mine.len() - 1] >= 200);
  // no data connection is left over after a transfer command
  if logged && matches!(ALL[k], "LIST" | "NLST" | "RETR" | "STOR") { check!(m.data_opened == m.data_closed); if mine[mine.len() - 1] >= 400 { check!(m.data_out.is_empty() || ALL[k] == "STOR") } reach(1) }
  else { reach(1) }
  check!(r[r.len() - 1] == 221);
}
// any command, not logged in, argument any ASCII string of up to 4 characters
entry!(c16_nologin, { answered(false, 0, false, 4) });
// any command after login without data connection, argument of up to 5 characters
entry!(c16_nodata, { answered(true, 0, false, 5) });
// any command after login and PASV, argument of up to 5 characters
entry!(c16_pasv, { answered(true, 1, false, 5) });
// any command after login and PORT, argument of up to 5 characters
entry!(c16_port, { answered(true, 2, false, 5) });
/// Faults that must not end the connection: stat, read_dir, open, create_dir,
/// remove, write and connect fail at any subset of their calls.
fn soft(kind: &'static str) -> bool { if matches!(kind, "send" | "accept" | "bind") { return false } any_bool("fault") }
fn faulty(t: usize) { model_fault(t) }
fn model_fault(t: usize) {
  let k = pick("cmd", 0, 6); let c = ["LIST", "NLST", "RETR f", "STOR f", "MKD z", "RMD d", "DELE f"][k];
  setup(false); login();
  if t == 1 { push(b"PASV") } else { push(b"PORT 9,9,9,9,19,137") }
  push(b"SYST"); push(c.as_bytes()); push(b"FEAT"); push(b"QUIT");
  let m = model::get(); m.data_in.push(b"new".to_vec()); m.fault = Some(soft);
  run("/r", conf(true, &[]));
  let r = replies();
  let b = r.iter().position(|&c| c == 215).unwrap(); let e = r.iter().rposition(|&c| c == 211).unwrap();
  let mine = &r[b + 1..e];
  check!(mine.iter().filter(|&&c| c >= 200).count() == 1);
  let last = mine[mine.len() - 1]; check!(last >= 200);
  // success is only reported when the operation took place
  let m = model::get();
  if last < 300 {
    match k { 3 => check!(m.nodes[F].kind == Kind::File(b"new".to_vec())), 4 => check!(m.child(ROOT, b"z").is_some()), 5 => check!(m.nodes[D].gone && m.nodes[G].gone), 6 => check!(m.nodes[F].gone), 2 => check!(m.data_out == b"fff"), _ => () }
    reach(1);
  } else {
    match k { 4 => check!(m.child(ROOT, b"z").is_none()), 5 => check!(!m.nodes[D].gone), 6 => check!(!m.nodes[F].gone), _ => () }
    reach(2);
  }
}
// every file command after PASV or PORT, with each file system or connect call failing or not
entry!(c16_faults, { let t = pick("mode", 1, 2); model_fault(t) });
fn content(name: &str, hi: usize) -> Vec<u8> { let n = pick("size", 0, hi); vec8(name, n) }
// STOR of any content of up to 6 bytes arriving in two pieces split anywhere: new or existing file, in / or /d
entry!(c16_stor, {
  let c = content("content", 6); let s = pick("split", 0, 6); assume(s <= c.len());
  setup(false); login(); let sub = any_bool("subdir"); let new = any_bool("new");
  if sub { push(b"CWD d") } push(b"PASV"); push(if new { b"STOR z" } else if sub { b"STOR g" } else { b"STOR f" });
  let m = model::get(); if s > 0 { m.data_in.push(c[..s].to_vec()) } if s < c.len() { m.data_in.push(c[s..].to_vec()) }
  run("/r", conf(true, &[])); let r = replies(); check!(r[r.len() - 1] == 226); check!(r[r.len() - 2] == 125);
  let m = model::get(); let dir = if sub { D } else { ROOT };
  let n = m.child(dir, if new { b"z" } else if sub { b"g" } else { b"f" }).unwrap();
  match &m.nodes[n].kind { Kind::File(d) => { check!(d.len() == c.len()); for i in 0..c.len() { check!(d[i] == c[i]) } } _ => check!(false) }
  check!(m.nodes.len() == 9 + new as usize);
  reach(1);
});
// RETR of any content of up to 6 bytes, in / or /d, binary or ASCII mode
entry!(c16_retr, {
  let c = content("content", 6); setup(false); login(); let sub = any_bool("subdir"); let m = model::get(); m.nodes[if sub { G } else { F }].kind = Kind::File(c.clone());
  push(if any_bool("binary") { b"TYPE I" } else { b"TYPE A" }); if sub { push(b"CWD d") } push(b"PASV"); push(if sub { b"RETR g" } else { b"RETR f" });
  run("/r", conf(true, &[])); let r = replies(); check!(r[r.len() - 1] == 226); check!(r[r.len() - 2] == 125);
  let m = model::get(); check!(m.data_out.len() == c.len()); for i in 0..c.len() { check!(m.data_out[i] == c[i]) }
  check!(m.data_closed == 1);
  reach(1);
});
// a session cut into pieces at any two places gives the same replies as in one piece
entry!(c16_pieces, {
  let text = b"USER anonymous\r\nPASS x\r\nCWD d\r\nPWD\r\nMKD q\r\nQUIT\r\n";
  let a = pick("a", 1, text.len() - 1); let b = pick("b", 1, text.len() - 1); assume(a <= b);
  setup(false); let m = model::get(); m.control_in.push(text[..a].to_vec()); if a < b { m.control_in.push(text[a..b].to_vec()) } m.control_in.push(text[b..].to_vec());
  run("/r", conf(true, &[]));
  check!(replies() == [220, 331, 230, 250, 257, 257, 221]); check!(model::get().child(D, b"q").is_some());
  reach(1);
});
// PASV and EPSV announce the address and port listened on, any IPv4 address and port
entry!(c16_pasvaddr, {
  setup(false); login(); let ip = bytes::<4>("ip"); let port = any_u16("port"); let epsv = any_bool("epsv");
  let m = model::get(); m.data_port = port; m.local = Some(std::net::SocketAddr::from((std::net::Ipv4Addr::from(ip), 2121)));
  push(if epsv { b"EPSV" } else { b"PASV" });
  run("/r", conf(true, &[]));
  let m = model::get(); let o = &m.control_out; check!(m.binds[1].ip() == m.local.unwrap().ip() && m.binds[1].port() == 0);
  // the numbers in the last reply
  let mut s = o.len() - 2; while s > 0 && o[s - 1] != b'\n' { s -= 1 }
  let l = &o[s..]; let mut i = 3; let mut nums: Vec<u32> = vec![]; let mut on = false;
  while i < l.len() { if l[i] >= b'0' && l[i] <= b'9' { if !on { nums.push(0); on = true } let k = nums.len() - 1; nums[k] = nums[k] * 10 + (l[i] - b'0') as u32 } else { on = false } i += 1 }
  if epsv { check!(nums.len() == 1 && nums[0] == port as u32) } else { check!(nums.len() == 6); for i in 0..4 { check!(nums[i] == ip[i] as u32) } check!(nums[4] * 256 + nums[5] == port as u32) }
  reach(1);
});
// CWD of any path of up to 5 characters succeeds exactly for directories inside the root; PWD then names the directory
entry!(c16_cwd, {
  let n = pick("n", 0, 5); setup(true); login(); let p = path("path", n); push(&cmd("CWD", &p)); push(b"PWD"); run("/r", conf(true, &[]));
  let r = replies(); let m = model::get();
  let mut full = b"/r/".to_vec(); full.extend_from_slice(&p);
  // the same lookup, done by the model
  let node = m.find(std::path::Path::new(std::str::from_utf8(&full).unwrap()), true).ok().filter(|&x| m.inside(x, ROOT) && m.nodes[x].kind == Kind::Dir);
  check!(r[3] == if node.is_some() { 250 } else { 550 });
  let name = m.path(node.unwrap_or(ROOT)); let rel: &[u8] = if name.len() > 2 { &name[2..] } else { b"/" };
  let mut want = b"\"".to_vec(); want.extend_from_slice(rel); want.push(b'"');
  let o = &m.control_out; let mut s = o.len() - 2; while s > 0 && o[s - 1] != b'\n' { s -= 1 }
  check!(&o[s + 4..s + 4 + want.len()] == &want[..]);
  if node.is_some() { reach(1) } else { reach(2) }
});
// NLST and LIST of / and /d name exactly the entries; NLST with patterns f, *, ?, g*, d/*
entry!(c16_list, {
  setup(false); login(); push(b"PASV"); let k = pick("k", 0, 7);
  push([&b"LIST"[..], b"LIST d", b"NLST", b"NLST *", b"NLST ?", b"NLST f", b"NLST d/*", b"LIST /d"][k]); run("/r", conf(true, &[]));
  let r = replies(); check!(r[r.len() - 1] == 226); let l = listed();
  let want: &[&[u8]] = match k { 0 | 2 | 3 | 4 => &[b"d", b"f"], 1 | 6 | 7 => &[b"g"], _ => &[b"f"] };
  check!(l.len() == want.len()); for i in 0..l.len() { check!(l[i] == want[i]) }
  reach(1);
});
// the served directory may be given relative, through a link, or with . and ..
entry!(c16_root, {
  setup(false); login(); let m = model::get(); m.add(0, b"y", Kind::Link(b"r".to_vec())); let k = pick("k", 0, 5);
  push(b"CWD d"); push(b"PASV"); push(b"RETR g"); push(b"PASV"); push(b"STOR z"); m.data_in.push(b"new".to_vec());
  run(["/r", "r", "/y", "/r/.", "/x/../r", "/r/"][k], conf(true, &[]));
  let m = model::get(); check!(replies() == [220, 331, 230, 250, 227, 125, 226, 227, 125, 226]);
  check!(m.data_out == b"gg"); check!(m.child(D, b"z").is_some());
  reach(1);
});

// a command's name in any mix of upper and lower case
entry!(c16_case, {
  let k = pick("k", 0, 3); let c = ["retr f", "pwd", "stor z", "cdup"][k]; let up = vec8("upper", 4); for &b in &up { assume(b < 2) }
  let mut v = c.as_bytes().to_vec(); let n = if k == 1 { 3 } else { 4 }; for i in 0..n { v[i] -= 32 * up[i] }
  setup(false); login(); push(b"PASV"); push(&v); model::get().data_in.push(b"new".to_vec()); run("/r", conf(true, &[]));
  let r = replies(); check!(r[r.len() - 1] == [226, 257, 226, 250][k]);
  if k == 0 { check!(model::get().data_out == b"fff") } if k == 2 { check!(model::get().child(ROOT, b"z").is_some()) }
  reach(1);
});
fn number(v: &mut Vec<u8>, x: u8) { let d = [x / 100, x / 10 % 10, x % 10]; if x >= 100 { v.push(b'0' + d[0]) } if x >= 10 { v.push(b'0' + d[1]) } v.push(b'0' + d[2]) }
// PORT with any port: the data connection goes to that port of the client itself, whatever address PORT names; ports up to 1024 are refused
entry!(c16_portnum, {
  let a = bytes::<2>("port"); let h = any_u8("host"); let mut v = b"PORT ".to_vec();
  number(&mut v, h); v.extend_from_slice(b",1,2,3,"); number(&mut v, a[0]); v.push(b','); number(&mut v, a[1]);
  setup(false); login(); push(&v); push(b"NLST"); run("/r", conf(true, &[]));
  let port = a[0] as u16 * 256 + a[1] as u16; let m = model::get();
  if port > 1024 { check!(m.connects.len() == 1); check!(m.connects[0].port() == port); check!(m.connects[0].ip() == m.peer.unwrap().ip()); let r = replies(); check!(r[r.len() - 1] == 226); reach(1) }
  else { check!(m.connects.is_empty()); reach(2) }
});
