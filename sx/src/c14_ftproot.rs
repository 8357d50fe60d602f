//! C14: no FTP command reaches anything outside the served directory.
use crate::ftp_common::*;
use crate::sym::*;
use crate::{check, entry};
use tokio::model;
/// Model: served directory /r with d/g, f, links to a directory outside (l),
/// a file outside (m), a directory inside (n), a missing file outside (k).
fn start() { setup(true); login(); model::get().data_in.push(b"new".to_vec()) }
fn op(c: &str, p: &[u8]) { if matches!(c, "RETR" | "LIST" | "NLST" | "STOR") { push(b"PASV") } push(&cmd(c, p)) }
fn verdict(w: u32) { verdict2(w, true) }
fn verdict2(w: u32, names: bool) {
  push(b"QUIT"); run("/r", conf(true, &[]));
  check!(contained()); check!(outside_intact());
  let m = model::get();
  if names { for n in &listed() { let mut ok = n == b".."; for i in 1..m.nodes.len() { if m.nodes[i].name == *n && m.inside(i, ROOT) { ok = true } } check!(ok) } }
  reach(w);
}
fn one(c: &str, hi: usize) { let n = pick("n", 0, hi); start(); op(c, &path("path", n)); verdict2(1, c != "RETR") }
// one command after login; any path argument of up to 7 ASCII characters
entry!(c14_dele, { one("DELE", 7) });
entry!(c14_rmd, { one("RMD", 7) });
entry!(c14_mkd, { one("MKD", 7) });
entry!(c14_retr, { one("RETR", 7) });
entry!(c14_list, { one("LIST", 7) });
entry!(c14_stor, { one("STOR", 7) });
// NLST with any pattern of up to 6 ASCII characters: nothing outside is named
entry!(c14_nlst, { one("NLST", 6) });
fn which(name: &str) -> &'static str { let k = pick(name, 0, 6); ["DELE", "RMD", "MKD", "RETR", "LIST", "STOR", "NLST"][k] }
// CWD with any path of up to 4 characters, then any file command with any path of up to 3
entry!(c14_cwd, { cwd(4, 3) });
// CWD (up to 5 characters), then any file command with a path of up to 4
entry!(c14_cwd_deep, { cwd(5, 4) });
fn cwd(a: usize, b: usize) { let n = pick("n", 0, a); let k = pick("k", 0, b); let c = which("cmd"); start(); push(&cmd("CWD", &path("dir", n))); op(c, &path("path", k)); verdict(1) }
// CWD (up to 2 characters), CDUP up to 2 times, then any file command with a path of up to 3
entry!(c14_cdup, { cdup(2, 2, 3) });
// CWD (up to 3 characters), CDUP up to 3 times, then any file command with a path of up to 4
entry!(c14_cdup_deep, { cdup(3, 3, 4) });
fn cdup(a: usize, b: usize, d: usize) { let n = pick("n", 0, a); let u = pick("u", 0, b); let k = pick("k", 0, d); let c = which("cmd"); start(); push(&cmd("CWD", &path("dir", n))); for _ in 0..u { push(b"CDUP") } op(c, &path("path", k)); verdict(1) }
// two file commands in a row, paths of up to 2 characters each, no blank in the first (a directory created, removed or replaced in between)
entry!(c14_two, { two(2) });
// two file commands in a row, paths of up to 4 characters each
entry!(c14_two_deep, { two(4) });
fn two(h: usize) { let n = pick("n", 1, h); let k = pick("k", 1, h); let a = which("cmd1"); let c = which("cmd2"); start(); model::get().data_in.push(vec![]); model::get().data_in.push(b"again".to_vec()); let p1 = path("path1", n); for &b in &p1 { assume(b != b' ') } op(a, &p1); op(c, &path("path2", k)); verdict2(1, a != "RETR" && c != "RETR") }
// MKD, CWD, STOR with paths of up to 2 characters each
entry!(c14_three, { three(2) });
// MKD, CWD, STOR with paths of up to 3 characters each
entry!(c14_three_deep, { three(3) });
fn three(h: usize) { let n = pick("n", 1, h); let k = pick("k", 1, h); let j = pick("j", 1, h); start(); push(&cmd("MKD", &path("path1", n))); push(&cmd("CWD", &path("path2", k))); op("STOR", &path("path3", j)); verdict(1) }
fn comps(hi: usize) -> Vec<u8> {
  let n = pick("components", 1, hi); let mut v = vec![]; if any_bool("absolute") { v.push(b'/') }
  for i in 0..n { if i > 0 { v.push(b'/') } v.extend_from_slice([&b".."[..], b"d", b"x", b"l", b"s", b"n", b"rd"][pick("c", 0, 6)]) }
  v
}
// any file command in /, /d (entered directly, or through the link n) with a path of up to 4 components out of .., d, x, l, s, n, rd
entry!(c14_comps, { let c = which("cmd"); let k = pick("cwd", 0, 2); start(); if k > 0 { push(if k == 1 { b"CWD d" } else { b"CWD n" }) } op(c, &comps(4)); verdict(1) });
