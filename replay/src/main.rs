//! replay <entry> <file.in>          replays a recorded input
//! replay <entry> --gen <seed> <out>  draws an input, records it, runs it
#![allow(clippy::all, unused_imports)]
#[path = "../../sx/src/sym.rs"]
pub mod sym;
mod table { include!(env!("REPLAY_TABLE")); }
use std::sync::Mutex;
struct St { gen_: bool, rng: u64, inputs: Vec<(String, Vec<u8>)>, pos: usize, note: u64, out: String, allow: bool }
static ST: Mutex<St> = Mutex::new(St { gen_: false, rng: 0, inputs: Vec::new(), pos: 0, note: 1469598103934665603, out: String::new(), allow: false });
fn finish(msg: &str, code: i32) -> ! {
  LIMIT.store(usize::MAX, std::sync::atomic::Ordering::Relaxed);
  let s = match ST.lock() { Ok(s) => s, Err(p) => p.into_inner() };
  if s.gen_ { let mut t = String::new(); for (n, b) in &s.inputs { t += n; t += " "; for x in b { t += &format!("{:02x}", x); } t += "\n"; } std::fs::write(&s.out, t).unwrap(); }
  println!("{msg}");
  std::process::exit(code)
}
#[unsafe(no_mangle)]
extern "C" fn sym_bytes(p: *mut u8, n: usize, name: *const u8, nl: usize) {
  let name = unsafe { std::str::from_utf8(std::slice::from_raw_parts(name, nl)).unwrap().to_string() };
  let mut s = ST.lock().unwrap();
  let b = if s.gen_ {
    let mut r = || { s.rng = s.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (s.rng >> 33) as u32 };
    let m = r() % 4;
    let b: Vec<u8> = (0..n).map(|_| match m { 0 => r() as u8, 1 => if r() % 3 > 0 { 0 } else { r() as u8 }, 2 => if r() % 2 == 0 { 255 } else { r() as u8 }, _ => (r() % 4) as u8 }).collect();
    s.inputs.push((name, b.clone())); b
  } else {
    let k = s.pos; s.pos += 1;
    if k >= s.inputs.len() || s.inputs[k].0 != name || s.inputs[k].1.len() != n { let m = format!("REPLAY-MISMATCH {name} {n}"); drop(s); finish(&m, 3) }
    s.inputs[k].1.clone()
  };
  unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), p, n) }
}
#[unsafe(no_mangle)] extern "C" fn sym_assume(c: bool) { if !c { finish("ASSUME-FAIL", 4) } }
#[unsafe(no_mangle)] extern "C" fn sym_assert(c: bool, id: u32) { if !c { finish(&format!("ASSERT-FAIL {id}"), 1) } }
#[unsafe(no_mangle)] extern "C" fn sym_reach(_id: u32) {}
#[unsafe(no_mangle)] extern "C" fn sym_allow_panic(on: u32) { ST.lock().unwrap().allow = on != 0; }
#[unsafe(no_mangle)] extern "C" fn sym_concretize(v: u64) -> u64 { v }
/// config key 3 bounds any single allocation, as in the symbolic executor
static LIMIT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(usize::MAX);
struct Limited;
fn over(n: usize) -> bool { if n > LIMIT.load(std::sync::atomic::Ordering::Relaxed) { LIMIT.store(usize::MAX, std::sync::atomic::Ordering::Relaxed); println!("ALLOC-LIMIT {n}"); true } else { false } }
unsafe impl std::alloc::GlobalAlloc for Limited {
  unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { if over(l.size()) { std::process::exit(1) } unsafe { std::alloc::System.alloc(l) } }
  unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { unsafe { std::alloc::System.dealloc(p, l) } }
  unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 { if over(l.size()) { std::process::exit(1) } unsafe { std::alloc::System.alloc_zeroed(l) } }
  unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 { if over(n) { std::process::exit(1) } unsafe { std::alloc::System.realloc(p, l, n) } }
}
#[global_allocator] static A: Limited = Limited;
/// order of parallel work items (config key 6), asked for by the rayon stand-in of the C17 replay
static ORDER: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
#[unsafe(no_mangle)] extern "C" fn sym_par(_op: u32, _p: *const u8) -> u32 { ORDER.load(std::sync::atomic::Ordering::Relaxed) }
#[unsafe(no_mangle)] extern "C" fn sym_config(k: u64, v: u64) { if k == 6 { ORDER.store(v as u32, std::sync::atomic::Ordering::Relaxed) } if k == 3 { LIMIT.store(v as usize, std::sync::atomic::Ordering::Relaxed) } }
#[unsafe(no_mangle)]
extern "C" fn sym_note(p: *const u8, n: usize) { let mut s = ST.lock().unwrap(); for i in 0..n { s.note ^= unsafe { *p.add(i) } as u64; s.note = s.note.wrapping_mul(1099511628211); } }
fn main() {
  let a: Vec<String> = std::env::args().collect();
  if a[2] == "--gen" { let mut s = ST.lock().unwrap(); s.gen_ = true; s.rng = a[3].parse::<u64>().unwrap().wrapping_mul(7919).wrapping_add(12345); s.out = a[4].clone(); }
  else { let t = std::fs::read_to_string(&a[2]).unwrap(); let mut s = ST.lock().unwrap();
    for l in t.lines() { let mut w = l.splitn(2, ' '); let n = w.next().unwrap().to_string(); let h = w.next().unwrap_or("").trim().as_bytes(); s.inputs.push((n, h.chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect())); } }
  let name = a[1].clone();
  let f = table::TABLE.iter().find(|x| x.0 == name).unwrap_or_else(|| { eprintln!("no entry {name}"); std::process::exit(3) }).1;
  // big stack: some decoders keep whole rows on it
  let r = std::thread::Builder::new().stack_size(256 << 20).spawn(move || { f() }).unwrap().join();
  match r {
    Ok(()) => { let n = ST.lock().unwrap().note; finish(&format!("OK NOTE {n:016x}"), 0) }
    Err(_) => { let al = match ST.lock() { Ok(s) => s.allow, Err(p) => p.into_inner().allow }; if al { finish("PANIC-ALLOWED", 0) } finish("PANIC", 1) }
  }
}
include!("../../sx/src/all.rs");
