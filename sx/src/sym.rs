//! Harness interface. In the IR build these are calls the symbolic executor
//! interprets; in the native replay build (crate ../replay) they read the
//! recorded counterexample.
#![allow(dead_code)]
unsafe extern "C" {
  fn sym_bytes(p: *mut u8, n: usize, name: *const u8, name_len: usize);
  fn sym_assume(c: bool);
  fn sym_assert(c: bool, id: u32);
  fn sym_reach(id: u32);
  fn sym_allow_panic(on: u32);
  fn sym_concretize(v: u64) -> u64;
  fn sym_config(k: u64, v: u64);
  fn sym_note(p: *const u8, n: usize);
}
#[inline(always)]
pub fn fill(buf: &mut [u8], name: &str) { unsafe { sym_bytes(buf.as_mut_ptr(), buf.len(), name.as_ptr(), name.len()) } }
#[inline(always)]
pub fn bytes<const N: usize>(name: &str) -> [u8; N] { let mut a = [0u8; N]; fill(&mut a, name); a }
pub fn vec8(name: &str, n: usize) -> Vec<u8> { let mut v = vec![0u8; n]; fill(&mut v, name); v }
#[inline(always)]
pub fn u16s<const N: usize>(name: &str) -> [u16; N] { let mut a = [0u16; N]; unsafe { sym_bytes(a.as_mut_ptr() as *mut u8, N * 2, name.as_ptr(), name.len()) }; a }
#[inline(always)]
pub fn u32s<const N: usize>(name: &str) -> [u32; N] { let mut a = [0u32; N]; unsafe { sym_bytes(a.as_mut_ptr() as *mut u8, N * 4, name.as_ptr(), name.len()) }; a }
#[inline(always)]
pub fn any_u8(name: &str) -> u8 { bytes::<1>(name)[0] }
#[inline(always)]
pub fn any_u16(name: &str) -> u16 { u16::from_le_bytes(bytes::<2>(name)) }
#[inline(always)]
pub fn any_u32(name: &str) -> u32 { u32::from_le_bytes(bytes::<4>(name)) }
#[inline(always)]
pub fn any_i32(name: &str) -> i32 { any_u32(name) as i32 }
#[inline(always)]
pub fn any_u64(name: &str) -> u64 { u64::from_le_bytes(bytes::<8>(name)) }
#[inline(always)]
pub fn any_bool(name: &str) -> bool { let b = any_u8(name); assume(b < 2); b == 1 }
/// A symbolic value in lo..=hi (kept symbolic).
#[inline(always)]
pub fn range(name: &str, lo: usize, hi: usize) -> usize {
  let v = if hi < 256 { any_u8(name) as usize } else if hi < 65536 { any_u16(name) as usize } else { any_u32(name) as usize };
  assume(v >= lo && v <= hi);
  v
}
/// A value in lo..=hi that is split into one path per value: used for sizes
/// and dimensions, so that loop bounds become constants on every path.
#[inline(always)]
pub fn pick(name: &str, lo: usize, hi: usize) -> usize { let v = range(name, lo, hi); conc(v) }
#[inline(always)]
pub fn conc(v: usize) -> usize { unsafe { sym_concretize(v as u64) as usize } }
#[inline(always)]
pub fn assume(c: bool) { unsafe { sym_assume(c) } }
#[inline(always)]
pub fn assert_id(c: bool, id: u32) { unsafe { sym_assert(c, id) } }
#[inline(always)]
pub fn reach(id: u32) { unsafe { sym_reach(id) } }
/// From here on a panic of the code under test ends the path without a verdict.
#[inline(always)]
pub fn allow_panic(on: bool) { unsafe { sym_allow_panic(on as u32) } }
#[inline(always)]
pub fn config(k: u64, v: u64) { unsafe { sym_config(k, v) } }
#[inline(always)]
pub fn note(b: &[u8]) { unsafe { sym_note(b.as_ptr(), b.len()) } }
#[inline(always)]
pub fn note16(b: &[u16]) { unsafe { sym_note(b.as_ptr() as *const u8, b.len() * 2) } }
/// Assertion decided by the solver on the current path; identified by line.
#[macro_export]
macro_rules! check { ($c:expr) => { $crate::sym::assert_id($c, line!()) }; }
/// Declares an entry point of the symbolic executor.
#[macro_export]
macro_rules! entry { ($name:ident, $body:block) => { #[unsafe(no_mangle)] pub extern "C-unwind" fn $name() $body }; }
