//! Bit pumps and byte streams deliver exactly the bits of the buffer.
use crate::sym::*;
use crate::*;
use rawler::bits::Endian;
use rawler::pumps::*;

/// bit i of the stream, as the format defines it
fn bit(kind: usize, b: &[u8], i: usize) -> u32 {
  let (by, bi) = (i / 8, i % 8);
  (match kind {
    0 => b[by] >> (7 - bi),                  // MSB first
    1 => b[by] >> bi,                        // LSB first
    2 => b[(by & !3) + 3 - (by & 3)] >> (7 - bi), // MSB first in little-endian 32 bit words
    _ => b[by] >> bi,                        // LSB first, values read MSB first
  } & 1) as u32
}
fn want(kind: usize, b: &[u8], pos: usize, n: usize) -> u32 {
  let mut v = 0u32;
  for i in 0..n { if kind == 1 { v |= bit(kind, b, pos + i) << i; } else { v = (v << 1) | bit(kind, b, pos + i); } }
  v
}
fn run(p: &mut dyn BitPump, kind: usize, buf: &[u8], widths: &[usize]) {
  let mut pos = 0;
  for (k, &w) in widths.iter().enumerate() {
    if pos + w > buf.len() * 8 { break; }
    let e = want(kind, buf, pos, w);
    let v = match k % 3 {
      0 => p.get_bits(w as u32),
      1 => { let a = p.peek_bits(w as u32); check!(a == p.peek_bits(w as u32)); p.consume_bits(w as u32); a }
      _ => { let s = p.get_ibits_sextended(w as u32); check!(s == ((e << (32 - w)) as i32) >> (32 - w)); (s as u32) & (((1u64 << w) - 1) as u32) }
    };
    check!(v == e);
    pos += w;
    reach(1);
  }
}
fn widths3() -> [usize; 4] { let a = pick("a", 1, 32); let b = pick("b", 1, 32); [a, b, (5 * a + 3 * b) % 32 + 1, 13] }
entry!(c03_msb, { let b: [u8; 13] = bytes("b"); let n = 13 - pick("cut", 0, 3); run(&mut BitPumpMSB::new(&b[..n]), 0, &b[..n], &widths3()); });
entry!(c03_lsb, { let b: [u8; 13] = bytes("b"); let n = 13 - pick("cut", 0, 3); run(&mut BitPumpLSB::new(&b[..n]), 1, &b[..n], &widths3()); });
entry!(c03_msb32, { let b: [u8; 12] = bytes("b"); run(&mut BitPumpMSB32::new(&b), 2, &b, &widths3()); });
entry!(c03_msb32_pos, {
  let b: [u8; 12] = bytes("b");
  let mut p = BitPumpMSB32::new(&b);
  let mut used = 0usize;
  for _ in 0..4 { let w = pick("w", 1, 16); p.get_bits(w as u32); used += w; check!(p.get_pos() == used.div_ceil(8)); reach(1); }
});
entry!(c03_rev, { let b: [u8; 12] = bytes("b"); run(&mut BitPumpReverseBitsMSB::new(&b), 3, &b, &widths3()); });
// leading zero runs of 0..71 bits, including runs longer than one peek window; at least 31 bits follow
entry!(c03_zeros, {
  let mut b = [0x5au8; 20];
  let z = pick("zeros", 0, 7);
  for x in b[..z].iter_mut() { *x = 0; }
  let s: [u8; 5] = bytes("b");
  assume(s[0] != 0 || s[1] != 0);
  b[z..z + 5].copy_from_slice(&s);
  let mut p = BitPumpMSB::new(&b);
  let pre = pick("pre", 0, 7);
  assume(z > 0 || pre == 0);
  if pre > 0 { p.get_bits(pre as u32); }
  let n = p.consume_zerobits() as usize;
  let lead = if s[0] != 0 { s[0].leading_zeros() } else { 8 + s[1].leading_zeros() } as usize;
  check!(n == z * 8 + lead - pre);
  let at = conc(n + pre);
  check!(p.peek_bits(1) == 1);
  check!(p.peek_bits(9) == want(0, &b, at, 9));
  reach(1);
});
/// JPEG entropy stream: 0xff00 is a literal 0xff, a marker ends the stream, then zeros.
fn jpeg_ref(b: &[u8]) -> Vec<u8> {
  let mut o = Vec::new(); let mut i = 0;
  while i < b.len() {
    if conc((b[i] == 0xff) as usize) == 1 { if conc((b[i + 1] == 0) as usize) == 1 { o.push(0xff); i += 2; } else { break; } } else { o.push(b[i]); i += 1; }
  }
  for _ in 0..24 { o.push(0); }
  o
}
entry!(c03_jpeg, {
  let b: [u8; 8] = bytes("b");
  let n = pick("len", 2, 8);
  let b = &b[..n];
  assume(b[n - 1] != 0xff);
  let r = jpeg_ref(b);
  let w = pick("w", 0, 3);
  run(&mut BitPumpJPEG::new(b), 0, &r, &[[7, 16, 16, 25], [32, 31, 32, 17], [1, 30, 3, 32], [24, 25, 20, 9]][w]);
});
entry!(c03_jpeg_long, {
  let mut b = [0u8; 20];
  let s: [u8; 3] = bytes("b");
  let at = pick("at", 0, 16);
  for i in 0..20 { b[i] = (i as u8).wrapping_mul(37) & 0x7f; }
  b[at..at + 3].copy_from_slice(&s);
  assume(b[19] != 0xff);
  let r = jpeg_ref(&b);
  run(&mut BitPumpJPEG::new(&b), 0, &r, &[13, 32, 7, 31, 16, 25, 32, 5]);
});
entry!(c03_bytes, {
  let b: [u8; 12] = bytes("b");
  let be = pick("be", 0, 1) == 1;
  let mut s = ByteStream::new(&b, if be { Endian::Big } else { Endian::Little });
  let mut pos = 0usize;
  for _ in 0..4 {
    let k = pick("op", 0, 5);
    let n = [1, 1, 2, 2, 4, 3][k];
    if pos + n > 12 { break; }
    let mut v = 0u64;
    for i in 0..n { let x = b[pos + i] as u64; if be { v = (v << 8) | x; } else { v |= x << (8 * i); } }
    match k {
      0 => check!(s.peek_u8() as u64 == v && s.get_u8() as u64 == v),
      1 => check!(s.get_i8() == v as u8 as i8),
      2 => check!(s.peek_u16() as u64 == v && s.get_u16() as u64 == v),
      3 => check!(s.get_i16() == v as u16 as i16),
      4 => check!(s.peek_u32() as u64 == v && s.get_u32() as u64 == v),
      _ => check!(s.get_bytes(3) == b[pos..pos + 3]),
    }
    pos += n;
    check!(s.get_pos() == pos && s.remaining_bytes() == 12 - pos);
    reach(1);
  }
});
// the marker scan stops behind the 0xff of the first real marker
entry!(c03_marker, {
  let b: [u8; 7] = bytes("b");
  let mut at = None;
  for i in 0..6 { if at.is_none() && conc((b[i] == 0xff && b[i + 1] != 0 && b[i + 1] != 0xff) as usize) == 1 { at = Some(i); } }
  if let Some(i) = at {
    let mut s = ByteStream::new(&b, Endian::Big);
    check!(s.skip_to_marker() == Ok(i + 1));
    check!(s.get_pos() == i + 1 && s.peek_u8() == b[i + 1]);
    reach(1);
  }
});
entry!(c03_endian, {
  let b: [u8; 8] = bytes("b");
  let o = pick("off", 0, 4);
  let be = Endian::Big; let le = Endian::Little;
  let w = |n: usize| { let mut v = 0u32; for i in 0..n { v = (v << 8) | b[o + i] as u32; } v };
  let l = |n: usize| { let mut v = 0u32; for i in (0..n).rev() { v = (v << 8) | b[o + i] as u32; } v };
  check!(be.read_u16(&b, o) as u32 == w(2) && be.read_i16(&b, o) == w(2) as i16 && be.read_u32(&b, o) == w(4) && be.read_i32(&b, o) == w(4) as i32);
  check!(le.read_u16(&b, o) as u32 == l(2) && le.read_i16(&b, o) == l(2) as i16 && le.read_u32(&b, o) == l(4) && le.read_i32(&b, o) == l(4) as i32);
  check!(be.read_u8(&b, o) == b[o] && le.read_i8(&b, o) == b[o] as i8);
  reach(1);
});
