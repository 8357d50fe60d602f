//! The raw file embedded in a DNG is returned byte for byte, or an error.
use crate::sym::*;
use crate::*;
use rawler::dng::original::OriginalCompressed;
use rawler::dng::writer::DngWriter;
use rawler::dng::DNG_VERSION_V1_4;
use rawler::formats::tiff::reader::TiffReader;
use rawler::formats::tiff::{GenericTiffReader, Value};
use rawler::rawsource::RawSource;
use std::io::Cursor;

fn be(f: &[u8], p: usize) -> usize { u32::from_be_bytes([f[p], f[p + 1], f[p + 2], f[p + 3]]) as usize }
/// file content: kind 0 zeros, 1 ramp, 2 noise
fn content(kind: usize, n: usize) -> Vec<u8> { let mut r = 12345u32; (0..n).map(|i| match kind { 0 => 0, 1 => (i / 7) as u8, _ => { r = r.wrapping_mul(1664525).wrapping_add(1013904223); (r >> 24) as u8 } }).collect() }
/// zlib stream holding `d` in one stored block
fn zlib(d: &[u8]) -> Vec<u8> {
  let mut o = vec![0x78, 0x01, 1]; o.extend_from_slice(&(d.len() as u16).to_le_bytes()); o.extend_from_slice(&(!(d.len() as u16)).to_le_bytes()); o.extend_from_slice(d);
  let (mut a, mut b) = (1u32, 0u32); for x in d { a = (a + *x as u32) % 65521; b = (b + a) % 65521; }
  o.extend_from_slice(&(b << 16 | a).to_be_bytes()); o
}
fn roundtrip(data: &[u8]) {
  let n = data.len();
  let orig = OriginalCompressed::compress(&mut Cursor::new(data)).unwrap();
  // through a DNG, as convert and extract do
  let mut buf = Cursor::new(Vec::new());
  let mut dng = DngWriter::new(&mut buf, DNG_VERSION_V1_4).unwrap();
  dng.original_file(&orig, "A.RAW").unwrap();
  dng.close().unwrap();
  let src = RawSource::new_from_slice(&buf.into_inner());
  let t = GenericTiffReader::new(&mut src.reader(), 0, 0, None, &[]).unwrap();
  let val = match t.get_entry(50828u16).map(|e| &e.value) { Some(Value::Undefined(v)) => v.clone(), _ => { check!(false); return } };
  let dig: [u8; 16] = match t.get_entry(50973u16).map(|e| &e.value) { Some(Value::Byte(v)) => v.clone().try_into().unwrap(), _ => { check!(false); return } };
  check!(dig == md5::compute(data).0);
  check!(matches!(t.get_entry(50827u16).map(|e| &e.value), Some(Value::Ascii(s)) if s.strings()[0] == "A.RAW"));
  // layout required by the DNG specification: size, block offsets of 64 KiB blocks, blocks, six empty forks
  let blocks = n.div_ceil(65536);
  check!(be(&val, 0) == n);
  check!(be(&val, 4) == 4 + 4 * (blocks + 1));
  for i in 0..blocks { check!(be(&val, 8 + 4 * i) > be(&val, 4 + 4 * i)); }
  let end = be(&val, 4 + 4 * blocks);
  check!(val.len() == end + 28);
  for i in end..val.len() { check!(val[i] == 0); }
  let back = OriginalCompressed::new(&mut Cursor::new(val), Some(dig)).unwrap();
  let mut out = Vec::new();
  let total = back.decompress(&mut out, true).unwrap();
  check!(total == n); check!(out.len() == n); check!(out == data);
  reach(1);
}
// files of 0, 1, 2, 3, 300 bytes, all zero, ramp or noise, and two free bytes of four values each
entry!(c11_small, { let n = [0, 1, 2, 3, 300][pick("n", 0, 4)]; let mut d = content(pick("k", 0, 2), n);
  if n >= 3 { d[n / 2] = pick("a", 0, 3) as u8 * 85; d[n - 1] = pick("b", 0, 3) as u8 * 85; } roundtrip(&d); });
// files of 65535, 65536, 65537 and 131073 bytes (one to three blocks)
entry!(c11_blocks, { let n = [65535, 65536, 65537, 131073][pick("n", 0, 3)]; roundtrip(&content(pick("k", 0, 1), n)); });
/// container with blocks as stored zlib data
fn container(blocks: &[Vec<u8>], size: usize) -> Vec<u8> {
  let z: Vec<Vec<u8>> = blocks.iter().map(|b| zlib(b)).collect();
  let mut o = (size as u32).to_be_bytes().to_vec(); let mut at = (8 + 4 * z.len()) as u32; o.extend_from_slice(&at.to_be_bytes());
  for b in &z { at += b.len() as u32; o.extend_from_slice(&at.to_be_bytes()); } for b in &z { o.extend_from_slice(b); } o.extend_from_slice(&[0; 28]); o
}
// files of other writers (stored blocks), 1..8 bytes, one byte of any value: returned unchanged, without or with wrong digest (any 16 bytes) only if checks are disabled
entry!(c11_foreign, {
  let n = pick("n", 1, 8); let mut d = content(1, n); d[pick("at", 0, 1) * (n - 1)] = any_u8("x");
  let f = container(&[d.clone()], n);
  let known = md5::compute(&d).0;
  match pick("mode", 0, 3) {
    0 => { let o = OriginalCompressed::new(&mut Cursor::new(f), Some(known)).unwrap(); let mut out = Vec::new(); check!(o.decompress(&mut out, true).is_ok()); check!(out == d); }
    1 => { let bad = bytes::<16>("digest"); assume(bad != known); let o = OriginalCompressed::new(&mut Cursor::new(f), Some(bad)).unwrap(); let mut out = Vec::new(); check!(o.decompress(&mut out, true).is_err()); }
    2 => { let bad = bytes::<16>("digest"); let o = OriginalCompressed::new(&mut Cursor::new(f), Some(bad)).unwrap(); let mut out = Vec::new(); check!(o.decompress(&mut out, false).is_ok()); check!(out == d); }
    _ => { let o = OriginalCompressed::new(&mut Cursor::new(f), None).unwrap(); let mut out = Vec::new(); check!(o.decompress(&mut out, true).is_err()); }
  }
  reach(1);
});
// the payload or checksum of a stored block damaged in one byte (any other value): an error, nothing else
entry!(c11_damaged, {
  let n = pick("n", 1, 4); let d = content(1, n); let mut f = container(&[d], n);
  let k = pick("at", 0, 6); let at = 12 + 7 + k; if at >= f.len() - 28 { assume(false); }
  let x = any_u8("x"); assume(x != 0); f[at] ^= x;
  let o = OriginalCompressed::new(&mut Cursor::new(f), None).unwrap(); let mut out = Vec::new();
  check!(o.decompress(&mut out, false).is_err()); reach(1);
});
// 28 bytes with any file size and any two block offsets: an error or blocks inside the data, no panic, no allocation above 1 MiB
entry!(c11_hostile, {
  config(3, 1 << 20);
  let h = bytes::<12>("h"); assume((h[0] == 0) & (h[1] <= 1)); let mut f = h.to_vec(); f.extend_from_slice(&[0x78, 1, 1, 0, 0, 255, 255, 0, 0, 0, 1, 0, 0, 0, 0, 0]);
  let r = OriginalCompressed::new(&mut Cursor::new(f), None);
  if let Ok(o) = r { let mut out = Vec::new(); let r = o.decompress(&mut out, false); check!(r.is_err() || out.len() <= 16); reach(2); }
  reach(1);
});
