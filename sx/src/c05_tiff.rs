//! TIFF metadata: what is written is what is read, on disk as the TIFF 6.0
//! specification lays it out; both byte orders are read.
use crate::sym::*;
use crate::*;
use rawler::formats::tiff::reader::TiffReader;
use rawler::formats::tiff::*;
use std::io::Cursor;

fn sz(t: u16) -> usize { match t { 3 | 8 => 2, 4 | 9 | 11 => 4, 5 | 10 | 12 => 8, _ => 1 } }
/// element size that byte order applies to
fn unit(t: u16) -> usize { match t { 3 | 8 => 2, 4 | 9 | 11 | 5 | 10 => 4, 12 => 8, _ => 1 } }
/// little-endian bytes of `count` elements -> the value they stand for
fn value(t: u16, b: &[u8]) -> Value {
  let u2 = |i: usize| u16::from_le_bytes([b[2 * i], b[2 * i + 1]]);
  let u4 = |i: usize| u32::from_le_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]]);
  let n = b.len() / sz(t);
  match t {
    1 => Value::Byte(b.to_vec()), 3 => Value::Short((0..n).map(u2).collect()), 4 => Value::Long((0..n).map(u4).collect()),
    5 => Value::Rational((0..n).map(|i| Rational::new(u4(2 * i), u4(2 * i + 1))).collect()), 6 => Value::SByte(b.iter().map(|x| *x as i8).collect()),
    7 => Value::Undefined(b.to_vec()), 8 => Value::SShort((0..n).map(|i| u2(i) as i16).collect()), 9 => Value::SLong((0..n).map(|i| u4(i) as i32).collect()),
    10 => Value::SRational((0..n).map(|i| SRational::new(u4(2 * i) as i32, u4(2 * i + 1) as i32)).collect()), 11 => Value::Float((0..n).map(|i| f32::from_bits(u4(i))).collect()),
    12 => Value::Double((0..n).map(|i| f64::from_bits(u4(2 * i) as u64 | (u4(2 * i + 1) as u64) << 32)).collect()),
    2 => Value::Ascii(TiffAscii::new(std::str::from_utf8(&b[..b.len() - 1]).unwrap())),
    x => Value::Unknown(x, b.to_vec()),
  }
}
/// the little-endian bytes of a value, by the variant it has
fn raw(v: &Value) -> (u16, Vec<u8>) {
  let mut o = Vec::new();
  let t = match v {
    Value::Byte(x) => { o.extend_from_slice(x); 1 } Value::Ascii(x) => { for s in x.strings() { o.extend_from_slice(s.as_bytes()); o.push(0); } 2 }
    Value::Short(x) => { for y in x { o.extend_from_slice(&y.to_le_bytes()); } 3 } Value::Long(x) => { for y in x { o.extend_from_slice(&y.to_le_bytes()); } 4 }
    Value::Rational(x) => { for y in x { o.extend_from_slice(&y.n.to_le_bytes()); o.extend_from_slice(&y.d.to_le_bytes()); } 5 }
    Value::SByte(x) => { for y in x { o.push(*y as u8); } 6 } Value::Undefined(x) => { o.extend_from_slice(x); 7 }
    Value::SShort(x) => { for y in x { o.extend_from_slice(&y.to_le_bytes()); } 8 } Value::SLong(x) => { for y in x { o.extend_from_slice(&y.to_le_bytes()); } 9 }
    Value::SRational(x) => { for y in x { o.extend_from_slice(&y.n.to_le_bytes()); o.extend_from_slice(&y.d.to_le_bytes()); } 10 }
    Value::Float(x) => { for y in x { o.extend_from_slice(&y.to_bits().to_le_bytes()); } 11 } Value::Double(x) => { for y in x { o.extend_from_slice(&y.to_bits().to_le_bytes()); } 12 }
    Value::Unknown(t, x) => { o.extend_from_slice(x); *t }
  };
  (t, o)
}
fn sym_bytes_of(t: u16, n: usize, name: &str) -> Vec<u8> {
  let mut b = vec8(name, n * sz(t));
  if t == 2 { let l = b.len(); for x in b[..l - 1].iter() { assume(*x != 0 && *x < 128); } b[l - 1] = 0; }
  b
}
/// Independent reading of a little-endian IFD: (tag, type, count, bytes), next IFD; None if not laid out as the specification demands.
fn ref_ifd(f: &[u8], off: usize) -> Option<(Vec<(u16, u16, usize, Vec<u8>)>, usize)> {
  let u2 = |o: usize| u16::from_le_bytes([f[o], f[o + 1]]);
  let u4 = |o: usize| u32::from_le_bytes([f[o], f[o + 1], f[o + 2], f[o + 3]]) as usize;
  if off % 2 != 0 { return None; }
  let n = conc(u2(off) as usize);
  let mut out = Vec::new();
  for i in 0..n {
    let e = off + 2 + 12 * i;
    let (tag, t, c) = (u2(e), u2(e + 2), conc(u4(e + 4)));
    let b = c * sz(conc(t as usize) as u16);
    let p = if b <= 4 { e + 8 } else { conc(u4(e + 8)) };
    if b > 4 && p % 2 != 0 { return None; }
    out.push((tag, t, c, f[p..p + b].to_vec()));
  }
  Some((out, conc(u4(off + 2 + 12 * n))))
}
fn header_ok(f: &[u8]) -> usize { check!(f[0] == 0x49 && f[1] == 0x49 && f[2] == 42 && f[3] == 0); conc(u32::from_le_bytes([f[4], f[5], f[6], f[7]]) as usize) }
fn agree(v: &Value, t: u16, b: &[u8]) -> bool { let (t2, b2) = raw(v); t2 == t && b2.len() == b.len() && b2 == b && v.count() == b.len() / sz(t) && v.byte_size() == b.len() && v.value_type() == t }

/// one value of type `t` among others, through the writer and back
fn one(t: u16, nmax: usize) {
  let n = pick("n", 1, nmax);
  let b = sym_bytes_of(t, n, "v");
  let pre = pick("pre", 0, 1);
  let mut f = Cursor::new(Vec::new());
  let mut tiff = TiffWriter::new(&mut f).unwrap();
  let mut d = tiff.new_directory();
  d.add_untyped_tag(0x9000, Value::Long(vec![0xdeadbeef, 0x01020304]));
  d.add_untyped_tag(0x8000, value(t, &b));
  if pre == 1 { d.add_untyped_tag(0x7000, Value::Undefined(vec![1, 2, 3, 4, 5])); }
  tiff.build(d).unwrap();
  let f = f.into_inner();
  let (es, next) = match ref_ifd(&f, header_ok(&f)) { Some(x) => x, None => { check!(false); return } };
  check!(es.len() == 2 + pre && next == 0);
  let e = &es[pre];
  check!(e.0 == 0x8000 && e.1 == t && e.2 == n);
  check!(e.3 == b);
  check!(es[pre + 1] == (0x9000, 4, 2, vec![0xef, 0xbe, 0xad, 0xde, 4, 3, 2, 1]));
  let r = GenericTiffReader::new(&mut Cursor::new(&f), 0, 0, Some(4), &[]).unwrap();
  let ifd = r.root_ifd();
  check!(ifd.entries.len() == 2 + pre);
  note(&f);
  check!(agree(&ifd.get_entry(0x8000u16).unwrap().value, t, &b));
  check!(agree(&ifd.get_entry(0x9000u16).unwrap().value, 4, &es[pre + 1].3));
  reach(1);
}
/// a foreign file in either byte order, with leading bytes, read with a base and an offset correction
fn foreign(t: u16, nmax: usize) {
  let n = pick("n", 1, nmax);
  let b = sym_bytes_of(t, n, "v");
  let be = pick("be", 0, 1) == 1;
  let base = pick("base", 0, 1) * 6;
  let corr: i32 = [0, 4, -2][pick("corr", 0, 2)];
  let u = unit(t);
  let enc: Vec<u8> = b.chunks(u).flat_map(|c| { let mut c = c.to_vec(); if be { c.reverse(); } c }).collect();
  let mut f = vec![0xaau8; base];
  let w2 = |f: &mut Vec<u8>, v: u16| f.extend_from_slice(&if be { v.to_be_bytes() } else { v.to_le_bytes() });
  let w4 = |f: &mut Vec<u8>, v: u32| f.extend_from_slice(&if be { v.to_be_bytes() } else { v.to_le_bytes() });
  let at = |x: usize| ((x - base) as i64 - corr as i64) as u32; // stored offset of an absolute position
  f.extend_from_slice(if be { b"MM" } else { b"II" });
  w2(&mut f, 42);
  let (p, dp) = (f.len(), 0u32); w4(&mut f, dp);
  let doff = f.len();
  f.extend_from_slice(&enc); while f.len() % 2 != 0 { f.push(0); }
  let ifd = f.len();
  let mut t4 = Vec::new(); w4(&mut t4, at(ifd)); f[p..p + 4].copy_from_slice(&t4);
  w2(&mut f, 2);
  w2(&mut f, 0x0100); w2(&mut f, t); w4(&mut f, n as u32);
  if enc.len() <= 4 { let mut x = enc.clone(); x.resize(4, 0x77); f.extend_from_slice(&x); } else { w4(&mut f, at(doff)); }
  w2(&mut f, 0x0111); w2(&mut f, 3); w4(&mut f, 1); w2(&mut f, 0x1234); w2(&mut f, 0);
  let np = f.len(); w4(&mut f, 0);
  let ifd2 = f.len();
  w2(&mut f, 1); w2(&mut f, 0x0112); w2(&mut f, 4); w4(&mut f, 1); w4(&mut f, 0x89abcdef);
  w4(&mut f, 0);
  let mut t4 = Vec::new(); w4(&mut t4, at(ifd2)); f[np..np + 4].copy_from_slice(&t4);
  let mut c = Cursor::new(&f); c.set_position(base as u64);
  let r = GenericTiffReader::new(&mut c, base as u32, corr, None, &[]).unwrap();
  note(&f);
  check!(r.chains().len() == 2 && r.root_ifd().entries.len() == 2 && r.chains()[1].entries.len() == 1);
  check!(r.little_endian() == !be);
  check!(agree(&r.root_ifd().get_entry(0x100u16).unwrap().value, t, &b));
  check!(agree(&r.root_ifd().get_entry(0x111u16).unwrap().value, 3, &[0x34, 0x12]));
  check!(agree(&r.chains()[1].get_entry(0x112u16).unwrap().value, 4, &[0xef, 0xcd, 0xab, 0x89]));
  reach(1);
}
// every value type: 1..=6 elements of arbitrary content (2 to 4 for the wider types), with and without other tags around it; reading in both byte orders, with base 0 or 6 and offset correction 0, 4, -2
macro_rules! types { ($($t:literal $n:literal $o:ident $f:ident),*) => { $( entry!($o, { one($t, $n) }); entry!($f, { foreign($t, $n) }); )* } }
types!(1 6 c05_w_byte c05_r_byte, 2 7 c05_w_ascii c05_r_ascii, 3 4 c05_w_short c05_r_short, 4 3 c05_w_long c05_r_long, 5 2 c05_w_rational c05_r_rational, 6 6 c05_w_sbyte c05_r_sbyte, 7 6 c05_w_undef c05_r_undef,
  8 4 c05_w_sshort c05_r_sshort, 9 3 c05_w_slong c05_r_slong, 10 2 c05_w_srational c05_r_srational, 11 3 c05_w_float c05_r_float, 12 2 c05_w_double c05_r_double, 129 6 c05_w_unknown c05_r_unknown);

// any three tag numbers: written once each, in ascending order, the last value set for a tag wins
entry!(c05_order, {
  let t: [u16; 3] = u16s("tag"); let v: [u32; 3] = u32s("v");
  for x in t { assume(x < 330 || x > 330 && x < 34665 || x > 34860); } // not the tags that point to sub-directories
  let mut f = Cursor::new(Vec::new());
  let mut tiff = TiffWriter::new(&mut f).unwrap();
  let mut d = tiff.new_directory();
  for i in 0..3 { d.add_untyped_tag(t[i], v[i]); }
  check!(d.contains(t[0]) && d.contains(t[1]) && d.contains(t[2]));
  tiff.build(d).unwrap();
  let f = f.into_inner();
  let (es, _) = ref_ifd(&f, header_ok(&f)).unwrap();
  for w in es.windows(2) { check!(w[0].0 < w[1].0); }
  let want = |i: usize| { let mut x = v[i]; for k in i + 1..3 { if t[k] == t[i] { x = v[k]; } } x };
  for i in 0..3 { let e = es.iter().find(|e| e.0 == t[i]); check!(e.is_some()); check!(e.unwrap().3 == want(i).to_le_bytes()); }
  check!(es.len() == 1 + (t[1] != t[0]) as usize + (t[2] != t[0] && t[2] != t[1]) as usize);
  let r = GenericTiffReader::new(&mut Cursor::new(&f), 0, 0, Some(4), &[]).unwrap();
  for i in 0..3 { check!(r.root_ifd().get_entry(t[i]).unwrap().force_u32(0) == want(i)); }
  check!(r.root_ifd().entries.len() == es.len());
  reach(1);
});
// sub-directories, raw data blocks of any length and next to each other, copying tags between directories
entry!(c05_nested, {
  let n = pick("n", 1, 6); let m = pick("m", 0, 3); let k = pick("k", 1, 5);
  let (a, b) = (vec8("a", n), vec8("b", m));
  let (c, s): ([u8; 5], [u16; 3]) = (bytes("c"), u16s("s"));
  let mut f = Cursor::new(Vec::new());
  let mut tiff = TiffWriter::new(&mut f).unwrap();
  let oa = tiff.write_data(&a).unwrap() as usize;
  let ob = tiff.write_data(&b).unwrap() as usize;
  let os = tiff.write_data_u16_le(&s).unwrap() as usize;
  let of = tiff.write_data_f32_le(&[f32::from_bits(0x3f81_0203)]).unwrap() as usize;
  let mut sub = tiff.new_directory();
  sub.add_untyped_tag(0x0150, Value::Undefined(c[..k].to_vec()));
  sub.add_tag(0x0101u16, s[0]);
  let so = sub.build(&mut tiff).unwrap();
  let mut sub2 = tiff.new_directory();
  sub2.add_untyped_tag(0x0102, Value::Short(s.to_vec()));
  let so2 = sub2.build(&mut tiff).unwrap();
  let oc = tiff.write_data(&a).unwrap() as usize;
  let mut d = tiff.new_directory();
  d.add_tag(rawler::tags::TiffCommonTag::SubIFDs, &vec![so, so2]);
  d.add_tag(0x0200u16, [oa as u32, ob as u32, oc as u32]);
  tiff.build(d).unwrap();
  let f = f.into_inner();
  check!(oa % 2 == 0 && ob % 2 == 0 && os % 2 == 0 && so % 2 == 0 && so2 % 2 == 0);
  check!(f[oa..oa + n] == a[..] && f[ob..ob + m] == b[..] && f[oc..oc + n] == a[..]);
  let mut sb = Vec::new(); for x in s { sb.extend_from_slice(&x.to_le_bytes()); }
  check!(f[os..os + 6] == sb[..] && f[of..of + 4] == [3, 2, 0x81, 0x3f]);
  note(&f);
  let r = GenericTiffReader::new(&mut Cursor::new(&f), 0, 0, Some(4), &[]).unwrap();
  let subs = r.root_ifd().get_sub_ifd_all(rawler::tags::TiffCommonTag::SubIFDs).unwrap();
  check!(subs.len() == 2 && subs[0].entries.len() == 2 && subs[1].entries.len() == 1);
  check!(agree(&subs[0].get_entry(0x0150u16).unwrap().value, 7, &c[..k]));
  check!(agree(&subs[0].get_entry(0x0101u16).unwrap().value, 3, &sb[..2]));
  check!(agree(&subs[1].get_entry(0x0102u16).unwrap().value, 3, &sb));
  check!(r.find_ifds_with_tag(0x0102u16).len() == 1 && r.get_entry(0x0200u16).unwrap().count() == 3);
  // raw bytes of an entry as stored in the file
  let re = subs[1].get_entry_raw(0x0102u16, &mut Cursor::new(&f)).unwrap().unwrap();
  check!(re.data == sb && re.get_force_u16(2) == s[2]);
  // copying keeps existing tags, overriding replaces them
  let mut w = DirectoryWriter::new();
  w.add_tag(0x0101u16, 7u16);
  w.copy(subs[0].value_iter());
  let mut w2 = DirectoryWriter::new();
  w2.add_tag(0x0101u16, 7u16);
  w2.copy_with_override(subs[0].value_iter());
  check!(w.entry_count() == 2 && w2.entry_count() == 2);
  for (w, x) in [(w, 7u16), (w2, s[0])] {
    let mut f = Cursor::new(Vec::new());
    let mut tiff = TiffWriter::new(&mut f).unwrap();
    let mut dd = tiff.new_directory(); dd.add_tag(0x1000u16, w.build(&mut tiff).unwrap());
    let o = tiff.position().unwrap(); let _ = o;
    tiff.build(dd).unwrap();
    let f = f.into_inner();
    let (es, _) = ref_ifd(&f, header_ok(&f)).unwrap();
    let (es, _) = ref_ifd(&f, conc(u32::from_le_bytes([es[0].3[0], es[0].3[1], es[0].3[2], es[0].3[3]]) as usize)).unwrap();
    check!(es.len() == 2 && es[0].0 == 0x0101 && es[0].3 == x.to_le_bytes() && es[1].0 == 0x0150 && es[1].3 == c[..k]);
  }
  reach(1);
});
// numeric reads of an entry: exact when the value fits the requested integer type, an error otherwise; out-of-range index is no value
entry!(c05_convert, {
  let b: [u8; 4] = bytes("v");
  let t = [1u16, 3, 4, 6, 8, 9][pick("t", 0, 5)];
  let v = value(t, &b[..sz(t)]);
  let x: i64 = match t { 1 => b[0] as i64, 3 => u16::from_le_bytes([b[0], b[1]]) as i64, 4 => u32::from_le_bytes(b) as i64, 6 => b[0] as i8 as i64, 8 => i16::from_le_bytes([b[0], b[1]]) as i64, _ => i32::from_le_bytes(b) as i64 };
  macro_rules! g { ($($f:ident $ff:ident $ty:ty),*) => { $( {
    let fits = <$ty>::try_from(x).is_ok();
    match v.$f(0) { Ok(Some(y)) => check!(fits && y as i128 == x as i128), Ok(None) => check!(false), Err(_) => check!(!fits) }
    check!(v.$ff(0) == if fits { x as $ty } else { 0 });
    check!(matches!(v.$f(1), Ok(None)) && v.$ff(1) == 0);
  } )* } }
  g!(get_u8 force_u8 u8, get_u16 force_u16 u16, get_u32 force_u32 u32, get_u64 force_u64 u64, get_usize force_usize usize, get_i8 force_i8 i8, get_i16 force_i16 i16, get_i32 force_i32 i32, get_i64 force_i64 i64);
  reach(1);
});
