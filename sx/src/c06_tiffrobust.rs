//! Arbitrary file content as TIFF: a result or an error, in bounded time and
//! memory; readable entries survive unreadable neighbours.
use crate::sym::*;
use crate::*;
use rawler::formats::tiff::reader::TiffReader;
use rawler::formats::tiff::ifd::OffsetMode;
use rawler::formats::tiff::*;
use rawler::rawsource::RawSource;
use rawler::tags::TiffCommonTag;
use std::io::Cursor;

const LIMIT: u64 = 8192;
fn limits() { config(3, LIMIT); }
fn le2(f: &mut Vec<u8>, v: u16) { f.extend_from_slice(&v.to_le_bytes()) }
fn le4(f: &mut Vec<u8>, v: u32) { f.extend_from_slice(&v.to_le_bytes()) }
fn touch_all(r: &GenericTiffReader) {
  check!(!r.chains().is_empty());
  let mut n = 0;
  for i in r.chains() { n += i.entries.len(); for (t, e) in &i.entries { n += (e.tag == *t) as usize + (e.count() as usize <= LIMIT as usize) as usize; } }
  check!(n > 0);
  reach(1);
}

// files of 0..=13 arbitrary bytes
entry!(c06_short, {
  limits();
  let n = pick("n", 0, 13); let f = vec8("f", n);
  let c = GenericTiffReader::is_tiff(&f);
  match GenericTiffReader::new_with_buffer(&f, 0, 0, Some(3)) { Ok(r) => { check!(c); touch_all(&r) } Err(_) => {} }
  reach(1);
});
fn open(f: &[u8], max: Option<usize>) -> Option<GenericTiffReader> { GenericTiffReader::new_with_buffer(f, 0, 0, max).ok() }
/// little-endian file: header, one IFD at 8 with the given entries
fn start(n: u16) -> Vec<u8> { let mut f = vec![0x49, 0x49, 42, 0]; le4(&mut f, 8); le2(&mut f, n); f }
/// an arbitrary entry of arbitrary type, count and offset in one directory with an intact one before, behind or around it
fn tolerant(at: usize, big: bool) {
  limits();
  let e: [u8; 10] = bytes("entry");
  let cnt = if big { u32::from_be_bytes([e[2], e[3], e[4], e[5]]) } else { u32::from_le_bytes([e[2], e[3], e[4], e[5]]) };
  let w2 = |f: &mut Vec<u8>, v: u16| f.extend_from_slice(&if big { v.to_be_bytes() } else { v.to_le_bytes() });
  let w4 = |f: &mut Vec<u8>, v: u32| f.extend_from_slice(&if big { v.to_be_bytes() } else { v.to_le_bytes() });
  let mut f = if big { b"MM".to_vec() } else { b"II".to_vec() };
  w2(&mut f, 42); w4(&mut f, 8); w2(&mut f, 3);
  for i in 0..3u16 {
    w2(&mut f, 0x1000 + i);
    if i as usize == at { f.extend_from_slice(&e); } else { w2(&mut f, 3); w4(&mut f, 1); w2(&mut f, 0x4141 + i); w2(&mut f, 0); }
  }
  let np = f.len(); w4(&mut f, np as u32 + 4);
  w2(&mut f, 1); w2(&mut f, 0x0112); w2(&mut f, 4); w4(&mut f, 1); w4(&mut f, 0x89abcdef); w4(&mut f, 0);
  let r = match open(&f, None) { Some(r) => r, None => { check!(false); return } };
  check!(r.chains().len() == 2);
  let ifd = r.root_ifd();
  for i in 0..3u16 { if i as usize != at { check!(ifd.get_entry(0x1000 + i).map(|e| e.force_u16(0)) == Some(0x4141 + i)); } }
  check!(r.chains()[1].get_entry(0x112u16).map(|e| e.force_u32(0)) == Some(0x89abcdef));
  if let Some(x) = ifd.get_entry(0x1000 + at as u16) { check!(x.count() == cnt || x.value_type() == 2); check!(x.byte_size() <= f.len() + 1); }
  reach(1);
}
entry!(c06_bad_first, { tolerant(0, false) });
entry!(c06_bad_mid, { tolerant(1, true) });
entry!(c06_bad_last, { tolerant(2, false) });
// a sub-directory pointer of types 0..=14 and arbitrary count, pointing anywhere into the file or behind it
entry!(c06_sub, {
  limits();
  let mut e: [u8; 10] = bytes("entry");
  let o = { let o = pick("off", 0, 60) as u32; if o == 60 { 0xffff_ffff } else { o } };
  e[6..10].copy_from_slice(&o.to_le_bytes());
  e[0] = pick("type", 0, 14) as u8; e[1] = 0;
  let mut f = start(2);
  le2(&mut f, 0x0100); le2(&mut f, 3); le4(&mut f, 1); le4(&mut f, 7);
  le2(&mut f, TiffCommonTag::SubIFDs.into()); f.extend_from_slice(&e);
  le4(&mut f, 0);
  let s = f.len() as u32;
  // a readable directory the pointer may hit
  le2(&mut f, 1); le2(&mut f, 0x0112); le2(&mut f, 4); le4(&mut f, 1); le4(&mut f, 5); le4(&mut f, 0);
  let r = match open(&f, Some(2)) { Some(r) => r, None => { check!(false); return } };
  check!(r.root_ifd().get_entry(0x100u16).map(|e| e.force_u16(0)) == Some(7));
  let direct = e[..6] == [4, 0, 1, 0, 0, 0] && u32::from_le_bytes([e[6], e[7], e[8], e[9]]) == s;
  let sub = r.root_ifd().get_sub_ifd(TiffCommonTag::SubIFDs);
  if direct { check!(sub.and_then(|x| x.get_entry(0x112u16)).map(|e| e.force_u32(0)) == Some(5)); }
  reach(1);
});
// arbitrary next-directory pointers: every chain ends
entry!(c06_chain, {
  limits();
  let (a, b) = (any_u32("next"), any_u32("next2"));
  let mut f = start(1);
  le2(&mut f, 0x0100); le2(&mut f, 3); le4(&mut f, 1); le4(&mut f, 7); le4(&mut f, a);
  le2(&mut f, 1); le2(&mut f, 0x0101); le2(&mut f, 3); le4(&mut f, 1); le4(&mut f, 9); le4(&mut f, b);
  let r = open(&f, None);
  if a == 0 { check!(r.as_ref().map(|r| r.chains().len()) == Some(1)); }
  if a == 26 && b == 0 { check!(r.as_ref().map(|r| r.chains().len()) == Some(2)); }
  if let Some(r) = r { check!(r.chains().len() <= f.len()); check!(r.root_ifd().get_entry(0x100u16).map(|e| e.force_u16(0)) == Some(7)); }
  reach(1);
});
// same for the single-root reader
entry!(c06_root, {
  limits();
  let (a, h) = (any_u32("next"), any_u32("first"));
  let mut f = vec![0x49, 0x49, 42, 0]; le4(&mut f, h); le2(&mut f, 1);
  le2(&mut f, 0x0100); le2(&mut f, 3); le4(&mut f, 1); le4(&mut f, 7); le4(&mut f, a);
  match IFD::new_root(&mut Cursor::new(&f), 0) { Ok(r) => { check!(r.chain.len() <= 11); if h == 8 { check!(r.get_entry(0x100u16).map(|e| e.force_u16(0)) == Some(7)); } } Err(_) => { check!(!(h == 8 && a == 0)); } }
  reach(1);
});
// strips and tiles: the described bytes or an error
fn image_ifd(n: usize, tags: [u16; 2], o: &[u32], s: &[u32]) -> IFD {
  let mut i = IFD::default();
  i.entries.insert(tags[0], Entry { tag: tags[0], value: Value::Long(o[..n].to_vec()), embedded: Some(0) });
  i.entries.insert(tags[1], Entry { tag: tags[1], value: Value::Long(s[..n].to_vec()), embedded: Some(0) });
  i
}
entry!(c06_strips, {
  let n = pick("n", 0, 2); let (o, s): ([u32; 2], [u32; 2]) = (u32s("off"), u32s("len"));
  let data: Vec<u8> = (0..12u8).collect();
  let src = RawSource::new_from_slice(&data);
  let ifd = image_ifd(n, [TiffCommonTag::StripOffsets.into(), TiffCommonTag::StripByteCounts.into()], &o, &s);
  let fits = (0..n).all(|i| o[i] as u64 + s[i] as u64 <= 12);
  match ifd.strip_data(&src) {
    Ok((v, cont)) => {
      check!(fits && v.len() == n);
      for i in 0..n { check!(v[i].len() == s[i] as usize); if conc((s[i] > 0) as usize) == 1 { check!(v[i][0] as u32 == o[i]); } }
      if let Some(c) = cont { let t: usize = (0..n).map(|i| s[i] as usize).sum(); check!(c.len() == t); if conc((t > 0) as usize) == 1 { check!(c[0] as u32 == o[0]); } check!(n < 2 || o[1] == o[0] + s[0]); }
      else { check!(n == 2 && o[1] != o[0] + s[0]); }
    }
    Err(_) => check!(!fits || n == 0),
  }
  if ifd.contains_singlestrip_image() { match ifd.singlestrip_data_rawsource(&src) { Ok(x) => check!(fits && x.len() == s[0] as usize), Err(_) => check!(!fits) } }
  reach(1);
});
entry!(c06_tiles, {
  let n = pick("n", 0, 2); let (o, s): ([u32; 2], [u32; 2]) = (u32s("off"), u32s("len"));
  let data: Vec<u8> = (0..12u8).collect();
  let src = RawSource::new_from_slice(&data);
  let ifd = image_ifd(n, [TiffCommonTag::TileOffsets.into(), TiffCommonTag::TileByteCounts.into()], &o, &s);
  let fits = (0..n).all(|i| o[i] as u64 + s[i] as u64 <= 12);
  match ifd.tile_data(&src) {
    Ok(v) => { check!(fits && v.len() == n); for i in 0..n { check!(v[i].len() == s[i] as usize); if conc((s[i] > 0) as usize) == 1 { check!(v[i][0] as u32 == o[i]); } } }
    Err(_) => check!(!fits),
  }
  reach(1);
});
// file views: exactly the requested bytes, padded with zeros where promised, an error outside the file
entry!(c06_views, {
  limits();
  let n = pick("len", 0, 20); let data: Vec<u8> = (1..=n as u8).collect();
  let src = RawSource::new_from_slice(&data);
  let (o, s) = (any_u64("off"), any_u64("size"));
  let inside = o <= n as u64 && s <= n as u64 - o;
  match src.subview(o, s) { Ok(x) => { check!(inside && x.len() as u64 == s); if conc((s > 0) as usize) == 1 { check!(x[0] as u64 == o + 1 && x[s as usize - 1] as u64 == o + s); } } Err(_) => check!(!inside) }
  match src.subview_until_eof(o) { Ok(x) => check!(o <= n as u64 && x.len() as u64 == n as u64 - o), Err(_) => check!(o > n as u64) }
  reach(1);
});
entry!(c06_padded, {
  limits();
  let n = pick("len", 0, 20); let data: Vec<u8> = (1..=n as u8).collect();
  let src = RawSource::new_from_slice(&data);
  let (o, s) = (any_u64("off"), any_u64("size"));
  let inside = o <= n as u64 && s <= n as u64 - o;
  match src.subview_padded(o, s) {
    Ok(x) => { check!(inside); let (o, s) = (conc(o as usize), conc(s as usize)); check!(x[..s] == data[o..o + s]); check!(x.size() == s && x.len() == s + 16); for i in s..s + 16 { check!(x[i] == if o + i < n { data[o + i] } else { 0 } || x[i] == 0); } }
    Err(_) => check!(!inside),
  }
  match src.subview_until_eof_padded(o) {
    Ok(x) => { check!(o < n as u64); let o = conc(o as usize); check!(x.size() == n - o && x.len() == n - o + 16 && x[..n - o] == data[o..]); }
    Err(_) => check!(o >= n as u64),
  }
  reach(1);
});
// maker notes of 0..=14 bytes, arbitrary or with a known signature
entry!(c06_maker, {
  limits();
  let n = [0, 3, 4, 6, 7, 8, 9, 10, 11, 12, 14][pick("n", 0, 10)]; let sig = pick("sig", 0, 9); if sig == 0 && n > 10 { return; }
  let mut d = vec8("d", n);
  let s: &[u8] = [&b""[..], b"OLYMPUS\0", b"OLYMP\0", b"EPSON\0", b"FUJIFILM", b"SONY DSC ", b"AOC\0", b"PENTAX \0", b"Nikon\0\x02", b"II"][sig];
  let k = s.len().min(n); d[..k].copy_from_slice(&s[..k]);
  let off = 8u32;
  let mut i = IFD::default();
  let t: u16 = rawler::tags::ExifTag::MakerNotes.into();
  i.entries.insert(t, Entry { tag: t, value: Value::Undefined(d.clone()), embedded: Some(off) });
  let mut f = vec![0u8; off as usize]; f.extend_from_slice(&d);
  for m in [OffsetMode::Absolute, OffsetMode::RelativeToIFD] {
    match i.parse_makernote(&mut Cursor::new(&f), m, &[]) { Ok(x) => { check!(x.is_some()); } Err(_) => {} }
  }
  reach(1);
});
