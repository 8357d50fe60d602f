//! Raw image data of files from elsewhere: strips and tiles of every layout,
//! byte order and sample format are decoded to the samples they hold.
use crate::sym::*;
use crate::*;
use rawler::decoders::plain_image_from_ifd;
use rawler::formats::tiff::reader::TiffReader;
use rawler::formats::tiff::GenericTiffReader;
use rawler::ljpeg92::LjpegCompressor;
use rawler::rawimage::RawImageData;
use rawler::rawsource::RawSource;

/// A TIFF file with one directory; values of type SHORT (3) or LONG (4); `place` gives the offset of each data block.
struct File { be: bool, tags: Vec<(u16, u16, Vec<u32>)>, data: Vec<Vec<u8>> }
impl File {
  fn p16(&self, o: &mut Vec<u8>, v: u16) { o.extend_from_slice(&if self.be { v.to_be_bytes() } else { v.to_le_bytes() }); }
  fn p32(&self, o: &mut Vec<u8>, v: u32) { o.extend_from_slice(&if self.be { v.to_be_bytes() } else { v.to_le_bytes() }); }
  /// `order`: 0 blocks in order without gaps, 1 with gaps, 2 in reverse order, 3 without gaps, neighbours swapped except the first and last
  fn build(mut self, order: usize, offs: u16, lens: u16) -> Vec<u8> {
    let n = self.data.len();
    let mut o: Vec<u8> = if self.be { vec![0x4d, 0x4d, 0, 42, 0, 0, 0, 0] } else { vec![0x49, 0x49, 42, 0, 0, 0, 0, 0] };
    let mut pos = vec![0u32; n];
    let mut idx: Vec<usize> = if order == 2 { (0..n).rev().collect() } else { (0..n).collect() };
    if order == 3 { let mut i = 1; while i + 2 < n { idx.swap(i, i + 1); i += 2; } }
    for i in idx { pos[i] = o.len() as u32; o.extend_from_slice(&self.data[i]); if order == 1 { o.extend_from_slice(&[0xee; 3]); } }
    let l = self.data.iter().map(|d| d.len() as u32).collect();
    self.tags.push((offs, 4, pos)); self.tags.push((lens, 4, l));
    self.tags.sort_by_key(|t| t.0);
    while o.len() % 2 != 0 { o.push(0); }
    let mut es = Vec::new();
    for (t, ty, v) in &self.tags {
      let mut b = Vec::new(); for x in v { if *ty == 3 { self.p16(&mut b, *x as u16) } else { self.p32(&mut b, *x) } }
      let mut e = Vec::new(); self.p16(&mut e, *t); self.p16(&mut e, *ty); self.p32(&mut e, v.len() as u32);
      if b.len() <= 4 { b.resize(4, 0); e.extend_from_slice(&b); } else { self.p32(&mut e, o.len() as u32); o.extend_from_slice(&b); }
      es.push(e);
    }
    while o.len() % 2 != 0 { o.push(0); }
    let at = o.len() as u32; let mut h = Vec::new(); self.p32(&mut h, at); o[4..8].copy_from_slice(&h);
    let cnt = es.len() as u16; let mut x = Vec::new(); self.p16(&mut x, cnt); for e in es { x.extend_from_slice(&e); } self.p32(&mut x, 0);
    o.extend_from_slice(&x); o
  }
}
fn decode(f: &[u8]) -> rawler::Result<RawImageData> {
  let src = RawSource::new_from_slice(f);
  let tiff = GenericTiffReader::new(&mut src.reader(), 0, 0, None, &[]).unwrap();
  plain_image_from_ifd(tiff.root_ifd(), &src)
}
fn base(be: bool, w: usize, h: usize, cpp: usize, bits: usize, compr: u32, fmt: u32) -> File {
  File { be, tags: vec![(256, 4, vec![w as u32]), (257, 4, vec![h as u32]), (258, 3, vec![bits as u32; cpp]), (259, 3, vec![compr]), (262, 3, vec![if cpp == 1 { 32803 } else { 34892 }]), (277, 3, vec![cpp as u32]), (339, 3, vec![fmt; cpp])], data: vec![] }
}
/// sample `i` of a row of `bits`-bit samples starting at byte `b`
fn sample(d: &[u8], be: bool, bits: usize, i: usize) -> u16 {
  if bits == 16 { return if be { u16::from_be_bytes([d[2 * i], d[2 * i + 1]]) } else { u16::from_le_bytes([d[2 * i], d[2 * i + 1]]) }; }
  let mut v = 0u16; for k in 0..bits { let p = i * bits + k; v = (v << 1) | ((d[p / 8] >> (7 - p % 8)) & 1) as u16; } v
}
fn ints(r: rawler::Result<RawImageData>) -> Option<Vec<u16>> { match r { Ok(RawImageData::Integer(d)) => Some(d), _ => None } }
fn floats(r: rawler::Result<RawImageData>) -> Option<Vec<f32>> { match r { Ok(RawImageData::Float(d)) => Some(d), _ => None } }

/// strips of `rps` rows: -> (file, sample(row, col) reference)
fn strips(be: bool, w: usize, h: usize, cpp: usize, bits: usize, fmt: u32, rps: usize, order: usize) -> (Vec<u8>, Vec<Vec<u8>>) {
  let line = w * cpp * bits / 8;
  let all = vec8("data", line * h);
  let mut f = base(be, w, h, cpp, bits, 1, fmt);
  f.tags.push((278, 4, vec![rps as u32]));
  for c in all.chunks(line * rps) { f.data.push(c.to_vec()); }
  (f.build(order, 273, 279), all.chunks(line).map(|c| c.to_vec()).collect())
}
fn tiles(be: bool, w: usize, h: usize, cpp: usize, bits: usize, fmt: u32, tw: usize, th: usize, order: usize) -> (Vec<u8>, Vec<Vec<u8>>) {
  let (tc, tr) = (w.div_ceil(tw), h.div_ceil(th)); let tl = tw * cpp * bits / 8;
  let mut f = base(be, w, h, cpp, bits, 1, fmt);
  f.tags.push((322, 3, vec![tw as u32])); f.tags.push((323, 3, vec![th as u32]));
  let all = vec8("data", tl * th * tc * tr);
  let mut rows = vec![vec![]; tr * th];
  for (i, t) in all.chunks(tl * th).enumerate() { f.data.push(t.to_vec()); for (y, l) in t.chunks(tl).enumerate() { rows[(i / tc) * th + y].extend_from_slice(l); } }
  rows.truncate(h);
  (f.build(order, 324, 325), rows)
}
fn check16(r: rawler::Result<RawImageData>, rows: &[Vec<u8>], n: usize, be: bool, bits: usize) {
  let d = match ints(r) { Some(d) => d, None => { check!(false); return } };
  check!(d.len() == n * rows.len());
  let mut ok = true;
  for (y, r) in rows.iter().enumerate() { for x in 0..n { ok &= d[y * n + x] == sample(r, be, bits, x); } }
  check!(ok); reach(1);
}
// uncompressed strips: 8 pixels x 1..4 rows, bit depths 8..16, both byte orders, 1..4 or 9 rows per strip, contiguous, with gaps, in reverse order or with inner blocks swapped, every content
entry!(c09_strips, { let be = pick("be", 0, 1) == 1; let bits = pick("bits", 8, 16); let h = pick("h", 1, 4); let rps = [1, 2, 3, 4, 9][pick("rps", 0, 4)]; let o = pick("o", 0, 3);
  let (f, rows) = strips(be, 8, h, 1, bits, 1, rps, o); check16(decode(&f), &rows, 8, be, bits); });
// uncompressed strips with three components, 4 pixels wide
entry!(c09_strips3, { let be = pick("be", 0, 1) == 1; let bits = [8, 10, 12, 14, 16][pick("bits", 0, 4)]; let h = pick("h", 1, 3); let rps = pick("rps", 1, 3); let o = pick("o", 0, 3);
  let (f, rows) = strips(be, 4, h, 3, bits, 1, rps, o); check16(decode(&f), &rows, 12, be, bits); });
// uncompressed tiles of 4x2, 8x1 or 3x2 samples (16 bit) and 8x2 (8..15 bit): images 1..9 x 1..5, one component, every content
entry!(c09_tiles, { let be = pick("be", 0, 1) == 1; let (tw, th) = [(4, 2), (8, 1), (3, 2)][pick("t", 0, 2)]; let (w, h) = (pick("w", 1, 9), pick("h", 1, 5)); let o = pick("o", 0, 3);
  let (f, rows) = tiles(be, w, h, 1, 16, 1, tw, th, o); check16(decode(&f), &rows, w, be, 16); });
entry!(c09_tilesb, { let be = pick("be", 0, 1) == 1; let bits = pick("bits", 8, 15); let (w, h) = ([3, 8, 9, 16][pick("w", 0, 3)], pick("h", 1, 3));
  let (f, rows) = tiles(be, w, h, 1, bits, 1, 8, 2, 0); check16(decode(&f), &rows, w, be, bits); });
// uncompressed tiles with three components, 2x2 tiles, images 1..5 x 1..3
entry!(c09_tiles3, { let be = pick("be", 0, 1) == 1; let (w, h) = (pick("w", 1, 5), pick("h", 1, 3)); let o = pick("o", 0, 3);
  let (f, rows) = tiles(be, w, h, 3, 16, 1, 2, 2, o); check16(decode(&f), &rows, w * 3, be, 16); });
/// IEEE-like value with e exponent and m fraction bits -> bits of the f32 with the same value
fn widen(v: u32, e: u32, m: u32) -> u32 {
  let s = (v >> (e + m)) & 1; let ex = (v >> m) & ((1 << e) - 1); let f = v & ((1 << m) - 1); let bias = (1 << (e - 1)) - 1;
  if e == 8 { return v; }
  if ex == (1 << e) - 1 { return s << 31 | 0xff << 23 | f << (23 - m); }
  if ex != 0 { return s << 31 | (ex + 127 - bias) << 23 | f << (23 - m); }
  if f == 0 { return s << 31; }
  let lz = f.leading_zeros() - (32 - m); // f = 1.xxx * 2^(m-1-lz)
  s << 31 | (127 - bias - lz) << 23 | ((f << (lz + 1)) & ((1 << m) - 1)) << (23 - m)
}
fn fsample(d: &[u8], be: bool, bits: usize, i: usize) -> u32 {
  let n = bits / 8; let b = &d[i * n..(i + 1) * n]; let mut v = 0u32;
  for k in 0..n { v = v << 8 | b[if be { k } else { n - 1 - k }] as u32; }
  match bits { 16 => widen(v, 5, 10), 24 => widen(v, 7, 16), _ => v }
}
fn nan(b: u32) -> bool { b & 0x7f800000 == 0x7f800000 && b & 0x7fffff != 0 }
fn check32(r: rawler::Result<RawImageData>, rows: &[Vec<u8>], n: usize, be: bool, bits: usize) {
  let d = match floats(r) { Some(d) => d, None => { check!(false); return } };
  check!(d.len() == n * rows.len());
  let mut ok = true;
  for (y, r) in rows.iter().enumerate() { for x in 0..n { let (a, b) = (d[y * n + x].to_bits(), fsample(r, be, bits, x)); ok &= a == b || (nan(a) & nan(b)); } }
  check!(ok); reach(1);
}
/// float sample bytes: one arbitrary sample among fixed ones
fn fdata(n: usize, bits: usize) -> Vec<u8> {
  let k = bits / 8; let mut d: Vec<u8> = (0..n * k).map(|i| (i * 29 + 3) as u8).collect();
  let at = [0, n / 2, n - 1][pick("at", 0, 2)]; let s = vec8("s", k); d[at * k..(at + 1) * k].copy_from_slice(&s); d
}
// floating point strips of 16, 24 and 32 bits, 2x2 samples, both byte orders, every bit pattern of any of three samples (infinities, denormals, NaN)
entry!(c09_float, { let be = pick("be", 0, 1) == 1; let bits = [16, 24, 32][pick("bits", 0, 2)]; let rps = pick("rps", 1, 2);
  let all = fdata(4, bits); let line = 2 * bits / 8;
  let mut f = base(be, 2, 2, 1, bits, 1, 3); f.tags.push((278, 4, vec![rps as u32]));
  for c in all.chunks(line * rps) { f.data.push(c.to_vec()); }
  let rows: Vec<Vec<u8>> = all.chunks(line).map(|c| c.to_vec()).collect();
  check32(decode(&f.build(1, 273, 279)), &rows, 2, be, bits); });
// floating point tiles of 16, 24 and 32 bits, two 2x1 tiles, 3x1 image, one and three components, every bit pattern of any of three samples
entry!(c09_floattile, { let be = pick("be", 0, 1) == 1; let bits = [16, 24, 32][pick("bits", 0, 2)]; let cpp = [1, 3][pick("cpp", 0, 1)];
  let all = fdata(4 * cpp, bits); let tl = 2 * cpp * bits / 8;
  let mut f = base(be, 3, 1, cpp, bits, 1, 3); f.tags.push((322, 3, vec![2])); f.tags.push((323, 3, vec![1]));
  for c in all.chunks(tl) { f.data.push(c.to_vec()); }
  check32(decode(&f.build(0, 324, 325)), &[all], 3 * cpp, be, bits); });
/// zlib stream holding `d` in one stored block
fn zlib(d: &[u8]) -> Vec<u8> {
  let mut o = vec![0x78, 0x01, 1]; o.extend_from_slice(&(d.len() as u16).to_le_bytes()); o.extend_from_slice(&(!(d.len() as u16)).to_le_bytes()); o.extend_from_slice(d);
  let (mut a, mut b) = (1u32, 0u32); for x in d { a = (a + *x as u32) % 65521; b = (b + a) % 65521; }
  o.extend_from_slice(&(b << 16 | a).to_be_bytes()); o
}
// deflated floating point tiles with predictors 3, 34894 and 34895: 4x2 tile, 16, 24, 32 bits, one and three components; any one of three encoded bytes takes every value
entry!(c09_deflate, {
  let bits = [16, 24, 32][pick("bits", 0, 2)]; let pi = pick("pred", 0, 2); let cpp = [1, 3][pick("cpp", 0, 1)];
  let (tw, th) = (4, 2); let n = bits / 8; let line = tw * cpp * n; let fac = cpp * [1, 2, 4][pi];
  let mut enc: Vec<u8> = (0..line * th).map(|i| (i * 37 + 11) as u8).collect();
  let at = [0, line - 1, line + 1][pick("at", 0, 2)]; enc[at] = any_u8("s");
  let mut f = base(pick("be", 0, 1) == 1, tw, th, cpp, bits, 8, 3);
  f.tags.push((317, 3, vec![[3, 34894, 34895][pi]])); f.tags.push((322, 3, vec![tw as u32])); f.tags.push((323, 3, vec![th as u32]));
  f.data.push(zlib(&enc));
  // undo the byte differences, then the byte planes (most significant first)
  let mut rows = Vec::new();
  for y in 0..th { let mut l = enc[y * line..(y + 1) * line].to_vec(); for i in fac..line { l[i] = l[i].wrapping_add(l[i - fac]); }
    let mut r = vec![0; line]; for i in 0..tw * cpp { for k in 0..n { r[i * n + k] = l[k * tw * cpp + i]; } } rows.push(r); }
  check32(decode(&f.build(0, 324, 325)), &rows, tw * cpp, true, bits);
});
/// lossless JPEG blocks of bw x bh pixels; sample background with one symbolic sample
fn lj(tile: bool, w: usize, h: usize, cpp: usize, bw: usize, bh: usize, order: usize) {
  let (tc, tr) = (w.div_ceil(bw), h.div_ceil(bh));
  let mut img: Vec<u16> = (0..w * h * cpp).map(|i| (100 + i / cpp / 3 + (i % cpp) * 5) as u16).collect();
  let at = [0, w * cpp - 1, w * h * cpp - 1][pick("at", 0, 2)]; let s = 96 + (any_u8("s") & 31) as u16; img[at] = s;
  let mut f = base(pick("be", 0, 1) == 1, w, h, cpp, 14, 7, 1);
  if tile { f.tags.push((322, 3, vec![bw as u32])); f.tags.push((323, 3, vec![bh as u32])); } else { f.tags.push((278, 4, vec![bh as u32])); }
  for t in 0..tc * tr {
    let mut d = Vec::new();
    let hh = if tile { bh } else { bh.min(h - t * bh) };
    for y in 0..hh { for x in 0..bw * cpp { let (px, py) = ((t % tc) * bw + x / cpp, (t / tc) * bh + y); d.push(if px < w && py < h { img[(py * w + px) * cpp + x % cpp] } else { 77 }); } }
    f.data.push(LjpegCompressor::new(&d, bw, hh, cpp, 14, 1, 0, 0).unwrap().encode().unwrap());
  }
  let (a, b) = if tile { (324, 325) } else { (273, 279) };
  let d = match ints(decode(&f.build(order, a, b))) { Some(d) => d, None => { check!(false); return } };
  check!(d.len() == img.len()); let mut ok = true; for i in 0..img.len() { ok &= d[i] == img[i]; } check!(ok); reach(1);
}
// lossless JPEG tiles (4x2 pixels, images 1..9 x 1..5, one and three components) with one sample of 32 values at three places, blocks stored in reverse order
entry!(c09_ljtiles, { let (w, h) = [(4, 2), (5, 3), (9, 1), (1, 5), (3, 1)][pick("s", 0, 4)]; lj(true, w, h, [1, 3][pick("cpp", 0, 1)], 4, 2, 2); });
// lossless JPEG strips of 1..3 rows
entry!(c09_ljstrips, { let (w, h) = [(4, 2), (5, 3), (2, 5)][pick("s", 0, 2)]; lj(false, w, h, [1, 3][pick("cpp", 0, 1)], w, pick("rps", 1, 3), pick("o", 0, 1) * 2); });
// interleaved (2x2) images: every content of 2x2, 4x2, 4x4 and 6x4 16-bit images
entry!(c09_interleave, {
  let (w, h) = [(2, 2), (4, 2), (4, 4), (6, 4)][pick("s", 0, 3)];
  let all = vec8("data", w * h * 2);
  let mut f = base(false, w, h, 1, 16, 1, 1);
  f.tags.push((278, 4, vec![h as u32])); f.tags.push((50975, 3, vec![2])); f.tags.push((52547, 3, vec![2]));
  f.data.push(all.clone());
  let d = match ints(decode(&f.build(0, 273, 279))) { Some(d) => d, None => { check!(false); return } };
  check!(d.len() == w * h);
  let mut ok = true;
  // the fields of even/odd rows and columns are stored as the four quadrants
  for y in 0..h { for x in 0..w { let (sy, sx) = (y / 2 + (y % 2) * (h / 2), x / 2 + (x % 2) * (w / 2)); ok &= d[y * w + x] == sample(&all, false, 16, sy * w + sx); } }
  check!(ok); reach(1);
});
// strips and tiles that hold one byte less than the image needs, or a table with one entry too few, are errors
entry!(c09_short, {
  let tile = pick("tile", 0, 1) == 1; let bits = [8, 12, 16, 14][pick("bits", 0, 3)]; let how = pick("how", 0, 1);
  let mut f = base(pick("be", 0, 1) == 1, 8, 4, 1, bits, 1, 1);
  if tile { f.tags.push((322, 3, vec![8])); f.tags.push((323, 3, vec![2])); } else { f.tags.push((278, 4, vec![2])); }
  let d = vec8("data", 8 * 2 * bits / 8); f.data.push(d.clone()); if how == 0 { f.data.push(d[..d.len() - 1].to_vec()); }
  let (a, b) = if tile { (324, 325) } else { (273, 279) };
  let r = decode(&f.build(1, a, b)); check!(r.is_err()); reach(1);
});
