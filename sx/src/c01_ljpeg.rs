//! Lossless JPEG: encode -> decode is the identity, and the stream is what an
//! independent T.81 decoder reads.
use crate::sym::*;
use crate::*;
use rawler::decompressors::ljpeg::LjpegDecompressor;
use rawler::ljpeg92::LjpegCompressor;

fn roundtrip(px: &[u16], w: usize, h: usize, comps: usize, bd: u8, pred: u8, pad: usize) -> Vec<u8> {
  let enc = LjpegCompressor::new(px, w, h, comps, bd, pred, 0, pad).unwrap().encode().unwrap();
  let dec = LjpegDecompressor::new(&enc).unwrap();
  check!(dec.width() == w * comps && dec.height() == h && dec.components() == comps);
  let n = w * comps;
  let mut out = vec![0u16; n * h];
  dec.decode(&mut out, 0, n, n, h, false).unwrap();
  let line = (w + pad) * comps;
  let mut same = true;
  for r in 0..h { for c in 0..n { same &= out[r * n + c] == px[r * line + c]; } }
  note16(&out);
  check!(same);
  reach(1);
  enc
}

/// A minimal T.81 (lossless process) decoder, written from the standard.
fn ref_decode(d: &[u8]) -> Option<(usize, usize, usize, Vec<u16>)> {
  let be = |i: usize| ((d[i] as usize) << 8) | d[i + 1] as usize;
  if be(0) != 0xffd8 { return None; }
  let (mut p, mut w, mut h, mut nc, mut prec) = (2usize, 0usize, 0usize, 0usize, 0usize);
  let mut lens = [[0usize; 17]; 4];
  let mut vals = [[0u8; 32]; 4];
  let mut ids = [0u8; 4];
  let mut tbl = [0usize; 4];
  let pred;
  loop {
    let m = be(p);
    let l = be(p + 2);
    let s = p + 4;
    match m {
      0xffc3 => { prec = d[s] as usize; h = be(s + 1); w = be(s + 3); nc = d[s + 5] as usize; if l != 8 + 3 * nc { return None; } for c in 0..nc { ids[c] = d[s + 6 + 3 * c]; if d[s + 7 + 3 * c] != 0x11 { return None; } } }
      0xffc4 => {
        let mut q = s;
        while q < p + 2 + l {
          let t = d[q] as usize; if t > 3 { return None; }
          let mut n = 0; for i in 1..=16 { lens[t][i] = d[q + i] as usize; n += lens[t][i]; }
          if n > 17 { return None; }
          for i in 0..n { vals[t][i] = d[q + 17 + i]; }
          q += 17 + n;
        }
        if q != p + 2 + l { return None; }
      }
      0xffda => {
        let n = d[s] as usize; if n != nc || l != 6 + 2 * n { return None; }
        for c in 0..n { if d[s + 1 + 2 * c] != ids[c] { return None; } tbl[c] = (d[s + 2 + 2 * c] >> 4) as usize; }
        pred = d[s + 1 + 2 * n];
        p += 2 + l;
        break;
      }
      _ => return None,
    }
    p += 2 + l;
  }
  let mut out = vec![0u16; w * h * nc];
  let (mut bitpos, mut cur) = (8usize, 0u8);
  let mut next = |p: &mut usize| -> Option<u32> {
    if bitpos == 8 { cur = d[*p]; *p += 1; if cur == 0xff { if d[*p] != 0 { return None; } *p += 1; } bitpos = 0; }
    bitpos += 1;
    Some(((cur >> (8 - bitpos)) & 1) as u32)
  };
  for r in 0..h { for x in 0..w { for c in 0..nc {
    let t = tbl[c];
    // canonical code: length by length
    let (mut code, mut first, mut idx) = (0usize, 0usize, 0usize);
    let mut ssss = None;
    for len in 1..=16 {
      code = (code << 1) | next(&mut p)? as usize;
      first <<= 1;
      let cnt = lens[t][len];
      if code < first + cnt { ssss = Some(vals[t][idx + code - first]); break; }
      first += cnt; idx += cnt;
    }
    let ssss = conc(ssss? as usize);
    let diff: i32 = if ssss == 0 { 0 } else if ssss == 16 { 32768 } else {
      let mut v = 0i32; for _ in 0..ssss { v = (v << 1) | next(&mut p)? as i32; }
      if v < (1 << (ssss - 1)) { v + 1 - (1 << ssss) } else { v }
    };
    let at = |rr: usize, xx: usize| out[(rr * w + xx) * nc + c] as i32;
    let px = if r == 0 && x == 0 { 1 << (prec - 1) } else if r == 0 { at(0, x - 1) } else if x == 0 { at(r - 1, 0) } else {
      let (ra, rb, rc) = (at(r, x - 1), at(r - 1, x), at(r - 1, x - 1));
      match pred { 1 => ra, 2 => rb, 3 => rc, 4 => ra + rb - rc, 5 => ra + ((rb - rc) >> 1), 6 => rb + ((ra - rc) >> 1), 7 => (ra + rb) >> 1, _ => return None }
    };
    out[(r * w + x) * nc + c] = (px + diff) as u16;
  } } }
  if be(p) != 0xffd9 || p + 2 != d.len() { return None; }
  Some((w, h, nc, out))
}
fn conforms(enc: &[u8], px: &[u16], w: usize, h: usize, comps: usize) {
  let (rw, rh, rc, out) = match ref_decode(enc) { Some(x) => x, None => { check!(false); return } };
  check!(rw == w && rh == h && rc == comps);
  check!(out == px);
}


/// Reference entropy coder (T.81 annex H), predictor 1, one fixed table.
fn ref_encode(px: &[u16], w: usize, h: usize, nc: usize, prec: usize, lens: &[u8; 16], vals: &[u8]) -> Vec<u8> {
  let mut code = [(0u32, 0u32); 17];
  let (mut c, mut k) = (0u32, 0);
  for l in 0..16 { for _ in 0..lens[l] { code[vals[k] as usize] = (c, l as u32 + 1); c += 1; k += 1; } c <<= 1; }
  let mut o: Vec<u8> = vec![0xff, 0xd8, 0xff, 0xc4, 0, (19 + k) as u8, 0];
  o.extend_from_slice(lens); o.extend_from_slice(&vals[..k]);
  o.extend_from_slice(&[0xff, 0xc3, 0, (8 + 3 * nc) as u8, prec as u8, 0, h as u8, 0, w as u8, nc as u8]);
  for i in 0..nc { o.extend_from_slice(&[i as u8, 0x11, 0]); }
  o.extend_from_slice(&[0xff, 0xda, 0, (6 + 2 * nc) as u8, nc as u8]);
  for i in 0..nc { o.extend_from_slice(&[i as u8, 0]); }
  o.extend_from_slice(&[1, 0, 0]);
  let (mut acc, mut n) = (0u8, 0);
  let mut put = |o: &mut Vec<u8>, v: u32, l: u32| for i in (0..l).rev() { acc = (acc << 1) | ((v >> i) & 1) as u8; n += 1; if n == 8 { o.push(acc); if conc((acc == 0xff) as usize) == 1 { o.push(0); } n = 0; acc = 0; } };
  for r in 0..h { for x in 0..w { for c in 0..nc {
    let at = |rr: usize, xx: usize| px[(rr * w + xx) * nc + c];
    let p = if r == 0 && x == 0 { 1u16 << (prec - 1) } else if x == 0 { at(r - 1, 0) } else { at(r, x - 1) };
    let d = at(r, x).wrapping_sub(p);
    let (neg, mag) = if d == 0x8000 { (false, 0x8000u32) } else if d & 0x8000 != 0 { (true, d.wrapping_neg() as u32) } else { (false, d as u32) };
    let s = conc((32 - mag.leading_zeros()) as usize) as u32;
    put(&mut o, code[s as usize].0, code[s as usize].1);
    if s != 0 && s != 16 { put(&mut o, if neg { (d as u32).wrapping_sub(1) & ((1 << s) - 1) } else { mag }, s); }
  } } }
  while n != 0 { acc = (acc << 1) | 1; n += 1; if n == 8 { o.push(acc); if conc((acc == 0xff) as usize) == 1 { o.push(0); } n = 0; } }
  o.extend_from_slice(&[0xff, 0xd9]);
  o
}

fn bg(i: usize, seed: usize) -> u16 { [(i as u16).wrapping_mul(0x3b1d) ^ 0x0a5a, if (i ^ (i >> 1)) & 1 == 0 { 0xffff } else { i as u16 }][seed & 1] }
fn img(n: usize, seed: usize) -> Vec<u16> { (0..n).map(|i| bg(i, seed)).collect() }

macro_rules! preds { ($($p:literal $o:ident $a:ident $b:ident $c:ident),*) => { $(
  // any one sample of a 2x2 image takes any value, two backgrounds; the stream is also read by the independent decoder
  entry!($o, {
    let mut px = img(4, pick("bg", 0, 1)); let at = pick("at", 0, 3);
    px[at] = any_u16("px");
    let e = roundtrip(&px, 2, 2, 1, 16, $p, 0);
    conforms(&e, &px, 2, 2, 1);
  });
  // two full-range symbolic samples next to fixed neighbours
  entry!($a, { let s: [u16; 2] = u16s("px"); let (b, c) = [(0xffffu16, 0u16), (0x0102, 0xf0f1)][pick("nb", 0, 1)]; roundtrip(&[c, b, s[0], s[1]], 2, 2, 1, 16, $p, 0); });
  // 3 full-range ones
  entry!($b, { let s: [u16; 3] = u16s("px"); roundtrip(&[0x8000, s[0], s[1], s[2]], 2, 2, 1, 16, $p, 0); });
  // any one sample of a 2x2 image with 1..4 components arbitrary, others fixed
  entry!($c, {
    let comps = pick("comps", 1, 4);
    let n = 4 * comps;
    let mut px = img(n, 0);
    let at = pick("at", 0, n - 1);
    px[at] = any_u16("px");
    roundtrip(&px, 2, 2, comps, 16, $p, 0);
  });
)* }; }
preds!(1 c01_one_p1 c01_two_p1 c01_three_p1 c01_comp_p1, 2 c01_one_p2 c01_two_p2 c01_three_p2 c01_comp_p2, 3 c01_one_p3 c01_two_p3 c01_three_p3 c01_comp_p3, 4 c01_one_p4 c01_two_p4 c01_three_p4 c01_comp_p4,
  5 c01_one_p5 c01_two_p5 c01_three_p5 c01_comp_p5, 6 c01_one_p6 c01_two_p6 c01_three_p6 c01_comp_p6, 7 c01_one_p7 c01_two_p7 c01_three_p7 c01_comp_p7);

// multi-component images: component stride, per-component tables
entry!(c01_comps, {
  let comps = pick("comps", 2, 4); let pred = pick("pred", 1, 7) as u8;
  let mut px = img(4 * comps, 0);
  let at = 4 * comps - 1 - (pred as usize % comps);
  px[at] = any_u16("px");
  roundtrip(&px, 2, 2, comps, 16, pred, 0);
});
// every supported precision, several predictors
entry!(c01_depth, {
  let bd = pick("bd", 10, 16);
  let pred = [1u8, 6][pick("pred", 0, 1)];
  let m = ((1u32 << bd) - 1) as u16;
  let s: [u16; 1] = u16s("px");
  assume(s[0] <= m);
  roundtrip(&[m, s[0], 0, m / 3], 2, 2, 1, bd as u8, pred, 0);
});
// row padding of the source buffer is skipped, shapes from 1x1 to 3x3
entry!(c01_shape, {
  let w = pick("w", 1, 3); let h = pick("h", 1, 3); let comps = pick("comps", 1, 2); let pad = pick("pad", 0, 1);
  let pred = ((w + 3 * h + comps) % 7 + 1) as u8;
  let n = (w + pad) * comps * h;
  let mut px = img(n, 0);
  let at = ((h - 1) * (w + pad) + w - 1) * comps;
  px[at] = any_u16("px");
  roundtrip(&px, w, h, comps, 16, pred, pad);
});
// decoding into a wider strip, at an offset, and cropping a wider frame
entry!(c01_place, {
  let comps = pick("comps", 1, 2);
  let x = pick("x", 0, 1) * comps; let extra = pick("extra", 0, 1); let crop = pick("crop", 0, 1);
  let pred = ((2 * comps + x + 3 * extra + crop) % 7 + 1) as u8;
  let (w, h) = (3usize, 2usize);
  let mut px = img(w * h * comps, 0);
  px[(w * (h - 1) + 1) * comps - 1 + comps] = any_u16("px");
  let enc = LjpegCompressor::new(&px, w, h, comps, 16, pred, 0, 0).unwrap().encode().unwrap();
  let dec = LjpegDecompressor::new(&enc).unwrap();
  let ow = (w - crop) * comps;
  let strip = ow + x + extra;
  let mut out = vec![0xdeadu16; strip * h + x];
  dec.decode(&mut out, x, strip, ow, h, false).unwrap();
  let mut ok = true;
  for r in 0..h { for c in 0..strip { let v = out[r * strip + c]; ok &= if c >= x && c < x + ow { v == px[r * w * comps + c - x] } else { v == 0xdead }; } }
  note16(&out);
  check!(ok);
  reach(1);
});
// heavily skewed histogram (Fibonacci class counts): code-length limiting
entry!(c01_skew, {
  let mut px: Vec<u16> = Vec::new();
  let (mut a, mut b) = (1usize, 1usize);
  let mut cur = 0x8000u16;
  for ssss in 0..17u32 {
    for k in 0..a {
      let d: u16 = if ssss == 0 { 0 } else if ssss == 16 { 0x8000 } else { 1u16 << (ssss - 1) };
      cur = if k % 2 == 0 { cur.wrapping_add(d) } else { cur.wrapping_sub(d) };
      px.push(cur);
    }
    let t = a + b; a = b; b = t;
  }
  let n = px.len();
  px[n - 1] = any_u16("px");
  let e = roundtrip(&px, n, 1, 1, 16, 1, 0);
  conforms(&e, &px, n, 1, 1);
});
entry!(c01_refcomp, {
  let comps = pick("comps", 2, 4);
  let mut px = img(2 * comps, 0);
  let at = pick("at", 0, 2 * comps - 1);
  px[at] = any_u16("px");
  let e = roundtrip(&px, 2, 1, comps, 16, 1, 0);
  conforms(&e, &px, 2, 1, comps);
});
// streams of other encoders: tables with short, long (> 13 and 16 bit) codes
entry!(c01_foreign, {
  let t = pick("table", 0, 2);
  let lens: [u8; 16] = [[0, 1, 5, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0], [1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2], [0, 0, 0, 14, 3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]][t];
  let vals: [u8; 17] = [[4, 0, 1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16], [8, 9, 7, 10, 6, 11, 5, 12, 4, 13, 3, 14, 2, 15, 1, 0, 16], [16, 15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0]][t];
  let nc = pick("nc", 1, 2);
  let mut px = img(4, 0); let at = pick("at", 0, 3); px[at] = any_u16("px");
  let e = ref_encode(&px, 4 / nc, 1, nc, 16, &lens, &vals);
  let dec = LjpegDecompressor::new(&e).unwrap();
  let mut out = vec![0u16; 4];
  dec.decode(&mut out, 0, 4, 4, 1, false).unwrap();
  note16(&out);
  check!(out == px);
  reach(1);
});
entry!(c01_foreign2, {
  let lens: [u8; 16] = [0, 1, 5, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0];
  let vals: [u8; 17] = [4, 0, 1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16];
  let s: [u16; 2] = u16s("px"); let px = [s[0], 7, 0xfff0, s[1]];
  let e = ref_encode(&px, 2, 2, 1, 16, &lens, &vals);
  let dec = LjpegDecompressor::new(&e).unwrap();
  let mut out = vec![0u16; 4];
  dec.decode(&mut out, 0, 2, 2, 2, false).unwrap();
  note16(&out);
  check!(out == px);
  reach(1);
});
