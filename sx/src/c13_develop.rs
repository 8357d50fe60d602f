//! Developing keeps what the sensor measured: scaling, demosaicing, cropping.
use crate::c07::image;
use crate::sym::*;
use crate::*;
use rawler::cfa::{CFA, PlaneColor};
use rawler::imgop::develop::{Intermediate, ProcessingStep, RawDevelop};
use rawler::imgop::sensor::Demosaic;
use rawler::imgop::sensor::bayer::{bilinear::Bilinear4Channel, ppg::PPGDemosaic, superpixel::{Superpixel3Channel, Superpixel4Channel}};
use rawler::imgop::sensor::xtrans::bilinear::XTransBilinearDemosaic;
use rawler::imgop::{Dim2, Point, Rect};
use rawler::pixarray::PixF32;
use rawler::rawimage::{BlackLevel, RawImageData, RawPhotometricInterpretation, WhiteLevel};

fn v16(name: &str, n: usize) -> Vec<u16> { let b = vec8(name, n * 2); (0..n).map(|i| u16::from_le_bytes([b[2 * i], b[2 * i + 1]])).collect() }
fn rect(x: usize, y: usize, w: usize, h: usize) -> Rect { Rect::new(Point::new(x, y), Dim2::new(w, h)) }
fn floats(v: &[u16]) -> Vec<f32> { v.iter().map(|x| *x as f32).collect() }
fn same(a: f32, b: f32) -> bool { a.to_bits() == b.to_bits() }

// ---- scaling
fn scale(kind: usize, w: usize, h: usize, cpp: usize, nb: usize, nw: usize) {
  let px = v16("px", w * h * cpp);
  let (b, wl) = (v16("black", nb), v16("white", nw));
  for i in 0..nb.max(nw) { assume(wl[i % nw] > b[i % nb]); }
  let mut img = image(w, h, cpp, kind, 16, px.clone());
  img.blacklevel = if nb == 4 && cpp == 1 { BlackLevel::new(&b, 2, 2, 1) } else { BlackLevel::new(&b, 1, 1, cpp) };
  img.whitelevel = WhiteLevel::new(wl.iter().map(|x| *x as u32).collect::<Vec<_>>());
  img.apply_scaling().unwrap();
  let d = match &img.data { RawImageData::Float(d) => d, _ => { check!(false); return } };
  check!(d.len() == px.len());
  for r in 0..h { for c in 0..w { for k in 0..cpp {
    let (i, p) = ((r * w + c) * cpp + k, if cpp > 1 { k } else { (r % 2) * 2 + c % 2 });
    let (s, b, t) = (px[i] as f32, b[p % nb] as f32, wl[p % nw] as f32);
    let e = (s - b).max(0.0) / (t - b);
    check!(same(d[i], e));
  } } }
  check!(img.blacklevel.as_vec().iter().all(|x| *x == 0.0) && img.whitelevel.0.iter().all(|x| *x == 1) && img.blacklevel.levels.len() == nb && img.whitelevel.0.len() == nw);
  reach(1);
}
// Bayer, 1..5 x 1..4 pixels (odd sizes included), black and white levels given once or per position of the 2x2 pattern, all 16-bit samples and levels
entry!(c13_scalecfa, { let (w, h, a, b) = (pick("w", 1, 5), pick("h", 1, 4), pick("nb", 0, 1), pick("nw", 0, 1)); scale(1, w, h, 1, if a == 1 { 4 } else { 1 }, if b == 1 { 4 } else { 1 }); });
// monochrome and linear images, 1, 3 or 4 components, 1..3 x 1..2 pixels, all 16-bit samples and levels
entry!(c13_scalelin, { let (w, h, k) = (pick("w", 1, 3), pick("h", 1, 2), pick("k", 0, 3)); let cpp = [1, 1, 3, 4][k]; scale(if k == 0 { 0 } else { 3 }, w, h, cpp, cpp, cpp); });

// ---- demosaicing. Colors of a pattern position, written down independently of the code under test.
const BAYER: [&[u8]; 4] = [b"RGGB", b"BGGR", b"GRBG", b"GBRG"];
const FOUR: [&[u8]; 4] = [b"RGEB", b"GRBE", b"EBRG", b"BEGR"];
const XTRANS: &[u8] = b"GBGGRGRGRBGBGBGGRGGRGGBGBGBRGRGRGGBG";
const PLANES: [&[u8]; 3] = [b"RGBE", b"EBGR", b"GERB"];
fn st(b: &'static [u8]) -> &'static str { core::str::from_utf8(b).unwrap() }
fn cfa(b: &'static [u8]) -> CFA { CFA::new(st(b)) }
fn plane(b: u8) -> usize { match b { b'R' => 0, b'G' => 1, b'B' => 2, _ => 3 } }
/// g: the green plane the code under test computed; it is checked against `green` before it is used for red and blue
struct Mosaic { w: usize, h: usize, s: Vec<f32>, g: Vec<f32>, pat: &'static [u8], n: usize, ox: usize, oy: usize, planes: &'static [u8] }
impl Mosaic {
  fn col(&self, r: usize, c: usize) -> usize { let b = self.pat[(r + self.oy) % self.n * self.n + (c + self.ox) % self.n]; self.planes.iter().position(|x| *x == b).unwrap() }
  fn new(px: &[f32], iw: usize, a: Rect, pat: &'static [u8], planes: &'static [u8]) -> Self {
    let mut s = vec![]; for r in a.y()..a.y() + a.height() { s.extend_from_slice(&px[r * iw + a.x()..r * iw + a.x() + a.width()]); }
    Mosaic { w: a.width(), h: a.height(), s, g: vec![], pat, n: if pat.len() == 4 { 2 } else { 6 }, ox: a.x(), oy: a.y(), planes }
  }
  fn at(&self, r: usize, c: usize) -> f32 { self.s[r * self.w + c] }
  /// mean of the samples of one color not farther than d pixels away
  fn mean(&self, r: usize, c: usize, ch: usize, d: usize) -> f32 {
    let (mut sum, mut n) = (0.0f32, 0);
    for y in r.saturating_sub(d)..(r + d + 1).min(self.h) { for x in c.saturating_sub(d)..(c + d + 1).min(self.w) { if self.col(y, x) == ch { sum += self.at(y, x); n += 1; } } }
    if n == 0 { 0.0 } else { sum / n as f32 }
  }
  fn gr(&self, r: usize, c: usize) -> f32 { self.g[r * self.w + c] }
  fn inner(&self, r: usize, c: usize) -> bool { r >= 3 && c >= 3 && r + 3 < self.h && c + 3 < self.w }
  // PPG as published (Chuan-kai Lin)
  fn green(&self, r: usize, c: usize) -> f32 {
    if self.col(r, c) == 1 { return self.at(r, c); }
    if !self.inner(r, c) { return self.mean(r, c, 1, 1); }
    let x = self.at(r, c);
    let dir = |dr: isize, dc: isize| -> (f32, f32, f32) {
      let g = |k: isize| self.at((r as isize + dr * k) as usize, (c as isize + dc * k) as usize);
      ((x - g(2)).abs() * 2.0 + (g(1) - g(-1)).abs(), g(1) * 3.0 + g(-1) + x - g(2), 4.0)
    };
    let (n, e, w, s) = (dir(-1, 0), dir(0, 1), dir(0, -1), dir(1, 0));
    let m = n.0.min(e.0).min(w.0).min(s.0);
    let p = if n.0 <= m { n } else if e.0 <= m { e } else if w.0 <= m { w } else { s };
    p.1 / p.2
  }
  fn rb_at_green(&self, r: usize, c: usize, ch: usize) -> f32 {
    let (dr, dc) = if self.col(r, c + 1) == ch { (0, 1) } else { (1, 0) };
    hue(self.gr(r - dr, c - dc), self.at(r, c), self.gr(r + dr, c + dc), self.at(r - dr, c - dc), self.at(r + dr, c + dc))
  }
  fn rb_at_rb(&self, r: usize, c: usize) -> f32 {
    let (g, x) = (self.gr(r, c), self.at(r, c));
    let d = |dc: isize| { let (c1, c2, c3, c4) = ((c as isize + dc) as usize, (c as isize - dc) as usize, (c as isize + 2 * dc) as usize, (c as isize - 2 * dc) as usize);
      let (y1, y2, g1, g2) = (self.at(r - 1, c1), self.at(r + 1, c2), self.gr(r - 1, c1), self.gr(r + 1, c2));
      ((y1 - y2).abs() + (self.at(r - 2, c3) - x).abs() + (x - self.at(r + 2, c4)).abs() + (g1 - g).abs() + (g - g2).abs(), y1, y2, g1, g2) };
    let (ne, nw) = (d(1), d(-1));
    let k = if ne.0 < nw.0 { ne } else { nw };
    hue(k.3, g, k.4, k.1, k.2)
  }
  fn ppg(&self, r: usize, c: usize, ch: usize) -> f32 {
    if self.col(r, c) == ch { self.at(r, c) } else if !self.inner(r, c) { self.mean(r, c, ch, 1) } else if ch == 1 { self.green(r, c) } else if self.col(r, c) == 1 { self.rb_at_green(r, c, ch) } else { self.rb_at_rb(r, c) }
  }
}
fn hue(l1: f32, l2: f32, l3: f32, v1: f32, v3: f32) -> f32 {
  if (l1 < l2 && l2 < l3) || (l1 > l2 && l2 > l3) { v1 + (v3 - v1) * (l2 - l1) / (l3 - l1) } else { (v1 + v3) / 2.0 + (l2 * 2.0 - l1 - l3) / 4.0 }
}
/// PPG of a w x h area at (x, y) of a larger image whose other samples are arbitrary
fn ppg(k: usize, x: usize, y: usize, w: usize, h: usize, iw: usize, ih: usize, px: Vec<f32>) {
  let mut m = Mosaic::new(&px, iw, rect(x, y, w, h), BAYER[k], b"RGB");
  let out = PPGDemosaic::new().demosaic(&PixF32::new_with(px, iw, ih), &cfa(BAYER[k]), &PlaneColor::new("RGB"), rect(x, y, w, h));
  check!(out.width == w && out.height == h && out.data.len() == w * h);
  m.g = out.data.iter().map(|p| p[1]).collect();
  for ch in [1, 0, 2] { for r in 0..h { for c in 0..w { check!(same(out.data[r * w + c][ch], m.ppg(r, c, ch))); } } }
  reach(1);
}
// PPG, areas of 1..6 x 1..6 pixels (all border), four patterns, all 16-bit samples
entry!(c13_ppgsmall, { let (k, w, h) = (pick("k", 0, 3), pick("w", 1, 6), pick("h", 1, 6)); ppg(k, 0, 0, w, h, w, h, floats(&v16("px", w * h))); });
// PPG, areas of 1..9 x 1..9 pixels, four patterns, any offset 0..2 inside a larger image, constant but arbitrary 16-bit red, green and blue
entry!(c13_ppgflat, {
  let (k, x, y, w, h) = (pick("k", 0, 3), pick("x", 0, 2), pick("y", 0, 2), pick("w", 1, 9), pick("h", 1, 9));
  let v = u16s::<3>("rgb");
  let (iw, ih) = (w + x + 1, h + y + 1);
  let px: Vec<f32> = (0..iw * ih).map(|i| v[plane(BAYER[k][i / iw % 2 * 2 + i % iw % 2])] as f32).collect();
  ppg(k, x, y, w, h, iw, ih, px);
});
// PPG, 7 x 7 area (one interior pixel), four patterns, all 16-bit samples
entry!(c13_ppg7, { let k = pick("k", 0, 3); ppg(k, 0, 0, 7, 7, 7, 7, floats(&v16("px", 49))); });
// PPG, 7 x 7 area at offset 0..1 x 0..1 of an 8 x 8 image (one interior pixel), four patterns, all 8-bit samples
entry!(c13_ppgroi, { let (k, x, y) = (pick("k", 0, 3), pick("x", 0, 1), pick("y", 0, 1)); let px = vec8("px", 64).iter().map(|x| *x as f32).collect(); ppg(k, x, y, 7, 7, 8, 8, px); });
// bilinear for four-color filters, areas of 2..5 x 2..5 pixels at offset 0..2 x 0..2 inside a larger image, four patterns, three plane orders, all 16-bit samples
entry!(c13_bilinear4, {
  let (k, p, x, y, w, h) = (pick("k", 0, 3), pick("p", 0, 2), pick("x", 0, 2), pick("y", 0, 2), pick("w", 2, 5), pick("h", 2, 5));
  let (iw, ih) = (w + x + 1, h + y + 1);
  let px = floats(&v16("px", iw * ih));
  let m = Mosaic::new(&px, iw, rect(x, y, w, h), FOUR[k], PLANES[p]);
  let out = Bilinear4Channel::new().demosaic(&PixF32::new_with(px, iw, ih), &cfa(FOUR[k]), &PlaneColor::new(st(PLANES[p])), rect(x, y, w, h));
  check!(out.width == w && out.height == h && out.data.len() == w * h);
  for r in 0..h { for c in 0..w { for ch in 0..4 { check!(same(out.data[r * w + c][ch], m.mean(r, c, ch, 1))); } } }
  reach(1);
});
// X-Trans bilinear (mean over 5 x 5 pixels), areas of 1..6 x 1..6 pixels at offset 0..5 x 0..5 inside a larger image, all 16-bit samples
entry!(c13_xtrans, {
  let (x, y, w, h) = (pick("x", 0, 5), pick("y", 0, 5), pick("w", 1, 6), pick("h", 1, 6));
  let (iw, ih) = (w + x + 1, h + y + 1);
  let px = floats(&v16("px", iw * ih));
  let m = Mosaic::new(&px, iw, rect(x, y, w, h), XTRANS, b"RGB");
  let out = XTransBilinearDemosaic::new().demosaic(&PixF32::new_with(px, iw, ih), &cfa(XTRANS), &PlaneColor::new("RGB"), rect(x, y, w, h));
  check!(out.width == w && out.height == h && out.data.len() == w * h);
  for r in 0..h { for c in 0..w { for ch in 0..3 { check!(same(out.data[r * w + c][ch], m.mean(r, c, ch, 2))); } } }
  reach(1);
});
// super pixels of three (greens averaged) and four colors, areas of 0..5 x 0..5 pixels at offset 0..2 x 0..2 inside a larger image (odd areas lose their last column or row), four patterns, three plane orders, all 16-bit samples
entry!(c13_superpixel, {
  let (four, k, p, x, y, w, h) = (pick("four", 0, 1) == 1, pick("k", 0, 3), pick("p", 0, 2), pick("x", 0, 2), pick("y", 0, 2), pick("w", 2, 5), pick("h", 2, 5));
  if !four { assume(p == 0); }
  let (iw, ih) = (w + x + 1, h + y + 1);
  let px = floats(&v16("px", iw * ih));
  let (pat, planes): (&'static [u8], &'static [u8]) = if four { (FOUR[k], PLANES[p]) } else { (BAYER[k], b"RGB") };
  let m = Mosaic::new(&px, iw, rect(x, y, w, h), pat, planes);
  let (img, f, pc) = (PixF32::new_with(px, iw, ih), cfa(pat), PlaneColor::new(st(planes)));
  let (ow, oh, out): (usize, usize, Vec<Vec<f32>>) = if four { let o = Superpixel4Channel::new().demosaic(&img, &f, &pc, rect(x, y, w, h)); (o.width, o.height, o.data.iter().map(|p| p.to_vec()).collect()) }
    else { let o = Superpixel3Channel::new().demosaic(&img, &f, &pc, rect(x, y, w, h)); (o.width, o.height, o.data.iter().map(|p| p.to_vec()).collect()) };
  check!(ow == w / 2 && oh == h / 2 && out.len() == ow * oh);
  for r in 0..oh { for c in 0..ow { for ch in 0..planes.len() {
    let (mut sum, mut n) = (0.0f32, 0);
    for y in 2 * r..2 * r + 2 { for x in 2 * c..2 * c + 2 { if m.col(y, x) == ch { sum += m.at(y, x); n += 1; } } }
    check!(same(out[r * ow + c][ch], sum / n as f32));
  } } }
  reach(1);
});

// ---- the developed image is the default crop
fn develop(kind: usize, steps: &[ProcessingStep]) {
  use RawPhotometricInterpretation as P;
  let (iw, ih) = (5, 4);
  let cpp = [1, 1, 1, 1, 3, 4][kind];
  let mut img = image(iw, ih, cpp, [1, 1, 1, 0, 3, 3][kind], 16, v16("px", iw * ih * cpp));
  let (pat, planes): (&'static [u8], &'static [u8]) = match kind { 0 => (BAYER[pick("k", 0, 3)], b"RGB"), 1 => (FOUR[pick("k", 0, 3)], b"RGBE"), _ => (XTRANS, b"RGB") };
  if kind < 3 { img.photometric = P::Cfa(rawler::rawimage::CFAConfig::new(&cfa(pat), &PlaneColor::new(st(planes)))); }
  let full = rect(0, 0, iw, ih);
  let sub = |o: Rect, x: &str, y: &str, w: &str, h: &str| { let (a, b) = (pick(w, 1, o.width()), pick(h, 1, o.height())); let (l, t) = (pick(x, 0, o.width() - a), pick(y, 0, o.height() - b)); rect(o.x() + l, o.y() + t, a, b) };
  let mut want = full; let mut seen = full;
  if pick("active", 0, 1) == 1 { let a = [rect(1, 1, 3, 2), rect(0, 1, 5, 3), rect(2, 0, 3, 4)][pick("area", 0, 2)]; img.active_area = Some(a); want = a; }
  if steps.contains(&ProcessingStep::CropActiveArea) && kind < 3 { seen = want; }
  if pick("crop", 0, 1) == 1 { let c = sub(want, "x", "y", "w", "h"); img.crop_area = Some(c); want = c; }
  let px: Vec<f32> = (*img.data.as_f32()).to_vec();
  let raw = RawDevelop::new_with(steps).develop_intermediate(&img).unwrap();
  let (w, h, n, out): (usize, usize, usize, Vec<f32>) = match raw {
    Intermediate::Monochrome(p) => (p.width, p.height, 1, p.data.clone()),
    Intermediate::ThreeColor(p) => (p.width, p.height, 3, p.flatten()),
    Intermediate::FourColor(p) => (p.width, p.height, 4, p.flatten()),
  };
  let demosaic = kind < 3 && steps.contains(&ProcessingStep::Demosaic);
  check!(w == want.width() && h == want.height() && n == if demosaic { planes.len() } else { cpp } && out.len() == w * h * n);
  let m = Mosaic::new(&px, iw * cpp, if demosaic { seen } else { rect(0, 0, iw * cpp, ih) }, pat, planes);
  for r in 0..h { for c in 0..w {
    let (y, x) = (want.y() + r, want.x() + c);
    for ch in 0..n {
      let e = if !demosaic { px[(y * iw + x) * cpp + ch] } else { let (y, x) = (y - seen.y(), x - seen.x()); if kind == 2 { m.mean(y, x, ch, 2) } else if m.col(y, x) == ch { m.at(y, x) } else { m.mean(y, x, ch, 1) } };
      check!(same(out[(r * w + c) * n + ch], e));
    }
  } }
  reach(1);
}
// Bayer, four-color, X-Trans, monochrome and linear (3 and 4 components) images of 5 x 4 pixels, all 16-bit samples; without and with three active areas, without and with any default crop inside; active area cropped before demosaicing
entry!(c13_cropactive, { develop(pick("kind", 0, 5), &[ProcessingStep::Demosaic, ProcessingStep::CropActiveArea, ProcessingStep::CropDefault]) });
// the same images and areas, the whole image demosaiced or not demosaiced at all
entry!(c13_cropfull, { let k = pick("kind", 0, 5); if pick("demosaic", 0, 1) == 1 { develop(k, &[ProcessingStep::Demosaic, ProcessingStep::CropDefault]) } else { develop(k, &[ProcessingStep::CropDefault]) } });
