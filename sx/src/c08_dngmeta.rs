//! Geometry and calibration of an image survive the trip through a DNG, and
//! the tags mean what the DNG specification says.
use crate::c07::{image, read, write};
use crate::sym::*;
use crate::*;
use rawler::cfa::CFA;
use rawler::dng::{CropMode, DngCompression};
use rawler::formats::tiff::reader::TiffReader;
use rawler::formats::tiff::{GenericTiffReader, Rational, IFD};
use rawler::imgop::xyz::Illuminant;
use rawler::imgop::{Dim2, Point, Rect};
use rawler::rawimage::{BlackLevel, CFAConfig, RawImage, RawPhotometricInterpretation, WhiteLevel};
use rawler::rawsource::RawSource;
use rawler::tags::{DngTag, TiffCommonTag};

fn out(img: &RawImage, crop: CropMode) -> Vec<u8> { write(img, crop, DngCompression::Uncompressed, 1) }
fn with_ifds<R>(f: &[u8], op: impl FnOnce(&IFD, &IFD) -> R) -> R {
  let src = RawSource::new_from_slice(f);
  let tiff = GenericTiffReader::new(&mut src.reader(), 0, 0, None, &[]).unwrap();
  let root = tiff.root_ifd();
  let raw = &root.get_sub_ifd_all(TiffCommonTag::SubIFDs).unwrap()[0];
  op(root, raw)
}
/// the values of an entry (u16/u32), None if absent
fn vals<T: rawler::tags::TiffTag>(ifd: &IFD, t: T) -> Option<Vec<u32>> { ifd.get_entry(t).map(|e| (0..e.count() as usize).map(|i| e.force_u32(i)).collect()) }
fn rect_in(name: [&str; 4], x0: usize, y0: usize, x1: usize, y1: usize) -> Rect {
  let (x, y, w, h) = (any_u16(name[0]) as usize, any_u16(name[1]) as usize, any_u16(name[2]) as usize, any_u16(name[3]) as usize);
  assume(w >= 1 && h >= 1 && x >= x0 && y >= y0 && x + w <= x1 && y + h <= y1);
  Rect::new(Point::new(x, y), Dim2::new(w, h))
}
fn rects(a: &Option<Rect>, b: &Rect) -> bool { match a { Some(a) => a.p.x == b.p.x && a.p.y == b.p.y && a.d.w == b.d.w && a.d.h == b.d.h, None => false } }
fn words(v: &Option<Vec<u32>>, b: &[usize]) -> bool { match v { Some(v) => v.len() == b.len() && (0..b.len()).all(|i| v[i] as usize == b[i]), None => false } }

/// any active area inside the image and crop area inside the active area
fn areas(w: usize, h: usize, cpp: usize) {
  let mut img = image(w, h, cpp, if cpp == 1 { 0 } else { 3 }, 16, vec![0; w * h * cpp]);
  let (ha, hc) = (pick("has_active", 0, 1) == 1, pick("has_crop", 0, 1) == 1);
  let full = Rect::new(Point::zero(), Dim2::new(w, h));
  let active = if ha { rect_in(["ax", "ay", "aw", "ah"], 0, 0, w, h) } else { full };
  let crop = if hc { rect_in(["cx", "cy", "cw", "ch"], active.p.x, active.p.y, active.p.x + active.d.w, active.p.y + active.d.h) } else { active };
  if ha { img.active_area = Some(active); }
  if hc { img.crop_area = Some(crop); }
  let m = pick("mode", 0, 2);
  let f = out(&img, [CropMode::Best, CropMode::ActiveArea, CropMode::None][m]);
  let (active, crop) = match m { 0 => (active, crop), 1 => (active, active), _ => (full, full) };
  with_ifds(&f, |_, raw| {
    check!(words(&vals(raw, DngTag::ActiveArea), &[active.p.y, active.p.x, active.p.y + active.d.h, active.p.x + active.d.w]));
    let (o, s) = (vals(raw, DngTag::DefaultCropOrigin), vals(raw, DngTag::DefaultCropSize));
    if m == 2 { check!(o.is_none() && s.is_none()); } else { check!(words(&o, &[crop.p.x - active.p.x, crop.p.y - active.p.y]) && words(&s, &[crop.d.w, crop.d.h])); }
    check!(words(&vals(raw, TiffCommonTag::ImageWidth), &[w]) && words(&vals(raw, TiffCommonTag::ImageLength), &[h]) && words(&vals(raw, TiffCommonTag::SamplesPerPixel), &[cpp]));
    check!(words(&vals(raw, TiffCommonTag::PhotometricInt), &[if cpp == 1 { 1 } else { 34892 }]));
  });
  let r = read(&f);
  check!(r.width == w && r.height == h && r.cpp == cpp);
  check!(rects(&r.active_area, &active));
  if m == 2 { check!(r.crop_area.is_none()); } else { check!(rects(&r.crop_area, &crop)); }
  reach(1);
}
// any active and crop area inside a 300x1 or 2x90 image, three crop modes, one and three components
entry!(c08_areas, { match pick("shape", 0, 2) { 0 => areas(300, 1, 1), 1 => areas(2, 90, 1), _ => areas(9, 7, 3) } });
// the four Bayer patterns (active area at 13x3 offsets) and X-Trans (13x13 offsets): the color of every pixel of a 16x16 area
entry!(c08_cfa, {
  let k = pick("k", 0, 4);
  let pats = ["RGGB", "GRBG", "GBRG", "BGGR", "RGGRGGGBGGBGGBGGBGGBGRGGRGGRGGBGGBGG"];
  let cfa = CFA::new(pats[k]);
  let (ax, ay) = (pick("ax", 0, 12), if k == 4 { pick("ay", 0, 12) } else { pick("ay1", 0, 2) });
  let (w, h) = (16, 14);
  let mut img = image(w, h, 1, 1, 16, vec![0; w * h]);
  img.camera.cfa = cfa.clone();
  img.photometric = RawPhotometricInterpretation::Cfa(CFAConfig::new_from_camera(&img.camera));
  img.active_area = Some(Rect::new(Point::new(ax, ay), Dim2::new(w - ax, h - ay)));
  let f = out(&img, CropMode::Best);
  with_ifds(&f, |_, raw| {
    check!(words(&vals(raw, TiffCommonTag::CFARepeatPatternDim), &[cfa.height, cfa.width]));
    let p = vals(raw, TiffCommonTag::CFAPattern).unwrap();
    check!(p.len() == cfa.width * cfa.height);
    for y in 0..cfa.height { for x in 0..cfa.width { check!(p[y * cfa.width + x] as usize == cfa.color_at(ay + y, ax + x)); } }
    check!(words(&vals(raw, TiffCommonTag::PhotometricInt), &[32803]));
  });
  let r = read(&f);
  let rc = match &r.photometric { RawPhotometricInterpretation::Cfa(c) => c.cfa.clone(), _ => { check!(false); return } };
  let mut ok = rc.width == cfa.width && rc.height == cfa.height;
  for y in 0..h { for x in 0..w { ok &= rc.color_at(y, x) == cfa.color_at(y, x); } }
  check!(ok); reach(1);
});
fn same(a: &Rational, n: u32, d: u32) -> bool { a.n as u64 * d as u64 == n as u64 * a.d as u64 && a.d != 0 }
/// black levels repeating bw x bh, any value; denominators per `d`
fn black(bw: usize, bh: usize, cpp: usize, den: bool) {
  let (w, h) = (7, 5);
  let mut img = image(w, h, cpp, if cpp == 1 { 1 } else { 3 }, 16, vec![0; w * h * cpp]);
  let n = u32s::<12>("n"); let d = if den { let d = u32s::<12>("d"); for x in d { assume(x != 0); } d } else { [1; 12] };
  let lv: Vec<Rational> = (0..bw * bh * cpp).map(|i| Rational::new(n[i], d[i])).collect();
  img.blacklevel = BlackLevel::new(&lv, bw, bh, cpp);
  let (ax, ay) = (pick("ax", 0, 3), pick("ay", 0, 3));
  img.active_area = Some(Rect::new(Point::new(ax, ay), Dim2::new(w - ax, h - ay)));
  let f = out(&img, CropMode::Best);
  with_ifds(&f, |_, raw| {
    check!(words(&vals(raw, DngTag::BlackLevelRepeatDim), &[bh, bw]));
    let e = raw.get_entry(DngTag::BlackLevel).unwrap();
    check!(e.count() as usize == bw * bh * cpp);
  });
  let r = read(&f);
  let b = &r.blacklevel;
  check!(b.width == bw && b.height == bh && b.cpp == cpp && b.levels.len() == bw * bh * cpp);
  let mut ok = true;
  for y in 0..bh { for x in 0..bw { for c in 0..cpp { let i = (y * bw + x) * cpp + c; ok &= same(&b.levels[i], n[i], d[i]); } } }
  check!(ok); reach(1);
}
// whole-number black levels (any 32-bit value) repeating 1x1, 2x2, 2x1, 1x2, one component, active area offset 0..3 x 0..3
entry!(c08_black, { match pick("rep", 0, 3) { 0 => black(1, 1, 1, false), 1 => black(2, 2, 1, false), 2 => black(2, 1, 1, false), _ => black(1, 2, 1, false) } });
// fractional black levels (any numerator and denominator)
entry!(c08_blackfrac, { match pick("rep", 0, 1) { 0 => black(1, 1, 1, true), _ => black(2, 2, 1, true) } });
// three components, 1x1 and 2x2 black levels
entry!(c08_black3, { match pick("rep", 0, 1) { 0 => black(1, 1, 3, false), _ => black(2, 2, 3, pick("frac", 0, 1) == 1) } });
// any 32-bit white levels, one and three components
entry!(c08_white, {
  let cpp = [1, 3][pick("cpp", 0, 1)];
  let mut img = image(4, 2, cpp, if cpp == 1 { 1 } else { 3 }, 16, vec![0; 8 * cpp]);
  let v = u32s::<3>("v");
  img.whitelevel = WhiteLevel::new(v[..cpp].to_vec());
  let f = out(&img, CropMode::Best);
  with_ifds(&f, |_, raw| { let e = vals(raw, DngTag::WhiteLevel).unwrap(); check!(e.len() == cpp && (0..cpp).all(|i| e[i] == v[i])); });
  let r = read(&f);
  check!(r.whitelevel.0.len() == cpp && (0..cpp).all(|i| r.whitelevel.0[i] == v[i])); reach(1);
});
// white balance coefficients k/32 with k any of 16..255: the neutral is the reciprocal within 2/100000
entry!(c08_wb, {
  let cpp = [1, 3][pick("cpp", 0, 1)]; let c = pick("c", 0, 2);
  let mut img = image(4, 2, cpp, if cpp == 1 { 1 } else { 3 }, 16, vec![0; 8 * cpp]);
  let k = any_u8("k"); assume(k >= 16);
  img.wb_coeffs = [2.0, 1.0, 1.5, f32::NAN];
  img.wb_coeffs[c] = k as f32 / 32.0;
  let base = [64u32, 32, 48];
  with_ifds(&out(&img, CropMode::Best), |root, _| match root.get_entry(DngTag::AsShotNeutral).map(|e| &e.value) {
    Some(rawler::formats::tiff::Value::Rational(v)) => { check!(v.len() == 3); for i in 0..3 { let kk = if i == c { k as u32 } else { base[i] };
      // |n/100000 - 32/k| <= 2/100000
      let n = v[i].n; check!(v[i].d == 100000 && n < 1 << 20); let (a, b) = (n * kk, 3200000); let diff = if a > b { a - b } else { b - a }; check!(diff <= 2 * kk); } reach(1); }
    _ => { check!(false); } });
});
/// a camera matrix coefficient with four decimals survives exactly
fn matrix(n: usize) {
  let mut img = image(4, 2, 1, 1, 16, vec![0; 8]);
  let v = any_u8("v") as i32 + [0, 8000, -300, 16300, -20000][pick("base", 0, 4)];
  let m: Vec<f32> = (0..n).map(|i| if i == 4 { v as f32 / 10000.0 } else { (i as i32 * 1000 - 3000) as f32 / 10000.0 }).collect();
  let illus = [Illuminant::A, Illuminant::D65, Illuminant::D50];
  let (i1, i2) = [(0, 1), (0, 2), (1, 2), (1, 1)][pick("illu", 0, 3)];
  img.color_matrix.clear();
  img.color_matrix.insert(illus[i1], m.clone());
  let m2: Vec<f32> = m.iter().map(|x| x * 0.0 + 0.25).collect();
  if i1 != i2 { img.color_matrix.insert(illus[i2], m2); }
  let f = out(&img, CropMode::Best);
  with_ifds(&f, |root, _| {
    let mut seen = 0;
    for (ct, mt) in [(DngTag::CalibrationIlluminant1, DngTag::ColorMatrix1), (DngTag::CalibrationIlluminant2, DngTag::ColorMatrix2)] {
      if let Some(e) = root.get_entry(mt) {
        let il = vals(root, ct).unwrap()[0];
        let il = conc(il as usize);
        if let rawler::formats::tiff::Value::SRational(x) = &e.value {
          check!(x.len() == n);
          if il == illus[i1] as usize { seen |= 1; for i in 0..n { let want = if i == 4 { v as i64 } else { i as i64 * 1000 - 3000 }; check!(x[i].n as i64 * 10000 == want * x[i].d as i64 && x[i].d != 0); } }
          else if il == illus[i2] as usize { seen |= 2; for i in 0..n { check!(x[i].n as i64 * 4 == x[i].d as i64); } }
          else { check!(false); }
        } else { check!(false); }
      }
    }
    check!(seen == if i1 == i2 { 1 } else { 3 }); reach(1);
  });
}
// 3x3 color matrix, one coefficient any multiple of 0.0001 in five ranges of 256 values between -2 and 1.7, illuminants A, D65, D50 and pairs of them
entry!(c08_matrix, { matrix(9) });
// two masked areas of any position and size inside a 300x200 frame
entry!(c08_masked, {
  let mut img = image(4, 2, 1, 1, 16, vec![0; 8]);
  let a = rect_in(["ax", "ay", "aw", "ah"], 0, 0, 300, 200); let b = rect_in(["bx", "by", "bw", "bh"], 0, 0, 300, 200);
  img.blackareas = vec![a, b];
  with_ifds(&out(&img, CropMode::Best), |_, raw| { check!(words(&vals(raw, DngTag::MaskedAreas), &[a.p.y, a.p.x, a.p.y + a.d.h, a.p.x + a.d.w, b.p.y, b.p.x, b.p.y + b.d.h, b.p.x + b.d.w])); reach(1); });
});
