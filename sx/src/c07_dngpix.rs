//! Pixels written to a DNG are the pixels read back from it.
use crate::sym::*;
use crate::*;
use rawler::decoders::dng::DngDecoder;
use rawler::decoders::{Camera, Decoder, RawDecodeParams, RawLoader};
use rawler::cfa::{CFA, PlaneColor};
use rawler::dng::writer::DngWriter;
use rawler::dng::{CropMode, DngCompression, DngPhotometricConversion, DNG_VERSION_V1_4};
use rawler::formats::tiff::GenericTiffReader;
use rawler::pixarray::PixU16;
use rawler::rawimage::{BlackLevel, CFAConfig, RawImage, RawImageData, RawPhotometricInterpretation, WhiteLevel};
use rawler::rawsource::RawSource;
use std::io::Cursor;

pub fn image(w: usize, h: usize, cpp: usize, kind: usize, bps: usize, data: Vec<u16>) -> RawImage {
  let mut cam = Camera::new();
  cam.make = "M".into(); cam.model = "X".into(); cam.clean_make = "M".into(); cam.clean_model = "X".into();
  cam.cfa = CFA::new(if kind == 2 { "RGGRGGGBGGBGGBGGBGGBGRGGRGGRGGBGGBGG" } else { "RGGB" });
  cam.plane_color = PlaneColor::new("RGB");
  cam.real_bps = bps;
  let ph = match kind { 0 => RawPhotometricInterpretation::BlackIsZero, 1 | 2 => RawPhotometricInterpretation::Cfa(CFAConfig::new_from_camera(&cam)), _ => RawPhotometricInterpretation::LinearRaw };
  RawImage::new(cam, PixU16::new_with(data, w * cpp, h), cpp, [2.0, 1.0, 1.5, f32::NAN], ph, Some(BlackLevel::zero(1, 1, cpp)), Some(WhiteLevel::new_bits(bps as u32, cpp)), false)
}
pub fn write(img: &RawImage, crop: CropMode, comp: DngCompression, pred: u8) -> Vec<u8> {
  let mut buf = Cursor::new(Vec::new());
  let mut dng = DngWriter::new(&mut buf, DNG_VERSION_V1_4).unwrap();
  let mut raw = dng.subframe(0);
  raw.raw_image(img, crop, comp, DngPhotometricConversion::Original, pred).unwrap();
  raw.finalize().unwrap();
  dng.load_base_tags(img).unwrap();
  dng.close().unwrap();
  buf.into_inner()
}
pub fn read(f: &[u8]) -> RawImage {
  let src = RawSource::new_from_slice(f);
  let tiff = GenericTiffReader::new(&mut src.reader(), 0, 0, None, &[]).unwrap();
  let loader = RawLoader::default();
  let dec = DngDecoder::new(&src, tiff, &loader).unwrap();
  dec.raw_image(&src, &RawDecodeParams::default(), false).unwrap()
}
fn same16(img: &RawImage, w: usize, h: usize, cpp: usize, px: &[u16]) {
  check!(img.width == w && img.height == h && img.cpp == cpp);
  let d = match &img.data { RawImageData::Integer(d) => d, _ => { check!(false); return } };
  check!(d.len() == px.len());
  let mut ok = true;
  for i in 0..px.len() { ok &= d[i] == px[i]; }
  check!(ok);
  reach(1);
}
fn v16(name: &str, n: usize) -> Vec<u16> { let b = vec8(name, n * 2); (0..n).map(|i| u16::from_le_bytes([b[2 * i], b[2 * i + 1]])).collect() }

// uncompressed, monochrome, Bayer or X-Trans, 1..7 x 1..3 pixels, all 16-bit samples
entry!(c07_raw1, { let (w, h, k) = (pick("w", 1, 7), pick("h", 1, 3), pick("k", 0, 2)); let px = v16("px", w * h); same16(&read(&write(&image(w, h, 1, k, 16, px.clone()), CropMode::None, DngCompression::Uncompressed, 1)), w, h, 1, &px); });
// uncompressed, three components, 1..4 x 1..3 pixels, all 16-bit samples
entry!(c07_raw3, { let (w, h) = (pick("w", 1, 4), pick("h", 1, 3)); let px = v16("px", w * h * 3); same16(&read(&write(&image(w, h, 3, 3, 16, px.clone()), CropMode::None, DngCompression::Uncompressed, 1)), w, h, 3, &px); });
// uncompressed, 1..3 samples per row, 99..102, 255..258, 512 and 513 rows (one or several strips), all 16-bit samples
entry!(c07_strips, {
  let h = [99, 100, 101, 102, 255, 256, 257, 258, 512, 513][pick("h", 0, 9)]; let s = pick("s", 0, 2);
  let (w, cpp, k) = [(1, 1, 1), (2, 1, 0), (1, 3, 3)][s];
  let px = v16("px", w * h * cpp); same16(&read(&write(&image(w, h, cpp, k, 16, px.clone()), CropMode::None, DngCompression::Uncompressed, 1)), w, h, cpp, &px);
});
// uncompressed float samples, one or three components, 1..3 x 1..3 pixels and 101 or 257 rows, every bit pattern
entry!(c07_float, {
  let cpp = [1, 3][pick("cpp", 0, 1)]; let w = pick("w", 1, 3); let h = [1, 2, 3, 101, 257][pick("h", 0, 4)];
  let b = vec8("px", w * h * cpp * 4);
  let mut img = image(w, h, cpp, if cpp == 1 { 1 } else { 3 }, 16, vec![0; w * h * cpp]);
  img.data = RawImageData::Float((0..w * h * cpp).map(|i| f32::from_bits(u32::from_le_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]]))).collect());
  let r = read(&write(&img, CropMode::None, DngCompression::Uncompressed, 1));
  check!(r.width == w && r.height == h && r.cpp == cpp);
  let d = match &r.data { RawImageData::Float(d) => d, _ => { check!(false); return } };
  check!(d.len() * 4 == b.len());
  let mut ok = true;
  for i in 0..d.len() { ok &= d[i].to_bits().to_le_bytes()[..] == b[4 * i..4 * i + 4]; }
  check!(ok); reach(1);
});
/// lossless: `n` neighbouring symbolic samples at a chosen place of a background of steps
fn lossless(w: usize, h: usize, cpp: usize, kind: usize, bps: usize, pred: u8, mask: u16, n: usize) {
  let mut px: Vec<u16> = (0..w * h * cpp).map(|i| { let (x, y) = (i % (w * cpp) / cpp, i / (w * cpp)); (x / 90 + 2 * (y / 130) + 5 * (x / 256) + 7 * (y / 256) + i % cpp) as u16 }).collect();
  let at = [0, w * cpp - 1, (h - 1) * w * cpp, w * h * cpp - n, (h / 2) * w * cpp + w * cpp / 2][pick("at", 0, 4)];
  let s = v16("px", n);
  for i in 0..n { assume(s[i] <= mask); if at + i < px.len() { px[at + i] = s[i]; } }
  same16(&read(&write(&image(w, h, cpp, kind, bps, px.clone()), CropMode::None, DngCompression::Lossless, pred)), w, h, cpp, &px);
}
// lossless Bayer, 4x4 pixels, 12 and 14 bits, predictors 1 and 6; the last 2 bits of a sample anywhere in the range of the depth, whatever the white level (a camera's 15000/3900, or 1)
entry!(c07_ll_high, {
  let bps = [12, 14][pick("d", 0, 1)]; let p = [1, 6][pick("p", 0, 1)];
  let mut px: Vec<u16> = (0..16).map(|i| (i * 5) as u16).collect();
  let s = any_u8("s") as u16; assume(s < 4);
  px[6] = s + [0, 1 << (bps - 1), (1 << bps) - 4][pick("hi", 0, 2)];
  let mut img = image(4, 4, 1, 1, bps, px.clone());
  let wl = pick("wl", 1, 2); { img.whitelevel = WhiteLevel::new(vec![if wl == 1 { if bps == 14 { 15000 } else { 3900 } } else { 1 }]); }
  same16(&read(&write(&img, CropMode::None, DngCompression::Lossless, p)), 4, 4, 1, &px);
});
macro_rules! bayer { ($($n:ident, $p:expr;)*) => { $(entry!($n, { let (w, h) = [(4, 4), (6, 3)][pick("s", 0, 1)]; lossless(w, h, 1, 1, 14, $p, if $p == 5 || $p == 7 { 1 } else { 3 }, 1); });)* } }
// lossless Bayer, 4x4 and 6x3 pixels (one padded tile), one predictor each, one sample of 2 bits (predictors 5 and 7: 1 bit) anywhere among 5 places
bayer! { c07_ll_p1, 1; c07_ll_p2, 2; c07_ll_p3, 3; c07_ll_p4, 4; c07_ll_p5, 5; c07_ll_p6, 6; c07_ll_p7, 7; }
// lossless Bayer, 256x3 and 3x256 pixels (a full row or column of one tile), predictors 1 and 6, one sample of 2 bits at 5 places
entry!(c07_ll_bayer, { let p = [1, 6][pick("p", 0, 1)]; let (w, h) = [(256, 3), (3, 256)][pick("s", 0, 1)]; lossless(w, h, 1, 1, 14, p as u8, 3, 1); });
// lossless, several tiles (257..270 wide and/or high), one sample of 2 bits at 5 places of a background of steps
entry!(c07_ll_tiles, { let (w, h) = [(257, 2), (270, 1), (2, 257), (257, 257)][pick("s", 0, 3)]; lossless(w, h, 1, 1, 12, 1, 3, 1); });
// lossless, three components, one and two tiles, one sample of 2 bits
entry!(c07_ll_rgb, { let (w, h) = [(2, 2), (255, 2), (258, 1)][pick("s", 0, 2)]; lossless(w, h, 3, 3, 16, 1, 3, 1); });
// lossless, monochrome, predictors 1, 4 and 7, one and two tiles, one sample of 1 bit
entry!(c07_ll_mono, { let p = [1, 4, 7][pick("p", 0, 2)]; let (w, h) = [(6, 6), (257, 1)][pick("s", 0, 1)]; lossless(w, h, 1, 0, 16, p, 1, 1); });
// lossless, X-Trans pattern, predictors 1, 4 and 7, one and two tiles, one sample of 2 bits
entry!(c07_ll_xtrans, { let p = [1, 4, 7][pick("p", 0, 2)]; let (w, h) = [(6, 6), (257, 1)][pick("s", 0, 1)]; lossless(w, h, 1, 2, 16, p, 3, 1); });
