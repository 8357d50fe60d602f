//! Geometry operations move samples, they never change or mix them up.
use crate::sym::*;
use crate::*;
use rawler::cfa::{CFA, CFAColor, PlaneColor};
use rawler::decoders::Orientation;
use rawler::imgop::{Dim2, Point, Rect};
use rawler::pixarray::{Color2D, Pix2D, PixU16};
use rawler::rawimage::{BlackLevel, RawImage};
use rawler::tiles::{ImageTiler, TilesMut};

fn v16(name: &str, n: usize) -> Vec<u16> { let b = vec8(name, n * 2); (0..n).map(|i| u16::from_le_bytes([b[2 * i], b[2 * i + 1]])).collect() }
fn rect_in(w: usize, h: usize) -> Rect {
  let (x, y) = (pick("x", 0, w), pick("y", 0, h));
  let (cw, ch) = (pick("cw", 0, w - x), pick("ch", 0, h - y));
  Rect::new(Point::new(x, y), Dim2::new(cw, ch))
}

// crop of a one-component image, up to 4 x 4 pixels, every non-empty area inside it, all samples; through Pix2D and the slice function
entry!(c12_crop, {
  let (w, h) = (pick("w", 1, 4), pick("h", 1, 4));
  let a = rect_in(w, h); if a.d.w == 0 || a.d.h == 0 { check!(true); return; }
  let px = v16("px", w * h);
  let img = PixU16::new_with(px.clone(), w, h);
  let c = img.crop(a);
  let s = rawler::imgop::crop(&px, Dim2::new(w, h), a);
  let i = img.into_crop(a);
  check!(c.width == a.d.w && c.height == a.d.h && i.width == a.d.w && i.height == a.d.h && c.data.len() == a.d.w * a.d.h && i.data.len() == c.data.len() && s.len() == c.data.len());
  let mut ok = true;
  for r in 0..a.d.h { for k in 0..a.d.w {
    let e = px[(a.p.y + r) * w + a.p.x + k];
    ok &= c.data[r * a.d.w + k] == e && s[r * a.d.w + k] == e && i.data[r * a.d.w + k] == e;
  } }
  check!(ok); reach(1);
});
// float samples keep their bit pattern (NaN payloads included) when cropped, 3 x 3 pixels, every area
entry!(c12_cropf, {
  let a = rect_in(3, 3); if a.d.w == 0 || a.d.h == 0 { check!(true); return; }
  let px = u32s::<9>("px");
  let img = Pix2D::<f32>::new_with(px.iter().map(|v| f32::from_bits(*v)).collect(), 3, 3);
  let c = img.into_crop(a);
  let mut ok = true;
  for r in 0..a.d.h { for k in 0..a.d.w { ok &= c.row(r)[k].to_bits() == px[(a.p.y + r) * 3 + a.p.x + k]; } }
  check!(ok); reach(1);
});
// crop and all rotations of a three-component image, up to 4 x 3 pixels, every area, all samples
entry!(c12_color, {
  let (w, h) = (pick("w", 1, 4), pick("h", 1, 3));
  let b = v16("px", w * h * 3);
  let px: Vec<[u16; 3]> = b.chunks_exact(3).map(|c| [c[0], c[1], c[2]]).collect();
  let img = Color2D::<u16, 3>::new_with(px.clone(), w, h);
  let op = pick("op", 0, 3);
  let mut ok = true;
  if op == 0 {
    let a = rect_in(w, h); if a.d.w == 0 || a.d.h == 0 { check!(true); return; }
    let c = img.crop(a);
    check!(c.width == a.d.w && c.height == a.d.h && c.data.len() == a.d.w * a.d.h);
    for r in 0..a.d.h { for k in 0..a.d.w { ok &= c.data[r * a.d.w + k] == px[(a.p.y + r) * w + a.p.x + k]; } }
  } else {
    let c = match op { 1 => img.rotate_90cw(), 2 => img.rotate_90ccw(), _ => img.rotate_180() };
    let (ow, oh) = if op == 3 { (w, h) } else { (h, w) };
    check!(c.width == ow && c.height == oh && c.data.len() == w * h);
    for r in 0..h { for k in 0..w {
      let (or, ok_) = match op { 1 => (k, h - 1 - r), 2 => (w - 1 - k, r), _ => (h - 1 - r, w - 1 - k) };
      ok &= *c.at(or, ok_) == px[r * w + k];
    } }
    let f = c.flatten(); let g = c.clone().into_flatten();
    for (i, p) in c.data.iter().enumerate() { for j in 0..3 { ok &= f[i * 3 + j] == p[j] && g[i * 3 + j] == p[j]; } }
  }
  check!(ok); reach(1);
});
// rotation of raw samples by 90 degrees into another buffer, up to 4 x 4 pixels, all samples
entry!(c12_rot90, {
  let (w, h) = (pick("w", 1, 4), pick("h", 1, 4));
  let px = v16("px", w * h); let mut out = vec![0u16; w * h];
  rawler::imgop::raw::rotate_90(&px, &mut out, w, h);
  let mut ok = true;
  for r in 0..h { for c in 0..w { ok &= out[c * h + h - 1 - r] == px[r * w + c]; } }
  check!(ok); reach(1);
});
// the eight orientations, for every 16-bit tag value: value and flips survive a round trip, and the flips are those the TIFF standard defines
entry!(c12_orient, {
  let v = any_u16("v");
  let o = Orientation::from_u16(v);
  if v == 0 || v > 8 { check!(o == Orientation::Unknown); check!(o.to_flips() == (false, false, false)); }
  else {
    check!(o.to_u16() == v);
    let f = o.to_flips();
    check!(Orientation::from_flips(f) == o);
    // where row 0 / column 0 of the stored image is to be displayed (TIFF 6.0, p. 36): the display position of stored pixel (0,0) in a 2 x 2 image, and whether rows become columns
    let (t, fh, fv) = f;
    let (mut y, mut x) = (if fv { 1 } else { 0 }, if fh { 1 } else { 0 });
    if t { std::mem::swap(&mut x, &mut y); }
    let e = match v { 1 => (false, 0, 0), 2 => (false, 0, 1), 3 => (false, 1, 1), 4 => (false, 1, 0), 5 => (true, 0, 0), 6 => (true, 0, 1), 7 => (true, 1, 1), _ => (true, 1, 0) };
    check!((t, y, x) == e); reach(1);
  }
});
fn pat(k: usize) -> (&'static str, usize, usize) {
  match k {
    0 => ("RGGB", 2, 2), 1 => ("GRBG", 2, 2), 2 => ("GMYC", 2, 2), 3 => ("RGGRGGGBGGBGGBGGBGGBGRGGRGGRGGBGGBGG", 6, 6), _ => ("GMCYMGCYGMCYMGYC", 2, 8),
  }
}
fn code(b: u8) -> usize { match b { b'R' => 0, b'G' => 1, b'B' => 2, b'C' | b'E' => 3, b'M' => 4, _ => 5 } }
// color filter patterns 2x2 (RGB and complementary), 2x8 and 6x6; every shift up to 12 x 12 and every pixel position below 65536
entry!(c12_cfa, {
  let (s, w, h) = pat(pick("k", 0, 4)); let p = s.as_bytes();
  let cfa = CFA::new(s);
  check!(cfa.width == w && cfa.height == h && cfa.is_valid());
  let (x, y) = (pick("x", 0, 12), pick("y", 0, 12));
  let sh = cfa.shift(x, y);
  check!(sh.width == w && sh.height == h);
  let fl = sh.flat_pattern(); let nm = sh.name.as_bytes();
  check!(fl.len() == w * h && nm.len() == w * h);
  let mut ok = true;
  for r in 0..h { for c in 0..w {
    let e = p[(r + y) % h * w + (c + x) % w];
    ok &= fl[r * w + c] as usize == code(e) && nm[r * w + c] == e && sh.color_at(r, c) == code(e) && sh.cfa_color_at(r, c) as usize == code(e);
  } }
  check!(ok); reach(1);
});
// the color at any position below 65536 x 65536 is the one of the repeating pattern
entry!(c12_cfapos, {
  let (s, w, h) = pat(pick("k", 0, 4)); let p = s.as_bytes();
  let cfa = CFA::new(s);
  let (row, col) = (any_u16("row") as usize, any_u16("col") as usize);
  let (pr, pc) = (pick("pr", 0, h - 1), pick("pc", 0, w - 1));
  assume(row % h == pr && col % w == pc);
  check!(cfa.color_at(row, col) == code(p[pr * w + pc]));
  check!(cfa.cfa_color_at(row, col) as usize == code(p[pr * w + pc])); reach(1);
});
// a pattern built from tag values 0..5, remapped colors, color counts and plane lookups
entry!(c12_cfatag, {
  let t = bytes::<4>("t"); for v in t { assume(v < 6); }
  let t = t.map(|v| conc(v as usize) as u8);
  let cfa = CFA::new_from_tag(&rawler::formats::tiff::Value::Byte(t.to_vec()));
  let mut seen = [0u8; 6];
  for r in 0..2 { for c in 0..2 { check!(cfa.color_at(r, c) == t[r * 2 + c] as usize); seen[t[r * 2 + c] as usize] = 1; } }
  let n: u8 = seen.iter().sum();
  check!(cfa.unique_colors() == n as usize);
  check!(cfa.is_rgb() == (seen == [1, 1, 1, 0, 0, 0]));
  check!(cfa.is_cygm() == (seen == [0, 1, 0, 1, 1, 1]));
  let m = cfa.map_colors(|r, c, v| (r * 32 + c * 16) as u8 + v);
  for r in 0..4 { for c in 0..4 { check!(m.color_at(r, c) == (r % 2) * 32 + (c % 2) * 16 + t[r % 2 * 2 + c % 2] as usize); } }
  let colors: Vec<CFAColor> = vec![CFAColor::GREEN, CFAColor::MAGENTA, CFAColor::CYAN, CFAColor::YELLOW];
  let pc = PlaneColor { colors };
  let l = pc.plane_lookup_table();
  check!(l[1] == 0 && l[4] == 1 && l[3] == 2 && l[5] == 3 && pc.plane_count() == 4);
  if seen[1] == 1 { let i = PlaneColor::cfa_index(&cfa, CFAColor::GREEN); check!(t[i] == 1); for j in 0..i { check!(t[j] != 1); } }
  reach(1);
});
// rectangles with all coordinates below 2^15: every representation names the same area
entry!(c12_rect, {
  let (x, y, w, h) = (any_u16("x") as usize, any_u16("y") as usize, any_u16("w") as usize, any_u16("h") as usize);
  let (r, b) = (any_u16("r") as usize, any_u16("b") as usize);
  for v in [x, y, w, h, r, b] { assume(v < 32768); }
  let a = Rect::new(Point::new(x, y), Dim2::new(w, h));
  check!(a.as_ltrb() == [x, y, x + w, y + h]);
  check!(a.as_tlbr() == [y, x, y + h, x + w]);
  check!(a.as_ltrb_offsets(x + w + r, y + h + b) == [x, y, r, b]);
  check!(a.as_tlbr_offsets(x + w + r, y + h + b) == [y, x, b, r]);
  check!(Rect::new_with_dng(&a.as_tlbr()) == a);
  check!(Rect::new_with_points(Point::new(x, y), Point::new(x + w, y + h)) == a);
  check!(Rect::new_with_borders(Dim2::new(x + w + r, y + h + b), &[x, y, r, b]) == a);
  // position relative to an enclosing area
  let (mx, my) = (any_u16("mx") as usize, any_u16("my") as usize);
  assume(mx <= x && my <= y);
  let m = Rect::new(Point::new(mx, my), Dim2::new(x - mx + w + r, y - my + h + b));
  let t = a.adapt(&m);
  check!(t.p.x == x - mx && t.p.y == y - my && t.d == a.d); reach(1);
});
// cutting an image of up to 5 x 4 pixels with 1..3 components into tiles of up to 3 x 3: each pixel is at its place in exactly one tile, all samples
entry!(c12_tiler, {
  let (w, h, cpp) = (pick("w", 1, 5), pick("h", 1, 4), pick("cpp", 1, 3));
  let (tw, th) = (pick("tw", 1, 3), pick("th", 1, 3));
  let px = v16("px", w * h * cpp);
  let t = ImageTiler::new(&px, w, h, cpp, tw, th);
  let (tc, tr) = (w.div_ceil(tw), h.div_ceil(th));
  check!(t.tile_cols() == tc && t.tile_rows() == tr && t.tile_count() == tc * tr);
  let direct = t.build_tile(tc * tr - 1);
  let tiles: Vec<Vec<u16>> = t.collect();
  check!(tiles.len() == tc * tr);
  let mut ok = true;
  for x in &tiles { ok &= x.len() == tw * th * cpp; }
  check!(ok);
  for y in 0..h { for x in 0..w { for c in 0..cpp {
    ok &= tiles[y / th * tc + x / tw][((y % th) * tw + x % tw) * cpp + c] == px[(y * w + x) * cpp + c];
  } } }
  for (a, b) in direct.iter().zip(tiles[tc * tr - 1].iter()) { ok &= a == b; }
  check!(ok); reach(1);
});
// writing through tiles: an image of up to 3 x 3 tiles of up to 3 x 2 pixels, 1..3 components; each tile line addresses exactly its own samples
entry!(c12_tilemut, {
  let (nx, ny, cpp) = (pick("nx", 1, 3), pick("ny", 1, 3), pick("cpp", 1, 3));
  let (tw, th) = (pick("tw", 1, 3), pick("th", 1, 2));
  let (w, h) = (nx * tw, ny * th);
  let mut buf = v16("px", w * h * cpp);
  let old = buf.clone();
  let k = any_u16("k");
  let mut n = 0u16; let mut tiles = 0;
  for tile in (&mut buf[..]).into_tiles_iter_mut(w, cpp, tw, th).ok().unwrap() {
    tiles += 1; let mut lines = 0;
    for line in tile.into_iter_mut() { lines += 1; for p in line.iter_mut() { *p = (*p ^ k).wrapping_add(n); n += 1; } }
    check!(lines == th);
  }
  check!(tiles == nx * ny && n as usize == w * h * cpp);
  let mut ok = true;
  for y in 0..h { for x in 0..w { for c in 0..cpp {
    let t = y / th * nx + x / tw;
    let idx = t * tw * th * cpp + ((y % th) * tw + x % tw) * cpp + c;
    let o = (y * w + x) * cpp + c;
    ok &= buf[o] == (old[o] ^ k).wrapping_add(idx as u16);
  } } }
  check!(ok); reach(1);
});
// black levels of 1..3 x 1..3 positions and 1..2 components shifted by up to 4 x 4 positions, all 16-bit levels
entry!(c12_blackshift, {
  let (w, h, cpp) = (pick("w", 1, 3), pick("h", 1, 3), pick("cpp", 1, 2));
  let (x, y) = (pick("x", 0, 4), pick("y", 0, 4));
  let l = v16("l", w * h * cpp);
  let b = BlackLevel::new(&l, w, h, cpp).shift(x, y);
  check!(b.width == w && b.height == h && b.cpp == cpp && b.levels.len() == l.len());
  let mut ok = true;
  for r in 0..h { for c in 0..w { for k in 0..cpp { let e = &b.levels[(r * w + c) * cpp + k]; ok &= e.d == 1 && e.n == l[((r + y) % h * w + (c + x) % w) * cpp + k] as u32; } } }
  check!(ok); reach(1);
});
// black levels measured in masked areas: an 8 x 64 sensor, one or two areas at various positions and of various phases; the masked pixels hold a different level per pattern position, one pixel differs (so that averages with small fractions occur), or an area that misses pattern positions
entry!(c12_blackareas, {
  let lv: [u16; 4] = [[0, 0, 0, 0], [512, 513, 514, 515], [1, 0, 65535, 3]][pick("lv", 0, 2)];
  let (x, y, h) = (pick("x", 0, 3), pick("y", 0, 3), [1, 2, 7, 60][pick("h", 0, 3)]);
  let (w, two, add) = (pick("w", 1, 3), pick("two", 0, 1) == 1, pick("add", 0, 1) as u16);
  let mut px = vec![4000u16; 8 * 64];
  let mut areas = vec![Rect::new(Point::new(x, y), Dim2::new(w, h))];
  if two { areas.push(Rect::new(Point::new(x + 3, 0), Dim2::new(2, 2))); }
  for a in &areas { for r in a.p.y..a.p.y + a.d.h { for c in a.p.x..a.p.x + a.d.w { px[r * 8 + c] = lv[r % 2 * 2 + c % 2]; } } }
  let o = y * 8 + x; px[o] = px[o].wrapping_add(add);
  let (mut sum, mut n) = ([0u64; 4], [0u64; 4]);
  for a in &areas { for r in a.p.y..a.p.y + a.d.h { for c in a.p.x..a.p.x + a.d.w { sum[r % 2 * 2 + c % 2] += px[r * 8 + c] as u64; n[r % 2 * 2 + c % 2] += 1; } } }
  match RawImage::calc_black_levels(&CFA::new("RGGB"), &areas, 8, 64, &px) {
    Some(b) => {
      check!(b.width == 2 && b.height == 2 && b.levels.len() == 4);
      for i in 0..4 { if n[i] > 0 { let e = (b.levels[i].n as f64 / b.levels[i].d as f64) * n[i] as f64 - sum[i] as f64; check!(e < 0.51 && e > -0.51); } }
      reach(1);
    }
    None => { check!(n.iter().any(|v| *v == 0)); } // not enough masked pixels to know every level
  }
});
