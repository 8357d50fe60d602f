//! Packed sample layouts are unpacked to exactly the stored samples.
use crate::sym::*;
use crate::*;
use rawler::bits::Endian;
use rawler::decompressors::Decompressor;
use rawler::decompressors::packed::PackedDecompressor;

/// `bits`-wide value starting at bit `pos` of the byte sequence `b`.
fn val(b: &[u8], pos: usize, bits: usize, lsb: bool) -> u16 {
  let mut v = 0u16;
  for i in 0..bits {
    let (by, bi) = ((pos + i) / 8, (pos + i) % 8);
    if lsb { v |= (((b[by] >> bi) & 1) as u16) << i; } else { v = (v << 1) | ((b[by] >> (7 - bi)) & 1) as u16; }
  }
  v
}
#[cfg(verif_hooks)]
mod hooked {
  use super::*;
  use rawler::pixarray::PixU16;
  use rawler::verif_hooks::packed as p;
  type F = fn(&[u8], usize, usize, bool) -> Result<PixU16, String>;
  /// byte order inside words of `swap` bytes, `bits` per sample, bit order, row stride in bytes
  fn layout(f: F, swap: usize, bits: usize, lsb: bool, widths: &[usize], stride: fn(usize) -> usize) {
    let w = widths[pick("w", 0, widths.len() - 1)];
    let h = pick("h", 1, 3);
    let s = stride(w);
    let extra = pick("extra", 0, 1);
    let buf = vec8("buf", s * h + extra);
    let img = f(&buf, w, h, false).unwrap();
    check!(img.width == w && img.height == h && img.pixels().len() == w * h);
    let mut lin = buf.clone();
    if swap > 1 { for c in lin.chunks_exact_mut(swap) { c.reverse(); } }
    let mut ok = true;
    for r in 0..h { for c in 0..w { ok &= img.pixels()[r * w + c] == val(&lin, r * s * 8 + c * bits, bits, lsb); } }
    note16(img.pixels());
    check!(ok);
    check!(f(&buf[..s * h - 1], w, h, false).is_err());
    reach(1);
  }
  /// one word per sample
  fn words(f: F, be: bool, shift: u32, mask: u16, stride: usize) {
    let w = pick("w", 1, 3); let h = pick("h", 1, 3);
    let buf = vec8("buf", w * h * stride);
    let img = f(&buf, w, h, false).unwrap();
    let mut ok = img.width == w && img.height == h;
    for r in 0..h { for c in 0..w {
      let o = r * w * stride + 2 * c;
      let v = if be { u16::from_be_bytes([buf[o], buf[o + 1]]) } else { u16::from_le_bytes([buf[o], buf[o + 1]]) };
      ok &= img.pixels()[r * w + c] == (v >> shift) & mask;
    } }
    note16(img.pixels());
    check!(ok);
    check!(f(&buf[..buf.len() - 1], w, h, false).is_err());
    reach(1);
  }
  entry!(c04_8bit, { layout(p::decompress_8bit, 1, 8, false, &[1, 2, 5], |w| w); });
  entry!(c04_10le_lsb16, { layout(p::decompress_10le_lsb16, 2, 10, false, &[8, 16], |w| w * 10 / 8); });
  entry!(c04_10be, { layout(p::decompress_10be, 1, 10, false, &[4, 8, 12], |w| w * 10 / 8); });
  entry!(c04_12be, { layout(p::decompress_12be, 1, 12, false, &[2, 4, 6], |w| w * 12 / 8); });
  entry!(c04_12be_msb16, { layout(p::decompress_12be_msb16, 2, 12, false, &[4, 8], |w| w * 12 / 8); });
  entry!(c04_12le_16bitaligned, { layout(p::decompress_12le_16bitaligned, 1, 12, false, &[2, 4, 6], |w| (w * 12 / 8).next_multiple_of(2)); });
  entry!(c04_12be_msb32, { layout(p::decompress_12be_msb32, 4, 12, false, &[8, 16], |w| w * 12 / 8); });
  entry!(c04_14be_msb32, { layout(p::decompress_14be_msb32, 4, 14, false, &[16, 32], |w| w * 14 / 8); });
  entry!(c04_12le, { layout(p::decompress_12le, 1, 12, true, &[2, 4, 6], |w| w * 12 / 8); });
  entry!(c04_12le_padded, { layout(|b, w, h, d| p::decompress_12le_padded(b, w, h, w * 12 / 8 + 3, d), 1, 12, true, &[2, 4], |w| w * 12 / 8 + 3); });
  entry!(c04_14le_padded, { layout(|b, w, h, d| p::decompress_14le_padded(b, w, h, w * 14 / 8 + 5, d), 1, 14, true, &[4, 8], |w| w * 14 / 8 + 5); });
  entry!(c04_12le_unpacked, { words(p::decompress_12le_unpacked, false, 0, 0xfff, 2); });
  entry!(c04_12be_unpacked, { words(p::decompress_12be_unpacked, true, 0, 0xfff, 2); });
  entry!(c04_12be_unpacked_left, { words(p::decompress_12be_unpacked_left_aligned, true, 4, 0xfff, 2); });
  entry!(c04_12le_unpacked_left, { words(p::decompress_12le_unpacked_left_aligned, false, 4, 0xfff, 2); });
  entry!(c04_14le_unpacked, { words(p::decompress_14le_unpacked, false, 0, 0x3fff, 2); });
  entry!(c04_14be_unpacked, { words(p::decompress_14be_unpacked, true, 0, 0x3fff, 2); });
  entry!(c04_16le, { words(p::decompress_16le, false, 0, 0xffff, 2); });
  entry!(c04_16be, { words(p::decompress_16be, true, 0, 0xffff, 2); });
  entry!(c04_16le_skiplines, { words(p::decompress_16le_skiplines, false, 0, 0xffff, 4); });
  entry!(c04_14le_unpacked_padded, {
    let w = pick("w", 1, 3); let h = pick("h", 1, 3); let s = w * 2 + pick("pad", 0, 3);
    let buf = vec8("buf", s * h);
    let img = p::decompress_14le_unpacked_padded(&buf, w, h, s, false).unwrap();
    let mut ok = true;
    for r in 0..h { for c in 0..w { ok &= img.pixels()[r * w + c] == u16::from_be_bytes([buf[r * s + 2 * c], buf[r * s + 2 * c + 1]]) & 0x3fff; } }
    check!(ok);
    reach(1);
  });
  fn control(f: F, lsb: bool) {
    let w = [10, 20][pick("w", 0, 1)]; let h = pick("h", 1, 3);
    let s = w / 10 * 16;
    let buf = vec8("buf", s * h);
    let img = f(&buf, w, h, false).unwrap();
    let mut ok = true;
    for r in 0..h { for c in 0..w { ok &= img.pixels()[r * w + c] == val(&buf, (r * s + c / 10 * 16) * 8 + c % 10 * 12, 12, lsb); } }
    note16(img.pixels());
    check!(ok);
    check!(f(&buf[..s * h - 1], w, h, false).is_err());
    reach(1);
  }
  entry!(c04_12le_wcontrol, { control(p::decompress_12le_wcontrol, true); });
  entry!(c04_12be_wcontrol, { control(p::decompress_12be_wcontrol, false); });
  entry!(c04_12be_interlaced_unaligned, {
    let w = [2, 4][pick("w", 0, 1)]; let h = pick("h", 1, 5);
    let s = w * 12 / 8;
    let buf = vec8("buf", s * h);
    let img = p::decompress_12be_interlaced_unaligned(&buf, w, h, false).unwrap();
    let half = h.div_ceil(2);
    let mut ok = true;
    for r in 0..h { for c in 0..w { ok &= img.pixels()[r * w + c] == val(&buf, (r / 2 + r % 2 * half) * s * 8 + c * 12, 12, false); } }
    check!(ok);
    check!(p::decompress_12be_interlaced_unaligned(&buf[..s * h - 1], w, h, false).is_err());
    reach(1);
  });
  entry!(c04_12be_interlaced, {
    let (w, h) = [(2usize, 3usize), (4, 4), (1360, 2), (1368, 3), (2, 1)][pick("dim", 0, 4)];
    let s = w * 12 / 8;
    let half = h.div_ceil(2);
    let second = (half * s / 2048 + 1) * 2048;
    let mut buf = vec![0u8; second + (h - half) * s];
    let n = buf.len();
    let first: [u8; 6] = bytes("first"); let sec: [u8; 6] = bytes("second");
    let k = s.min(6).min(n);
    buf[..k].copy_from_slice(&first[..k]);
    if h > 1 { buf[second..second + k.min(s)].copy_from_slice(&sec[..k.min(s)]); let e = n - 3; buf[e..].copy_from_slice(&sec[3..]); }
    let img = p::decompress_12be_interlaced(&buf, w, h, false).unwrap();
    let mut ok = true;
    for r in 0..h { for c in (0..w.min(4)).chain(w.saturating_sub(4)..w) { ok &= img.pixels()[r * w + c] == val(&buf, (r / 2 * s + r % 2 * second) * 8 + c * 12, 12, false); } }
    check!(ok);
    check!(p::decompress_12be_interlaced(&buf[..n - 1], w, h, false).is_err());
    reach(1);
  });
  entry!(c04_generic, {
    let bits = pick("bits", 1, 16); let w = pick("w", 1, 3); let h = pick("h", 1, 2); let lsb = pick("lsb", 0, 1) == 1;
    let n = (w * h * bits).div_ceil(8);
    let buf = vec8("buf", n);
    let f = |b: &[u8]| if lsb { p::decompress_generic_lsb(b, w, h, bits as u32, false) } else { p::decompress_generic_msb(b, w, h, bits as u32, false) };
    let img = f(&buf).unwrap();
    let mut ok = true;
    for i in 0..w * h { ok &= img.pixels()[i] == val(&buf, i * bits, bits, lsb); }
    check!(ok);
    check!(f(&buf[..n - 1]).is_err());
    reach(1);
  });
  // any buffer too short for the image is refused, whatever the size
  entry!(c04_short, {
    let w = [2, 10, 16][pick("w", 0, 2)]; let h = pick("h", 1, 2);
    let fs: [(F, usize); 6] = [(p::decompress_10be, w * h * 10 / 8), (p::decompress_12be, w * h * 12 / 8), (p::decompress_12be_msb32, w * h * 12 / 8), (p::decompress_14be_msb32, w * h * 14 / 8), (p::decompress_12le, w * h * 12 / 8), (p::decompress_16be, w * h * 2)];
    let (f, need) = fs[pick("f", 0, 5)];
    let len = pick("len", 0, 40);
    if len < need { check!(f(&vec![0u8; len], w, h, false).is_err()); reach(1); }
  });
}
// the DNG packed decompressor: any supported depth, starting at any row
entry!(c04_dng, {
  let bits = pick("bits", 1, 16); let w = pick("w", 1, 4); let skip = pick("skip", 0, 2); let h = pick("h", 1, 2); let be = pick("be", 0, 1) == 1;
  let n = (w * (h + skip) * bits).div_ceil(8);
  let buf = vec8("buf", n);
  let d = PackedDecompressor::new(bits as u32, if be { Endian::Big } else { Endian::Little });
  let mut out = vec![0u16; w * h];
  Decompressor::<u16>::decompress(&d, &buf, skip, out.chunks_exact_mut(w), w).unwrap();
  let mut ok = true;
  for i in 0..w * h {
    let o = skip * w + i;
    let e = if bits == 16 && !be { u16::from_le_bytes([buf[2 * o], buf[2 * o + 1]]) } else { val(&buf, o * bits, bits, false) };
    ok &= out[i] == e;
  }
  note16(&out);
  check!(ok);
  let mut o2 = vec![0u16; w * h];
  check!(Decompressor::<u16>::decompress(&d, &buf[..n - 1], skip, o2.chunks_exact_mut(w), w).is_err());
  reach(1);
});
entry!(c04_dng_lines, {
  let bits = pick("bits", 1, 16); let w = pick("w", 1, 4); let h = pick("h", 1, 3);
  let n = (w * h * bits).div_ceil(8);
  let buf = vec8("buf", n);
  let strip = pick("strip", 1, 2);
  let d = PackedDecompressor::new(bits as u32, Endian::Big);
  let img: rawler::pixarray::PixU16 = if strip == 1 { rawler::decompressors::decompress_lines(&buf, w, h, false, d) } else { rawler::decompressors::decompress_strips(&buf, w, h, false, 2, d) }.unwrap();
  let mut ok = img.width == w && img.height == h;
  for i in 0..w * h { ok &= img.pixels()[i] == val(&buf, i * bits, bits, false); }
  check!(ok);
  reach(1);
});
entry!(c04_dng_badbits, {
  let bits = any_u32("bits");
  assume(bits == 0 || bits > 16);
  let d = PackedDecompressor::new(bits, Endian::Big);
  let buf = [0u8; 64];
  let mut out = vec![0u16; 4];
  check!(Decompressor::<u16>::decompress(&d, &buf, 0, out.chunks_exact_mut(2), 2).is_err());
  reach(1);
});
