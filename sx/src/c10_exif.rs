//! EXIF and GPS metadata written to a DNG is found under its tag and read back unchanged.
use crate::sym::*;
use crate::*;
use rawler::decoders::RawMetadata;
use rawler::dng::writer::DngWriter;
use rawler::dng::DNG_VERSION_V1_4;
use rawler::exif::{Exif, ExifGPS};
use rawler::formats::tiff::reader::TiffReader;
use rawler::formats::tiff::{GenericTiffReader, Rational, SRational, Value, IFD};
use rawler::rawsource::RawSource;
use std::io::Cursor;

fn meta(exif: Exif) -> RawMetadata { RawMetadata { exif, model: "X".into(), make: "M".into(), lens: None, unique_image_id: None, rating: None } }
fn write(m: &RawMetadata) -> GenericTiffReader {
  let mut buf = Cursor::new(Vec::new());
  let mut dng = DngWriter::new(&mut buf, DNG_VERSION_V1_4).unwrap();
  dng.load_metadata(m).unwrap();
  dng.close().unwrap();
  let src = RawSource::new_from_slice(&buf.into_inner());
  GenericTiffReader::new(&mut src.reader(), 0, 0, None, &[]).unwrap()
}
/// 0: root, 1: EXIF, 2: GPS directory; numeric tags, not the names the code has
fn ifd(t: &GenericTiffReader, which: u8) -> Option<&IFD> {
  let r = t.root_ifd();
  match which { 0 => Some(r), 1 => r.get_sub_ifd(34665u16), _ => r.get_sub_ifd(34853u16) }
}
fn value(t: &GenericTiffReader, which: u8, tag: u16) -> Option<Value> { ifd(t, which).and_then(|i| i.get_entry(tag)).map(|e| e.value.clone()) }

/// A field value: how to draw it, how the tag must look
trait Field: Sized + Clone { fn draw(n: &str) -> Self; fn tagged(&self, v: &Value) -> bool; fn eq(&self, o: &Self) -> bool; }
impl Field for u8 { fn draw(n: &str) -> Self { any_u8(n) } fn tagged(&self, v: &Value) -> bool { matches!(v, Value::Byte(d) if d.len() == 1 && d[0] == *self) } fn eq(&self, o: &Self) -> bool { self == o } }
impl Field for u16 { fn draw(n: &str) -> Self { any_u16(n) } fn tagged(&self, v: &Value) -> bool { matches!(v, Value::Short(d) if d.len() == 1 && d[0] == *self) } fn eq(&self, o: &Self) -> bool { self == o } }
impl Field for u32 { fn draw(n: &str) -> Self { any_u32(n) } fn tagged(&self, v: &Value) -> bool { matches!(v, Value::Long(d) if d.len() == 1 && d[0] == *self) } fn eq(&self, o: &Self) -> bool { self == o } }
impl Field for [u8; 4] { fn draw(n: &str) -> Self { bytes::<4>(n) } fn tagged(&self, v: &Value) -> bool { matches!(v, Value::Byte(d) if d.len() == 4 && d[..] == self[..]) } fn eq(&self, o: &Self) -> bool { self[..] == o[..] } }
impl Field for Rational { fn draw(n: &str) -> Self { Rational { n: any_u32(n), d: any_u32(n) } }
  fn tagged(&self, v: &Value) -> bool { matches!(v, Value::Rational(d) if d.len() == 1 && Field::eq(&d[0], self)) } fn eq(&self, o: &Self) -> bool { (self.n == o.n) & (self.d == o.d) } }
impl Field for SRational { fn draw(n: &str) -> Self { SRational { n: any_u32(n) as i32, d: any_u32(n) as i32 } }
  fn tagged(&self, v: &Value) -> bool { matches!(v, Value::SRational(d) if d.len() == 1 && Field::eq(&d[0], self)) } fn eq(&self, o: &Self) -> bool { (self.n == o.n) & (self.d == o.d) } }
impl<const K: usize> Field for [Rational; K] { fn draw(n: &str) -> Self { std::array::from_fn(|_| Rational::draw(n)) }
  fn tagged(&self, v: &Value) -> bool { match v { Value::Rational(d) => { let mut ok = d.len() == K; for i in 0..d.len().min(K) { ok &= Field::eq(&d[i], &self[i]); } ok } _ => false } }
  fn eq(&self, o: &Self) -> bool { let mut ok = true; for i in 0..K { ok &= Field::eq(&self[i], &o[i]); } ok } }
impl Field for Vec<i16> { fn draw(n: &str) -> Self { let k = pick("len", 0, 3); (0..k).map(|_| any_u16(n) as i16).collect() }
  fn tagged(&self, v: &Value) -> bool { matches!(v, Value::SShort(d) if d == self) } fn eq(&self, o: &Self) -> bool { self == o } }
impl Field for Vec<u8> { fn draw(n: &str) -> Self { let k = pick("len", 0, 6); vec8(n, k) }
  fn tagged(&self, v: &Value) -> bool { matches!(v, Value::Undefined(d) if d == self) } fn eq(&self, o: &Self) -> bool { self == o } }
impl Field for String { // printable ASCII without leading or trailing blank
  fn draw(n: &str) -> Self { let k = pick("len", 0, 5); let b = vec8(n, k); for (i, c) in b.iter().enumerate() { assume((*c >= if i == 0 || i + 1 == k { 0x21 } else { 0x20 }) & (*c <= 0x7e)); } unsafe { String::from_utf8_unchecked(b) } }
  fn tagged(&self, v: &Value) -> bool { matches!(v, Value::Ascii(d) if d.as_bytes().len() == self.len() + 1 && d.as_bytes()[..self.len()] == *self.as_bytes() && d.as_bytes()[self.len()] == 0) }
  fn eq(&self, o: &Self) -> bool { self.as_bytes() == o.as_bytes() } }

macro_rules! fields {
  ($one:ident, $all:ident, $st:ty, $mk:ident, $get:ident; $($f:ident: $t:ty, $ifd:expr, $tag:expr, $rd:expr;)*) => {
    /// exactly field number `which` is set
    fn $one(which: usize) {
      let mut k = 0usize;
      let mut x = <$st>::default();
      $( if k == which { x.$f = Some(<$t>::draw(stringify!($f))); } k += 1; )*
      if k <= which { assume(false); }
      let t = write(&meta($mk(x.clone())));
      let e = Exif::new(t.root_ifd()).unwrap(); let y = $get(e);
      // an empty list of values cannot be stored, it counts as absent
      $( { let v = value(&t, $ifd, $tag); match &x.$f { Some(w) if !empty(w) => { check!(v.is_some()); if let Some(v) = &v { check!(Field::tagged(w, v)); }
          if $rd { match &y.$f { Some(r) => check!(Field::eq(r, w)), None => check!(false) } } }
        _ => { check!(v.is_none()); check!(y.$f.is_none()); } } } )*
      reach(1);
    }
    /// every field for which `sel` holds is set
    fn $all(sel: fn(usize) -> bool) {
      let mut k = 0usize;
      let mut x = <$st>::default();
      $( if sel(k) { x.$f = Some(<$t>::draw(stringify!($f))); } k += 1; )*
      let _ = k;
      let t = write(&meta($mk(x.clone())));
      let e = Exif::new(t.root_ifd()).unwrap(); let y = $get(e);
      $( { let v = value(&t, $ifd, $tag); match &x.$f { Some(w) => { check!(v.is_some()); if let Some(v) = &v { check!(Field::tagged(w, v)); }
          if $rd { match &y.$f { Some(r) => check!(Field::eq(r, w)), None => check!(false) } } }
        None => check!(v.is_none()) } } )*
      reach(1);
    }
  };
}
trait Empty { fn is(&self) -> bool { false } }
impl Empty for u8 {} impl Empty for u16 {} impl Empty for u32 {} impl Empty for [u8; 4] {} impl Empty for Rational {} impl Empty for SRational {} impl<const K: usize> Empty for [Rational; K] {} impl Empty for String {}
impl Empty for Vec<i16> { fn is(&self) -> bool { self.is_empty() } } impl Empty for Vec<u8> { fn is(&self) -> bool { self.is_empty() } }
fn empty<T: Empty>(v: &T) -> bool { v.is() }
fn id(x: Exif) -> Exif { x }
fn gps_in(g: ExifGPS) -> Exif { Exif { gps: Some(g), ..Default::default() } }
fn gps_out(e: Exif) -> ExifGPS { e.gps.unwrap_or_default() }

fields!(one, all, Exif, id, id;
  orientation: u16, 0, 0x112, true; copyright: String, 0, 0x8298, true; artist: String, 0, 0x13b, true; modify_date: String, 0, 0x132, true;
  lens_spec: [Rational; 4], 1, 0xa432, false; exposure_time: Rational, 1, 0x829a, true; fnumber: Rational, 1, 0x829d, true; aperture_value: Rational, 1, 0x9202, true;
  brightness_value: SRational, 1, 0x9203, true; iso_speed_ratings: u16, 1, 0x8827, true; iso_speed: u32, 1, 0x8833, true; recommended_exposure_index: u32, 1, 0x8832, true;
  sensitivity_type: u16, 1, 0x8830, true; exposure_bias: SRational, 1, 0x9204, true; date_time_original: String, 1, 0x9003, true; create_date: String, 1, 0x9004, true;
  exposure_program: u16, 1, 0x8822, true; timezone_offset: Vec<i16>, 1, 0x882a, true; offset_time: String, 1, 0x9010, true; offset_time_original: String, 1, 0x9011, true;
  offset_time_digitized: String, 1, 0x9012, true; sub_sec_time: String, 1, 0x9290, true; sub_sec_time_original: String, 1, 0x9291, true; sub_sec_time_digitized: String, 1, 0x9292, true;
  shutter_speed_value: SRational, 1, 0x9201, true; max_aperture_value: Rational, 1, 0x9205, true; subject_distance: Rational, 1, 0x9206, true; metering_mode: u16, 1, 0x9207, true;
  light_source: u16, 1, 0x9208, true; flash: u16, 1, 0x9209, true; focal_length: Rational, 1, 0x920a, true; image_number: u32, 1, 0x9211, true; color_space: u16, 1, 0xa001, true;
  flash_energy: Rational, 1, 0x920b, true; exposure_mode: u16, 1, 0xa402, true; white_balance: u16, 1, 0xa403, true; scene_capture_type: u16, 1, 0xa406, true;
  subject_distance_range: u16, 1, 0xa40c, true; owner_name: String, 1, 0xa430, true; serial_number: String, 1, 0xa431, true; lens_serial_number: String, 1, 0xa435, true;
  lens_make: String, 1, 0xa433, false; lens_model: String, 1, 0xa434, false; user_comment: String, 1, 0x9286, true;
);
fields!(gone, gall, ExifGPS, gps_in, gps_out;
  gps_version_id: [u8; 4], 2, 0, true; gps_latitude_ref: String, 2, 1, true; gps_latitude: [Rational; 3], 2, 2, true; gps_longitude_ref: String, 2, 3, true; gps_longitude: [Rational; 3], 2, 4, true;
  gps_altitude_ref: u8, 2, 5, true; gps_altitude: Rational, 2, 6, true; gps_timestamp: [Rational; 3], 2, 7, true; gps_satellites: String, 2, 8, true; gps_status: String, 2, 9, true;
  gps_measure_mode: String, 2, 10, true; gps_dop: Rational, 2, 11, true; gps_speed_ref: String, 2, 12, true; gps_speed: Rational, 2, 13, true; gps_track_ref: String, 2, 14, true;
  gps_track: Rational, 2, 15, true; gps_img_direction_ref: String, 2, 16, true; gps_img_direction: Rational, 2, 17, true; gps_map_datum: String, 2, 18, true;
  gps_dest_latitude_ref: String, 2, 19, true; gps_dest_latitude: [Rational; 3], 2, 20, true; gps_dest_longitude_ref: String, 2, 21, true; gps_dest_longitude: [Rational; 3], 2, 22, true;
  gps_dest_bearing_ref: String, 2, 23, true; gps_dest_bearing: Rational, 2, 24, true; gps_dest_distance_ref: String, 2, 25, true; gps_dest_distance: Rational, 2, 26, true;
  gps_processing_method: Vec<u8>, 2, 27, true; gps_area_information: Vec<u8>, 2, 28, true; gps_date_stamp: String, 2, 29, true; gps_differential: u16, 2, 30, true; gps_h_positioning_error: Rational, 2, 31, true;
);
// one EXIF field set, each of the 44 in turn, with any value (strings of 0..5 printable characters, lists of 0..3 values)
entry!(c10_exif_one, { one(pick("field", 0, 43)); });
// one GPS field set, each of the 32 in turn, with any value (strings of 0..5 printable characters, byte lists of 0..6)
entry!(c10_gps_one, { gone(pick("field", 0, 31)); });
// all numeric EXIF fields set at once, any values
entry!(c10_exif_all, { all(|k| ![1, 2, 3, 14, 15, 17, 18, 19, 20, 21, 22, 23, 38, 39, 40, 41, 42, 43].contains(&k)); });
// all numeric GPS fields set at once, any values
entry!(c10_gps_all, { gall(|k| [0, 2, 4, 5, 6, 7, 11, 13, 15, 17, 20, 22, 24, 26, 30, 31].contains(&k)); });
// unique image id (any 128 bit value), DNG lens info and XMP packet of 1..9 bytes
entry!(c10_ids, {
  let mut m = meta(Exif { lens_spec: Some(<[Rational; 4]>::draw("lens")), ..Default::default() });
  let idb = bytes::<16>("id"); m.unique_image_id = Some(u128::from_le_bytes(idb));
  let n = pick("n", 1, 9); let xp = vec8("xmp", n);
  let mut buf = Cursor::new(Vec::new());
  let mut dng = DngWriter::new(&mut buf, DNG_VERSION_V1_4).unwrap();
  dng.load_metadata(&m).unwrap(); dng.xpacket(&xp).unwrap(); dng.close().unwrap();
  let src = RawSource::new_from_slice(&buf.into_inner());
  let t = GenericTiffReader::new(&mut src.reader(), 0, 0, None, &[]).unwrap();
  check!(matches!(value(&t, 0, 50781), Some(Value::Byte(d)) if d[..] == idb[..]));
  check!(matches!(value(&t, 0, 700), Some(Value::Byte(d)) if d == xp));
  check!(match value(&t, 0, 50736) { Some(v) => Field::tagged(m.exif.lens_spec.as_ref().unwrap(), &v), None => false });
  reach(1);
});
/// decimal numbers of fixed width joined by `sep`
fn text(v: &[(i64, u32)], sep: &str) -> String { let mut o = String::new(); for (i, (n, w)) in v.iter().enumerate() { if i > 0 { o.push(sep.as_bytes()[i - 1] as char); } for k in (0..*w).rev() { o.push((b'0' + (n / 10i64.pow(k) % 10) as u8) as char); } } o }
/// days since 1970-01-01 of a date of the proleptic Gregorian calendar
fn days(y: i64, m: i64, d: i64) -> i64 { let mut n = 0; for k in 1970..y { n += if (k % 4 == 0 && k % 100 != 0) || k % 400 == 0 { 366 } else { 365 }; }
  let l = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; for k in 0..m - 1 { n += [31, if l { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][k as usize]; } n + d - 1 }
// modification time: four dates, any second of the day; time zone from TimeZoneOffset (-12..14) or OffsetTime (with or without a TimeZoneOffset of the capture date only)
entry!(c10_mtime, {
  let (y, mo, d) = [(1999, 12, 31), (2000, 2, 29), (2024, 3, 1), (2038, 1, 19)][pick("date", 0, 3)];
  let hh = pick("hh", 0, 23) as i64; let mm = [0, 29, 59][pick("mm", 0, 2)] as i64; let ss = [0, 58, 59][pick("ss", 0, 2)] as i64;
  let mut e = Exif { modify_date: Some(text(&[(y, 4), (mo, 2), (d, 2), (hh, 2), (mm, 2), (ss, 2)], ":: ::")), ..Default::default() };
  let off;
  if pick("kind", 0, 1) == 0 { let tz = pick("tz", 0, 26) as i16 - 12; e.timezone_offset = Some(vec![3, tz]); off = tz as i64 * 3600; }
  else { let neg = pick("neg", 0, 1) == 1; let h = [0, 3, 11, 14][pick("oh", 0, 3)] as i64; let m = [0, 30, 45][pick("om", 0, 2)] as i64; e.offset_time = Some(String::from(if neg { "-" } else { "+" }) + &text(&[(h, 2), (m, 2)], ":")); off = (h * 3600 + m * 60) * if neg { -1 } else { 1 }; }
  if e.timezone_offset.is_none() && pick("one", 0, 1) == 1 { e.timezone_offset = Some(vec![3]); } // a single value is the zone of the capture date
  let t = meta(e).last_modified().unwrap().unwrap();
  let secs = t.duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() as i64;
  check!(secs == days(y, mo, d) * 86400 + hh * 3600 + mm * 60 + ss - off);
  reach(1);
});
