//! Verification stand-in: JPEG-XL decoding is outside every claim.
#[derive(Debug)]
pub struct Error;
pub struct JxlImage;
pub struct Builder;
pub struct BitDepth;
impl BitDepth { pub fn bits_per_sample(&self) -> u32 { 16 } }
pub struct FrameHeader { pub bit_depth: BitDepth }
pub struct Render;
pub struct ImageStream;
impl JxlImage {
  pub fn builder() -> Builder { Builder }
  pub fn frame_header(&self, _idx: usize) -> Option<&FrameHeader> { None }
  pub fn render_frame(&self, _idx: usize) -> Result<Render, Error> { Err(Error) }
  pub fn width(&self) -> u32 { 0 }
  pub fn height(&self) -> u32 { 0 }
}
impl Builder { pub fn read<R>(self, _r: R) -> Result<JxlImage, Error> { Err(Error) } }
impl Render { pub fn stream_no_alpha(&self) -> ImageStream { ImageStream } pub fn stream(&self) -> ImageStream { ImageStream } }
impl ImageStream { pub fn write_to_buffer<S>(&mut self, buf: &mut [S]) -> usize { buf.len() } }
