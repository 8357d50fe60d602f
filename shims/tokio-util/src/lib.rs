//! Stand-in for tokio_util::codec over the model connection.
#![allow(clippy::all)]
pub mod codec {
  use bytes::BytesMut;
  use futures_core::Stream;
  use futures_sink::Sink;
  use std::{io, pin::Pin, task::{Context, Poll}};
  pub trait Decoder {
    type Item; type Error: From<io::Error>;
    fn decode(&mut self, src: &mut BytesMut) -> Result<Option<Self::Item>, Self::Error>;
    fn decode_eof(&mut self, buf: &mut BytesMut) -> Result<Option<Self::Item>, Self::Error> { match self.decode(buf)? { Some(f) => Ok(Some(f)), None => if buf.is_empty() { Ok(None) } else { Err(io::Error::from(io::ErrorKind::Other).into()) } } }
    fn framed<T>(self, io: T) -> Framed<T, Self> where Self: Sized { Framed::new(io, self) }
  }
  pub trait Encoder<Item> { type Error: From<io::Error>; fn encode(&mut self, item: Item, dst: &mut BytesMut) -> Result<(), Self::Error>; }
  pub struct Framed<T, U> { io: T, codec: U, rd: BytesMut, wr: BytesMut, eof: bool, failed: bool, readable: bool }
  impl<T, U> Framed<T, U> { pub fn new(io: T, codec: U) -> Self { Framed { io, codec, rd: BytesMut::new(), wr: BytesMut::new(), eof: false, failed: false, readable: false } } pub fn get_ref(&self) -> &T { &self.io } }
  impl<T: Unpin, U: Unpin> Unpin for Framed<T, U> {}
  // as tokio_util::codec::FramedImpl: decode what is buffered, read more when
  // the decoder asks for it, end after an error
  impl<T: tokio::io::AsyncRead + Unpin, U: Decoder + Unpin> Stream for Framed<T, U> {
    type Item = Result<U::Item, U::Error>;
    fn poll_next(mut self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
      let s = &mut *self;
      loop {
        if s.failed { s.failed = false; return Poll::Ready(None) }
        if s.readable {
          if s.eof { return Poll::Ready(match s.codec.decode_eof(&mut s.rd) { Ok(None) => { s.readable = false; None } Ok(Some(f)) => Some(Ok(f)), Err(e) => { s.failed = true; Some(Err(e)) } }) }
          match s.codec.decode(&mut s.rd) { Ok(Some(f)) => return Poll::Ready(Some(Ok(f))), Ok(None) => s.readable = false, Err(e) => { s.failed = true; return Poll::Ready(Some(Err(e))) } }
        }
        match s.io.read_chunk() {
          Err(e) => { s.failed = true; return Poll::Ready(Some(Err(e.into()))) }
          Ok(c) => { if c.is_empty() { if s.eof { return Poll::Ready(None) } s.eof = true } else { s.rd.extend_from_slice(&c); s.eof = false } s.readable = true }
        }
      }
    }
  }
  impl<T: tokio::io::AsyncWrite + Unpin, U: Encoder<I> + Unpin, I> Sink<I> for Framed<T, U> {
    type Error = U::Error;
    fn poll_ready(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Result<(), Self::Error>> { Poll::Ready(Ok(())) }
    fn start_send(mut self: Pin<&mut Self>, item: I) -> Result<(), Self::Error> { let s = &mut *self; s.codec.encode(item, &mut s.wr) }
    fn poll_flush(mut self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Result<(), Self::Error>> { let s = &mut *self; let b = s.wr.split(); if !b.is_empty() { if let Err(e) = s.io.write_chunk(&b) { return Poll::Ready(Err(e.into())) } } Poll::Ready(Ok(())) }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Self::Error>> { self.poll_flush(cx) }
  }
}
