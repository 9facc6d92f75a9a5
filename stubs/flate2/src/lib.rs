//! Stand-in for the flate2 crate: the "compressed" form is a mark, the length
//! and the bytes themselves. Compression is not this repository's code; with
//! it in place data of unknown value can be followed through.
use std::io::{self, Read, Write};
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Compression(u32);
impl Compression {
    pub const fn new(l: u32) -> Self { Compression(l) }
    pub const fn none() -> Self { Compression(0) }
    pub const fn fast() -> Self { Compression(1) }
    pub const fn best() -> Self { Compression(9) }
    pub fn level(&self) -> u32 { self.0 }
}
impl Default for Compression { fn default() -> Self { Compression(6) } }
const MARK: [u8; 2] = [0x78, 0x5e];
pub mod write {
    use super::*;
    pub struct ZlibEncoder<W: Write> { w: Option<W>, d: Vec<u8> }
    impl<W: Write> ZlibEncoder<W> {
        pub fn new(w: W, _: Compression) -> Self { ZlibEncoder { w: Some(w), d: Vec::new() } }
        fn done(&mut self) -> io::Result<()> {
            if let Some(w) = &mut self.w { w.write_all(&MARK)?; w.write_all(&(self.d.len() as u32).to_le_bytes())?; w.write_all(&self.d)?; }
            Ok(())
        }
        pub fn finish(mut self) -> io::Result<W> { self.done()?; Ok(self.w.take().unwrap()) }
        pub fn get_ref(&self) -> &W { self.w.as_ref().unwrap() }
        pub fn get_mut(&mut self) -> &mut W { self.w.as_mut().unwrap() }
    }
    impl<W: Write> Write for ZlibEncoder<W> {
        fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.d.extend_from_slice(b); Ok(b.len()) }
        fn flush(&mut self) -> io::Result<()> { Ok(()) }
    }
    impl<W: Write> Drop for ZlibEncoder<W> { fn drop(&mut self) { let _ = self.done(); } }
}
pub mod read {
    use super::*;
    pub struct ZlibDecoder<R> { r: R, d: Option<(Vec<u8>, usize)> }
    impl<R: Read> ZlibDecoder<R> {
        pub fn new(r: R) -> Self { ZlibDecoder { r, d: None } }
    }
    impl<R: Read> Read for ZlibDecoder<R> {
        fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
            if self.d.is_none() {
                let mut h = [0; 6];
                self.r.read_exact(&mut h)?;
                if h[..2] != MARK { return Err(io::Error::from(io::ErrorKind::InvalidData)); }
                let mut v = vec![0; u32::from_le_bytes([h[2], h[3], h[4], h[5]]) as usize];
                self.r.read_exact(&mut v)?;
                self.d = Some((v, 0));
            }
            let (v, at) = self.d.as_mut().unwrap();
            let n = b.len().min(v.len() - *at);
            b[..n].copy_from_slice(&v[*at..*at + n]);
            *at += n;
            Ok(n)
        }
    }
}
