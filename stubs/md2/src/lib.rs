//! Stand-in for the md2 crate: instead of a digest, the sequence of bytes
//! that were hashed, so that what is signed can be compared byte for byte
//! (MD2 itself is external to the code under check).
pub struct Md2 { log: Vec<u8> }
/// takes the place of the 16 byte digest
pub struct Output(pub Vec<u8>);
impl Output {
    /// only for code that insists on 16 bytes
    pub fn fold(&self) -> [u8; 16] {
        let (mut a, mut b) = (0xcbf2_9ce4_8422_2325u64, 7u64);
        for x in &self.0 { a = a.wrapping_mul(0x0000_0100_0000_01b3).wrapping_add(*x as u64 + 1); b = b.rotate_left(9).wrapping_add((*x as u64) ^ 0x9e37_79b9); }
        let mut o = [0; 16];
        o[..8].copy_from_slice(&a.to_le_bytes()); o[8..].copy_from_slice(&b.to_le_bytes());
        o
    }
    pub fn as_slice(&self) -> &[u8] { &self.0 }
}
impl std::ops::Deref for Output { type Target = [u8]; fn deref(&self) -> &[u8] { &self.0 } }
impl AsRef<[u8]> for Output { fn as_ref(&self) -> &[u8] { &self.0 } }
impl From<Output> for [u8; 16] { fn from(o: Output) -> [u8; 16] { o.fold() } }
impl IntoIterator for Output { type Item = u8; type IntoIter = std::vec::IntoIter<u8>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }
pub trait Digest {
    fn new() -> Self;
    fn update(&mut self, d: impl AsRef<[u8]>);
    fn finalize(self) -> Output;
    fn chain_update(mut self, d: impl AsRef<[u8]>) -> Self where Self: Sized { self.update(d); self }
    fn new_with_prefix(d: impl AsRef<[u8]>) -> Self where Self: Sized { let mut h = Self::new(); h.update(d); h }
    fn digest(d: impl AsRef<[u8]>) -> Output where Self: Sized { let mut h = Self::new(); h.update(d); h.finalize() }
}
impl Digest for Md2 {
    fn new() -> Self { Md2 { log: Vec::new() } }
    fn update(&mut self, d: impl AsRef<[u8]>) { self.log.extend_from_slice(d.as_ref()) }
    fn finalize(self) -> Output { Output(self.log) }
}
impl Default for Md2 { fn default() -> Self { Md2::new() } }
