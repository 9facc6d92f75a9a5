//! Harness interface: symbolic inputs, assumptions, checks, observations.
#![allow(dead_code)]
unsafe extern "C" {
    fn vh_sym(p: *mut u8, n: usize);
    fn vh_assume(c: i32);
    fn vh_check(c: i32, m: *const u8, n: usize);
    fn vh_observe(p: *const u8, n: usize);
    fn vh_param(i: u64) -> u64;
    fn vh_reach(i: u64);
    fn vh_concretize(x: u64) -> u64;
    fn vh_is_symbolic(x: u64) -> u64;
    fn vh_log(p: *const u8, n: usize);
}
/// n symbolic bytes; of very many, those at the start, the end and around 2^16
pub fn sym_bytes(n: usize) -> Vec<u8> {
    if n > 30000 {
        let mut v: Vec<u8> = (0..n).map(|i| (i * 7 + i / 256) as u8).collect();
        for (a, b) in [(0, 16), (n.min(65530), n.min(65546)), (n - 16, n)] { if a < b { v[a..b].copy_from_slice(&sym_bytes(b - a)); } }
        return v;
    } let mut v = vec![0u8; n]; if n > 0 { unsafe { vh_sym(v.as_mut_ptr(), n) } } v }
pub fn sym_arr<const N: usize>() -> [u8; N] { let mut v = [0u8; N]; unsafe { vh_sym(v.as_mut_ptr(), N) } v }
pub fn u8s() -> u8 { sym_arr::<1>()[0] }
pub fn u16s() -> u16 { u16::from_le_bytes(sym_arr()) }
pub fn u32s() -> u32 { u32::from_le_bytes(sym_arr()) }
pub fn i32s() -> i32 { i32::from_le_bytes(sym_arr()) }
pub fn u64s() -> u64 { u64::from_le_bytes(sym_arr()) }
/// any float that is not a NaN
pub fn f32s() -> f32 { let b = u32s(); assume((b & 0x7fff_ffff) <= 0x7f80_0000); f32::from_bits(b) }
pub fn f32any() -> f32 { f32::from_bits(u32s()) }
pub fn f32fin() -> f32 { let b = u32s(); assume((b & 0x7f80_0000) != 0x7f80_0000); f32::from_bits(b) }
pub fn bools() -> bool { let b = u8s(); assume(b < 2); b != 0 }
/// value in 0..n, case split by the engine
pub fn choose(n: u64) -> u64 { if n < 2 { return 0; } let b = u8s() as u64; assume(b < n); unsafe { vh_concretize(b) } }
pub fn concretize(x: u64) -> u64 { unsafe { vh_concretize(x) } }
pub fn assume(c: bool) { unsafe { vh_assume(c as i32) } }
pub fn check(c: bool, m: &str) { unsafe { vh_check(c as i32, m.as_ptr(), m.len()) } }
pub fn observe(b: &[u8]) { if !b.is_empty() { unsafe { vh_observe(b.as_ptr(), b.len()) } } }
pub fn param(i: u64) -> u64 { unsafe { vh_param(i) } }
pub fn reach(i: u64) { unsafe { vh_reach(i) } }
pub fn log(s: &str) { unsafe { vh_log(s.as_ptr(), s.len()) } }
/// branch-free equality of two equally long buffers
pub fn bytes_eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false; }
    let mut d = 0u8;
    for i in 0..a.len() { d |= a[i] ^ b[i]; }
    d == 0
}
