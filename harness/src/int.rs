//! Machine integers of both kinds seen as bit patterns.
use crate::*;
pub trait M: Integer + Copy {
    const W: usize;
    const SG: u8;
    const SC: u8;
    const NAME: &'static str;
    fn le(self) -> Vec<u8>;
    fn of(b: &[u8]) -> Self;
    fn int(v: u128) -> Self { Self::of(&v.to_le_bytes()[..Self::W]) }
}
macro_rules! m_public { ($($t:ident $w:literal $sg:literal),*) => { $(
    impl M for $t {
        const W: usize = $w; const SG: u8 = $sg; const SC: u8 = 0; const NAME: &'static str = stringify!($t);
        fn le(self) -> Vec<u8> { <$t>::to_le_bytes(self).to_vec() }
        fn of(b: &[u8]) -> Self { let mut x = [0; $w]; x.copy_from_slice(b); <$t>::from_le_bytes(x) }
    } )* } }
m_public!(u8 1 0, u16 2 0, u32 4 0, u64 8 0, u128 16 0, i8 1 1, i16 2 1, i32 4 1, i64 8 1, i128 16 1);
macro_rules! m_secret { ($($t:ident $p:ident $w:literal $sg:literal),*) => { $(
    impl M for $t {
        const W: usize = $w; const SG: u8 = $sg; const SC: u8 = 1; const NAME: &'static str = stringify!($t);
        fn le(self) -> Vec<u8> { <$p>::to_le_bytes(self.0).to_vec() }
        fn of(b: &[u8]) -> Self { let mut x = [0; $w]; x.copy_from_slice(b); $t(<$p>::from_le_bytes(x)) }
    } )* } }
m_secret!(U8 u8 1 0, U16 u16 2 0, U32 u32 4 0, U64 u64 8 0, U128 u128 16 0, I8 i8 1 1, I16 i16 2 1, I32 i32 4 1, I64 i64 8 1, I128 i128 16 1);

/// For every type listed, run a generic function.
#[macro_export]
macro_rules! each { ($f:ident [$($t:ident)*] $a:tt) => { $( $f::<$t> $a; )* } }

/// a list of n operand patterns of w bytes: corners first, then neighbours of powers of two, then random.
pub fn operand(r: &mut Rng, w: usize) -> Vec<u8> {
    let one = |i: usize| { let mut v = vec![0u8; w]; v[i / 8] = 1 << (i % 8); v };
    let addsmall = |mut v: Vec<u8>, d: i32| { let mut c = d; for b in v.iter_mut() { let t = *b as i32 + c; *b = t.rem_euclid(256) as u8; c = t.div_euclid(256) } v };
    match r.below(10) {
        0 => { let d = r.below(7) as i32 - 3; addsmall(vec![0; w], d) }
        1 => { let d = r.below(7) as i32 - 3; addsmall(one(8 * w - 1), d) }
        2 | 3 => { let (i, d) = (r.below(8 * w), r.below(3) as i32 - 1); addsmall(one(i), d) }
        4 => { let mut v = r.uniform(w); for b in &mut v[(w + 1) / 2..] { *b = 0 } v }
        5 => { let n = r.below(w) + 1; let mut v = r.uniform(w); for b in &mut v[n..] { *b = if n & 1 == 0 { 0 } else { 0xff } } v }
        _ => r.bytes(w),
    }
}
/// pairs that are often equal, adjacent, or complementary
pub fn pair(r: &mut Rng, w: usize) -> (Vec<u8>, Vec<u8>) {
    let a = operand(r, w);
    let b = match r.below(9) {
        0 => a.clone(),
        1 => { let mut b = a.clone(); let i = r.below(8 * w); b[i / 8] ^= 1 << (i % 8); b }
        2 => a.iter().map(|x| !x).collect(),
        3 => { let mut b = a.clone(); b[w - 1] ^= 0x80; b }
        4 => { let mut b = a.clone(); b[0] = b[0].wrapping_add(1); b }
        _ => operand(r, w),
    };
    if r.chance(2) { (a, b) } else { (b, a) }
}
/// Value or -1 if the call panics.
pub fn or_panic(f: impl FnOnce() -> i64) -> i64 {
    catch_unwind(AssertUnwindSafe(f)).unwrap_or(-1)
}
pub fn row(f: impl Fn(u8) -> i64) -> Vec<J> { (0..=255u8).map(|b| J::I(or_panic(|| f(b)))).collect() }
