use harness::int::*;
use harness::{*, Rng};
use hacspec::prelude::*;

fn nonneg<T: M>(mut v: Vec<u8>) -> Vec<u8> { if T::SG == 1 { v[T::W - 1] &= 0x7f } v }
fn modulus<T: M>(r: &mut Rng) -> Vec<u8> {
    let w = T::W;
    let v = match r.below(6) {
        0 => T::int(1 + r.below(12) as u128).le(),
        1 => { let mut v = vec![0xff; w]; v[0] = r.next() as u8; v }
        2 => { let k = 1 + r.below(w); let mut v = r.uniform(w); for x in &mut v[k..] { *x = 0 } v }
        3 => { let k = r.below(8 * w); let mut v = vec![0; w]; v[k / 8] = 1 << (k % 8); if r.chance(2) { v[0] |= 1 } v }
        _ => r.uniform(w),
    };
    let v = nonneg::<T>(v);
    if v.iter().all(|x| *x == 0) { T::int(1).le() } else { v }
}
fn num(v: &[u8]) -> u128 { let mut b = [0u8; 16]; b[..v.len()].copy_from_slice(v); u128::from_le_bytes(b) }
/// a residue of n, often close to 0 or to n
fn residue<T: M>(r: &mut Rng, n: &[u8]) -> Vec<u8> {
    let mut wide = [0u8; 16];
    wide[..T::W].copy_from_slice(n);
    let n = u128::from_le_bytes(wide);
    let small = r.below(4) as u128;
    let x = match r.below(8) { 0 => small % n, 1 => n - 1 - small % n, 2 => n / 2, 3 => (n / 2 + 1) % n, 4 => (r.u128() >> r.below(128)) % n, _ => r.u128() % n };
    T::int(x).le()
}
fn run<T: M>(t: &mut Trace, r: &mut Rng, k: usize) {
    let (w, sg, sc, ty) = (T::W, T::SG, T::SC, T::NAME);
    for i in 0..k {
        let n = modulus::<T>(r);
        let (a, b) = if sg == 1 && i % 3 == 0 { (operand(r, w), operand(r, w)) } else { (residue::<T>(r, &n), residue::<T>(r, &n)) };
        let (x, y, m) = (T::of(&a), T::of(&b), T::of(&n));
        macro_rules! go { ($($f:ident),*) => { $( { t.call(stringify!($f), args! {w: w, sg: sg, sc: sc, t: ty, a: &a, b: &b, n: &n}, || x.$f(y, m).le()); } )* } }
        go!(add_mod, sub_mod, mul_mod);
        // half-size operands, so that products fit
        let h = { let mut h = modulus::<T>(r); for z in &mut h[(w + 1) / 2..] { *z = 0 } if w == 1 { h[0] &= 15 } if h.iter().all(|z| *z == 0) { h[0] = 7 } h };
        let (a2, b2) = (residue::<T>(r, &h), residue::<T>(r, &h));
        let (x2, y2, m2) = (T::of(&a2), T::of(&b2), T::of(&h));
        macro_rules! half { ($($f:ident),*) => { $( { t.call(stringify!($f), args! {w: w, sg: sg, sc: sc, t: ty, a: &a2, b: &b2, n: &h}, || x2.$f(y2, m2).le()); } )* } }
        half!(add_mod, sub_mod, mul_mod);
        if sg == 0 {
            // operands that are not reduced; the subtrahend at most a few hundred times the modulus, since each multiple costs a step
            let big = operand(r, w);
            let (wa, wb) = if r.chance(3) { (a2.clone(), residue::<T>(r, &n)) } else { (big, residue::<T>(r, &h)) };
            let m = if num(&wb) / 300 >= num(&h) { n.clone() } else { h.clone() };
            let (x3, y3, m3) = (T::of(&wa), T::of(&wb), T::of(&m));
            macro_rules! wide { ($($f:ident),*) => { $( { t.call(stringify!($f), args! {w: w, sg: sg, sc: sc, t: ty, a: &wa, b: &wb, n: &m}, || x3.$f(y3, m3).le()); } )* } }
            wide!(add_mod, sub_mod, mul_mod);
        }
        let c = operand(r, w);
        t.call("modulo", args! {w: w, sg: sg, sc: sc, t: ty, a: &c, n: &n}, || T::of(&c).modulo(m).le());
        t.call("inv", args! {w: w, sg: sg, sc: sc, t: ty, a: &a2, n: &h}, || NumericBase::inv(x2, m2).le());
        t.call("inv", args! {w: w, sg: sg, sc: sc, t: ty, a: &a, n: &n}, || NumericBase::inv(x, m).le());
        if i % 4 == 0 { t.call("inv", args! {w: w, sg: sg, sc: sc, t: ty, a: &c, n: &h}, || NumericBase::inv(T::of(&c), m2).le()); }
    }
}
fn rows<T: M>(t: &mut Trace, r: &mut Rng, k: usize) {
    let (sg, ty) = (T::SG, T::NAME);
    let top = if sg == 1 { 127 } else { 255u8 };
    let u = |x: T| x.le()[0] as i64;
    let mut ns: Vec<u8> = vec![1, 2, 3, 7, 13, 15, 16, 17, 64, 97, 126, 127];
    if sg == 0 { ns.extend([128, 129, 251, 254, 255]) }
    for _ in 0..k { ns.push(1 + r.below(top as usize) as u8) }
    for n in ns {
        let m = T::of(&[n]);
        let mut xs: Vec<u8> = vec![0, 1 % n, n - 1, n / 2];
        for _ in 0..k { xs.push(if sg == 1 || r.chance(2) { r.next() as u8 } else { r.below(n as usize) as u8 }) }
        xs.sort(); xs.dedup();
        for a in xs {
            let x = T::of(&[a]);
            macro_rules! go { ($($f:ident),*) => { $( { t.call("modrow", args! {w: 1, sg: sg, t: ty, g: stringify!($f), a: a, n: n}, || row(|b| u(x.$f(T::of(&[b]), m)))); } )* } }
            go!(add_mod, sub_mod, mul_mod);
        }
    }
    for n in 1..=top {
        let m = T::of(&[n]);
        t.call("invrow", args! {w: 1, sg: sg, t: ty, n: n}, || row(|b| if b == 0 { 0 } else { u(NumericBase::inv(T::of(&[b]), m)) }));
    }
}
fn main() {
    let mut t = Trace::open(40);
    let mut r = t.rng(4);
    let k = t.n(10, 60);
    each!(rows [u8 i8 U8 I8] (&mut t, &mut r, k));
    let n = t.n(60, 2500);
    each!(run [U8 U16 U32 U64 U128 I8 I16 I32 I64 I128 u8 u16 u32 u64 u128 i8 i16 i32 i64 i128] (&mut t, &mut r, n));
    t.close()
}
