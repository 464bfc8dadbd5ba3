use harness::int::*;
use harness::{*, Rng};
use hacspec::prelude::*;

/// the interface shared by secret and public types
fn generic<T: M>(t: &mut Trace, r: &mut Rng, n: usize) {
    let (w, sg, sc, ty) = (T::W, T::SG, T::SC, T::NAME);
    let bits = 8 * w;
    t.call("consts", args! {w: w, sg: sg, t: ty}, || vec![T::ZERO.le(), T::ONE.le(), T::TWO.le(), T::max_val().le(), T::default().le(), T::NUM_BITS.to_le_bytes().to_vec()]);
    for _ in 0..n {
        let (a, b) = pair(r, w);
        let (x, y) = (T::of(&a), T::of(&b));
        macro_rules! two { ($($op:literal $e:expr),*) => { $( t.call($op, args! {w: w, sg: sg, sc: sc, t: ty, f: "trait", a: &a, b: &b}, || { let v: T = $e; v.le() }); )* } }
        two!("add" x.wrap_add(y), "sub" x.wrap_sub(y), "mul" x.wrap_mul(y), "and" x & y, "or" x | y, "xor" x ^ y, "wrap_div" x.wrap_div(y), "div" x.div(y));
        t.call("not", args! {w: w, t: ty, f: "trait", a: &a}, || (!x).le());
        let k = if r.chance(8) { bits - 1 } else if r.chance(8) { 0 } else { r.below(bits) } as u32;
        t.call("shl", args! {w: w, sg: sg, t: ty, f: "trait", a: &a, k: k}, || (x << k).le());
        t.call("shr", args! {w: w, sg: sg, t: ty, f: "trait", a: &a, k: k}, || (x >> k).le());
        t.call("rotl", args! {w: w, sg: sg, t: ty, f: "trait", a: &a, k: k}, || Integer::rotate_left(x, k).le());
        t.call("rotr", args! {w: w, sg: sg, t: ty, f: "trait", a: &a, k: k}, || Integer::rotate_right(x, k).le());
        t.call("get_bit", args! {w: w, t: ty, a: &a, k: k}, || x.get_bit(k).le());
        let bit = r.below(2);
        t.call("set_bit", args! {w: w, t: ty, a: &a, n: bit, k: k}, || x.set_bit(T::int(bit as u128), k).le());
        let yi = r.below(bits) as u32;
        t.call("set", args! {w: w, t: ty, a: &a, b: &b, n: yi, k: k}, || x.set(k, y, yi).le());
        let e = if r.chance(3) { r.below(4) } else { r.below(12) } as u32;
        let p = if r.chance(3) { T::int(r.below(6) as u128).le() } else { a.clone() };
        t.call("pow", args! {w: w, sg: sg, sc: sc, t: ty, a: &p, k: e}, || NumericBase::pow(T::of(&p), e).le());
        let lit = match r.below(4) { 0 => r.u128(), 1 => r.u128() >> r.below(128), 2 => r.below(300) as u128, _ => u128::MAX >> r.below(128) };
        t.call("literal", args! {w: w, t: ty, a: lit.to_le_bytes()}, || T::from_literal(lit).le());
    }
    // exponents of every size
    for k in [31u32, 32, 63, 64, 127, 128, 129, 255, 256, 257, 258, 511, 513, 1000, 4097, 65535, 65536, 65537, 70001] {
        for a in [T::int(3).le(), T::int(2).le(), T::ONE.le(), T::ZERO.le(), vec![0xff; w], T::int(1 | r.u128()).le()] {
            t.call("pow", args! {w: w, sg: sg, sc: sc, t: ty, a: &a, k: k}, || NumericBase::pow(T::of(&a), k).le());
        }
    }
    // rotations and shifts by every amount
    for a in [operand(r, w), r.uniform(w), { let mut v = vec![0; w]; v[w - 1] = 0x80; v[0] = 1; v }] {
        let x = T::of(&a);
        for k in 0..(bits as u32 + 2) {
            t.call("shl", args! {w: w, sg: sg, t: ty, f: "trait", a: &a, k: k}, || (x << k).le());
            t.call("shr", args! {w: w, sg: sg, t: ty, f: "trait", a: &a, k: k}, || (x >> k).le());
            t.call("rotl", args! {w: w, sg: sg, t: ty, f: "trait", a: &a, k: k}, || Integer::rotate_left(x, k).le());
            t.call("rotr", args! {w: w, sg: sg, t: ty, f: "trait", a: &a, k: k}, || Integer::rotate_right(x, k).le());
            t.call("get_bit", args! {w: w, t: ty, a: &a, k: k}, || x.get_bit(k).le());
            t.call("set_bit", args! {w: w, t: ty, a: &a, n: k & 1, k: k}, || x.set_bit(T::int(k as u128 & 1), k).le());
            t.call("set_bit", args! {w: w, t: ty, a: &a, n: 1 - (k & 1), k: k}, || x.set_bit(T::int(1 - (k as u128 & 1)), k).le());
        }
    }
}
/// every pair of the values where something changes
fn corner_values(w: usize) -> Vec<Vec<u8>> {
    let sum = |v: u128, d: u128| v.wrapping_add(d).to_le_bytes()[..w].to_vec();
    let (top, half) = (1u128 << (8 * w - 1), 1u128 << (4 * w));
    vec![sum(0, 0), sum(0, 1), sum(0, 2), sum(0, 3), sum(0, u128::MAX), sum(0, u128::MAX - 1), sum(top, 0), sum(top, 1), sum(top, u128::MAX), sum(half, 0), sum(half, u128::MAX), sum(half, 1)]
}
fn corners<T: M>(t: &mut Trace) {
    let (w, sg, sc, ty) = (T::W, T::SG, T::SC, T::NAME);
    for a in corner_values(w) { for b in corner_values(w) {
        let (x, y) = (T::of(&a), T::of(&b));
        macro_rules! two { ($($op:literal $e:expr),*) => { $( t.call($op, args! {w: w, sg: sg, sc: sc, t: ty, f: "trait", a: &a, b: &b}, || { let v: T = $e; v.le() }); )* } }
        two!("add" x.wrap_add(y), "sub" x.wrap_sub(y), "mul" x.wrap_mul(y), "wrap_div" x.wrap_div(y), "div" x.div(y));
    } }
}
fn get_byte<T: M + UnsignedSecretInteger>(t: &mut Trace, r: &mut Rng, n: usize) {
    for _ in 0..n { let a = operand(r, T::W); for k in 0..T::W as u32 {
        t.call("get_byte", args! {w: T::W, t: T::NAME, a: &a, k: k}, || T::of(&a).get_byte(k).le()); } }
}
/// operators and methods only secret types have
macro_rules! secret { ($t:ident $tr:expr, $r:expr, $n:expr) => { {
    let (w, sg, ty) = ($t::W, $t::SG, $t::NAME);
    let (t, r): (&mut Trace, &mut Rng) = ($tr, $r);
    t.call("sconsts", args! {w: w, sg: sg, t: ty}, || vec![$t::zero().le(), $t::one().le(), $t::ones().le(), $t::max_value().le()]);
    for i in 0..$n {
        let (a, b) = if i == 0 { (<$t as M>::le($t::max_value() + $t::one()), vec![0xff; w]) } else { pair(r, w) };
        let (x, y) = ($t::of(&a), $t::of(&b));
        macro_rules! ops { ($f:literal $op:literal $e:expr) => { t.call($op, args! {w: w, sg: sg, sc: 1, t: ty, f: $f, a: &a, b: &b}, || { let v: $t = $e; v.le() }); } }
        ops!("op" "add" x + y); ops!("op" "sub" x - y); ops!("op" "mul" x * y);
        ops!("op" "and" x & y); ops!("op" "or" x | y); ops!("op" "xor" x ^ y);
        ops!("op" "neg" -x); ops!("op" "not" !x);
        ops!("assign" "add" { let mut z = x; z += y; z }); ops!("assign" "sub" { let mut z = x; z -= y; z }); ops!("assign" "mul" { let mut z = x; z *= y; z });
        ops!("assign" "and" { let mut z = x; z &= y; z }); ops!("assign" "or" { let mut z = x; z |= y; z }); ops!("assign" "xor" { let mut z = x; z ^= y; z });
        ops!("op" "chk_add" x.checked_add(y)); ops!("op" "chk_sub" x.checked_sub(y)); ops!("op" "chk_mul" x.checked_mul(y));
        // operands whose product is near the limit
        if r.chance(2) {
            let (a, b) = { let s = r.below(8 * w); let f = |v: &Vec<u8>, k: usize| <$t as M>::le($t::of(v) >> k as u32); (f(&a, s), f(&b, 8 * w - 1 - s)) };
            let (x, y) = ($t::of(&a), $t::of(&b));
            t.call("chk_mul", args! {w: w, sg: sg, t: ty, f: "op", a: &a, b: &b}, || x.checked_mul(y).le());
        }
        let k = r.below(8 * w) as u32;
        macro_rules! sh { ($f:literal $op:literal $k:expr, $e:expr) => { t.call($op, args! {w: w, sg: sg, t: ty, f: $f, a: &a, k: $k}, || { let v: $t = $e; v.le() }); } }
        sh!("op" "shl" k, x << k); sh!("op" "shr" k, x >> k);
        sh!("assign" "shl" k, { let mut z = x; z <<= k; z }); sh!("assign" "shr" k, { let mut z = x; z >>= k; z });
        let k = if r.chance(3) { r.below(300) } else { r.below(8 * w) } as u32;
        sh!("op" "rotl" k, $t::rotate_left(x, k)); sh!("op" "rotr" k, $t::rotate_right(x, k));
    }
} } }
macro_rules! checked_corners { ($($t:ident)* ; $tr:expr) => { {
    let tr: &mut Trace = $tr;
    $( for a in corner_values($t::W) { for b in corner_values($t::W) {
        let (x, y) = ($t::of(&a), $t::of(&b));
        macro_rules! ops { ($op:literal $e:expr) => { tr.call($op, args! {w: $t::W, sg: $t::SG, sc: 1, t: $t::NAME, f: "op", a: &a, b: &b}, || { let v: $t = $e; v.le() }); } }
        ops!("chk_add" x.checked_add(y)); ops!("chk_sub" x.checked_sub(y)); ops!("chk_mul" x.checked_mul(y));
    } } )*
} } }
macro_rules! rows8 { ($t:ident $tr:expr) => { {
    let tr: &mut Trace = $tr;
    for a in 0..=255u8 {
        let x = <$t as M>::of(&[a]);
        macro_rules! go { ($g:literal $y:ident $e:expr) => { tr.call("row", args! {w: 1, sg: $t::SG, t: $t::NAME, g: $g, a: a}, || row(|b| { let $y = <$t as M>::of(&[b]); let v: $t = $e; v.le()[0] as i64 })); } }
        go!("add" y x + y); go!("sub" y x - y); go!("mul" y x * y); go!("and" y x & y); go!("or" y x | y); go!("xor" y x ^ y);
        go!("chk_add" y x.checked_add(y)); go!("chk_sub" y x.checked_sub(y)); go!("chk_mul" y x.checked_mul(y));
        go!("add" y { let mut z = x; z += y; z }); go!("sub" y { let mut z = x; z -= y; z }); go!("mul" y { let mut z = x; z *= y; z });
        tr.call("neg", args! {w: 1, sg: $t::SG, t: $t::NAME, a: vec![a]}, || (-x).le());
    }
} } }
fn pub8<T: M>(tr: &mut Trace) {
    for a in 0..=255u8 {
        let x = T::of(&[a]);
        macro_rules! go { ($($g:literal $y:ident $e:expr),*) => { $( { tr.call("row", args! {w: 1, sg: T::SG, t: T::NAME, g: $g, a: a}, || row(|b| { let $y = T::of(&[b]); ($e).le()[0] as i64 })); } )* } }
        go!("add" y x.wrap_add(y), "sub" y x.wrap_sub(y), "mul" y x.wrap_mul(y), "div" y x.div(y));
        if T::SC == 0 { go!("wdiv" y x.wrap_div(y)) }
    }
}
fn main() {
    let mut t = Trace::open(40);
    let mut r = t.rng(1);
    rows8!(U8 &mut t); rows8!(I8 &mut t);
    each!(pub8[u8 i8 U8 I8](&mut t));
    let n = t.n(40, 1500);
    each!(corners [U16 U32 U64 U128 I16 I32 I64 I128 u16 u32 u64 u128 i16 i32 i64 i128] (&mut t));
    checked_corners!(U16 U32 U64 U128 I16 I32 I64 I128; &mut t);
    each!(generic [U8 U16 U32 U64 U128 I8 I16 I32 I64 I128 u8 u16 u32 u64 u128 i8 i16 i32 i64 i128] (&mut t, &mut r, n));
    each!(get_byte [U8 U16 U32 U64 U128] (&mut t, &mut r, n / 3));
    secret!(U8 &mut t, &mut r, n); secret!(U16 &mut t, &mut r, n); secret!(U32 &mut t, &mut r, n); secret!(U64 &mut t, &mut r, n); secret!(U128 &mut t, &mut r, n);
    secret!(I8 &mut t, &mut r, n); secret!(I16 &mut t, &mut r, n); secret!(I32 &mut t, &mut r, n); secret!(I64 &mut t, &mut r, n); secret!(I128 &mut t, &mut r, n);
    t.close()
}
