use hacspec::prelude::*;
use harness::{*, Rng};
use num::bigint::{BigInt, BigUint};
use num::{One, Zero};

// hacspec types
public_nat_mod!(P1, P1c, 8, "01"); public_nat_mod!(P2, P2c, 8, "02"); public_nat_mod!(P13, P13c, 8, "0d"); public_nat_mod!(P16, P16c, 8, "10");
public_nat_mod!(P251, P251c, 8, "fb"); public_nat_mod!(P255, P255c, 8, "ff"); public_nat_mod!(P17, P17c, 5, "11");
public_nat_mod!(P64, P64c, 64, "ffffffffffffffc5");
public_nat_mod!(P127, P127c, 127, "7fffffffffffffffffffffffffffffff");
public_nat_mod!(P129, P129c, 129, "0100000000000000000000000000000000");
public_nat_mod!(P130, P130c, 131, "03fffffffffffffffffffffffffffffffb");
public_nat_mod!(P255i, P255ic, 256, "7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed");
public_nat_mod!(PL, PLc, 256, "1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed");
public_nat_mod!(P256, P256c, 256, "ffffffff00000001000000000000000000000000ffffffffffffffffffffffff");
public_nat_mod!(P384, P384c, 384, "fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000ffffffff");
public_nat_mod!(P521, P521c, 521, "01ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff");
nat_mod!(S1, S1c, 8, "01"); nat_mod!(S13, S13c, 8, "0d"); nat_mod!(S16, S16c, 8, "10"); nat_mod!(S255, S255c, 8, "ff"); nat_mod!(S251, S251c, 8, "fb");
nat_mod!(S64, S64c, 64, "ffffffffffffffc5"); nat_mod!(S129, S129c, 129, "0100000000000000000000000000000000");
nat_mod!(S130, S130c, 130, "03fffffffffffffffffffffffffffffffb");
nat_mod!(S256, S256c, 256, "ffffffff00000001000000000000000000000000ffffffffffffffffffffffff");
nat_mod!(S521, S521c, 521, "01ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff");
// the modulus given as a value of the canvas; canvas much larger than the modulus
abstract_unsigned_public_integer!(Wide, 256);
abstract_public_modular_integer!(W255, Wide, Wide::from_literal(255));
abstract_public_modular_integer!(WTop, Wide, Wide::from_hex("ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"));
abstract_unsigned_secret_integer!(SWide, 256);
abstract_secret_modular_integer!(SW255, SWide, SWide::from_literal(255));
abstract_secret_modular_integer!(SWHalf, SWide, SWide::pow2(255));
abstract_nat_mod!(A61, A61c, 64, "1fffffffffffffff"); abstract_public_nat_mod!(B61, B61c, 64, "1fffffffffffffff");

fn nb(x: &BigUint) -> Vec<u8> { if x.is_zero() { vec![] } else { x.to_bytes_le() } }
fn zj(x: &BigInt) -> J { let (s, m) = x.to_bytes_le(); J::L(vec![J::I((s == num::bigint::Sign::Minus) as i64), J::B(if x.is_zero() { vec![] } else { m })]) }
fn codes(s: &str) -> Vec<u8> { s.bytes().collect() }
fn rep<B: Into<BigUint>, E: Into<B>>(e: E) -> BigUint { let b: B = e.into(); b.into() }
fn small(x: &BigUint) -> i64 { x.to_string().parse().unwrap() }

/// a representative, often near 0, n, n/2 or a power of two
fn elem(r: &mut Rng, n: &BigUint) -> BigUint {
    let d = BigUint::from(r.below(4));
    let x = match r.below(8) {
        0 => d, 1 => n * 4u32 - 1u32 - d, 2 => (n / 2u32) + d,
        3 => (BigUint::one() << r.below(n.bits() + 1)) + d,
        4 => BigUint::from_bytes_le(&r.bytes((n.bits() + 7) / 8)),
        5 => BigUint::from_bytes_le(&r.bytes((n.bits() + 15) / 16)),
        _ => BigUint::from_bytes_le(&r.uniform((n.bits() + 7) / 8 + 1)),
    };
    x % n
}
fn pair(r: &mut Rng, n: &BigUint) -> (BigUint, BigUint) {
    let a = elem(r, n);
    let d = BigUint::from(r.below(3));
    let b = match r.below(6) { 0 => a.clone(), 1 => (n + n - &a + 1u32 - d) % n, 2 => (&a + d) % n, _ => elem(r, n) };
    if r.chance(2) { (a, b) } else { (b, a) }
}
/// any natural, often just outside the modulus or the canvas
fn outside(r: &mut Rng, n: &BigUint, bits: usize) -> BigUint {
    let d = BigUint::from(r.below(4));
    match r.below(7) {
        0 => n + d, 1 => n * 2u32 + d, 2 => (BigUint::one() << bits) + d - 1u32, 3 => elem(r, n) * elem(r, n),
        4 => (BigUint::one() << ((bits + 7) / 8 * 8)) - d, 5 => elem(r, n) + n, _ => elem(r, n),
    }
}
fn hextext(r: &mut Rng, x: &BigUint) -> String {
    let mut s = x.to_str_radix(16);
    if s.len() % 2 == 1 { s.insert(0, '0') }
    if x.is_zero() && r.chance(2) { s.clear() }
    for _ in 0..[0, 0, 0, 1, 40][r.below(5)] { s.insert_str(0, "00") }
    if r.chance(3) { s = s.to_uppercase() }
    if r.chance(9) { s.push('7') }
    s
}
macro_rules! common { ($t:ident, $r:ident, $T:ident, $B:ident, $bits:literal, $k:expr) => {{
    let ty = stringify!($T);
    let n: BigUint = <$T>::max().into();
    let nn = nb(&n);
    let bits: usize = $bits;
    let of = |x: &BigUint| -> $T { let b: $B = x.clone().into(); b.into() };
    let back = |e: $T| nb(&rep::<$B, $T>(e));
    $t.call("max", args! {t: ty, n: &nn}, || nb(&<$T>::max().into()));
    $t.call("default", args! {t: ty, n: &nn}, || back(<$T>::default()));
    if bits <= 8 {
        let m = small(&n);
        let all: Vec<i64> = (0..m).collect();
        for &a in &all {
            if m > 40 && !$t.thorough && !(a < 4 || a > m - 4 || $r.chance(8)) { continue }
            macro_rules! row { ($g:literal, $f:expr) => {{
                let f = $f;
                $t.call("row", args! {t: ty, g: $g, a: a, m: m, bs: J::L(all.iter().map(|b| J::I(*b)).collect())}, ||
                    all.iter().map(|b| J::I(small(&rep::<$B, $T>(f(of(&BigUint::from(a as u32)), of(&BigUint::from(*b as u32))))))).collect::<Vec<J>>());
            }} }
            row!("add", |x: $T, y: $T| x + y); row!("sub", |x: $T, y: $T| x - y); row!("mul", |x: $T, y: $T| x * y);
        }
    }
    for i in 0..$k {
        let (a, b) = pair($r, &n);
        macro_rules! op { ($n:literal, $f:expr) => { { let f = $f; $t.call($n, args! {t: ty, n: &nn, a: nb(&a), b: nb(&b)}, || back(f(of(&a), of(&b)))); } } }
        op!("add", |x: $T, y: $T| x + y); op!("sub", |x: $T, y: $T| x - y); op!("mul", |x: $T, y: $T| x * y);
        let l = { let w = $r.below(129); if w == 0 { 0 } else { $r.u128() >> (w - 1) } };
        let l = match $r.below(4) {
            0 if n.bits() <= 127 => { let c: u128 = n.to_string().parse().unwrap(); (c + $r.below(4) as u128).saturating_sub(2) }
            1 => { let x = elem($r, &n); x.to_string().parse().unwrap_or(l) }
            _ => l };
        $t.call("make", args! {t: ty, n: &nn, how: "literal", a: zj(&BigInt::from(l))}, || back(<$T>::from_literal(l)));
        let s = match $r.below(5) { 0 => i128::MIN + $r.below(3) as i128, 1 => -((l >> 1) as i128), 2 => $r.below(9) as i128 - 4, _ => (l as i128) >> $r.below(64) };
        $t.call("make", args! {t: ty, n: &nn, how: "signed_literal", a: zj(&BigInt::from(s))}, || back(<$T>::from_signed_literal(s)));
        let c = outside($r, &n, bits);
        $t.call("make", args! {t: ty, n: &nn, how: "canvas", a: zj(&BigInt::from(c.clone()))}, || back(of(&c)));
        let h = hextext($r, &c);
        $t.call("hex", args! {t: ty, n: &nn, h: codes(&h)}, || back(<$T>::from_hex(&h)));
        let mut v = outside($r, &n, bits).to_bytes_le();
        for _ in 0..[0, 0, 1, 5, 70][$r.below(5)] { v.push(0) }
        $t.call("le", args! {t: ty, n: &nn, b: &v}, || back(<$T>::from_le_bytes(&v)));
        $t.call("to_le", args! {t: ty, n: &nn, a: nb(&a)}, || of(&a).to_le_bytes());
        let k = match $r.below(5) { 0 => (bits + 7) / 8 * 8 - 1, 1 => (bits + 7) / 8 * 8, _ => $r.below(bits) };
        $t.call("bit", args! {t: ty, bits: bits, a: nb(&a), k: k}, || of(&a).bit(k));
        if i % 4 == 0 {
            $t.call("text", args! {t: ty, how: "Display", a: nb(&a)}, || codes(&format!("{}", of(&a))));
            $t.call("text", args! {t: ty, how: "Debug", a: nb(&b)}, || codes(&format!("{:?}", of(&b))));
            // histories of operations on one element
            let ops: Vec<(&str, BigUint)> = (0..12).map(|_| (["add", "sub", "rsub", "mul", "sq"][$r.below(5)], elem($r, &n))).collect();
            $t.call("chain", args! {t: ty, n: &nn, a: nb(&a), ops: J::L(ops.iter().map(|(o, x)| J::L(vec![J::from(*o), nb(x).into()])).collect())}, || {
                let mut x = of(&a);
                let mut out = vec![];
                for (o, y) in &ops { let y = of(y); x = match *o { "add" => x + y, "sub" => x - y, "rsub" => y - x, "mul" => x * y, _ => x * x }; out.push(J::from(back(x))) }
                out });
        }
    }
}} }
macro_rules! public { ($t:ident, $r:ident, $T:ident, $B:ident, $bits:literal, $prime:literal, $k:expr) => {{
    let ty = stringify!($T);
    let n: BigUint = <$T>::max().into();
    let nn = nb(&n);
    let bits: usize = $bits;
    let of = |x: &BigUint| -> $T { let b: $B = x.clone().into(); b.into() };
    let back = |e: $T| nb(&rep::<$B, $T>(e));
    if bits <= 8 {
        let m = small(&n);
        let all: Vec<i64> = (0..m).collect();
        for &a in &all {
            if m > 40 && !$t.thorough && !(a < 4 || a > m - 4 || $r.chance(8)) { continue }
            macro_rules! row { ($g:literal, $f:expr) => {{
                let f = $f;
                $t.call("row", args! {t: ty, g: $g, a: a, m: m, bs: J::L(all.iter().map(|b| J::I(*b)).collect())}, ||
                    all.iter().map(|b| J::I(std::panic::catch_unwind(|| f(of(&BigUint::from(a as u32)), of(&BigUint::from(*b as u32)))).unwrap_or(-1000))).collect::<Vec<J>>());
            }} }
            let s = |x: $T| small(&rep::<$B, $T>(x));
            row!("div", |x: $T, y: $T| s(x / y)); row!("rem", |x: $T, y: $T| s(x % y)); row!("cmp", |x: $T, y: $T| x.cmp(&y) as i64);
            if m < 20 || a < 4 { row!("pow", |x: $T, y: $T| s(x.pow(small(&rep::<$B, $T>(y)) as u128))); row!("pow", |x: $T, y: $T| s(x.pow_felem(y))); }
        }
        if $prime { $t.call("invrow", args! {t: ty, m: m}, || (1..m).map(|b| J::I(small(&rep::<$B, $T>(of(&BigUint::from(b as u32)).inv())))).collect::<Vec<J>>()); }
    }
    for i in 0..$k {
        let (a, b) = pair($r, &n);
        macro_rules! op { ($n:literal, $f:expr) => { { let f = $f; $t.call($n, args! {t: ty, n: &nn, a: nb(&a), b: nb(&b)}, || back(f(of(&a), of(&b)))); } } }
        op!("div", |x: $T, y: $T| x / y); op!("rem", |x: $T, y: $T| x % y);
        $t.call("cmp", args! {t: ty, a: nb(&a), b: nb(&b)}, || { let (x, y) = (of(&a), of(&b));
            J::L(vec![(x == y).into(), (x != y).into(), (x < y).into(), (x <= y).into(), (x > y).into(), (x >= y).into(), J::I(x.cmp(&y) as i64)]) });
        let e = match $r.below(4) { 0 => $r.below(5) as u128, 1 => u128::MAX - $r.below(3) as u128, _ => $r.u128() >> $r.below(128) };
        $t.call("pow", args! {t: ty, n: &nn, how: "pow", a: nb(&a), x: e.to_le_bytes()}, || back(of(&a).pow(e)));
        if i % 2 == 0 { $t.call("pow", args! {t: ty, n: &nn, how: "pow_felem", a: nb(&a), x: nb(&b)}, || back(of(&a).pow_felem(of(&b)))); }
        if $prime && i % 2 == 1 { $t.call("inv", args! {t: ty, n: &nn, a: nb(&a)}, || back(of(&a).inv())); }
    }
}} }
macro_rules! hac { ($t:ident, $r:ident, $T:ident, $B:ident, $bits:literal, $k:expr) => {{
    let ty = stringify!($T);
    let n: BigUint = <$T>::max().into();
    let nn = nb(&n);
    let bits: usize = $bits;
    let of = |x: &BigUint| -> $T { let b: $B = x.clone().into(); b.into() };
    let back = |e: $T| nb(&rep::<$B, $T>(e));
    for _ in 0..$k {
        let (a, b) = pair($r, &n);
        macro_rules! op { ($n:literal, $f:expr) => { { let f = $f; $t.call($n, args! {t: ty, n: &nn, a: nb(&a), b: nb(&b)}, || back(f(of(&a), of(&b)))); } } }
        op!("add", |x: $T, y: $T| x.wrap_add(y)); op!("sub", |x: $T, y: $T| x.wrap_sub(y)); op!("mul", |x: $T, y: $T| x.wrap_mul(y));
    }
    let _ = bits;
}} }
macro_rules! seqs { ($t:ident, $r:ident, $T:ident, $B:ident, $bits:literal, $k:expr) => {{
    let ty = stringify!($T);
    let n: BigUint = <$T>::max().into();
    let nn = nb(&n);
    let bits: usize = $bits;
    let of = |x: &BigUint| -> $T { let b: $B = x.clone().into(); b.into() };
    let back = |e: $T| nb(&rep::<$B, $T>(e));
    for _ in 0..$k {
        let mut v = outside($r, &n, bits).to_bytes_le();
        for _ in 0..[0, 0, 1, 5, 70][$r.below(5)] { v.push(0) }
        $t.call("le", args! {t: ty, n: &nn, how: "byte_seq", b: &v}, || back(<$T>::from_byte_seq_le(sec(&v))));
        let a = elem($r, &n);
        $t.call("to_le", args! {t: ty, how: "public_byte_seq", a: nb(&a)}, || { let s = of(&a).to_public_byte_seq_le(); (0..s.len()).map(|i| s[i]).collect::<Vec<u8>>() });
        $t.call("to_le", args! {t: ty, how: "byte_seq", a: nb(&a)}, || seqv(&of(&a).to_byte_seq_le()));
        let l = $r.u128() >> $r.below(128);
        $t.call("make", args! {t: ty, n: &nn, how: "secret_literal", a: zj(&BigInt::from(l))}, || back(<$T>::from_secret_literal(U128(l))));
    }
}} }
fn main() {
    let mut t0 = Trace::open(40);
    let t = &mut t0;
    let mut r0 = t.rng(9);
    let r = &mut r0;
    let k = t.n(40, 1500);
    macro_rules! p { ($($T:ident $B:ident $b:literal $p:literal;)*) => { $( common!(t, r, $T, $B, $b, k); public!(t, r, $T, $B, $b, $p, k); hac!(t, r, $T, $B, $b, k / 4); seqs!(t, r, $T, $B, $b, k); )* } }
    macro_rules! s { ($($T:ident $B:ident $b:literal;)*) => { $( common!(t, r, $T, $B, $b, k); hac!(t, r, $T, $B, $b, k / 4); )* } }
    p!(P1 P1c 8 false; P2 P2c 8 true; P13 P13c 8 true; P16 P16c 8 false; P251 P251c 8 true; P255 P255c 8 false; P17 P17c 5 true; P64 P64c 64 true; P127 P127c 127 true;
       P129 P129c 129 false; P130 P130c 131 true; P255i P255ic 256 true; PL PLc 256 true; P256 P256c 256 true; P384 P384c 384 true; P521 P521c 521 true;);
    s!(S1 S1c 8; S13 S13c 8; S16 S16c 8; S255 S255c 8; S251 S251c 8; S64 S64c 64; S129 S129c 129; S130 S130c 130; S256 S256c 256; S521 S521c 521;);
    common!(t, r, W255, Wide, 256, k); public!(t, r, W255, Wide, 256, false, k);
    common!(t, r, WTop, Wide, 256, k); public!(t, r, WTop, Wide, 256, false, k);
    common!(t, r, SW255, SWide, 256, k); common!(t, r, SWHalf, SWide, 256, k);
    common!(t, r, A61, A61c, 64, k); common!(t, r, B61, B61c, 64, k); public!(t, r, B61, B61c, 64, true, k);
    t0.close()
}
