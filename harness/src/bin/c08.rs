use hacspec::prelude::*;
use harness::{*, Rng};
use num::bigint::{BigInt, BigUint, Sign};
use num::{One, Zero, Signed};

unsigned_public_integer!(PU4, 4); signed_public_integer!(PS4, 4); unsigned_integer!(SU4, 4); signed_integer!(SS4, 4);
unsigned_public_integer!(PU8, 8); signed_public_integer!(PS8, 8); unsigned_integer!(SU8, 8); signed_integer!(SS8, 8);
unsigned_public_integer!(PU12, 12); signed_public_integer!(PS13, 13); unsigned_integer!(SU12, 12); signed_integer!(SS15, 15);
unsigned_public_integer!(PU64, 64); signed_public_integer!(PS64, 64); unsigned_integer!(SU64, 64); signed_integer!(SS64, 64);
unsigned_public_integer!(PU127, 127); signed_public_integer!(PS128, 128); unsigned_integer!(SU128, 128); signed_integer!(SS130, 130);
unsigned_public_integer!(PU233, 233); signed_public_integer!(PS256, 256); unsigned_integer!(SU256, 256); signed_integer!(SS255, 255);
unsigned_public_integer!(PU384, 384); signed_public_integer!(PS512, 512); unsigned_integer!(SU512, 512); signed_integer!(SS384, 384);
unsigned_public_integer!(PU1024, 1024);

fn zj(x: &BigInt) -> J {
    let (s, m) = x.to_bytes_le();
    let m = if x.is_zero() { vec![] } else { m };
    J::L(vec![J::I((s == Sign::Minus) as i64), J::B(m)])
}
fn codes(s: &str) -> Vec<u8> { s.bytes().collect() }
fn max(bits: usize) -> BigInt { (BigInt::one() << bits) - 1 }
fn rnd(r: &mut Rng, bits: usize) -> BigInt {
    let k = r.range(1, bits);
    let v = r.bytes((k + 7) / 8);
    BigInt::from_bytes_le(Sign::Plus, &v) % (BigInt::one() << k)
}
/// in range
fn value(r: &mut Rng, bits: usize, sg: bool) -> BigInt {
    let d = BigInt::from(r.below(4));
    let x = match r.below(9) {
        0 => d, 1 => max(bits) - d,
        2 | 3 => { let k = r.below(bits); ((BigInt::one() << k) + r.below(3) - 1i32).abs() }
        4 => (BigInt::one() << (r.below((bits + 7) / 8) * 8)) - r.below(2),
        5 => (max(bits) >> (bits / 2)) + r.below(3) - 1i32,
        _ => rnd(r, bits),
    };
    let x = if x > max(bits) { max(bits) } else { x };
    if sg && r.chance(2) { -x } else { x }
}
/// any integer, often just outside
fn anything(r: &mut Rng, bits: usize) -> BigInt {
    let d = BigInt::from(r.below(5)) - 2;
    let x = match r.below(5) {
        0 => max(bits) + d, 1 => max(bits) + 1 + (rnd(r, 2 * bits)), 2 => max((bits + 7) / 8 * 8) + d,
        3 => d, _ => rnd(r, bits),
    };
    if r.chance(2) { -x } else { x }
}
/// operands whose sum, difference or product straddles the bound
fn operands(r: &mut Rng, bits: usize, sg: bool) -> (BigInt, BigInt) {
    let a = value(r, bits, sg);
    let d = BigInt::from(r.below(5)) - 2;
    let b = match r.below(8) {
        0 => max(bits) - &a + d,
        // sums and differences of any size, whatever the size of the operands
        4 => value(r, bits, sg) - &a, 5 => &a - value(r, bits, sg),
        1 => if a.is_zero() { d } else { max(bits) / &a + d },
        2 => a.clone() + d,
        3 => -max(bits) + &a + d,
        _ => value(r, bits, sg),
    };
    let ok = |x: &BigInt| x.abs() <= max(bits) && (sg || !x.is_negative());
    if ok(&b) { (a, b) } else { (a, value(r, bits, sg)) }
}
const PRIMES: [&str; 9] = ["3", "5", "7", "251", "65521", "4294967291", "170141183460469231731687303715884105727",
    "57896044618658097711785492504343953926634992332820282019728792003956564819949",
    "115792089210356248762697446949407573530086143415290314195533631308867097853951"];

macro_rules! big { ($T:ident, $x:expr) => {{ let y: BigInt = ($x).into(); zj(&y) }} }
macro_rules! common { ($t:ident, $r:ident, $T:ident, $bits:literal, $sg:literal, $k:expr) => {{
    let (bits, sg, ty): (usize, bool, &str) = ($bits, $sg, stringify!($T));
    let of = |x: &BigInt| $T::from(x.clone());
    if bits == 4 {
        let all: Vec<i64> = if sg { (-15..=15).collect() } else { (0..=15).collect() };
        for &a in &all {
            macro_rules! row { ($g:literal, $f:expr) => {{
                let f = $f;
                $t.call("row", args! {t: ty, bits: bits, sg: sg, g: $g, a: a, bs: J::L(all.iter().map(|b| J::I(*b)).collect())}, || all.iter().map(|b| {
                    let y = std::panic::catch_unwind(|| { let z: BigInt = f($T::from(BigInt::from(a)), $T::from(BigInt::from(*b))).into(); z });
                    J::I(match y { Ok(z) => z.to_string().parse().unwrap(), Err(_) => -1000 }) }).collect::<Vec<J>>());
            }} }
            row!("add", |x: $T, y: $T| x + y); row!("sub", |x: $T, y: $T| x - y); row!("mul", |x: $T, y: $T| x * y);
        }
    }
    for i in 0..$k {
        let (a, b) = operands($r, bits, sg);
        macro_rules! op { ($n:literal, $f:expr) => { { let f = $f; $t.call($n, args! {t: ty, bits: bits, sg: sg, a: zj(&a), b: zj(&b)}, || { let z: $T = f(of(&a), of(&b)); big!($T, z) }); } } }
        op!("add", |x: $T, y: $T| x + y); op!("sub", |x: $T, y: $T| x - y); op!("mul", |x: $T, y: $T| x * y);
        if i % 4 == 0 { op!("add", |x: $T, y: $T| x.wrap_add(y)); op!("sub", |x: $T, y: $T| x.wrap_sub(y)); op!("mul", |x: $T, y: $T| x.wrap_mul(y)); }
        let c = anything($r, bits);
        $t.call("make", args! {t: ty, bits: bits, sg: sg, how: "BigInt", a: zj(&c)}, || big!($T, $T::from(c.clone())));
        let c = anything($r, bits).abs();
        $t.call("make", args! {t: ty, bits: bits, sg: sg, how: "BigUint", a: zj(&c)}, || big!($T, $T::from(c.to_biguint().unwrap())));
        $t.call("natural", args! {t: ty, bits: bits, sg: sg, a: zj(&a)}, || { let n: BigUint = of(&a).into(); zj(&BigInt::from(n)) });
        let l = { let w = $r.below(129); if w == 0 { 0 } else { $r.u128() >> (w - 1) } };
        let l = match $r.below(4) { 0 if bits < 127 => (1u128 << bits) + $r.below(3) as u128 - 1, 1 => u128::MAX - $r.below(3) as u128, _ => l };
        $t.call("make", args! {t: ty, bits: bits, sg: sg, how: "literal", a: zj(&BigInt::from(l))}, || big!($T, $T::from_literal(l)));
        let s = match $r.below(5) { 0 => i128::MIN + $r.below(3) as i128, 1 if bits < 126 => -(1i128 << bits) + $r.below(3) as i128, 2 => $r.below(9) as i128 - 4, _ => (l as i128) >> $r.below(64) };
        $t.call("make", args! {t: ty, bits: bits, sg: sg, how: "signed_literal", a: zj(&BigInt::from(s))}, || big!($T, $T::from_signed_literal(s)));
        let k = match $r.below(5) { 0 => bits, 1 => bits - 1, 2 => bits + $r.below(70), _ => $r.below(bits) };
        $t.call("pow2", args! {t: ty, bits: bits, sg: sg, k: k}, || big!($T, $T::pow2(k)));
        let k = match $r.below(5) { 0 => (bits + 7) / 8 * 8 - 1, 1 => (bits + 7) / 8 * 8, _ => $r.below(bits) };
        $t.call("bit", args! {t: ty, bits: bits, sg: sg, a: zj(&a), k: k}, || of(&a).bit(k));
        if i % 3 == 0 {
            $t.call("text", args! {t: ty, bits: bits, sg: sg, how: "Display", a: zj(&a)}, || codes(&format!("{}", of(&a))));
            $t.call("text", args! {t: ty, bits: bits, sg: sg, how: "Debug", a: zj(&b)}, || codes(&format!("{:?}", of(&b))));
            let k = $r.below(9); $t.call("shl", args! {t: ty, bits: bits, sg: sg, a: zj(&a), k: k}, || big!($T, of(&a) << k as u32));
        }
    }
    $t.call("default", args! {t: ty, bits: bits, sg: sg}, || big!($T, $T::default()));
}} }
/// hex text of a magnitude, possibly with leading zero bytes, upper case, odd length or a stray character
fn hextext(r: &mut Rng, x: &BigInt) -> String {
    let mut s = x.abs().to_biguint().unwrap().to_str_radix(16);
    if s.len() % 2 == 1 { s.insert(0, '0') }
    if x.is_zero() && r.chance(2) { s.clear() }
    for _ in 0..[0, 0, 0, 1, 2, 40][r.below(6)] { s.insert_str(0, "00") }
    if r.chance(3) { s = s.to_uppercase() }
    if r.chance(9) { s.push('7') }
    if r.chance(15) && !s.is_empty() { let i = r.below(s.len()); s.replace_range(i..i + 1, ["g", "x", " ", "-", "/", ":", "@", "`"][r.below(8)]) }
    s
}
macro_rules! unsigned { ($t:ident, $r:ident, $T:ident, $bits:literal, $k:expr) => {{
    let (bits, ty): (usize, &str) = ($bits, stringify!($T));
    for _ in 0..$k {
        let c = if $r.chance(3) { anything($r, bits) } else { value($r, bits, false) };
        let h = hextext($r, &c);
        $t.call("hex", args! {t: ty, bits: bits, sg: 0, neg: 0, h: codes(&h)}, || big!($T, $T::from_hex(&h)));
        let mut b = c.abs().to_bytes_le().1;
        for _ in 0..[0, 0, 1, 5, 70][$r.below(5)] { b.push(0) }
        if c.is_zero() && $r.chance(2) { b.clear() }
        $t.call("le", args! {t: ty, bits: bits, sg: 0, b: &b}, || big!($T, $T::from_le_bytes(&b)));
        let a = value($r, bits, false);
        $t.call("to_le", args! {t: ty, bits: bits, sg: 0, a: zj(&a)}, || $T::from(a.clone()).to_le_bytes());
    }
}} }
macro_rules! signed { ($t:ident, $r:ident, $T:ident, $bits:literal, $k:expr) => {{
    let (bits, ty): (usize, &str) = ($bits, stringify!($T));
    for _ in 0..$k {
        let c = if $r.chance(3) { anything($r, bits) } else { value($r, bits, false) };
        let h = hextext($r, &c);
        let s = if $r.chance(10) { ["0", "1", "--", "+-", " ", "-+", "x", "\u{2212}", "++", "- "][$r.below(10)] } else { ["+", "-", ""][$r.below(3)] };
        $t.call("hex", args! {t: ty, bits: bits, sg: 1, neg: match s { "-" => 1, "+" | "" => 0, _ => 2 }, sign: codes(s), h: codes(&h)}, || big!($T, $T::from_hex(s, &h)));
    }
}} }
macro_rules! public { ($t:ident, $r:ident, $T:ident, $bits:literal, $sg:literal, $k:expr) => {{
    let (bits, sg, ty): (usize, bool, &str) = ($bits, $sg, stringify!($T));
    let of = |x: &BigInt| $T::from(x.clone());
    if bits == 4 {
        let all: Vec<i64> = if sg { (-15..=15).collect() } else { (0..=15).collect() };
        for &a in &all {
            macro_rules! row { ($g:literal, $f:expr) => {{
                let f = $f;
                $t.call("row", args! {t: ty, bits: bits, sg: sg, g: $g, a: a, bs: J::L(all.iter().map(|b| J::I(*b)).collect())}, || all.iter().map(|b| {
                    let y = std::panic::catch_unwind(|| { let z: i64 = f($T::from(BigInt::from(a)), $T::from(BigInt::from(*b))); z });
                    J::I(match y { Ok(z) => z, Err(_) => -1000 }) }).collect::<Vec<J>>());
            }} }
            let n = |z: $T| -> i64 { let z: BigInt = z.into(); z.to_string().parse().unwrap() };
            row!("div", |x: $T, y: $T| n(x / y)); row!("rem", |x: $T, y: $T| n(x % y)); row!("cmp", |x: $T, y: $T| x.cmp(&y) as i64);
        }
    }
    for i in 0..$k {
        let (a, b) = operands($r, bits, sg);
        macro_rules! op { ($n:literal, $f:expr) => { { let f = $f; $t.call($n, args! {t: ty, bits: bits, sg: sg, a: zj(&a), b: zj(&b)}, || { let z: $T = f(of(&a), of(&b)); big!($T, z) }); } } }
        op!("div", |x: $T, y: $T| x / y); op!("rem", |x: $T, y: $T| x % y);
        let b = match $r.below(4) { 0 => a.clone(), 1 if sg => -a.clone(), _ => b };
        $t.call("cmp", args! {t: ty, bits: bits, sg: sg, a: zj(&a), b: zj(&b)}, || { let (x, y) = (of(&a), of(&b));
            J::L(vec![(x == y).into(), (x != y).into(), (x < y).into(), (x <= y).into(), (x > y).into(), (x >= y).into(), J::I(x.cmp(&y) as i64)]) });
        let m = value($r, bits, false).abs() + 1;
        let m = if m > max(bits) { max(bits) } else { m };
        if i % 2 == 0 {
            let e = $r.u128() >> $r.below(128);
            $t.call("powmod", args! {t: ty, bits: bits, sg: sg, how: "pow", a: zj(&a), x: e.to_le_bytes(), m: zj(&m)}, || big!($T, of(&a).pow(e, of(&m))));
            let e = value($r, bits, false);
            $t.call("powmod", args! {t: ty, bits: bits, sg: sg, how: "pow_felem", a: zj(&a), x: e.to_bytes_le().1, m: zj(&m)}, || big!($T, of(&a).pow_felem(of(&e), of(&m))));
        }
        let p: BigInt = PRIMES[$r.below(PRIMES.len())].parse().unwrap();
        if p <= max(bits) && !(&a % &p).is_zero() {
            $t.call("invmod", args! {t: ty, bits: bits, sg: sg, a: zj(&a), m: zj(&p)}, || big!($T, of(&a).inv(of(&p))));
        }
    }
}} }
fn main() {
    let mut t0 = Trace::open(40);
    let t = &mut t0;
    let mut r0 = t.rng(8);
    let r = &mut r0;
    let k = t.n(40, 1500);
    macro_rules! pu { ($($T:ident $b:literal)*) => { $( common!(t, r, $T, $b, false, k); unsigned!(t, r, $T, $b, k); public!(t, r, $T, $b, false, k); )* } }
    macro_rules! ps { ($($T:ident $b:literal)*) => { $( common!(t, r, $T, $b, true, k); signed!(t, r, $T, $b, k); public!(t, r, $T, $b, true, k); )* } }
    macro_rules! su { ($($T:ident $b:literal)*) => { $( common!(t, r, $T, $b, false, k); unsigned!(t, r, $T, $b, k); )* } }
    macro_rules! ss { ($($T:ident $b:literal)*) => { $( common!(t, r, $T, $b, true, k); signed!(t, r, $T, $b, k); )* } }
    pu!(PU4 4 PU8 8 PU12 12 PU64 64 PU127 127 PU233 233 PU384 384 PU1024 1024);
    ps!(PS4 4 PS8 8 PS13 13 PS64 64 PS128 128 PS256 256 PS512 512);
    su!(SU4 4 SU8 8 SU12 12 SU64 64 SU128 128 SU256 256 SU512 512);
    ss!(SS4 4 SS8 8 SS15 15 SS64 64 SS130 130 SS255 255 SS384 384);
    t0.close()
}
