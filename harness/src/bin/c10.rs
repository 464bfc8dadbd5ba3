#![allow(dead_code)]
use harness::int::M;
use harness::{*, Rng};
use hacspec::prelude::*;
use rand::Rng as _;

fn to<T: M>(c: i64) -> T { T::of(&(c as i128).to_le_bytes()[..T::W]) }
fn from<T: M>(x: T) -> i64 {
    let b = x.le();
    let mut v = [if T::SG == 1 && b[T::W - 1] >= 128 { 255u8 } else { 0 }; 16];
    v[..T::W].copy_from_slice(&b);
    let v = i128::from_le_bytes(v);
    v.max(-(1 << 30)).min(1 << 30) as i64 // nothing legitimate is that large
}
fn vec<T: M>(p: &[i64]) -> Vec<T> { p.iter().map(|c| to(*c)).collect() }
fn js(p: &[i64]) -> J { J::L(p.iter().map(|c| J::I(*c)).collect()) }
fn jv<T: M>(p: &[T]) -> J { J::L(p.iter().map(|c| J::I(from(*c))).collect()) }

#[derive(Clone, Copy, PartialEq)]
enum Kind { Reduced, Any, Small }
/// coefficients of a polynomial: dense, sparse, zero, with leading zeros
fn poly(r: &mut Rng, len: usize, n: i64, kind: Kind, sg: bool) -> Vec<i64> {
    let style = r.below(6);
    let mut p: Vec<i64> = (0..len).map(|_| {
        let c = match kind {
            Kind::Reduced => match r.below(6) { 0 => n - 1, 1 => 1 % n, _ => r.below(n as usize) as i64 },
            Kind::Any => if sg { r.below(6 * n as usize) as i64 - 3 * n } else { r.below(2 * n as usize) as i64 },
            Kind::Small => if sg { r.below(21) as i64 - 10 } else { r.below(11) as i64 },
        };
        match style { 0 => 0, 1 | 2 => if r.chance(3) { c } else { 0 }, _ => c }
    }).collect();
    if r.chance(3) && len > 0 { let z = r.below(len); for c in &mut p[len - z..] { *c = 0 } }
    p
}
fn run<T: M>(t: &mut Trace, r: &mut Rng, k: usize) {
    let (w, sg, ty) = (T::W, T::SG, T::NAME);
    let signed = sg == 1;
    let public = T::SC == 0;
    let limit: i64 = match (w, signed) { (1, true) => 11, (1, false) => 15, (2, true) => 181, (2, false) => 255, _ => 30000 };
    let primes: [i64; 13] = [2, 3, 5, 7, 11, 13, 31, 127, 251, 257, 3329, 12289, 29989];
    for _ in 0..k {
        let prime = !r.chance(3);
        let n = if prime { loop { let p = *r.pick(&primes); if p <= limit || r.chance(6) && (w > 1 || p < 128) && p < 1 << (8 * w).min(15) - sg as usize { break p } } }
                else { let top = if r.chance(2) { 12 } else { limit as usize }; 1 + r.below(top) as i64 };
        let is_prime = n > 1 && (2..n).take_while(|d| d * d <= n).all(|d| n % d != 0);
        let kind = if r.chance(4) { Kind::Any } else { Kind::Reduced };
        let kind = if n > 5000 || w < 4 && kind == Kind::Any && 3 * n > (1 << (8 * w - 1)) - 1 { Kind::Reduced } else { kind };
        let (la, lb) = (r.below(9), r.below(7));
        let (la, lb) = if r.chance(12) { (r.below(24), r.below(24)) } else { (la, lb) };
        let (a, b) = (poly(r, la, n, kind, signed), poly(r, lb, n, kind, signed));
        let (x, y, m): (Vec<T>, Vec<T>, T) = (vec(&a), vec(&b), to(n));
        t.call("leading", args! {t: ty, a: js(&a)}, || { let (d, c) = leading_coefficient(&x); J::L(vec![d.into(), J::I(from(c))]) });
        t.call("add", args! {t: ty, w: w, sg: sg, n: n, a: js(&a), b: js(&b)}, || jv(&poly_add(&x, &y, m)));
        t.call("sub", args! {t: ty, w: w, sg: sg, n: n, a: js(&a), b: js(&b)}, || jv(&poly_sub(&x, &y, m)));
        t.call("mul", args! {t: ty, w: w, sg: sg, n: n, a: js(&a), b: js(&b)}, || jv(&poly_mul(&x, &y, m)));
        t.call("div", args! {t: ty, w: w, sg: sg, n: n, a: js(&a), b: js(&b)}, || { let (q, s) = poly_div(&x, &y, m); J::L(vec![jv(&q), jv(&s)]) });
        // exact multiples and near multiples
        let (a2, b2) = (poly(r, 1 + r.clone().below(5), n, Kind::Reduced, signed), poly(r, 1 + r.clone().below(4), n, Kind::Reduced, signed));
        let (x2, y2): (Vec<T>, Vec<T>) = (vec(&a2), vec(&b2));
        let mut prod: Vec<i64> = vec![0; a2.len() + b2.len()];
        for i in 0..a2.len() { for j in 0..b2.len() { prod[i + j] = (prod[i + j] + a2[i] * b2[j]) % n } }
        if r.chance(2) { let i = r.below(prod.len()); prod[i] = (prod[i] + 1) % n }
        let xp: Vec<T> = vec(&prod);
        t.call("div", args! {t: ty, w: w, sg: sg, n: n, a: js(&prod), b: js(&b2)}, || { let (q, s) = poly_div(&xp, &y2, m); J::L(vec![jv(&q), jv(&s)]) });
        let _ = x2;
        // inversion modulo a polynomial of degree at least the length of the operand
        let d = 1 + r.below(6);
        let mut irr = poly(r, d + 1, n, Kind::Reduced, signed);
        irr[d] = if prime && r.chance(2) { 1 + r.below(n as usize - 1) as i64 } else { 1 };
        if r.chance(3) { irr.push(0) }
        let la = if r.chance(4) { r.range(0, d) } else { d };
        let a = poly(r, la, n, kind, signed);
        let (x, y): (Vec<T>, Vec<T>) = (vec(&a), vec(&irr));
        t.call("inv", args! {t: ty, w: w, sg: sg, n: n, prime: is_prime, a: js(&a), b: js(&irr)}, || match extended_euclid(&x, &y, m) { Ok(v) => J::L(vec![1.into(), jv(&v)]), Err(_) => J::L(vec![0.into(), J::L(vec![])]) });
        // over the integers
        if public {
            let (la, lb) = (r.below(7), 1 + r.below(5));
            let (a, b) = (poly(r, la, 1, Kind::Small, signed), poly(r, lb, 1, Kind::Small, signed));
            let (x, y, z): (Vec<T>, Vec<T>, T) = (vec(&a), vec(&b), to(0));
            t.call("add", args! {t: ty, w: w, sg: sg, n: 0, a: js(&a), b: js(&b)}, || jv(&poly_add(&x, &y, z)));
            t.call("sub", args! {t: ty, w: w, sg: sg, n: 0, a: js(&a), b: js(&b)}, || jv(&poly_sub(&x, &y, z)));
        }
    }
}
/// more coefficients than a byte can count
fn long<T: M>(t: &mut Trace, r: &mut Rng) {
    let (w, sg, ty) = (T::W, T::SG, T::NAME);
    let n = 251;
    let m: T = to(n);
    for (la, lb, top) in [(300usize, 3usize, 299usize), (257, 258, 256), (2, 260, 1), (290, 5, 255), (300, 300, 0)] {
        let mut p = |l: usize| -> Vec<i64> { (0..l).map(|_| r.below(n as usize) as i64).collect() };
        let (mut a, mut b) = (p(la), p(lb));
        for c in &mut a[top + 1..] { *c = 0 }
        a[top] = 7;
        b[lb - 1] = 3;
        let (x, y): (Vec<T>, Vec<T>) = (vec(&a), vec(&b));
        t.call("leading", args! {t: ty, a: js(&a)}, || { let (d, c) = leading_coefficient(&x); J::L(vec![d.into(), J::I(from(c))]) });
        t.call("add", args! {t: ty, w: w, sg: sg, n: n, a: js(&a), b: js(&b)}, || jv(&poly_add(&x, &y, m)));
        t.call("sub", args! {t: ty, w: w, sg: sg, n: n, a: js(&a), b: js(&b)}, || jv(&poly_sub(&x, &y, m)));
        if lb < 9 || la < 9 { t.call("mul", args! {t: ty, w: w, sg: sg, n: n, a: js(&a), b: js(&b)}, || jv(&poly_mul(&x, &y, m))); }
        if lb < 9 { t.call("div", args! {t: ty, w: w, sg: sg, n: n, a: js(&a), b: js(&b)}, || { let (q, s) = poly_div(&x, &y, m); J::L(vec![jv(&q), jv(&s)]) }); }
    }
}
type P = Vec<i128>;
fn zj(c: i128) -> J { let mut v = c.unsigned_abs().to_le_bytes().to_vec(); while v.last() == Some(&0) { v.pop(); } J::L(vec![((c < 0) as u8).into(), v.into()]) }
fn zle<T: M>(x: &T) -> i128 {
    let b = x.le();
    let mut v = [if T::SG == 1 && b[T::W - 1] >= 128 { 255u8 } else { 0 }; 16];
    v[..T::W].copy_from_slice(&b);
    i128::from_le_bytes(v)
}
fn zs(p: &P) -> J { J::L(p.iter().map(|c| zj(*c)).collect()) }
fn zv<T: M>(p: &[T]) -> J { J::L(p.iter().map(|c| if T::SG == 1 { zj(zle(c)) } else { let mut v = c.le(); while v.last() == Some(&0) { v.pop(); } J::L(vec![0.into(), v.into()]) }).collect()) }
fn zvec<T: M>(p: &P) -> Vec<T> { p.iter().map(|c| T::of(&c.to_le_bytes()[..T::W])).collect() }
fn quad<T: M>(t: &mut Trace, a: &P, b: &P, n: i128, must: bool, small: bool) {
    let (w, sg, ty) = (T::W, T::SG, T::NAME);
    let (x, y): (Vec<T>, Vec<T>) = (zvec(a), zvec(b));
    let m = T::of(&n.to_le_bytes()[..w]);
    t.call("zadd", args! {t: ty, w: w, sg: sg, small: small, n: zj(n), a: zs(a), b: zs(b)}, || zv(&poly_add(&x, &y, m)));
    t.call("zsub", args! {t: ty, w: w, sg: sg, small: small, n: zj(n), a: zs(a), b: zs(b)}, || zv(&poly_sub(&x, &y, m)));
    t.call("zmul", args! {t: ty, w: w, sg: sg, small: small, n: zj(n), a: zs(a), b: zs(b)}, || zv(&poly_mul(&x, &y, m)));
    t.call("zdiv", args! {t: ty, w: w, sg: sg, n: zj(n), must: must, a: zs(a), b: zs(b)}, || { let (q, s) = poly_div(&x, &y, m); J::L(vec![zv(&q), zv(&s)]) });
}
/// moduli whose square just fits the type
fn large<T: M>(t: &mut Trace, r: &mut Rng, k: usize) {
    let primes: &[i128] = match (T::W, T::SG) {
        (16, _) => &[(1 << 61) - 1, (1 << 31) - 1, 4294967291, 9223372036854775783, 1000003], (8, 0) => &[4294967291, (1 << 31) - 1, 1000003], (8, _) => &[(1 << 31) - 1, 1000003],
        (4, 0) => &[65521, 257], _ => &[46337, 32749] };
    let top = *primes.iter().max().unwrap() as usize;
    for _ in 0..k {
        let n = if r.chance(3) { 1 + (r.below(top) >> r.below(20)) as i128 } else { *r.pick(primes) };
        let p = |r: &mut Rng| -> P { let l = r.below(7); (0..l).map(|_| match r.below(5) { 0 => n - 1, 1 => 0, 2 => n / 2, _ => (r.u128() >> 1) as i128 >> r.below(64) }.rem_euclid(n)).collect() };
        let (a, b) = (p(r), p(r));
        quad::<T>(t, &a, &b, n, primes.contains(&n) && b.iter().any(|c| *c != 0), true);
    }
}
/// over the integers
fn integers<T: M>(t: &mut Trace, r: &mut Rng, k: usize) {
    for _ in 0..k {
        let wide = r.chance(3);
        let bound: i128 = if wide { 1 << (if T::W == 16 { 120 } else { 8 * T::W - 2 }) } else { 10 };
        let small = !wide;
        let mut p = |l: usize, r: &mut Rng| -> P { (0..l).map(|_| { let c = ((r.u128() >> 1) as i128 >> r.below(100)) % bound; if r.chance(4) { 0 } else if T::SG == 1 && r.chance(2) { -c } else { c } }).collect() };
        let (la, lb) = (r.below(7), 1 + r.below(4));
        let (a, mut b) = (p(la, r), p(lb, r));
        if r.chance(2) { b[lb - 1] = if T::SG == 1 && r.chance(2) { -1 } else { 1 } }
        quad::<T>(t, &a, &b, 0, false, small);
        if small { // a multiple, or almost: division must find it
            let mut prod: P = vec![0; a.len() + b.len()];
            for i in 0..a.len() { for j in 0..b.len() { prod[i + j] += a[i] * b[j] } }
            let exact = r.chance(2);
            if !exact { let i = r.below(prod.len()); prod[i] += 1 }
            quad::<T>(t, &prod, &b, 0, exact && b.iter().any(|c| *c != 0), true);
        }
    }
}
macro_rules! ring { ($t:ident, $r:ident, $k:expr, $ty:ty, $l:literal, $n:literal, $prime:literal, [$(($e:literal, $c:literal)),*]) => {{
    poly!(Ring, $ty, $l, $n, &[$(($e, $c)),*]);
    let (w, sg) = (<$ty as M>::W, <$ty as M>::SG);
    let id = concat!(stringify!($ty), " ", $l, " ", $n);
    let mut irr = vec![0i64; $l + 1];
    for (e, c) in [$(($e as usize, $c as i64)),*] { irr[e] = c }
    let el = |p: &[i64]| { let mut a = [<$ty>::default(); $l]; for (x, c) in a.iter_mut().zip(p) { *x = to::<$ty>(*c) } Ring::new_full(a) };
    let f = |p: Ring| jv(&p.poly);
    for _ in 0..$k {
        let kind = if sg == 1 && $r.chance(4) { Kind::Any } else { Kind::Reduced };
        let (a, b) = (poly($r, $l, $n, kind, sg == 1), poly($r, $l, $n, kind, sg == 1));
        $t.call("add", args! {t: id, w: w, sg: sg, n: $n as i64, a: js(&a), b: js(&b)}, || f(el(&a) + el(&b)));
        $t.call("sub", args! {t: id, w: w, sg: sg, n: $n as i64, a: js(&a), b: js(&b)}, || f(el(&a) - el(&b)));
        $t.call("ringmul", args! {t: id, w: w, sg: sg, n: $n as i64, l: $l as i64, irr: js(&irr), a: js(&a), b: js(&b)}, || f(el(&a) * el(&b)));
        $t.call("div", args! {t: id, w: w, sg: sg, n: $n as i64, a: js(&a), b: js(&b)}, || { let (q, s) = el(&a) / el(&b); J::L(vec![f(q), f(s)]) });
        if $l < 20 { $t.call("inv", args! {t: id, w: w, sg: sg, n: $n as i64, prime: $prime, a: js(&a), b: js(&irr)}, || J::L(vec![1.into(), f(el(&a).inv())])); }
        let c = if $r.chance(2) { a.clone() } else { let mut c = a.clone(); let i = $r.below($l); c[i] = (c[i] + 1) % $n; c };
        $t.call("eq", args! {a: js(&a), b: js(&c)}, || el(&a) == el(&c));
        // differences that cancel, whatever they are combined with
        if $l > 1 {
            let i = $r.below($l);
            let j = (i + 1 + $r.below($l - 1)) % $l;
            let mut c = a.clone();
            c.swap(i, j);
            $t.call("eq", args! {a: js(&a), b: js(&c)}, || el(&a) == el(&c));
            let (mut x, mut y) = (a.clone(), a.clone());
            for (k, p) in [i, j].iter().enumerate() { x[*p] = [3, 9][k] % $n; y[*p] = [6, 12][k] % $n }     // 3 ^ 6 = 9 ^ 12
            $t.call("eq", args! {a: js(&x), b: js(&y)}, || el(&x) == el(&y));
            for (k, p) in [i, j].iter().enumerate() { x[*p] = [0, 1][k] % $n; y[*p] = [1, 0][k] }           // + and -
            $t.call("eq", args! {a: js(&x), b: js(&y)}, || el(&x) == el(&y));
            $t.call("eq", args! {a: js(&x), b: js(&x)}, || el(&x) == el(&x));
        }
        let mut v = a.clone();
        for _ in 0..$r.below(3) { v.push(0) }
        if $r.chance(2) { v.push(1) }
        if $r.chance(4) { let k = $r.below(v.len() + 1); v.truncate(k) }
        $t.call("from_vec", args! {t: id, l: $l as i64, a: js(&v)}, || f(Ring::from_vec(vec::<$ty>(&v))));
        let ts: Vec<(usize, i64)> = (0..$r.below(5)).map(|_| ($r.below($l + 1), $r.below($n) as i64)).collect();
        $t.call("new", args! {t: id, l: $l as i64, ts: J::L(ts.iter().map(|(i, c)| J::L(vec![(*i).into(), J::I(*c)])).collect())}, || f(Ring::new(&ts.iter().map(|(i, c)| (*i, to::<$ty>(*c))).collect::<Vec<_>>())));
    }
    $t.call("random", args! {t: id, l: $l as i64, n: $n as i64}, || f(Ring::random()));
}} }
fn main() {
    let mut t0 = Trace::open(20);
    let t = &mut t0;
    let mut r0 = t.rng(10);
    let r = &mut r0;
    let k = t.n(60, 3000);
    each!(run [U8 U16 U32 U64 U128 I8 I16 I32 I64 I128 u8 u16 u32 u64 i8 i16 i32 i64] (t, r, k));
    let kk = 2 * k;
    each!(run [u128 i128] (t, r, kk));
    each!(large [u128 i128 U128 I128 u64 i64 U64 u32 U32 I32] (t, r, k));
    each!(integers [u128 i128 u64 i64 u32 i32] (t, r, k));
    each!(long [u128 i128 U64 u32] (t, r));
    ring!(t, r, k, u128, 3, 3, true, [(0, 2), (1, 2), (3, 1)]);
    ring!(t, r, k, i128, 3, 11, true, [(0, 2), (1, 2), (3, 1)]);
    ring!(t, r, k, u128, 4, 3329, true, [(0, 1), (4, 1)]);
    ring!(t, r, k, u64, 7, 7681, true, [(0, 1), (1, 3), (7, 1)]);
    ring!(t, r, k, i64, 5, 12289, true, [(0, 5), (2, 1), (5, 3)]);
    ring!(t, r, k, i128, 7, 3, true, [(0, 1), (6, 1), (7, 2)]);
    ring!(t, r, k, u32, 6, 256, false, [(0, 255), (6, 1)]);
    ring!(t, r, k, u128, 5, 3, true, [(0, 0)]);
    ring!(t, r, k, u128, 8, 2, true, [(0, 1), (1, 1), (3, 1), (4, 1), (8, 1)]);
    ring!(t, r, k, u128, 6, 5, true, [(0, 2), (3, 1)]);
    ring!(t, r, k, u128, 6, 10, false, [(0, 2), (6, 3)]);
    let (a, b) = (t.n(2, 20), t.n(1, 10));
    ring!(t, r, a, u128, 64, 3329, true, [(0, 1), (64, 1)]);
    ring!(t, r, b, u128, 256, 3329, true, [(0, 1), (256, 1)]);
    t0.close()
}
