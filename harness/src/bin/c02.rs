use harness::int::*;
use harness::{*, Rng};
use hacspec::prelude::*;

fn two<T: M>(t: &mut Trace, r: &mut Rng, n: usize) {
    let (w, sg, sc, ty) = (T::W, T::SG, T::SC, T::NAME);
    for _ in 0..n {
        let (a, b) = pair(r, w);
        let (x, y) = (T::of(&a), T::of(&b));
        macro_rules! boolean { ($($g:literal $m:ident),*) => { $( t.call("cmp_bool", args! {w: w, sg: sg, t: ty, g: $g, a: &a, b: &b}, || x.$m(y)); )* } }
        boolean!("eq" equal, "gt" greater_than, "ge" greater_than_or_qual, "lt" less_than, "le" less_than_or_equal);
        macro_rules! mask { ($($g:literal $m:ident),*) => { $( t.call("cmp_bm", args! {w: w, sg: sg, sc: sc, t: ty, g: $g, a: &a, b: &b}, || x.$m(y).le()); )* } }
        mask!("eq" equal_bm, "ne" not_equal_bm, "gt" greater_than_bm, "ge" greater_than_or_qual_bm, "lt" less_than_bm, "le" less_than_or_equal_bm);
        let c = r.below(2);
        let m = T::of(&vec![if c == 1 { 0xff } else { 0 }; w]);
        t.call("cswap", args! {w: w, t: ty, f: "bit", n: c, a: &a, b: &b}, || { let (p, q) = cswap_bit(x, y, T::int(c as u128)); vec![p.le(), q.le()] });
        t.call("cswap", args! {w: w, t: ty, f: "mask", n: c, a: &a, b: &b}, || { let (p, q) = cswap(x, y, m); vec![p.le(), q.le()] });
        t.call("cadd", args! {w: w, t: ty, n: c, a: &a, b: &b}, || cadd(x, y, m).le());
        t.call("csub", args! {w: w, t: ty, n: c, a: &a, b: &b}, || csub(x, y, m).le());
        t.call("cmul", args! {w: w, t: ty, n: c, a: &a, b: &b}, || cmul(x, y, m).le());
        let (k, bit) = (r.below(8 * w) as u32, r.below(2));
        t.call("cset_bit", args! {w: w, t: ty, n: c, m: bit, k: k, a: &a}, || cset_bit(x, T::int(bit as u128), k, m).le());
    }
}
fn div<T: M>(t: &mut Trace, r: &mut Rng, n: usize) {
    let w = T::W;
    for _ in 0..n {
        let (a, mut b) = pair(r, w);
        if r.chance(2) { let k = r.below(w) + 1; for x in &mut b[k..] { *x = 0 } }
        t.call("ct_div", args! {w: w, t: T::NAME, a: &a, b: &b}, || { let (q, m) = ct_div(T::of(&a), T::of(&b)); vec![q.le(), m.le()] });
    }
}
macro_rules! comp { ($t:ident $tr:expr, $r:expr, $n:expr) => { {
    let (t, r): (&mut Trace, &mut Rng) = ($tr, $r);
    for _ in 0..$n {
        let (a, b) = pair(r, $t::W);
        let (x, y) = (<$t as M>::of(&a), <$t as M>::of(&b));
        macro_rules! go { ($g:literal $m:ident) => { t.call("cmp", args! {w: $t::W, sg: 0, t: $t::NAME, g: $g, a: &a, b: &b}, || x.$m(y).le()); } }
        go!("eq" comp_eq); go!("ne" comp_ne); go!("gt" comp_gt); go!("ge" comp_gte); go!("lt" comp_lt); go!("le" comp_lte);
    }
} } }
fn bools8<T: M>(tr: &mut Trace) {
    for a in 0..=255u8 {
        let x = T::of(&[a]);
        macro_rules! go { ($($g:literal $m:ident),*) => { $( { tr.call("row", args! {w: 1, sg: T::SG, t: T::NAME, g: $g, a: a}, || row(|b| if x.$m(T::of(&[b])) { 255 } else { 0 })); } )* } }
        go!("eq" equal, "gt" greater_than, "ge" greater_than_or_qual, "lt" less_than, "le" less_than_or_equal);
    }
}
fn masks8<T: M>(tr: &mut Trace) {
    for a in 0..=255u8 {
        let x = T::of(&[a]);
        macro_rules! go { ($($g:literal $m:ident),*) => { $( { tr.call("row", args! {w: 1, sg: 0, t: T::NAME, g: $g, a: a}, || row(|b| x.$m(T::of(&[b])).le()[0] as i64)); } )* } }
        go!("eq" equal_bm, "ne" not_equal_bm, "gt" greater_than_bm, "ge" greater_than_or_qual_bm, "lt" less_than_bm, "le" less_than_or_equal_bm);
        tr.call("row", args! {w: 1, sg: 0, t: T::NAME, g: "divmod", a: a}, || row(|b| { let (q, m) = ct_div(x, T::of(&[b])); q.le()[0] as i64 * 256 + m.le()[0] as i64 }));
    }
}
fn main() {
    let mut t = Trace::open(40);
    let mut r = t.rng(2);
    for a in 0..=255u8 {
        macro_rules! go { ($($g:literal $m:ident),*) => { $( { t.call("row", args! {w: 1, sg: 0, t: "U8", g: $g, a: a}, || row(|b| U8(a).$m(U8(b)).0 as i64)); } )* } }
        go!("eq" comp_eq, "ne" comp_ne, "gt" comp_gt, "ge" comp_gte, "lt" comp_lt, "le" comp_lte);
    }
    each!(bools8[u8 i8 U8 I8](&mut t));
    each!(masks8[u8 U8](&mut t));
    let n = t.n(60, 2500);
    each!(two [U8 U16 U32 U64 U128 I8 I16 I32 I64 I128 u8 u16 u32 u64 u128 i8 i16 i32 i64 i128] (&mut t, &mut r, n));
    let n = t.n(150, 6000);
    comp!(U16 &mut t, &mut r, n); comp!(U32 &mut t, &mut r, n); comp!(U64 &mut t, &mut r, n); comp!(U128 &mut t, &mut r, n);
    let n = t.n(300, 6000);
    each!(div [u16 u32 u64 u128 U16 U32 U64 U128] (&mut t, &mut r, n));
    t.close()
}
