use harness::int::*;
use harness::{*, Rng};
use hacspec::prelude::*;

/// From/Into conversions between integer types
macro_rules! casts { ($t:ident $r:ident $n:ident; $($a:ident -> $($b:ident)*;)*) => { $( for _ in 0..$n {
    let v = operand(&mut $r, <$a as M>::W);
    let x = <$a as M>::of(&v);
    $( $t.call("cast", args! {w: <$b as M>::W, sg: <$a as M>::SG, t: stringify!($a), f: stringify!($b), a: &v}, || M::le(<$b>::from(x))); )*
} )* } }
/// encodings of lists of secret integers
macro_rules! lists { ($t:ident $r:ident $n:ident; $($a:ident)*) => { $( {
    let w = <$a as M>::W;
    for i in 0..$n {
        let k = if i < 4 { i } else if i == 7 { 300 } else { $r.below(6) };
        let vs: Vec<Vec<u8>> = (0..k).map(|_| operand(&mut $r, w)).collect();
        let xs: Vec<$a> = vs.iter().map(|v| M::of(v)).collect();
        let js = || J::L(vs.iter().map(|v| J::from(v)).collect());
        $t.call("encode", args! {w: w, t: stringify!($a), k: 0, a: js()}, || pubv(&$a::to_le_bytes(&xs)));
        $t.call("encode", args! {w: w, t: stringify!($a), k: 1, a: js()}, || pubv(&$a::to_be_bytes(&xs)));
        let len = if i == 7 { w * 301 } else if $r.chance(3) { $r.below(4 * w + 2) } else { w * $r.below(5) };
        let b = $r.bytes(len);
        let sb: Vec<U8> = b.iter().map(|x| U8(*x)).collect();
        $t.call("decode", args! {w: w, t: stringify!($a), k: 0, a: &b}, || J::L($a::from_le_bytes(&sb).iter().map(|x| J::from(M::le(*x))).collect()));
        $t.call("decode", args! {w: w, t: stringify!($a), k: 1, a: &b}, || J::L($a::from_be_bytes(&sb).iter().map(|x| J::from(M::le(*x))).collect()));
    }
    // more than 65536 integers: what one of them gives does not depend on the others
    {
        let n = 65540;
        let b = $r.uniform(w * n);
        let sb: Vec<U8> = b.iter().map(|x| U8(*x)).collect();
        let xs: Vec<$a> = b.chunks(w).map(|v| M::of(v)).collect();
        let quiet = |f: &dyn Fn() -> Vec<u8>| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f())).unwrap_or(vec![]);
        let out = [quiet(&|| pubv(&$a::to_le_bytes(&xs))), quiet(&|| pubv(&$a::to_be_bytes(&xs)))];
        let back = [quiet(&|| $a::from_le_bytes(&sb).iter().flat_map(|x| M::le(*x)).collect()), quiet(&|| $a::from_be_bytes(&sb).iter().flat_map(|x| M::le(*x)).collect())];
        for (i, j, last) in windows(w * n, w) { for k in 0..2usize {
            let piece = |v: &Vec<u8>| v[i..(if last { v.len() } else { j })].to_vec();
            $t.call("encode", args! {w: w, t: stringify!($a), f: "long", k: k, a: J::L(vec![J::from(&b[i..j])])}, || piece(&out[k]));
            $t.call("decode", args! {w: w, t: stringify!($a), f: "long", k: k, a: &b[i..j]}, || J::L(piece(&back[k]).chunks(w).map(J::from).collect()));
        } }
    }
    // every length up to three integers
    for len in 0..=(3 * w + 1) {
        let b = $r.uniform(len);
        let sb: Vec<U8> = b.iter().map(|x| U8(*x)).collect();
        $t.call("decode", args! {w: w, t: stringify!($a), k: 0, a: &b}, || J::L($a::from_le_bytes(&sb).iter().map(|x| J::from(M::le(*x))).collect()));
        $t.call("decode", args! {w: w, t: stringify!($a), k: 1, a: &b}, || J::L($a::from_be_bytes(&sb).iter().map(|x| J::from(M::le(*x))).collect()));
    }
} )* } }
fn one_len(r: &mut Rng, w: usize) -> usize { if r.chance(4) { r.below(2 * w + 2) } else { w } }
fn single_secret<T: M + UnsignedSecretInteger>(t: &mut Trace, r: &mut Rng, n: usize) {
    let w = T::W;
    for _ in 0..n {
        let v = operand(r, w);
        let js = || J::L(vec![J::from(&v)]);
        t.call("encode", args! {w: w, t: T::NAME, f: "trait", k: 0, a: js()}, || seqv(&UnsignedSecretInteger::to_le_bytes(T::of(&v))));
        t.call("encode", args! {w: w, t: T::NAME, f: "trait", k: 1, a: js()}, || seqv(&UnsignedSecretInteger::to_be_bytes(T::of(&v))));
        let len = one_len(r, w);
        let b = r.bytes(len);
        t.call("decode1", args! {w: w, t: T::NAME, f: "trait", k: 0, a: &b}, || <T as UnsignedSecretInteger>::from_le_bytes(&sec(&b)).le());
        t.call("decode1", args! {w: w, t: T::NAME, f: "trait", k: 1, a: &b}, || <T as UnsignedSecretInteger>::from_be_bytes(&sec(&b)).le());
    }
}
fn single_public<T: M + UnsignedPublicInteger>(t: &mut Trace, r: &mut Rng, n: usize) {
    let w = T::W;
    let sv = |s: Seq<u8>| (0..s.len()).map(|i| s[i]).collect::<Vec<u8>>();
    for _ in 0..n {
        let v = operand(r, w);
        let js = || J::L(vec![J::from(&v)]);
        t.call("encode", args! {w: w, t: T::NAME, f: "trait", k: 0, a: js()}, || sv(UnsignedPublicInteger::to_le_bytes(T::of(&v))));
        t.call("encode", args! {w: w, t: T::NAME, f: "trait", k: 1, a: js()}, || sv(UnsignedPublicInteger::to_be_bytes(T::of(&v))));
        let len = one_len(r, w);
        let b = r.bytes(len);
        t.call("decode1", args! {w: w, t: T::NAME, f: "trait", k: 0, a: &b}, || <T as UnsignedPublicInteger>::from_le_bytes(&Seq::<u8>::from_slice(&b)).le());
        t.call("decode1", args! {w: w, t: T::NAME, f: "trait", k: 1, a: &b}, || <T as UnsignedPublicInteger>::from_be_bytes(&Seq::<u8>::from_slice(&b)).le());
    }
}
macro_rules! words { ($t:ident $r:ident $n:ident; $($a:ident $word:ident $tl:ident $tb:ident $fl:ident $fb:ident $el:expr;)*) => { $( for _ in 0..$n {
    let w = <$a as M>::W;
    let v = operand(&mut $r, w);
    let js = || J::L(vec![J::from(&v)]);
    let out = |x: $word| (0..w).map(|i| { let z: Vec<u8> = M::le(x[i]); z[0] }).collect::<Vec<u8>>();
    $t.call("encode", args! {w: w, t: stringify!($a), f: stringify!($tl), k: 0, a: js()}, || out($tl(M::of(&v))));
    $t.call("encode", args! {w: w, t: stringify!($a), f: stringify!($tb), k: 1, a: js()}, || out($tb(M::of(&v))));
    let word = |b: &[u8]| { let mut x = $word::new(); for i in 0..w { x[i] = $el(b[i]) } x };
    $t.call("decode1", args! {w: w, t: stringify!($a), f: stringify!($fl), k: 0, a: &v}, || M::le($fl(word(&v))));
    $t.call("decode1", args! {w: w, t: stringify!($a), f: stringify!($fb), k: 1, a: &v}, || M::le($fb(word(&v))));
} )* } }
fn main() {
    let mut t = Trace::open(40);
    let mut r = t.rng(3);
    // all 8-bit values through every conversion of the 8-bit types
    for b in 0..=255u8 {
        macro_rules! all { ($($s:ident $x:expr => $($d:ident)*;)*) => { $( $( t.call("cast", args! {w: <$d as M>::W, sg: <$s as M>::SG, t: stringify!($s), f: stringify!($d), a: vec![b]}, || M::le(<$d>::from($x))); )* )* } }
        all!(U8 U8(b) => U16 U32 U64 U128 I8 u8 u16 u32 u64 u128; I8 I8(b as i8) => I16 I32 I64 I128 U8; u8 b => U8 U16 U32 U64 U128;);
        t.call("cast", args! {w: 8, sg: 0, t: "U8", f: "usize", a: vec![b]}, || (usize::from(U8(b)) as u64).to_le_bytes());
    }
    let n = t.n(80, 3000);
    casts!(t r n;
        U16 -> U8 U32 U64 U128 I16 u16 u32 u64 u128;
        U32 -> U8 U16 U64 U128 I32 u32 u64 u128;
        U64 -> U8 U16 U32 U128 I64 u64 u128;
        U128 -> U8 U16 U32 U64 I128 u128;
        I16 -> I8 I32 I64 I128 U16; I32 -> I8 I16 I64 I128 U32; I64 -> I8 I16 I32 I128 U64; I128 -> I8 I16 I32 I64 U128;
        u16 -> U16 U32 U64 U128; u32 -> U32 U64 U128; u64 -> U64 U128; u128 -> U128;
        i8 -> I8; i16 -> I16; i32 -> I32; i64 -> I64; i128 -> I128;
    );
    for _ in 0..n {
        let v = operand(&mut r, 8);
        let x = u64::of(&v) as usize;
        t.call("cast", args! {w: 1, sg: 0, t: "usize", f: "U8", a: &v}, || M::le(U8::from(x)));
        t.call("cast", args! {w: 8, sg: 0, t: "usize", f: "U64", a: &v}, || M::le(U64::from(x)));
        t.call("cast", args! {w: 16, sg: 0, t: "usize", f: "U128", a: &v}, || M::le(U128::from(x)));
    }
    // classify / declassify, inherent and through the trait
    macro_rules! classify { ($($s:ident $p:ident)*) => { $( for _ in 0..n {
        let v = operand(&mut r, <$p as M>::W);
        let x = <$p as M>::of(&v);
        t.call("cast", args! {w: <$p as M>::W, sg: 0, t: stringify!($s), f: "classify", a: &v}, || M::le($s::classify(x)));
        t.call("cast", args! {w: <$p as M>::W, sg: 0, t: stringify!($s), f: "trait_classify", a: &v}, || M::le(<$s as SecretInteger>::classify(x)));
        t.call("cast", args! {w: <$p as M>::W, sg: 0, t: stringify!($s), f: "declassify", a: &v}, || M::le($s::declassify(<$s as M>::of(&v))));
        t.call("cast", args! {w: <$p as M>::W, sg: 0, t: stringify!($s), f: "roundtrip", a: &v}, || M::le($s::classify(x).declassify()));
    } )* } }
    classify!(U8 u8 U16 u16 U32 u32 U64 u64 U128 u128 I8 i8 I16 i16 I32 i32 I64 i64 I128 i128);
    lists!(t r n; U8 U16 U32 U64 U128 I8 I16 I32 I64 I128);
    each!(single_secret [U8 U16 U32 U64 U128] (&mut t, &mut r, n));
    each!(single_public [u8 u16 u32 u64 u128] (&mut t, &mut r, n));
    words!(t r n;
        U16 U16Word U16_to_le_bytes U16_to_be_bytes U16_from_le_bytes U16_from_be_bytes U8;
        U32 U32Word U32_to_le_bytes U32_to_be_bytes U32_from_le_bytes U32_from_be_bytes U8;
        U64 U64Word U64_to_le_bytes U64_to_be_bytes U64_from_le_bytes U64_from_be_bytes U8;
        U128 U128Word U128_to_le_bytes U128_to_be_bytes U128_from_le_bytes U128_from_be_bytes U8;
        u16 u16Word u16_to_le_bytes u16_to_be_bytes u16_from_le_bytes u16_from_be_bytes |x: u8| x;
        u32 u32Word u32_to_le_bytes u32_to_be_bytes u32_from_le_bytes u32_from_be_bytes |x: u8| x;
        u64 u64Word u64_to_le_bytes u64_to_be_bytes u64_from_le_bytes u64_from_be_bytes |x: u8| x;
        u128 u128Word u128_to_le_bytes u128_to_be_bytes u128_from_le_bytes u128_from_be_bytes |x: u8| x;
    );
    t.close()
}
