//! C25: printed machine integers and arrays.
use harness::int::*;
use harness::{*, Rng};
use hacspec::prelude::*;

generic_array!(G0, 0); generic_array!(G300, 300); bytes!(B0, 0); bytes!(B300, 300); public_bytes!(P300, 300); array!(AU32L, 1025, U32); array!(Au64L, 130, u64); array!(A0, 0, u16);
generic_array!(G1, 1); generic_array!(G5, 5); generic_array!(G16, 16);
bytes!(B1, 1); bytes!(B4, 4); bytes!(B32, 32); public_bytes!(P1, 1); public_bytes!(P4, 4); public_bytes!(P32, 32);
array!(AU16, 3, U16); array!(AU32, 16, U32); array!(AU64, 5, U64); array!(AU128, 2, U128);
array!(Au16, 3, u16); array!(Au32, 16, u32); array!(Au64, 5, u64); array!(Au128, 2, u128);

fn text(s: &str) -> J { J::B(s.bytes().collect()) }
fn js(v: &[Vec<u8>]) -> J { J::L(v.iter().map(J::from).collect()) }

fn ints<T: M + std::fmt::Display + std::fmt::Debug + std::fmt::LowerHex>(t: &mut Trace, r: &mut Rng, k: usize) {
    let (w, sg, ty) = (T::W, T::SG, T::NAME);
    let mut vals: Vec<Vec<u8>> = vec![];
    if w == 1 { for b in 0..=255u8 { vals.push(vec![b]) } }
    // powers of ten and of sixteen, and their neighbours, where the number of digits changes
    for e in 0..39u32 { let p = 10u128.checked_pow(e).unwrap(); for d in [-1i128, 0, 1] {
        let x = p.wrapping_add(d as u128).to_le_bytes(); vals.push(x[..w].to_vec());
        let y = (0u128.wrapping_sub(p)).wrapping_add(d as u128).to_le_bytes(); vals.push(y[..w].to_vec());
    } }
    for _ in 0..k { vals.push(operand(r, w)) }
    // every width, with and without the prefix; blanks and other fillings on either side
    let few: Vec<Vec<u8>> = (0..4usize).map(|i| match i { 0 => vec![0; w], 1 => vec![0xff; w], 2 => { let mut v = vec![0; w]; v[w / 2] = 0x3a; v } _ => operand(r, w) }).collect();
    for a in &few {
        let x = T::of(a);
        for n in 0..2 * w + 8 {
            t.call("hex", args! {t: ty, alt: 0, n: n, a: a}, || text(&format!("{:0n$x}", x, n = n)));
            t.call("hex", args! {t: ty, alt: 1, n: n, a: a}, || text(&format!("{:#0n$x}", x, n = n)));
            let mut pad = |alt: i32, side: i32, fill: u8, f: &dyn Fn() -> String| { t.call("pad", args! {t: ty, alt: alt, n: n, side: side, fill: fill as i32, a: a}, || text(&f())); };
            pad(0, 1, b' ', &|| format!("{:n$x}", x, n = n));
            pad(1, 1, b' ', &|| format!("{:#n$x}", x, n = n));
            pad(0, -1, b' ', &|| format!("{:<n$x}", x, n = n));
            pad(1, -1, b'.', &|| format!("{:.<#n$x}", x, n = n));
            pad(0, 0, b'*', &|| format!("{:*^n$x}", x, n = n));
            pad(1, 0, b' ', &|| format!("{:^#n$x}", x, n = n));
            pad(0, 1, b'z', &|| format!("{:z>n$x}", x, n = n));
        }
    }
    for a in vals {
        let x = T::of(&a);
        t.call("print", args! {t: ty, how: "Display", sg: sg, a: &a}, || text(&format!("{}", x)));
        t.call("print", args! {t: ty, how: "Debug", sg: sg, a: &a}, || text(&format!("{:?}", x)));
        t.call("print", args! {t: ty, how: "to_string", sg: sg, a: &a}, || text(&x.to_string()));
        t.call("hex", args! {t: ty, alt: 0, n: 0, a: &a}, || text(&format!("{:x}", x)));
        t.call("hex", args! {t: ty, alt: 0, n: 2, a: &a}, || text(&format!("{:02x}", x)));
        t.call("hex", args! {t: ty, alt: 0, n: 2 * w, a: &a}, || text(&format!("{:0n$x}", x, n = 2 * w)));
        t.call("hex", args! {t: ty, alt: 1, n: 2 * w + 2, a: &a}, || text(&format!("{:#0n$x}", x, n = 2 * w + 2)));
        t.call("hex", args! {t: ty, alt: 1, n: 0, a: &a}, || text(&format!("{:#x}", x)));
    }
}
macro_rules! lists { ($f:ident $($A:ident $T:ident $n:literal;)*) => {
    fn $f(t: &mut Trace, r: &mut Rng, k: usize) { for i in 0..k { $( {
        let w = <$T as M>::W;
        let v: Vec<Vec<u8>> = (0..$n).map(|j| if i == 0 { let mut b = vec![0; w]; b[0] = (10 * j + 9) as u8; b } else { operand(r, w) }).collect();
        let x = $A::from_vec(v.iter().map(|b| <$T as M>::of(b)).collect());
        t.call("list", args! {t: stringify!($A), sg: <$T as M>::SG, a: js(&v)}, || text(&format!("{:?}", x)));
        t.call("pretty", args! {t: stringify!($A), sg: <$T as M>::SG, a: js(&v)}, || text(&format!("{:#?}", x)));
    } )* } }
} }
lists! { long_arrays B0 U8 0; A0 u16 0; B300 U8 300; P300 u8 300; AU32L U32 1025; Au64L u64 130; }
lists! { arrays B1 U8 1; B4 U8 4; B32 U8 32; P1 u8 1; P4 u8 4; P32 u8 32; AU16 U16 3; AU32 U32 16; AU64 U64 5; AU128 U128 2; Au16 u16 3; Au32 u32 16; Au64 u64 5; Au128 u128 2; }
macro_rules! generics { ($($A:ident $n:literal),*; $($T:ident)*) => {
    fn generics(t: &mut Trace, r: &mut Rng, k: usize) { for _ in 0..k { generics!(@ t r [$($A $n)*] $($T)*); } }
}; (@ $t:ident $r:ident $l:tt $($T:ident)*) => { $( generics!(% $t $r $T $l); )* };
   (% $t:ident $r:ident $T:ident [$($A:ident $n:literal)*]) => { $( {
        let w = <$T as M>::W;
        let v: Vec<Vec<u8>> = (0..$n).map(|_| operand($r, w)).collect();
        let x = $A::<$T>::from_vec(v.iter().map(|b| <$T as M>::of(b)).collect());
        $t.call("list", args! {t: concat!(stringify!($A), stringify!($T)), sg: <$T as M>::SG, a: js(&v)}, || text(&format!("{:?}", x)));
        $t.call("pretty", args! {t: concat!(stringify!($A), stringify!($T)), sg: <$T as M>::SG, a: js(&v)}, || text(&format!("{:#?}", x)));
    } )* };
}
generics! { G1 1, G5 5, G16 16; U8 U16 U32 U64 U128 I8 I16 I32 I64 I128 u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 }

fn long_generics(t: &mut Trace, r: &mut Rng) {
    generics!(@ t r [G0 0 G300 300] U8 U128 I32 u8 i64 u128);
}

fn main() {
    let mut t = Trace::open(40);
    let mut r = t.rng(25);
    let k = t.n(40, 1200);
    each!(ints [U8 U16 U32 U64 U128 I8 I16 I32 I64 I128] (&mut t, &mut r, k));
    let n = t.n(20, 400);
    arrays(&mut t, &mut r, n);
    generics(&mut t, &mut r, n / 4);
    for _ in 0..t.n(2, 20) { long_arrays(&mut t, &mut r, 2); long_generics(&mut t, &mut r) }
    t.close()
}
