use harness::int::*;
use harness::{*, Rng};
use hacspec::prelude::*;
use std::cmp::Ordering;

fn le<T: M>(v: &[T]) -> J { J::L(v.iter().map(|x| J::from(x.le())).collect()) }
fn of<T: M>(v: &[Vec<u8>]) -> Vec<T> { v.iter().map(|x| T::of(x)).collect() }
fn js(v: &[Vec<u8>]) -> J { J::L(v.iter().map(J::from).collect()) }
fn text(s: &str) -> J { J::B(s.bytes().collect()) }

// ---- word views
macro_rules! views { ($($n:literal $s:ident $p:ident;)*) => {
    $( bytes!($s, $n); public_bytes!($p, $n); )*
    fn view(t: &mut Trace, r: &mut Rng, k: usize) { for i in 0..k { $( {
        let v = if i == 0 { (0..$n).map(|x| x as u8 ^ 0xa5).collect() } else { r.bytes($n) };
        let s = $s::from_public_slice(&v);
        let p = $p::from_slice(&v);
        macro_rules! go { ($x:ident $k:literal $big:literal $f:ident) => { t.call("words", args! {t: stringify!($x), f: stringify!($f), k: $k, big: $big, a: &v}, || le(&$x.$f().iter().cloned().collect::<Vec<_>>())); } }
        go!(s 4 1 to_be_U32s); go!(s 4 0 to_le_U32s); go!(s 8 1 to_be_U64s); go!(s 8 0 to_le_U64s); go!(s 16 1 to_U128s_be); go!(s 16 0 to_U128s_le);
        go!(p 4 1 to_be_u32s); go!(p 4 0 to_le_u32s); go!(p 8 1 to_be_u64s); go!(p 8 0 to_le_u64s); go!(p 16 1 to_u128s_be); go!(p 16 0 to_u128s_le);
        t.call("to_hex", args! {t: "bytes", a: &v}, || text(&s.to_hex()));
        t.call("to_hex", args! {t: "public_bytes", a: &v}, || text(&p.to_hex()));
        hex(t, r, &v, $n);
        // array types only accept their own length
        for d in [0i64, 1, -1, 2] { let n = ($n as i64 + d).max(0) as usize; if d == 0 || i % 4 == 1 {
            let v = r.bytes(n);
            let h = case(r, &v);
            t.call("from_hex", args! {t: "bytes", cap: $n, a: text(&h)}, || arrv!($s::from_hex(&h)));
            t.call("from_hex", args! {t: "public_bytes", cap: $n, a: text(&h)}, || $p::from_hex(&h).iter().cloned().collect::<Vec<u8>>());
        } }
        // equality of arrays
        let w = near(r, &v, false);
        t.call("equal", args! {t: "bytes", a: &v, b: &w}, || s.declassify_eq(&$s::from_public_slice(&w)));
        t.call("equal", args! {t: "public_bytes", a: &v, b: &w}, || p == $p::from_slice(&w));
        let (a1, b1): (Vec<Vec<u8>>, Vec<Vec<u8>>) = (v.iter().map(|x| vec![*x]).collect(), w.iter().map(|x| vec![*x]).collect());
        t.call("order", args! {t: "public_bytes", a: js(&a1), b: js(&b1)}, || ord(p.cmp(&$p::from_slice(&w))));
        t.call("order", args! {t: "public_bytes_partial", a: js(&a1), b: js(&b1)}, || ord(p.partial_cmp(&$p::from_slice(&w)).unwrap()));
    } )* } }
} }
fn ord(o: Ordering) -> i32 { match o { Ordering::Less => -1, Ordering::Equal => 0, Ordering::Greater => 1 } }
views! { 1 S1 P1; 2 S2 P2; 3 S3 P3; 4 S4 P4; 5 S5 P5; 8 S8 P8; 12 S12 P12; 16 S16 P16; 20 S20 P20; 24 S24 P24; 32 S32 P32; 40 S40 P40; 48 S48 P48; 64 S64 P64; 264 S264 P264; 272 S272 P272; }

fn case(r: &mut Rng, v: &[u8]) -> String {
    let m = r.below(3);
    v.iter().map(|b| match m { 0 => format!("{:02x}", b), 1 => format!("{:02X}", b), _ => if r.chance(2) { format!("{:02x}", b) } else { format!("{:02X}", b) } }).collect()
}
fn hex(t: &mut Trace, r: &mut Rng, v: &[u8], _n: usize) {
    let h = case(r, v);
    hexs(t, &h);
    t.call("to_hex", args! {t: "Seq", a: v}, || text(&sec(v).to_hex()));
    t.call("to_hex", args! {t: "PublicSeq", a: v}, || text(&PublicSeq::<u8>::from_slice(v).to_hex()));
}
fn hexs(t: &mut Trace, h: &str) {
    t.call("from_hex", args! {t: "Seq", cap: -1, a: text(h)}, || seqv(&Seq::<U8>::from_hex(h)));
    t.call("from_hex", args! {t: "Seq_string", cap: -1, a: text(h)}, || seqv(&Seq::<U8>::from_string(h.to_string())));
    t.call("from_hex", args! {t: "PublicSeq", cap: -1, a: text(h)}, || PublicSeq::<u8>::from_hex(h).iter().cloned().collect::<Vec<u8>>());
    t.call("from_hex", args! {t: "PublicSeq_string", cap: -1, a: text(h)}, || PublicSeq::<u8>::from_string(h.to_string()).iter().cloned().collect::<Vec<u8>>());
}
/// equal, or different in one place (first, last, anywhere; one bit), or of another length
fn near(r: &mut Rng, v: &[u8], len: bool) -> Vec<u8> {
    let mut w = v.to_vec();
    let n = w.len();
    match r.below(if len { 8 } else { 5 }) {
        0 => {}
        1 if n > 0 => w[0] ^= 1 << r.below(8),
        2 if n > 0 => w[n - 1] ^= 1 << r.below(8),
        3 if n > 0 => { let i = r.below(n); w[i] ^= 1 << r.below(8) }
        4 => w = r.bytes(n),
        5 => w.push(0),
        6 => { w.pop(); }
        7 => w.extend_from_slice(v),
        _ => {}
    }
    w
}

/// lists that differ from x in several places in ways that cancel under sums, exclusive-ors and permutations
fn siblings(r: &mut Rng, x: &[Vec<u8>]) -> Vec<Vec<Vec<u8>>> {
    let mut out = vec![];
    let n = x.len();
    if n == 0 { return out }
    let w = x[0].len();
    let two = |r: &mut Rng| { let i = (r.below(n), r.below(w)); let mut j = (r.below(n), r.below(w)); while n * w > 1 && i == j { j = (r.below(n), r.below(w)) } (i, j) };
    for m in [0x80u8, 1, 255, 0x10, r.next() as u8 | 2] {
        let (i, j) = two(r);
        let mut z = x.to_vec(); z[i.0][i.1] ^= m; z[j.0][j.1] ^= m; out.push(z);
        let mut z = x.to_vec(); z[i.0][i.1] = z[i.0][i.1].wrapping_add(m); z[j.0][j.1] = z[j.0][j.1].wrapping_sub(m); out.push(z);
        let mut z = x.to_vec(); z[i.0][i.1] ^= m; z[j.0][j.1] ^= m.wrapping_neg(); out.push(z);
    }
    if n > 1 {
        let i = r.below(n - 1);
        let (a, b) = (r.below(w), r.next() as u8 | 1);
        // neighbours, and elements half the list apart
        for j in [i + 1, (i + n / 2) % n] { let mut z = x.to_vec(); z[i][a] ^= b; if j != i { z[j][a] ^= b } out.push(z); let mut z = x.to_vec(); z.swap(i, j); out.push(z) }
        let mut z = x.to_vec(); z.reverse(); out.push(z);
        let mut z = x.to_vec(); z.rotate_left(1); out.push(z);
    }
    for m in [0x80u8, 0x40, 1, 255] { out.push(x.iter().map(|e| e.iter().map(|b| b ^ m).collect()).collect()); let mut z = x.to_vec(); for e in z.iter_mut() { e[w - 1] ^= m } out.push(z) }
    for i in [0, n - 1] { for m in [1u8, 0x80] { for b in [0, w - 1] { let mut z = x.to_vec(); z[i][b] ^= m; out.push(z) } } }
    out
}
// ---- element-wise arithmetic on arrays
fn lists(r: &mut Rng, w: usize, n: usize) -> (Vec<Vec<u8>>, Vec<Vec<u8>>) { (0..n).map(|_| pair(r, w)).unzip() }
macro_rules! secret_arrays { ($($t:ident $($n:literal $a:ident),*;)*) => {
    $( $( array!($a, $n, $t); )* )*
    fn secret(t: &mut Trace, r: &mut Rng, k: usize) { for it in 0..k { $( $( if $n < 100 || it < 3 {
        let w = <$t as M>::W;
        let (x, y) = lists(r, w, $n);
        let (a, b) = ($a::from_vec(of::<$t>(&x)), $a::from_vec(of::<$t>(&y)));
        macro_rules! go { ($g:literal $f:literal $e:expr) => { t.call("elts", args! {t: stringify!($t), g: $g, f: $f, sg: 0, a: js(&x), b: js(&y)}, || le::<$t>(&$e.iter().cloned().collect::<Vec<$t>>())); } }
        go!("add" "op" a + b); go!("sub" "op" a - b); go!("mul" "op" a * b); go!("xor" "op" a ^ b);
        go!("add" "wrap" a.wrap_add(b)); go!("sub" "wrap" a.wrap_sub(b)); go!("mul" "wrap" a.wrap_mul(b));
        t.call("equal", args! {t: stringify!($t), f: "declassify_eq", a: js(&x), b: js(&y)}, || a.declassify_eq(&b));
        t.call("equal", args! {t: stringify!($t), f: "declassify_eq", a: js(&x), b: js(&x)}, || a.declassify_eq(&a));
        let mut z = x.clone(); let i = r.below($n); z[i][r.below(w)] ^= 1 << r.below(8);
        t.call("equal", args! {t: stringify!($t), f: "declassify_eq", a: js(&x), b: js(&z)}, || a.declassify_eq(&$a::from_vec(of::<$t>(&z))));
        if it < 3 { for z in siblings(r, &x) { t.call("equal", args! {t: stringify!($t), f: "declassify_eq", a: js(&x), b: js(&z)}, || a.declassify_eq(&$a::from_vec(of::<$t>(&z)))); } }
        t.call("bytes", args! {t: stringify!($t), big: 1, a: js(&x)}, || seqv(&a.to_be_bytes()));
        t.call("bytes", args! {t: stringify!($t), big: 0, a: js(&x)}, || seqv(&a.to_le_bytes()));
    } )* )* } }
} }
secret_arrays! { U8 1 A81, 5 A85, 16 A816, 260 A8L; U16 1 A161, 5 A165, 8 A168, 300 A16L; U32 1 A321, 4 A324, 7 A327, 270 A32L; U64 1 A641, 3 A643, 8 A648, 260 A64L; U128 1 A1281, 2 A1282, 5 A1285, 258 A128L; }
macro_rules! public_arrays { ($($t:ident $($n:literal $a:ident),*;)*) => {
    $( $( array!($a, $n, $t); )* )*
    fn public(t: &mut Trace, r: &mut Rng, k: usize) { for it in 0..k { $( $( if $n < 100 || it < 3 {
        let w = <$t as M>::W;
        let (x, y) = lists(r, w, $n);
        let (a, b) = ($a::from_vec(of::<$t>(&x)), $a::from_vec(of::<$t>(&y)));
        macro_rules! go { ($g:literal $f:literal $e:expr) => { t.call("elts", args! {t: stringify!($t), g: $g, f: $f, sg: 0, a: js(&x), b: js(&y)}, || le::<$t>(&$e.iter().cloned().collect::<Vec<$t>>())); } }
        go!("add" "op" a + b); go!("sub" "op" a - b); go!("mul" "op" a * b); go!("xor" "op" a ^ b); go!("div" "op" a / b);
        go!("add" "wrap" a.wrap_add(b)); go!("sub" "wrap" a.wrap_sub(b)); go!("mul" "wrap" a.wrap_mul(b));
        t.call("equal", args! {t: stringify!($t), f: "eq", a: js(&x), b: js(&y)}, || a == b);
        t.call("equal", args! {t: stringify!($t), f: "eq", a: js(&x), b: js(&x)}, || a == a);
        let mut z = x.clone(); let i = r.below($n); z[i][r.below(w)] ^= 1 << r.below(8);
        t.call("equal", args! {t: stringify!($t), f: "eq", a: js(&x), b: js(&z)}, || a == $a::from_vec(of::<$t>(&z)));
        if it < 3 { for z in siblings(r, &x) { t.call("equal", args! {t: stringify!($t), f: "eq", a: js(&x), b: js(&z)}, || a == $a::from_vec(of::<$t>(&z))); } }
        t.call("order", args! {t: stringify!($t), a: js(&x), b: js(&z)}, || ord(a.cmp(&$a::from_vec(of::<$t>(&z)))));
        t.call("order", args! {t: stringify!($t), a: js(&x), b: js(&y)}, || ord(a.cmp(&b)));
    } )* )* } }
} }
public_arrays! { u8 1 B81, 5 B85, 16 B816, 260 B8L; u16 1 B161, 5 B165, 8 B168, 300 B16L; u32 1 B321, 4 B324, 7 B327, 270 B32L; u64 1 B641, 3 B643, 8 B648, 260 B64L; u128 1 B1281, 2 B1282, 5 B1285, 258 B128L; }

// ---- sequences
fn publicseq<T: M + PublicInteger + Default>(t: &mut Trace, r: &mut Rng, k: usize) {
    let w = T::W;
    for i in 0..k {
        let n = if i < 3 { i } else if i == 8 { 258 } else { r.below(9) };
        let (x, mut y) = lists(r, w, n);
        if i % 5 == 4 { if r.chance(2) { y.push(vec![1; w]) } else { y.pop(); } }
        let (a, b) = (PublicSeq::<T>::from_vec(of::<T>(&x)), PublicSeq::<T>::from_vec(of::<T>(&y)));
        macro_rules! go { ($g:literal $f:literal $e:expr) => { t.call("elts", args! {t: T::NAME, g: $g, f: $f, sg: T::SG, a: js(&x), b: js(&y)}, || { let (a, b) = (a.clone(), b.clone()); let v: PublicSeq<T> = ($e)(a, b); le::<T>(&v.iter().cloned().collect::<Vec<T>>()) }); } }
        go!("add" "op" |a, b| a + b); go!("sub" "op" |a, b| a - b); go!("mul" "op" |a, b| a * b); go!("xor" "op" |a, b| a ^ b);
        go!("add" "wrap" |a: PublicSeq<T>, b| a.wrap_add(b)); go!("sub" "wrap" |a: PublicSeq<T>, b| a.wrap_sub(b)); go!("mul" "wrap" |a: PublicSeq<T>, b| a.wrap_mul(b));
    }
}
fn vecs<T: M + Default>(t: &mut Trace, r: &mut Rng, k: usize) {
    let w = T::W;
    for i in 0..k {
        let n = if i < 3 { i } else if i == 8 { 258 } else { r.below(9) };
        let (x, mut y) = lists(r, w, n);
        if i % 5 == 4 { if r.chance(2) { y.push(vec![1; w]) } else { y.pop(); } }
        macro_rules! go { ($g:literal $f:ident) => { t.call("elts", args! {t: T::NAME, g: $g, f: stringify!($f), sg: T::SG, a: js(&x), b: js(&y)}, || { let v = $f::<T, Seq<T>>(Seq::from_vec(of::<T>(&x)), Seq::from_vec(of::<T>(&y)), T::default()); le::<T>(&v.iter().cloned().collect::<Vec<T>>()) }); } }
        go!("add" vec_poly_add); go!("sub" vec_poly_sub); go!("mul" vec_poly_mul);
        if T::SG == 0 {
            // residues modulo m, small enough for products to fit most of the time
            let bits = if i % 3 == 0 { 8 * w } else { 4 * w };
            let m = 1 + r.u128() % (if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 });
            let red = |r: &mut Rng| -> Vec<Vec<u8>> { (0..n).map(|_| { let v = match r.below(4) { 0 => m - 1, 1 => 0, _ => r.u128() % m }; T::int(v).le() }).collect() };
            let x = red(r);
            let mut y = red(r);
            if i % 5 == 4 { y.push(T::int(0).le()) }
            let nn = T::int(m);
            macro_rules! gm { ($g:literal $f:ident) => { t.call("eltsmod", args! {t: T::NAME, g: $g, f: stringify!($f), n: nn.le(), a: js(&x), b: js(&y)}, || { let v = $f::<T, Seq<T>>(Seq::from_vec(of::<T>(&x)), Seq::from_vec(of::<T>(&y)), nn); le::<T>(&v.iter().cloned().collect::<Vec<T>>()) }); } }
            gm!("add" vec_poly_add); gm!("sub" vec_poly_sub); gm!("mul" vec_poly_mul);
        }
    }
}
bytes!(HugeS, 65544);
public_bytes!(HugeP, 65544);
/// More than 65536 bytes: what a byte gives does not depend on the others.
fn long(t: &mut Trace, r: &mut Rng) {
    let n = 65544;
    let v = r.uniform(n);
    let h = case(r, &v);
    let (s, p) = (Box::new(HugeS::from_public_slice(&v)), Box::new(HugeP::from_slice(&v)));
    fn quiet<T: Default>(f: impl FnOnce() -> T) -> T { std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or_default() }
    let back = [("Seq", quiet(|| seqv(&Seq::<U8>::from_hex(&h)))), ("Seq_string", quiet(|| seqv(&Seq::<U8>::from_string(h.clone())))),
        ("PublicSeq", quiet(|| PublicSeq::<u8>::from_hex(&h).iter().cloned().collect())), ("PublicSeq_string", quiet(|| PublicSeq::<u8>::from_string(h.clone()).iter().cloned().collect())),
        ("bytes", quiet(|| { let x = HugeS::from_hex(&h); arrv!(x) })), ("public_bytes", quiet(|| HugeP::from_hex(&h).iter().cloned().collect::<Vec<u8>>()))];
    let texts = [("Seq", quiet(|| sec(&v).to_hex())), ("PublicSeq", quiet(|| PublicSeq::<u8>::from_slice(&v).to_hex())), ("bytes", quiet(|| s.to_hex())), ("public_bytes", quiet(|| p.to_hex()))];
    for (i, j, last) in windows(n, 8) {
        for (ty, b) in &back { t.call("from_hex", args! {t: *ty, f: "long", cap: -1, a: text(&h[2 * i..2 * j])}, || b[i..(if last { b.len() } else { j })].to_vec()); }
        for (ty, x) in &texts { t.call("to_hex", args! {t: *ty, f: "long", a: &v[i..j]}, || text(&x[2 * i..(if last { x.len() } else { 2 * j })])); }
        // one byte different
        let mut w = v.clone();
        w[j - 1] ^= 0x10;
        t.call("equal", args! {t: "Seq", f: "long", a: &v[i..j], b: &w[i..j]}, || sec(&v) == sec(&w));
        t.call("equal", args! {t: "bytes", f: "long", a: &v[i..j], b: &w[i..j]}, || s.declassify_eq(&HugeS::from_public_slice(&w)));
        t.call("equal", args! {t: "public_bytes", f: "long", a: &v[i..j], b: &w[i..j]}, || *p == HugeP::from_slice(&w));
        let (a1, b1): (Vec<Vec<u8>>, Vec<Vec<u8>>) = (v[i..j].iter().map(|x| vec![*x]).collect(), w[i..j].iter().map(|x| vec![*x]).collect());
        t.call("order", args! {t: "public_bytes", f: "long", a: js(&a1), b: js(&b1)}, || ord((*p).cmp(&HugeP::from_slice(&w))));
    }
    macro_rules! go { ($x:ident $k:literal $big:literal $f:ident) => {
        let o: Vec<Vec<u8>> = quiet(|| $x.$f().iter().map(|x| M::le(*x)).collect());
        if n % $k == 0 { for (i, j, last) in windows(n, $k) {
            t.call("words", args! {t: stringify!($x), f: stringify!($f), k: $k, big: $big, a: &v[i..j]}, || js(&o[i / $k..(if last { o.len() } else { j / $k })]));
        } }
    } }
    go!(s 4 1 to_be_U32s); go!(s 4 0 to_le_U32s); go!(s 8 1 to_be_U64s); go!(s 8 0 to_le_U64s);
    go!(p 4 1 to_be_u32s); go!(p 4 0 to_le_u32s); go!(p 8 1 to_be_u64s); go!(p 8 0 to_le_u64s);
    t.call("equal", args! {t: "Seq", f: "long", a: &v[..8], b: &v[..8]}, || sec(&v) == sec(&v));
}
fn main() {
    let mut t0 = Trace::open(40);
    let mut r = t0.rng(7);
    let t = &mut t0; let r = &mut r;
    let k = t.n(25, 400);
    view(t, r, k);
    // hex of sequences: all lengths, every byte value, malformed text
    for n in 0..=40 { let v = r.bytes(n); hex(t, r, &v, n); }
    let all: Vec<u8> = (0..=255).collect();
    hex(t, r, &all, 256);
    let h: String = all.iter().map(|b| format!("{:02x}", b)).collect();
    for n in 0..16 { hexs(t, &h[n..2 * n + 1]); hexs(t, &h[n..2 * n]); }
    for bad in ["0", "0g", "zz", "0x12", " 012", "12 3", "abc"] { hexs(t, bad) }
    for i in 0..k * 8 {
        let v = r.bytes(i % 70);
        let w = near(r, &v, true);
        t.call("equal", args! {t: "Seq", a: &v, b: &w}, || sec(&v) == sec(&w));
    }
    for n in (1..=20).chain([31, 32, 33, 64, 100, 257, 300]) {
        let v = r.bytes(n);
        let x: Vec<Vec<u8>> = v.iter().map(|b| vec![*b]).collect();
        for z in siblings(r, &x) {
            let w: Vec<u8> = z.into_iter().map(|e| e[0]).collect();
            t.call("equal", args! {t: "Seq", a: &v, b: &w}, || sec(&v) == sec(&w));
        }
        // equal as far as the shorter one goes
        for w in [[&v[..], &[0]].concat(), v[..n - 1].to_vec(), [&v[..], &v[..]].concat(), vec![], [&[0], &v[..]].concat()] {
            t.call("equal", args! {t: "Seq", a: &v, b: &w}, || sec(&v) == sec(&w));
        }
    }
    let k = t.n(20, 300);
    secret(t, r, k);
    public(t, r, k);
    let k = t.n(40, 600);
    each!(publicseq [u8 u16 u32 u64 u128 i8 i16 i32 i64 i128] (t, r, k));
    each!(vecs [U8 U16 U32 U64 U128 u8 u16 u32 u64 u128 I8 I16 I32 I64 I128] (t, r, k));
    long(t, r);
    // secret literals
    t.call("bytes", args! {t: "secret_bytes", big: 0, a: vec![vec![1u8], vec![255], vec![0], vec![128]]}, || pubv(&secret_bytes!([1, 255, 0, 128])));
    t0.close()
}
