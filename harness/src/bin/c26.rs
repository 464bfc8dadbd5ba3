//! C26: random constructors.
use harness::*;
use hacspec::prelude::*;

bytes!(B1, 1); bytes!(B3, 3); bytes!(B8, 8); bytes!(B17, 17); public_bytes!(P1, 1); public_bytes!(P5, 5); public_bytes!(P16, 16);
bytes!(B1000, 1000); public_bytes!(P66000, 66000); public_bytes!(P257, 257);
array!(W3, 3, U16); array!(W4, 4, U32); array!(W2, 2, U64); array!(W1, 1, U128); array!(X3, 3, u16); array!(X2, 2, u32); array!(X5, 5, u64); array!(X1, 1, u128);
array!(W100, 100, U32); array!(X70, 70, u64);

fn draws(t: &mut Trace, ty: &str, w: usize, len: usize, threads: bool, f: fn() -> Vec<Vec<u8>>) {
    let batch = 8;
    t.begin(args! {t: ty});
    for _ in 0..50 {
        t.call("draw", args! {t: ty, w: w, len: len, threads: threads}, || {
            // with threads, a batch draws at the same time
            let ds: Vec<Vec<Vec<u8>>> = if threads { (0..batch).map(|_| std::thread::spawn(f)).collect::<Vec<_>>().into_iter().map(|h| h.join().unwrap()).collect() }
                else { (0..batch).map(|_| f()).collect() };
            J::L(ds.into_iter().map(J::from).collect())
        });
    }
    t.call("end", args! {t: ty}, || 50 * batch as usize);
}
macro_rules! of { ($t:ident; $($A:ident $n:literal $w:literal $x:expr;)*) => { $( {
    fn one() -> Vec<Vec<u8>> { let a = $A::random(); let f = $x; (0..a.len()).map(|i| f(a[i])).collect() }
    fn vec() -> Vec<Vec<u8>> { let f = $x; $A::get_random_vec($n).into_iter().map(f).collect() }
    if $n * $w <= 48 {
        draws(&mut $t, concat!(stringify!($A), "::random"), $w, $n, false, one);
        draws(&mut $t, concat!(stringify!($A), "::random, threads"), $w, $n, true, one);
        draws(&mut $t, concat!(stringify!($A), "::get_random_vec"), $w, $n, false, vec);
    } else {
        $t.begin(vec![]);
        for _ in 0..5 { $t.call("long", args! {t: stringify!($A), w: $w, len: $n}, one); }
    }
    for l in [0usize, 1, 2, 7, 300, 4200] { $t.begin(vec![]); $t.call("long", args! {t: concat!(stringify!($A), "::get_random_vec"), w: $w, len: l}, || { let f = $x; $A::get_random_vec(l).into_iter().map(f).collect::<Vec<Vec<u8>>>() }); }
} )* } }
fn sq<const N: usize>() -> Vec<Vec<u8>> { let s = Seq::<U8>::random(N); (0..s.len()).map(|i| vec![s[i].declassify()]).collect() }

// some bytes of every constructor, one after the other: none of them may come twice, here or in another process
fn all() -> Vec<u8> {
    let mut o: Vec<u8> = vec![];
    macro_rules! some { ($($A:ident $x:expr;)*) => { $( { let f = $x; let mut n = 0; while n < 24 { let a = $A::random(); for i in 0..a.len() { let b = f(a[i]); n += b.len(); o.extend(b) } }
        for y in $A::get_random_vec(20) { o.extend(f(y)) } } )* } }
    macro_rules! s { ($t:ty) => { |x: $t| x.declassify().to_le_bytes().to_vec() } }
    macro_rules! p { ($t:ty) => { |x: $t| <$t>::to_le_bytes(x).to_vec() } }
    some! { B1 s!(U8); B8 s!(U8); P5 p!(u8); W3 s!(U16); W4 s!(U32); W2 s!(U64); W1 s!(U128); X3 p!(u16); X2 p!(u32); X5 p!(u64); X1 p!(u128); }
    for b in sq::<24>() { o.extend(b) }
    o
}
fn elsewhere() -> Vec<u8> {
    let o = std::process::Command::new(std::env::current_exe().unwrap()).env("C26_CHILD", "1").output().unwrap();
    assert!(o.status.success());
    o.stdout
}

macro_rules! polys { ($t:ident; $($ty:ident $l:literal $n:literal [$(($e:literal, $c:literal)),*];)*) => { $( {
    poly!(Ring, $ty, $l, $n, &[$(($e, $c)),*]);
    $t.begin(vec![]);
    $t.call("polys", args! {t: concat!(stringify!($ty), " ", $n), l: $l as i64, n: $n as i64}, || J::L((0..400).map(|_| { let p = Ring::random(); J::L(p.poly.iter().map(|c| J::I(*c as i64)).collect()) }).collect()));
} )* } }
fn main() {
    if std::env::var("C26_CHILD").is_ok() { use std::io::Write; std::io::stdout().write_all(&all()).unwrap(); return }
    let mut t = Trace::open(0);
    let len = all().len();
    for n in [0usize, 3] {
        t.begin(vec![]);
        t.call("long", args! {t: if n == 0 { "all constructors" } else { "all constructors, several processes and threads" }, w: 1, len: len * (2 * n + 1)}, || {
            let mut o = all();
            for _ in 0..n { o.extend(elsewhere()) }
            for h in (0..n).map(|_| std::thread::spawn(all)).collect::<Vec<_>>() { o.extend(h.join().unwrap()) }
            o.into_iter().map(|b| vec![b]).collect::<Vec<Vec<u8>>>()
        });
    }
    macro_rules! s { ($t:ty) => { |x: $t| x.declassify().to_le_bytes().to_vec() } }
    macro_rules! p { ($t:ty) => { |x: $t| <$t>::to_le_bytes(x).to_vec() } }
    for _ in 0..t.n(1, 5) {
        of! { t; B1 1 1 s!(U8); B3 3 1 s!(U8); B8 8 1 s!(U8); B17 17 1 s!(U8); P1 1 1 p!(u8); P5 5 1 p!(u8); P16 16 1 p!(u8); B1000 1000 1 s!(U8); P257 257 1 p!(u8); P66000 66000 1 p!(u8);
             W3 3 2 s!(U16); W4 4 4 s!(U32); W2 2 8 s!(U64); W1 1 16 s!(U128); X3 3 2 p!(u16); X2 2 4 p!(u32); X5 5 8 p!(u64); X1 1 16 p!(u128); W100 100 4 s!(U32); X70 70 8 p!(u64); }
        draws(&mut t, "Seq 1", 1, 1, false, sq::<1>);
        draws(&mut t, "Seq 16", 1, 16, false, sq::<16>);
        draws(&mut t, "Seq 33", 1, 33, false, sq::<33>);
        draws(&mut t, "Seq 24, threads", 1, 24, true, sq::<24>);
        for l in [0usize, 1, 2, 15, 16, 17, 31, 32, 33, 64, 100, 255, 256, 257, 1000, 4097, 65535, 65536, 70000] {
            t.begin(vec![]);
            t.call("long", args! {t: "Seq", w: 1, len: l}, || { let s = Seq::<U8>::random(l); (0..s.len()).map(|i| vec![s[i].declassify()]).collect::<Vec<Vec<u8>>>() });
        }
    }
    polys! { t; u128 3 3 [(0, 2), (1, 2), (3, 1)]; i128 3 11 [(0, 2), (1, 2), (3, 1)]; u128 4 3329 [(0, 1), (4, 1)]; u64 7 7681 [(0, 1), (1, 3), (7, 1)]; u128 64 3329 [(0, 1), (64, 1)]; u32 40 251 [(0, 1), (40, 1)]; i64 64 65521 [(0, 1), (64, 1)]; u8 4 2 [(0, 1), (4, 1)];
        i64 20 5 [(0, 1), (20, 1)]; u32 2 17 [(0, 1), (2, 1)]; i32 5 4591 [(0, 1), (5, 1)]; u16 3 65521 [(0, 1), (3, 1)]; i8 3 127 [(0, 1), (3, 1)]; }
    t.close()
}
