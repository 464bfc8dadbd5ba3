use harness::container::*;
use harness::{machine, step, *};
use hacspec::prelude::*;
use hacspec::prelude::Rng as _;

bytes!(B5, 5);
public_bytes!(P5, 5);
array!(W5, 5, U32);
array!(Q5, 5, u64);
array!(X5, 5, U128);
array!(H5, 5, u16);
generic_array!(G5, 5);
both_bytes!(BP5, BS5, 5);

machine!(Bytes, Seq<U8>, B5, 5, U8, |p: &[u8]| Seq::<U8>::from_public_slice(p), |p: &[u8]| B5::from_public_slice(p));
machine!(PublicBytes, PublicSeq<u8>, P5, 5, u8, |p: &[u8]| PublicSeq::<u8>::from_slice(p), |p: &[u8]| P5::from_vec(p.to_vec()));
machine!(Words, SecretSeq<U32>, W5, 5, U32, |p: &[u32]| SecretSeq::<U32>::from_vec(p.iter().map(|x| U32::classify(*x)).collect()),
    |p: &[u32]| if p.len() == 5 { let mut a = [0; 5]; a.copy_from_slice(p); W5::from_public_array(a) } else { W5::from_public_slice(p) });
machine!(PublicWords, Seq<u64>, Q5, 5, u64, |p: &[u64]| Seq::<u64>::from_slice(p), |p: &[u64]| Q5::from_vec(p.to_vec()));
machine!(Wide, Seq<U128>, X5, 5, U128, |p: &[u128]| Seq::<U128>::from_vec(p.iter().map(|x| U128::classify(*x)).collect()), |p: &[u128]| X5::from_public_slice(p));
machine!(Half, PublicSeq<u16>, H5, 5, u16, |p: &[u16]| PublicSeq::<u16>::from_slice(p), |p: &[u16]| H5::from_vec(p.to_vec()));
machine!(Generic, Seq<U32>, G5<U32>, 5, U32, |p: &[u32]| Seq::<U32>::from_vec(p.iter().map(|x| U32::classify(*x)).collect()), |p: &[u32]| G5::<U32>::from_vec(p.iter().map(|x| U32::classify(*x)).collect()));
machine!(GenericPublic, Seq<u32>, G5<u32>, 5, u32, |p: &[u32]| Seq::<u32>::from_slice(p), |p: &[u32]| G5::<u32>::from_vec(p.to_vec()));
machine!(Both, Seq<U8>, BS5, 5, U8, |p: &[u8]| Seq::<U8>::from_public_slice(p), |p: &[u8]| { let s = BS5::from_public(BP5::from_vec(p.to_vec())); BS5::from_public(BP5::from_secret_declassify(s)) });
machine!(BothPublic, Seq<u8>, BP5, 5, u8, |p: &[u8]| Seq::<u8>::from_slice(p), |p: &[u8]| { let s = BS5::from_public(BP5::from_vec(p.to_vec())); BP5::from_secret_declassify(s) });

// degenerate lengths
bytes!(B0, 0);
public_bytes!(P1, 1);
array!(W1, 1, U32);
machine!(Bytes0, Seq<U8>, B0, 0, U8, |p: &[u8]| Seq::<U8>::from_public_slice(p), |p: &[u8]| B0::from_public_slice(p));
machine!(PublicBytes1, PublicSeq<u8>, P1, 1, u8, |p: &[u8]| PublicSeq::<u8>::from_slice(p), |p: &[u8]| P1::from_vec(p.to_vec()));
machine!(Words1, Seq<U32>, W1, 1, U32, |p: &[u32]| Seq::<U32>::from_vec(p.iter().map(|x| U32::classify(*x)).collect()), |p: &[u32]| W1::from_public_slice(p));

// longer than any byte can count
array!(W300, 300, U32);
public_bytes!(P300, 300);
machine!(LongWords, Seq<U32>, W300, 300, U32, |p: &[u32]| Seq::<U32>::from_vec(p.iter().map(|x| U32::classify(*x)).collect()), |p: &[u32]| W300::from_public_slice(p));
machine!(LongBytes, PublicSeq<u8>, P300, 300, u8, |p: &[u8]| PublicSeq::<u8>::from_slice(p), |p: &[u8]| P300::from_vec(p.to_vec()));
machine!(LongSecret, SecretSeq<U64>, L300<U64>, 300, U64, |p: &[u64]| SecretSeq::<U64>::from_vec(p.iter().map(|x| U64::classify(*x)).collect()), |p: &[u64]| L300::<U64>::from_vec(p.iter().map(|x| U64::classify(*x)).collect()));
generic_array!(L300, 300);

fn machines() -> Vec<Box<dyn Fn() -> Box<dyn Machine>>> {
    macro_rules! b { ($($m:ident)*) => { vec![ $( Box::new(|| Box::new($m::new()) as Box<dyn Machine>) as Box<dyn Fn() -> Box<dyn Machine>> ),* ] } }
    b!(Bytes PublicBytes Words PublicWords Wide Half Generic GenericPublic Both BothPublic)
}

const M: usize = usize::MAX;
/// every single step around small contents
fn around(t: &mut Trace, mk: &dyn Fn() -> Box<dyn Machine>, top: usize) {
    let c = |n: usize, k: u8| (0..n).map(|i| k + i as u8).collect::<Vec<u8>>();
    let idx: Vec<usize> = (0..=6).chain([7, 255, 256, M]).collect();
    for n in 0..=top { for w in 0..=top {
        let mut m = mk();
        t.begin(args! {al: m.al(), t: m.name()});
        let m = &mut *m;
        run(t, m, &step!("from_vec", 1usize, &c(n, 10)));
        run(t, m, &step!("from_slice", 2usize, &c(w, 30)));
        run(t, m, &step!("from_slice", 4usize, &c(n, 50)));
        for i in &idx { for j in [0, 1, 2, w, w + 1, M] { for l in [0, 1, 2, w, w + 1, M] {
            run(t, m, &step!("update_sub", 1usize, *i, 2usize, j, l));
        } } run(t, m, &step!("update", 1usize, *i, 2usize)); run(t, m, &step!("update", 4usize, *i, 2usize)); run(t, m, &step!("from_vec", 1usize, &c(n, 10))); }
        for i in &idx { for l in &idx {
            run(t, m, &step!("from_sub", 3usize, 1usize, *i, *l));
            run(t, m, &step!("from_sub_range", 3usize, 4usize, *i, *l));
            run(t, m, &step!("sub", 3usize, 4usize, *i, *l));
            run(t, m, &step!("subr", 3usize, 1usize, *i, *l));
            run(t, m, &step!("range", 1usize, *i, *l));
        } }
    } }
    let mut m = mk();
    t.begin(args! {al: m.al(), t: m.name()});
    let m = &mut *m;
    let long = c(200, 3);
    run(t, m, &step!("from_vec", 2usize, &long));
    for n in 0..=8 {
        let x: Vec<u8> = c(n, 90);
        for op in ["from_slice", "from_vec", "from_public"] { for d in [1usize, 4] { run(t, m, &step!(op, d, &x)) } }
        for d in [1usize, 4] {
            run(t, m, &step!("create", d, n));
            run(t, m, &step!("from_vec", 1usize, &x));
            run(t, m, &step!("from_seq", d, 1usize));
            run(t, m, &step!("from_sub", d, 2usize, 17usize, n));
            run(t, m, &step!("from_sub_range", d, 2usize, 21usize, 21 + n));
            run(t, m, &step!("update_start", d, 1usize));
            for (k, r) in [("usize", 8), ("u8", 8), ("u32", 8), ("i32", 8)] { for i in 0..=r { run(t, m, &step!("get", d, i as usize, k)); run(t, m, &step!("set", d, i as usize, 7 + i, k)) } }
            for i in [-1i32, -2, -5, i32::MIN / 2] { run(t, m, &step!("get", d, i, "i32")); run(t, m, &step!("set", d, i, 1, "i32")) }
        }
    }
    // indices beyond a byte and wraps of narrow index kinds
    let long = (0..300).map(|i| (i * 7 % 251) as u8).collect::<Vec<u8>>();
    run(t, m, &step!("from_vec", 2usize, &long));
    for i in [0usize, 127, 128, 200, 255] { for k in ["usize", "u8", "u32", "i32"] { run(t, m, &step!("get", 2usize, i, k)); run(t, m, &step!("set", 2usize, i, 99, k)) } }
    for i in [256usize, 299, 300, 65536] { for k in ["usize", "u32", "i32"] { run(t, m, &step!("get", 2usize, i, k)); run(t, m, &step!("set", 2usize, i, 98, k)) } }
}

/// contents and windows beyond 255 elements
fn long(t: &mut Trace, mk: &dyn Fn() -> Box<dyn Machine>) {
    let c = |n: usize, k: usize| (0..n).map(|i| ((i * 7 + i / 251 + k) % 256) as u8).collect::<Vec<u8>>();
    let mut m = mk();
    t.begin(args! {al: m.al(), t: m.name()});
    let m = &mut *m;
    run(t, m, &step!("from_vec", 1usize, &c(600, 1)));
    run(t, m, &step!("from_slice", 2usize, &c(257, 5)));
    run(t, m, &step!("from_seq", 3usize, 1usize));
    run(t, m, &step!("from_slice", 4usize, &c(299, 9)));
    run(t, m, &step!("from_vec", 5usize, &c(300, 11)));
    run(t, m, &step!("from_public", 5usize, &c(300, 13)));
    for d in [1usize, 3, 4, 5] { run(t, m, &step!("len", d)); run(t, m, &step!("iter", d)); }
    run(t, m, &step!("full", 4usize));
    for d in [1usize, 4] { for i in [254usize, 255, 256, 257, 299, 300, 599, 600] {
        for k in ["usize", "u32", "i32"] { run(t, m, &step!("get", d, i, k)) }
        run(t, m, &step!("set", d, i, i % 200, ["usize", "u32", "i32"][i % 3]));
    } }
    for d in [1usize, 4] { for i in (0..=255usize).filter(|i| i % 6 == d || (125..=130).contains(i) || *i > 252 || *i < 2) {
        run(t, m, &step!("set", d, i, (i * 3 + 1) % 200, "u8")); run(t, m, &step!("get", d, i, "u8")); run(t, m, &step!("get", d, i, "usize"));
        for k in ["usize", "u32", "i32"] { run(t, m, &step!("set", d, i, (i * 5 + 1) % 199, k)); }
    } }
    for (so, si, n) in [(0usize, 0usize, 256usize), (1, 0, 256), (0, 1, 257), (43, 300, 257), (256, 256, 44), (299, 599, 1), (300, 0, 0), (0, 255, 300), (10, 12, 290), (1, 0, 300), (300, 0, 1)] {
        run(t, m, &step!("update_sub", 4usize, so, 1usize, si, n));
        run(t, m, &step!("update_sub", 1usize, si, 4usize, so, n));
    }
    for (i, n) in [(0usize, 256usize), (256, 256), (255, 257), (300, 300), (1, 599), (1, 600), (0, 600)] {
        run(t, m, &step!("from_sub", 3usize, 1usize, i, n));
        run(t, m, &step!("from_sub", 5usize, 1usize, i, n));
        run(t, m, &step!("from_sub_range", 3usize, 1usize, i, i + n));
        run(t, m, &step!("sub", 3usize, 1usize, i, n));
        run(t, m, &step!("subr", 3usize, 1usize, i, i + n));
        run(t, m, &step!("range", 1usize, i, i + n));
    }
    run(t, m, &step!("subr", 3usize, 4usize, 20usize, 280usize));
    run(t, m, &step!("from_seq", 5usize, 1usize));
    run(t, m, &step!("from_seq", 5usize, 4usize));
    run(t, m, &step!("from_seq", 3usize, 4usize));
    for (i, s) in [(0usize, 2usize), (43, 2), (44, 2), (0, 5), (343, 2)] { run(t, m, &step!("update", 4usize, i, s)); run(t, m, &step!("update", 1usize, i, s)) }
    run(t, m, &step!("update_start", 4usize, 2usize));
    run(t, m, &step!("update_start", 1usize, 5usize));
    for k in [1usize, 7, 256, 257, 299, 300, 301] {
        for d in [1usize, 4] {
            run(t, m, &step!("num_chunks", d, k));
            let n = if d == 1 { 600 } else { 300 };
            let num = (n + k - 1) / k;
            for i in [0, num / 2, 255, 256, num - 1, num] {
                run(t, m, &step!("get_chunk", d, k, i));
                if i < num { run(t, m, &step!("from_vec", 3usize, &c(k.min(n - i * k), i))); run(t, m, &step!("set_chunk", d, k, i, 3usize)) }
            }
        }
    }
    // longer than sixteen bits can count
    run(t, m, &step!("new", 1usize, 0usize));
    run(t, m, &step!("new", 3usize, 66000usize));
    run(t, m, &step!("set", 3usize, 65700usize, 77, "usize"));
    run(t, m, &step!("set", 3usize, 65536usize, 78, "u32"));
    run(t, m, &step!("update", 3usize, 65400usize, 2usize));
    run(t, m, &step!("from_sub", 5usize, 3usize, 65500usize, 300usize));
    run(t, m, &step!("get_chunk", 3usize, 256usize, 256usize));
    run(t, m, &step!("num_chunks", 3usize, 256usize));
    run(t, m, &step!("from_sub", 1usize, 3usize, 5usize, 65800usize));
}

array!(W70000, 70000, U8);
machine!(WideSecret, Seq<U8>, W70000, 70000, U8, |_: &[u8]| -> Seq<U8> { panic!() }, |_: &[u8]| -> W70000 { panic!() });
array!(W65536, 65536, u16);
machine!(WidePublic, PublicSeq<u16>, W65536, 65536, u16, |_: &[u16]| -> PublicSeq<u16> { panic!() }, |_: &[u16]| -> W65536 { panic!() });
/// positions and lengths that do not fit in 16 bits
fn very_long(t: &mut Trace, m: &mut dyn Machine) {
    t.begin(args! {al: m.al(), t: m.name()});
    let al = m.al();
    let n = 131080usize;
    let c = |n: usize| (0..n).map(|i| (i * 5 + 3) as u8).collect::<Vec<u8>>();
    for d in [1usize, 4] {
        let n = if d == 1 { n } else { al };
        wide(t, m, n, 0, &[], &step!("len", d));
        for (i, k) in [(65535usize, "usize"), (65536, "u32"), (65537, "i32"), (n - 1, "usize"), (n, "usize"), (n, "u32"), (n + 65536, "i32")] {
            wide(t, m, n, 0, &[], &step!("get", d, i, k));
            wide(t, m, n, 0, &[], &step!("set", d, i, 251, k));
        }
        for (so, si, l) in [(0usize, 65536usize.min(n - 9), 9usize), (n - 9, 0, 9), (n - 9, n - 9, 9), (n - 8, 0, 9), (0, n - 8, 9), (65530, 3, 10), (n, 0, 0), (0, 0, 65537), (n, 0, 65536)] {
            // between the sequence and the array, either way
            let s = if d == 1 { 4usize } else { 1 };
            let (so, si) = (so.min(n + 1), if d == 1 { si.min(al) } else { si });
            wide(t, m, if d == 1 { n } else { 66003 }, 0, &[], &step!("update_sub", d, so, s, si, l));
        }
        for (at, l) in [(65530usize, 6usize), (65531, 9), (n - 7, 7), (n - 7, 8)] {
            wide(t, m, n, 0, &c(l), &step!("update", d, at, 3usize));
            wide(t, m, n, 0, &[], &step!("sub", 3usize, d, at, l));
            wide(t, m, n, 0, &[], &step!("subr", 3usize, d, at, at + l));
            if d == 1 { wide(t, m, n, 0, &[], &step!("range", d, at, at + l)) }
        }
        wide(t, m, n, 7, &c(7), &step!("update_start", d, 3usize));
    }
    // whole containers, of the right length and of lengths that agree with it in sixteen bits
    for m2 in [al, al + 65536, al - 65536, al - 1] {
        wide(t, m, m2, 5, &[], &step!("from_seq", 4usize, 1usize));
        wide(t, m, m2, 5, &[], &step!("clone", 2usize, 1usize));
    }
    wide(t, m, al + 9, 0, &[], &step!("from_sub", 5usize, 1usize, 9usize, al));
    wide(t, m, al + 9, 0, &[], &step!("from_sub", 5usize, 1usize, 9usize, al - 65536));
    wide(t, m, al + 9, 0, &[], &step!("from_sub_range", 2usize, 1usize, 7usize, 65545usize));
    wide(t, m, 0, 0, &[], &step!("new", 1usize, 65541usize));
    wide(t, m, 0, 0, &[], &step!("create", 5usize, al));
    wide(t, m, 0, 0, &[], &step!("create", 5usize, al + 65536));
}
fn main() { roomy(go) }
fn go() {
    let mut t = Trace::open(0);
    let path = std::env::args().nth(1).expect("behaviours");
    let hist: Vec<V> = std::fs::read_to_string(path).unwrap().lines().map(V::parse).collect();
    let ms = machines();
    let th = t.thorough;
    for (i, mk) in ms.iter().enumerate() { around(&mut t, &**mk, if th { 6 } else if i < 2 { 3 } else { 1 }) }
    for mk in [&|| Box::new(Bytes0::new()) as Box<dyn Machine>, &|| Box::new(PublicBytes1::new()) as Box<dyn Machine>, &|| Box::new(Words1::new()) as Box<dyn Machine>] as [&dyn Fn() -> Box<dyn Machine>; 3] { around(&mut t, mk, 1) }
    for mk in [&|| Box::new(LongWords::new()) as Box<dyn Machine>, &|| Box::new(LongBytes::new()) as Box<dyn Machine>, &|| Box::new(LongSecret::new()) as Box<dyn Machine>] as [&dyn Fn() -> Box<dyn Machine>; 3] { long(&mut t, mk) }
    very_long(&mut t, &mut WideSecret::new());
    very_long(&mut t, &mut WidePublic::new());
    for (i, h) in hist.iter().enumerate() {
        if t.thorough { for mk in &ms { replay(&mut t, &mut *mk(), h.list()) } } else { for k in 0..3 { replay(&mut t, &mut *ms[(3 * i + k) % ms.len()](), h.list()) } }
    }
    t.close()
}
