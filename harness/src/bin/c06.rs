use harness::container::*;
use harness::{machine, step, *};
use hacspec::prelude::*;

macro_rules! flavours { ($($n:expr, $m:ident $a:ident $mp:ident $p:ident $mg:ident $g:ident $mq:ident $q:ident;)*) => {
    $( array!($a, $n, U8); array!($p, $n, u8); generic_array!($g, $n); array!($q, $n, U64);
       machine!($m, Seq<U8>, $a, $n, U8, |_: &[u8]| -> Seq<U8> { panic!() }, |_: &[u8]| -> $a { panic!() });
       machine!($mp, PublicSeq<u8>, $p, $n, u8, |_: &[u8]| -> PublicSeq<u8> { panic!() }, |_: &[u8]| -> $p { panic!() });
       machine!($mg, Seq<u32>, $g<u32>, $n, u32, |_: &[u32]| -> Seq<u32> { panic!() }, |_: &[u32]| -> $g<u32> { panic!() });
       machine!($mq, SecretSeq<U64>, $q, $n, U64, |_: &[u64]| -> SecretSeq<U64> { panic!() }, |_: &[u64]| -> $q { panic!() });
    )*
    fn machines() -> Vec<Box<dyn Fn() -> Box<dyn Machine>>> { vec![ $( Box::new(|| Box::new($m::new()) as Box<dyn Machine>), Box::new(|| Box::new($mp::new()) as Box<dyn Machine>), Box::new(|| Box::new($mg::new()) as Box<dyn Machine>), Box::new(|| Box::new($mq::new()) as Box<dyn Machine>) ),* ] }
} }
flavours! {
    7, S7 A7 PS7 PA7 GS7 GA7 QS7 QA7;
    0, S0 A0 PS0 PA0 GS0 GA0 QS0 QA0;
    1, S1 A1 PS1 PA1 GS1 GA1 QS1 QA1;
    2, S2 A2 PS2 PA2 GS2 GA2 QS2 QA2;
    5, S5 A5 PS5 PA5 GS5 GA5 QS5 QA5;
    8, S8 A8 PS8 PA8 GS8 GA8 QS8 QA8;
    16, S16 A16 PS16 PA16 GS16 GA16 QS16 QA16;
    33, S33 A33 PS33 PA33 GS33 GA33 QS33 QA33;
    64, S64 A64 PS64 PA64 GS64 GA64 QS64 QA64;
}

/// all chunks of register d, of length n, by size k: read, write right and wrong lengths, beyond the end
fn chunks(t: &mut Trace, m: &mut dyn Machine, d: usize, n: usize, k: usize, far: bool) {
    let c = |n: usize, k: usize| (0..n).map(|i| ((k + i * 3) % 251) as u8).collect::<Vec<u8>>();
    run(t, m, &step!("from_vec", d, &c(n, 1)));
    run(t, m, &step!("num_chunks", d, k));
    let num = if k == 0 { 1 } else { (n + k - 1) / k };
    for i in 0..num + 3 {
        run(t, m, &step!("get_chunk", d, k, i));
        if d >= 4 { run(t, m, &step!("chunk_len", d, k, i)) }
        let w = if k > 0 && i < num { k.min(n - i * k) } else { k };
        let mut lens = vec![w, w + 1, 0];
        if w > 0 { lens.push(w - 1) }
        if w != k { lens.push(k) }
        for l in lens { run(t, m, &step!("from_vec", 3usize, &c(l, 100 + i))); run(t, m, &step!("set_chunk", d, k, i, 3usize)); }
    }
    if far {
        let big = usize::MAX;
        for (a, b) in [(k, big), (big, 0), (big, 1), (big, big), (1, big), (n + 7, 0), (n + 7, 1)] {
            if a == 0 { continue }
            if (a, b) != (big, 0) { run(t, m, &step!("get_chunk", d, a, b)); run(t, m, &step!("set_chunk", d, a, b, 3usize)); }
        }
    }
}
array!(L300, 300, U32);
machine!(Long, Seq<U32>, L300, 300, U32, |_: &[u32]| -> Seq<U32> { panic!() }, |_: &[u32]| -> L300 { panic!() });
public_bytes!(P300, 300);
machine!(LongPublic, PublicSeq<u8>, P300, 300, u8, |_: &[u8]| -> PublicSeq<u8> { panic!() }, |_: &[u8]| -> P300 { panic!() });
/// chunk sizes, chunk numbers and lengths that do not fit in a byte
fn long(t: &mut Trace, m: &mut dyn Machine) {
    let c = |n: usize, k: usize| (0..n).map(|i| ((i * 7 + i / 251 + k) % 256) as u8).collect::<Vec<u8>>();
    t.begin(args! {al: m.al(), t: m.name()});
    run(t, m, &step!("from_vec", 4usize, &c(300, 9)));
    for n in [600usize, 513, 258] {
        run(t, m, &step!("from_vec", 1usize, &c(n, 1)));
        for k in [1usize, 2, 7, 255, 256, 257, 299, 300, 301, n] { for d in [1usize, 4] {
            let n = if d == 1 { n } else { 300 };
            let num = (n + k - 1) / k;
            run(t, m, &step!("num_chunks", d, k));
            for i in [0, num / 2, 255, 256, 257, num - 1, num] {
                run(t, m, &step!("get_chunk", d, k, i));
                if d == 4 { run(t, m, &step!("chunk_len", d, k, i)) }
                if i < num { run(t, m, &step!("from_vec", 3usize, &c(k.min(n - i * k), i))); run(t, m, &step!("set_chunk", d, k, i, 3usize)) }
            }
        } }
    }
}
array!(W70000, 70000, U8);
machine!(WideSecret, Seq<U8>, W70000, 70000, U8, |_: &[u8]| -> Seq<U8> { panic!() }, |_: &[u8]| -> W70000 { panic!() });
array!(W65536, 65536, u16);
machine!(WidePublic, PublicSeq<u16>, W65536, 65536, u16, |_: &[u16]| -> PublicSeq<u16> { panic!() }, |_: &[u16]| -> W65536 { panic!() });
/// chunk sizes, chunk numbers and lengths that do not fit in 16 bits
fn very_long(t: &mut Trace, m: &mut dyn Machine) {
    t.begin(args! {al: m.al(), t: m.name()});
    let al = m.al();
    let c = |n: usize| (0..n).map(|i| (i * 5 + 3) as u8).collect::<Vec<u8>>();
    let all = t.thorough;
    for n in [65539usize, 65536, 131080] {
        for d in [1usize, 4] {
            let n = if d == 1 { n } else if n == 65539 { al } else { continue };
            for k in [1usize, 256, 65536, 2, 16, 255, 32768, 65535, 65537, n] {
                if !all && (if n == 65539 || d == 4 { k == 255 || k == 16 || k == n } else { k != 1 && k != 65536 }) { continue }
                wide(t, m, n, 0, &[], &step!("num_chunks", d, k));
                let num = (n + k - 1) / k;
                let mut is = if all { vec![0, num / 2, 255, 256, 65535, 65536, 66000, num - 1, num, num + 1] } else { vec![num / 2, 255, 65535, 65536, num - 1, num] };
                is.sort();
                is.dedup();
                for i in is {
                    if i > num + 1 { continue }
                    let w = if i < num { k.min(n - i * k) } else { k.min(1) };
                    if w < 40 || i == num - 1 { wide(t, m, n, 0, &[], &step!("get_chunk", d, k, i)) }
                    if d == 4 { wide(t, m, n, 0, &[], &step!("chunk_len", d, k, i)) }
                    if w < 40 { wide(t, m, n, 0, &c(w), &step!("set_chunk", d, k, i, 3usize)) }
                }
            }
        }
    }
}
fn main() { roomy(go) }
fn go() {
    let mut t = Trace::open(0);
    let path = std::env::args().nth(1).expect("behaviours");
    let hist: Vec<V> = std::fs::read_to_string(path).unwrap().lines().map(V::parse).collect();
    let th = t.thorough;
    let mut r = t.rng(6);
    let ms = machines();
    for (f, mk) in ms[..4].iter().enumerate() {
        let top = if th { 40 } else { [12, 8, 8, 6][f] };
        for n in 0..=top {
            t.begin(args! {al: 7usize, t: mk().name()});
            let mut m = mk();
            for k in 0..=n + 2 { if top < 40 || k < 9 || k + 2 > n || r.chance(4) { chunks(&mut t, &mut *m, 1, n, k, n == 3) } }
        }
        for (n, k) in [(64, 16), (65, 16), (128, 64), (129, 64), (200, 13)] {
            t.begin(args! {al: 7usize, t: mk().name()});
            chunks(&mut t, &mut *mk(), 1, n, k, true);
        }
    }
    for mk in &ms {
        let mut m = mk();
        let n = m.al();
        t.begin(args! {al: n, t: m.name()});
        for k in 0..=n + 2 { if th || k < 6 || k + 2 > n || k % 8 == 0 { chunks(&mut t, &mut *m, 4, n, k, k == 2) } }
    }
    long(&mut t, &mut Long::new());
    long(&mut t, &mut LongPublic::new());
    very_long(&mut t, &mut WideSecret::new());
    very_long(&mut t, &mut WidePublic::new());
    for (i, h) in hist.iter().enumerate() {
        if th { for mk in &ms[..4] { replay(&mut t, &mut *mk(), h.list()) } } else { replay(&mut t, &mut *ms[i % 4](), h.list()) }
    }
    t.close()
}
