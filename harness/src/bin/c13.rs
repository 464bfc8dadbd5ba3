use hacspec_examples::fips202::*;
use harness::*;
fn main() {
    let mut t = Trace::open(3);
    let mut r = t.rng(13);
    let h = |t: &mut Trace, b: usize, m: Vec<u8>| { t.call("sha3", args! {m: &m, bits: b}, || match b {
        224 => arrv!(sha3224(&sec(&m))), 256 => arrv!(sha3256(&sec(&m))), 384 => arrv!(sha3384(&sec(&m))), _ => arrv!(sha3512(&sec(&m))) }); };
    let x = |t: &mut Trace, b: usize, m: Vec<u8>, n: usize| { t.call("shake", args! {m: &m, bits: b, n: n}, || {
        seqv(&if b == 128 { shake128(&sec(&m), n) } else { shake256(&sec(&m), n) }) }); };
    let rate = |b: usize| 200 - b / 4;
    for b in [224usize, 256, 384, 512] {
        for n in block_lengths(rate(b), if t.thorough { 12 } else { 5 }) { let m = r.bytes(n); h(&mut t, b, m) }
        for _ in 0..t.n(50, 1500) { let n = r.below(3 * rate(b)); let m = r.bytes(n); h(&mut t, b, m) }
        for n in 0..t.n(40, 600) { let m = r.bytes(n); h(&mut t, b, m) }
    }
    for b in [128usize, 256] {
        let rt = 200 - b / 4;
        for n in block_lengths(rt, if t.thorough { 10 } else { 4 }) { let l = r.range(1, 70); let m = r.bytes(n); x(&mut t, b, m, l) }
        for l in block_lengths(rt, if t.thorough { 12 } else { 5 }) { let n = r.below(40); let m = r.bytes(n); x(&mut t, b, m, l) }
        for _ in 0..t.n(80, 2000) { let (n, l) = (r.below(2 * rt + 3), r.below(3 * rt)); let m = r.bytes(n); x(&mut t, b, m, l) }
        for l in [0usize, 1, 7, 8, 9, 31, 32, 33, 1000] { let m = r.bytes(5); x(&mut t, b, m, l) }
    }
    for b in [224usize, 256, 384, 512] { let n = r.range(4000, 5000); let m = r.uniform(n); h(&mut t, b, m) }
    for b in [128usize, 256] { let m = r.uniform(9); x(&mut t, b, m, 5000); let m = r.uniform(5000); x(&mut t, b, m, 300) }
    // more than 255 absorbing and squeezing steps
    for b in [224usize, 256, 384, 512] { let n = rate(b) * 257 + r.below(200); let m = r.uniform(n); h(&mut t, b, m) }
    for b in [128usize, 256] { let rt = 200 - b / 4; let m = r.uniform(9); x(&mut t, b, m, rt * 257 + 5); let m = r.uniform(rt * 257 + 3); x(&mut t, b, m, 40); }
    // lengths that do not fit two bytes
    for b in [224usize, 256, 384, 512] { let n = r.range(65536, 67000); let m = r.uniform(n); h(&mut t, b, m) }
    for b in [128usize, 256] { let m = r.uniform(20); x(&mut t, b, m, 66001); let m = r.uniform(65537); x(&mut t, b, m, 33) }
    t.close()
}
