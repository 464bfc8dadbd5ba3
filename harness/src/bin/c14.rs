use hacspec_examples::blake2::blake2b::*;
use harness::*;
fn main() {
    let mut t = Trace::open(4);
    let mut r = t.rng(14);
    let one = |t: &mut Trace, m: Vec<u8>| { t.call("blake2b", args! {m: &m}, || { let d = blake2b(&sec(&m)); arrv!(d) }); };
    for n in 0..=t.n(400, 1500) { let m = r.bytes(n); one(&mut t, m) }
    for n in block_lengths(128, t.n(16, 80)) { let m = r.bytes(n); one(&mut t, m) }
    for _ in 0..t.n(200, 4000) { let n = r.below(600); let m = r.bytes(n); one(&mut t, m) }
    // the byte counter needs more than one and more than two bytes
    let n = if t.thorough { 140000 } else { 66000 };
    let m = r.bytes(n); one(&mut t, m);
    for n in [4095, 4096, 4097, 32768, 65535, 65536, t.n(200_000, 2_100_000)] { let m = r.uniform(n); one(&mut t, m) }
    t.close()
}
