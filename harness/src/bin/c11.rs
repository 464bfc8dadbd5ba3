use hacspec_examples::sha2;
use harness::*;
fn main() {
    let mut t = Trace::open(4);
    let mut r = t.rng(11);
    let one = |t: &mut Trace, m: Vec<u8>| { t.call("sha256", args! {m: &m}, || { let d = sha2::hash(&sec(&m)); arrv!(d) }); };
    // every length over the first block boundaries
    for n in 0..=t.n(330, 1400) { let m = r.bytes(n); one(&mut t, m) }
    for n in block_lengths(64, t.n(20, 80)) { let m = r.bytes(n); one(&mut t, m) }
    for _ in 0..t.n(500, 6000) { let n = r.below(400); let m = r.bytes(n); one(&mut t, m) }
    let n = if t.thorough { 9000 } else { 1500 }; // bit length needs more than one byte
    let m = r.bytes(n); one(&mut t, m);
    for n in [8191, 8192, 16384, 65536, 140000, if t.thorough { 2100000 } else { 300000 }] { let m = r.uniform(n); one(&mut t, m) }
    t.close()
}
