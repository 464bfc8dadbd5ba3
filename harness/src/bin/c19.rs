use hacspec_examples::chacha20_poly1305::{chacha20::{Key, IV}, encrypt};
use harness::*;
fn main() {
    let mut t = Trace::open(3);
    let mut r = t.rng(19);
    let enc = |t: &mut Trace, k: Vec<u8>, n: Vec<u8>, a: Vec<u8>, m: Vec<u8>| { t.call("cpenc", args! {k: &k, n: &n, a: &a, m: &m}, || {
        let (c, g) = encrypt(Key::from_public_slice(&k), IV::from_public_slice(&n), &sec(&a), &sec(&m)).unwrap();
        vec![seqv(&c), (0..16).map(|i| g[i as usize]).collect::<Vec<u8>>()] }); };
    for a in [0usize, 1, 12, 15, 16, 17, 31, 32, 33, 47, 48] { for m in [0usize, 1, 15, 16, 17, 31, 32, 33, 48, 63, 64, 65, 80, 128] {
        let (k, n, aa, mm) = (r.bytes(32), r.bytes(12), r.bytes(a), r.bytes(m)); enc(&mut t, k, n, aa, mm)
    } }
    for _ in 0..t.n(400, 8000) { let (a, m) = (r.below(70), r.below(200)); let (k, n, aa, mm) = (r.bytes(32), r.bytes(12), r.bytes(a), r.bytes(m)); enc(&mut t, k, n, aa, mm) }
    for (a, m) in [(300usize, 20usize), (20, 300), (32, 4200), (8200, 3), (3, 16600), (66000, 5), (4, 70000)] { let (k, n, aa, mm) = (r.bytes(32), r.bytes(12), r.bytes(a), r.bytes(m)); enc(&mut t, k, n, aa, mm) }
    t.close()
}
