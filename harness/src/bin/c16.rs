use hacspec_examples::aes_gcm::{aes, encrypt_aes128, encrypt_aes256, gf128};
use harness::*;
fn main() {
    let mut t = Trace::open(3);
    let mut r = t.rng(16);
    for i in 0..t.n(330, 5000) {
        let l = if i < 50 { i } else { r.below(120) };
        let (m, h) = (r.bytes(l), r.bytes(16));
        t.call("gmac", args! {m: &m, h: &h}, || { let x = gf128::gmac(&sec(&m), gf128::Key::from_public_slice(&h)); arrv!(x) });
    }
    // single-bit operands reach every step of the multiplication
    for i in 0..128usize { if t.thorough || i % 3 == 0 {
        let mut h = vec![0; 16]; h[i / 8] = 0x80 >> (i % 8);
        let m = r.uniform(16);
        t.call("gmac", args! {m: &m, h: &h}, || { let x = gf128::gmac(&sec(&m), gf128::Key::from_public_slice(&h)); arrv!(x) });
    } }
    // a block that cancels the accumulator, or is next to it: the tag of a prefix, as the next block
    for i in 0..t.n(24, 200) {
        let (mut m, h) = (if i % 3 == 0 { vec![0; 16] } else { let l = 16 * r.range(1, 3); r.uniform(l) }, r.uniform(16));
        if i % 3 == 0 { m[i % 16] = 1 }
        for k in 0..3 {
            let acc = t.call_v("gmac", args! {m: &m, h: &h}, || { let x = gf128::gmac(&sec(&m), gf128::Key::from_public_slice(&h)); let v = arrv!(x); (v.clone(), v) });
            let Some(mut acc) = acc else { break };
            if (i + k) % 4 == 1 { acc[15] ^= 1 }
            if (i + k) % 4 == 2 { acc[0] ^= 0x80 }
            m.extend(acc);
        }
        t.call("gmac", args! {m: &m, h: &h}, || { let x = gf128::gmac(&sec(&m), gf128::Key::from_public_slice(&h)); arrv!(x) });
        // the key itself as a block
        let hh = h.clone();
        t.call("gmac", args! {m: &hh, h: &h}, || { let x = gf128::gmac(&sec(&hh), gf128::Key::from_public_slice(&h)); arrv!(x) });
    }
    for n in [4095usize, 4096, 4112, 33000, 66000] { let (m, h) = (r.uniform(n), r.uniform(16));
        t.call("gmac", args! {m: &m, h: &h}, || { let x = gf128::gmac(&sec(&m), gf128::Key::from_public_slice(&h)); arrv!(x) }); }
    let enc = |t: &mut Trace, k: Vec<u8>, n: Vec<u8>, a: Vec<u8>, m: Vec<u8>| { t.call("gcmenc", args! {k: &k, n: &n, a: &a, m: &m}, || {
        let (nn, aa, mm) = (aes::Nonce::from_public_slice(&n), sec(&a), sec(&m));
        let (c, g) = if k.len() == 16 { encrypt_aes128(aes::Key128::from_public_slice(&k), nn, &aa, &mm) } else { encrypt_aes256(aes::Key256::from_public_slice(&k), nn, &aa, &mm) };
        vec![seqv(&c), arrv!(g)] }); };
    for kl in [16usize, 32] {
        for a in [0usize, 1, 15, 16, 17, 31, 32, 33] { for m in [0usize, 1, 15, 16, 17, 31, 32, 33, 48] {
            { let (k, n, aa, mm) = (r.bytes(kl), r.bytes(12), r.bytes(a), r.bytes(m)); enc(&mut t, k, n, aa, mm) }
        } }
        for _ in 0..t.n(100, 2500) { let (a, m) = (r.below(60), r.below(100)); let (k, n, aa, mm) = (r.bytes(kl), r.bytes(12), r.bytes(a), r.bytes(m)); enc(&mut t, k, n, aa, mm) }
        // bit lengths beyond one and two bytes
        for (a, m) in [(300usize, 20usize), (20, 300), (32, 4200), (8200, 3), (5, 8200), (4100, 4100), (20000, 0), (66000, 3), (4, 66000), (0, 4096), (4096, 0)] { let (k, n, aa, mm) = (r.bytes(kl), r.bytes(12), r.bytes(a), r.bytes(m)); enc(&mut t, k, n, aa, mm) }
    }
    t.close()
}
