use hacspec_examples::{hkdf, hmac};
use harness::*;
fn main() {
    let mut t = Trace::open(4);
    let mut r = t.rng(12);
    let mac = |t: &mut Trace, k: Vec<u8>, m: Vec<u8>| { t.call("hmac", args! {k: &k, m: &m}, || { let d = hmac::hmac(&sec(&k), &sec(&m)); arrv!(d) }); };
    // keys around the block size, messages around every padding boundary
    let klens = [0usize, 1, 16, 31, 32, 33, 55, 56, 62, 63, 64, 65, 66, 100, 119, 120, 127, 128, 129, 200];
    for kl in klens { for ml in [0usize, 1, 54, 55, 56, 63, 64, 65, 119, 120, 128] {
        if t.thorough || r.below(3) == 0 { let (k, m) = (r.bytes(kl), r.bytes(ml)); mac(&mut t, k, m) }
    } }
    for kl in klens { let m = { let n = r.below(150); r.bytes(n) }; let k = r.uniform(kl); mac(&mut t, k, m) }
    for n in 0..=t.n(140, 400) { let k = { let l = *r.pick(&klens); r.bytes(l) }; let m = r.bytes(n); mac(&mut t, k, m) }
    for _ in 0..t.n(120, 2000) { let (a, b) = (r.below(160), r.below(300)); let (k, m) = (r.bytes(a), r.bytes(b)); mac(&mut t, k, m) }
    // a key and the same key with zero bytes appended give the same tag; a hashed key too
    for _ in 0..t.n(12, 100) { let n = r.below(60); let mut k = r.uniform(n); let m = r.bytes(20); mac(&mut t, k.clone(), m.clone()); k.push(0); mac(&mut t, k, m) }
    // the shortest salts, keys and infos, every one of them non-zero
    let ext = |t: &mut Trace, salt: Vec<u8>, ikm: Vec<u8>| { t.call("extract", args! {salt: &salt, ikm: &ikm}, || { let d = hkdf::extract(&sec(&salt), &sec(&ikm)); arrv!(d) }); };
    for n in 0..=t.n(70, 200) { for s in [0u8, 1, 0x36, 0x5c, 0x80, 0xff] { if n < 4 || s == 1 || s == 0xff {
        ext(&mut t, vec![s; n], r.uniform(3)); let x = r.uniform(3); ext(&mut t, x, vec![s; n]);
        let m = r.uniform(5); mac(&mut t, vec![s; n], m.clone()); mac(&mut t, m, vec![s; n]);
    } } }
    for s in [0usize, 1, 13, 31, 32, 33, 63, 64, 65, 80, 130] { for i in [0usize, 1, 22, 55, 64, 80] {
        if t.thorough || r.below(2) == 0 {
            let (salt, ikm) = (r.bytes(s), r.bytes(i));
            t.call("extract", args! {salt: &salt, ikm: &ikm}, || { let d = hkdf::extract(&sec(&salt), &sec(&ikm)); arrv!(d) });
        }
    } }
    let ex = |t: &mut Trace, p: Vec<u8>, i: Vec<u8>, l: usize| { t.call("expand", args! {prk: &p, info: &i, len: l}, || seqv(&hkdf::expand(&sec(&p), &sec(&i), l))); };
    // one input, many lengths: prefixes of one another
    let (p, i) = (r.uniform(32), r.uniform(10));
    for l in block_lengths(32, if t.thorough { 12 } else { 5 }) { ex(&mut t, p.clone(), i.clone(), l) }
    for l in 0..=t.n(100, 300) { ex(&mut t, p.clone(), vec![], l) }
    for _ in 0..t.n(100, 1500) { let (a, b, l) = (r.range(32, 100), r.below(90), r.below(130)); let (p, i) = (r.bytes(a), r.bytes(b)); ex(&mut t, p, i, l) }
    // the end of the range, where the block counter reaches 255
    for l in [8160usize, 8159, 8129, 8128, 4097, 4096] { let (p, i) = (r.uniform(32), r.uniform(3)); ex(&mut t, p, i, l) }
    // every input long
    for n in [4095usize, 4096, 8192, 20000, t.n(66000, 300000)] {
        let (x, y) = (r.uniform(n), r.uniform(20));
        mac(&mut t, x.clone(), y.clone()); mac(&mut t, y.clone(), x.clone());
        t.call("extract", args! {salt: &x, ikm: &y}, || { let d = hkdf::extract(&sec(&x), &sec(&y)); arrv!(d) });
        t.call("extract", args! {salt: &y, ikm: &x}, || { let d = hkdf::extract(&sec(&y), &sec(&x)); arrv!(d) });
        let p = r.uniform(32);
        ex(&mut t, p.clone(), x[..n / 4].to_vec(), 70); ex(&mut t, x, y, 40);
    }
    t.close()
}
