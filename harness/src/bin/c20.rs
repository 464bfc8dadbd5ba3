use hacspec_examples::curve25519::*;
use harness::*;
fn hex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
fn main() {
    let mut t = Trace::open(1);
    let mut r = t.rng(20);
    let mul = |t: &mut Trace, k: &[u8], u: &[u8]| -> Option<Vec<u8>> { t.call_v("x25519", args! {k: k, u: u}, || {
        let v = arrv!(scalarmult(SerializedScalar::from_public_slice(k), SerializedPoint::from_public_slice(u))); (v.clone(), v) }) };
    let base = |t: &mut Trace, k: &[u8]| -> Option<Vec<u8>> { t.call_v("x25519base", args! {k: k}, || { let v = arrv!(secret_to_public(SerializedScalar::from_public_slice(k))); (v.clone(), v) }) };
    // low order, non-canonical (p .. 2^255-1) and twist coordinates, with and without the top bit
    let mut us: Vec<Vec<u8>> = vec![];
    for i in 0..19u8 { let mut v = vec![0xff; 32]; v[31] = 0x7f; v[0] = 0xed + i; us.push(v) }
    for i in 0..3u8 { let mut v = vec![0; 32]; v[0] = i; us.push(v) }
    { let mut v = vec![0xff; 32]; v[31] = 0x7f; v[0] = 0xec; us.push(v) }
    us.push(hex("e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800"));
    us.push(hex("5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157"));
    us.push(vec![0xff; 32]);
    for u in us { let k = r.uniform(32); mul(&mut t, &k, &u); let mut w = u.clone(); w[31] |= 0x80; if w != u && (t.thorough || r.chance(3)) { mul(&mut t, &k, &w); } }
    // products of chosen shape: every byte length, many zero bytes, close to the prime
    for l in include_str!("../x25519_points.txt").lines() { let (k, u) = (hex(&l[..64]), hex(&l[65..])); mul(&mut t, &k, &u); }
    for _ in 0..t.n(120, 3000) { let (k, u) = (r.bytes(32), r.bytes(32)); mul(&mut t, &k, &u); }
    // scalars with every pattern of clamped bits
    for i in 0..16u8 { let mut k = r.uniform(32); k[0] = (k[0] & 0xf8) | (i & 7); k[31] = (k[31] & 0x3f) | (i << 4 & 0xc0); base(&mut t, &k); }
    // agreement
    for _ in 0..t.n(16, 300) {
        let (a, b) = (r.uniform(32), r.uniform(32));
        if let (Some(pa), Some(pb)) = (base(&mut t, &a), base(&mut t, &b)) { mul(&mut t, &a, &pb); mul(&mut t, &b, &pa); }
    }
    t.close()
}
