use hacspec_examples::p256::*;
use harness::*;
use num::bigint::BigUint;
fn main() {
    let mut t = Trace::open(1);
    let mut r = t.rng(21);
    let n = BigUint::parse_bytes(b"ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551", 16).unwrap();
    let top = BigUint::from(1u8) << 256;
    let mut ks: Vec<BigUint> = vec![];
    for i in 1..=t.n(40, 200) as u32 { ks.push(i.into()) }
    for i in 1..=t.n(12, 60) as u32 { ks.push(&n - i); ks.push(&n + i) }
    for i in 1..=3u32 { ks.push(&top - i) } // the largest scalars
    for i in -2..=2i32 { ks.push((&n - 1u32) / 2u32 + 3u32 - (3 - i) as u32) } // around (n-1)/2, where doubling meets the negated base
    for _ in 0..t.n(60, 1500) {
        let k = BigUint::from_bytes_le(&r.bytes(32));
        ks.push(k.clone());
        let k = k % &n; // the negated and the congruent scalar
        ks.push(&n - &k);
        if &k + &n < top { ks.push(&k + &n) }
    }
    for i in 0..t.n(64, 256) as u32 { ks.push(BigUint::from(1u8) << (i as usize * 37 % 256)) }
    // two zero or 255 bytes at an end of a coordinate
    for k in [2376u32, 61552, 7362, 30105, 20496, 72928, 40393, 116173, 55213, 53267, 65526, 134047, 173622, 291362, 190606, 195566] { ks.push(if r.chance(2) { &n + k } else { k.into() }); ks.push(&n - k) }
    // one, two and few zero bits
    for i in 0..t.n(24, 256) { ks.push((BigUint::from(1u8) << (i * 41 % 256 + 1)) - 1u8); ks.push((BigUint::from(1u8) << (i * 61 % 256)) + (BigUint::from(1u8) << (i * 29 % 255))); ks.push(&top - 1u8 - (BigUint::from(1u8) << (i * 67 % 224))) }
    for k in ks {
        let mut b = k.to_bytes_le(); b.resize(32, 0);
        let hex = format!("{:064x}", k);
        t.call("p256", args! {k: b}, || { let (x, y) = point_mul(Scalar::from_hex(&hex));
            let f = |e: FieldElement| { let mut v: Vec<u8> = (0..32).map(|_| 0).collect(); for (i, b) in num_le(&e).into_iter().enumerate() { v[i] = b } v };
            vec![f(x), f(y)] });
    }
    t.close()
}
fn num_le(e: &FieldElement) -> Vec<u8> { let s = e.to_public_byte_seq_le(); (0..s.len()).map(|i| s[i]).collect() }
