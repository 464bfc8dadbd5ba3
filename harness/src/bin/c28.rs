//! C28: the example programs of secret-integers.
#![allow(dead_code)]
#[path = "/repo/secret-integers/examples/chacha20.rs"]
mod chacha20;
#[path = "/repo/secret-integers/examples/dalek.rs"]
mod dalek;
use harness::*;
use secret_integers::*;
fn main() {
    let mut t = Trace::open(5);
    let mut r = t.rng(28);
    let s = |v: &[u8]| -> Vec<U8> { v.iter().map(|x| U8(*x)).collect() };
    let stream = |t: &mut Trace, dec: bool, k: &[u8], c: u32, n: &[u8], m: &[u8]| -> Option<Vec<u8>> {
        t.call_v("stream", args! {k: k, c: c.to_le_bytes(), n: n, m: m, dec: dec}, || {
            let o = if dec { chacha20::chacha20_decrypt(&s(k), U32(c), &s(n), &s(m)) } else { chacha20::chacha20_encrypt(&s(k), U32(c), &s(n), &s(m)) };
            let v: Vec<u8> = o.iter().map(|x| x.0).collect(); (v.clone(), v) }) };
    let ctrs = [0u32, 1, 2, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff];
    for l in (0..t.n(200, 400)).chain(block_lengths(64, t.n(4, 10))) {
        let (k, n, m) = (r.bytes(32), r.bytes(12), r.bytes(l));
        let c = if r.chance(3) { r.next() as u32 } else { *r.pick(&ctrs) };
        if let Some(x) = stream(&mut t, false, &k, c, &n, &m) { stream(&mut t, true, &k, c, &n, &x); }
    }
    { let (k, n, m) = (r.uniform(32), r.uniform(12), r.uniform(64 * 258 + 7)); stream(&mut t, false, &k, 0xffffff80, &n, &m); }
    {   // more than 65536 blocks: what a block gives depends on its counter alone
        let (k, n, m, c) = (r.uniform(32), r.uniform(12), r.uniform(64 * 65540 + 9), 0xffff8000u32);
        let o: Vec<u8> = chacha20::chacha20_encrypt(&s(&k), U32(c), &s(&n), &s(&m)).iter().map(|x| x.0).collect();
        for i in [0usize, 1, 255, 256, 4095, 32767, 32768, 65535, 65536, 65539, 65540] {
            let e = (64 * i + 64).min(m.len());
            t.call("stream", args! {k: &k, c: c.wrapping_add(i as u32).to_le_bytes(), n: &n, m: &m[64 * i..e], dec: false}, || o.get(64 * i..(if e == m.len() { o.len() } else { e })).unwrap().to_vec());
        }
    }
    for l in [0usize, 1, 4, 12, 16, 28, 31, 33, 36, 64] { let (k, n, m) = (r.uniform(l), r.uniform(12), r.uniform(70)); stream(&mut t, false, &k, 1, &n, &m); }
    for l in [0usize, 1, 4, 8, 11, 13, 16, 32] { let (k, n, m) = (r.uniform(32), r.uniform(l), r.uniform(9)); stream(&mut t, false, &k, 1, &n, &m); }
    // multiplication
    let js = |x: &[u64]| J::L(x.iter().map(|v| J::from(v.to_le_bytes().to_vec())).collect());
    let mul = |t: &mut Trace, a: [u64; 5], b: [u64; 5]| -> Option<[u64; 5]> { t.call_v("fmul", args! {a: js(&a), b: js(&b)}, || {
        let f = |x: [u64; 5]| dalek::FieldElement64([U64(x[0]), U64(x[1]), U64(x[2]), U64(x[3]), U64(x[4])]);
        let o = (&f(a) * &f(b)).0; let o = [o[0].0, o[1].0, o[2].0, o[3].0, o[4].0];
        (o, js(&o)) }) };
    let m51 = (1u64 << 51) - 1;
    let limb = |r: &mut Rng| -> u64 { match r.below(10) { 0 => 0, 1 => 1, 2 => m51, 3 => m51 + 1, 4 => (1 << 54) - 1, 5 => m51 - 18, 6 => 1 << r.below(54), _ => r.next() >> (10 + r.below(20)) } };
    for i in 0..t.n(1200, 20000) {
        let (mut a, mut b) = ([0u64; 5], [0u64; 5]);
        for j in 0..5 { a[j] = limb(&mut r); b[j] = limb(&mut r) }
        match i % 12 { 0 => b = a, 1 => a = [m51 - 18, m51, m51, m51, m51], 2 => a = [1, 0, 0, 0, 0], 3 => a = [(1 << 54) - 1; 5], 4 => b = [(1 << 54) - 1; 5],
            5 => { a = [0; 5]; a[r.below(5)] = 1 << r.below(54); b = [0; 5]; b[r.below(5)] = 1 << r.below(54) }
            6 => if i % 24 == 6 { let j = r.below(5); let x = (1u64 << 54) + if r.chance(2) { 0 } else { r.next() >> 11 }; if r.chance(2) { a[j] = x } else { b[j] = x } }, _ => () }
        // products are multiplied again
        if let Some(o) = mul(&mut t, a, b) { if i % 4 == 0 { let c = mul(&mut t, o, o); if let Some(c) = c { mul(&mut t, c, b); } } }
    }
    t.close()
}
