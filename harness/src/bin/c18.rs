use hacspec_examples::chacha20_poly1305::{chacha20, poly1305};
use harness::*;
use num::bigint::BigUint;
fn main() {
    let mut t = Trace::open(8);
    let mut r = t.rng(18);
    let one = |t: &mut Trace, k: Vec<u8>, m: Vec<u8>| { t.call("poly", args! {k: &k, m: &m}, || {
        let x = poly1305::poly(&sec(&m), chacha20::Key::from_public_slice(&k)); (0..16).map(|i| x[i as usize]).collect::<Vec<u8>>() }); };
    for n in 0..=t.n(300, 1200) { let (k, m) = (r.bytes(32), r.bytes(n)); one(&mut t, k, m) }
    // accumulators close to the prime and to 2^128, with the largest and smallest masks
    for _ in 0..t.n(600, 20000) {
        let mut k = vec![0; 32];
        match r.below(5) { 0 => k[0] = 1 + r.below(4) as u8, 1 => k[r.below(16)] = r.next() as u8, 2 => k[..16].copy_from_slice(&[0xff; 16]), _ => { let x = r.uniform(16); k[..16].copy_from_slice(&x) } }
        match r.below(4) { 0 => (), 1 => for b in &mut k[16..] { *b = 0xff }, 2 => { for b in &mut k[16..] { *b = 0xff } k[16] = r.next() as u8 } _ => { let x = r.uniform(16); k[16..].copy_from_slice(&x) } }
        let n = r.range(0, 4);
        let mut m = vec![];
        for _ in 0..n { let mut b = *r.pick(&[[0xffu8; 16], [0; 16]]); match r.below(4) { 0 => b[0] = r.next() as u8, 1 => { let i = r.below(16); b[i] ^= 1 << r.below(8) } 2 => { let x = r.uniform(16); b.copy_from_slice(&x) } _ => () } m.extend(b) }
        if r.chance(2) { let l = r.below(16); m.extend(r.bytes(l)) }
        one(&mut t, k, m)
    }
    for _ in 0..t.n(900, 20000) { let n = r.below(70); let (k, m) = (r.uniform(32), r.uniform(n)); one(&mut t, k, m) }
    // accumulators of chosen value at the end: small, close to the prime and to powers of two, of every byte length; pads
    // that bring the sum to and beyond 2^128
    let b = |x: u32| BigUint::from(x);
    let p = (b(1) << 130) - b(5);
    let mut ends: Vec<BigUint> = (0..6).map(|i| b(i)).collect();
    for i in 1..7 { ends.push(&p - b(i)) }
    for e in 0..130usize { if e % 8 == 0 || e > 125 || r.chance(6) { ends.push(b(1) << e); ends.push((b(1) << e) - b(1)); ends.push((b(1) << 130) - (b(1) << e) - b(6)) } }
    for j in 1..16usize { let x = r.uniform(j); ends.push(BigUint::from_bytes_le(&x)); ends.push(BigUint::from_bytes_le(&x) << (128 - 8 * j)) }
    for h in ends { for last in [16usize, 1, 7, 15].iter().cloned().take(if t.thorough { 4 } else { 2 }) {
        let h = &h % &p;
        for _ in 0..4000 {
            let (mut k, first) = (r.uniform(32), r.uniform(16));
            let mut c = k[..16].to_vec();
            for i in [3usize, 7, 11, 15].iter() { c[*i] &= 15 } for i in [4usize, 8, 12].iter() { c[*i] &= 252 }
            let x = BigUint::from_bytes_le(&c);
            if x == b(0) { continue }
            // the last block z (with its top bit) has (first * x + z) * x = h; a short last block is reached by solving for the first one
            let inv = x.modpow(&(&p - b(2)), &p);
            let top = b(1) << (8 * last);
            let (y, z) = if last == 16 { let y = BigUint::from_bytes_le(&first) + (b(1) << 128); let z = (&h * &inv + &p * &p - &y * &x) % &p; (y, z) }
                         else { let z = BigUint::from_bytes_le(&first[..last]) + &top; ((((&h * &inv) % &p + &p - &z) * &inv) % &p, z) };
            let full = b(1) << 128;
            if y < full || y >= &full + &full || z < top || z >= &top + &top { continue }
            let le = |v: BigUint, n: usize| { let mut o = v.to_bytes_le(); o.resize(n, 0); o.truncate(n); o };
            let m = [le(y - &full, 16), le(z - &top, last)].concat();
            let low = &h % &full;
            let pad = match r.below(4) { 0 => b(0), 1 => (&full - &low) % &full, 2 => (&full + &full - &low - b(1)) % &full, _ => BigUint::from_bytes_le(&k[16..]) };
            k.splice(16.., le(pad, 16));
            one(&mut t, k, m);
            break
        }
    } }
    for n in [1500usize, 4095, 4096, 4097, 16 * 257 + 3, 66000] { let m = r.bytes(n); let k = r.bytes(32); one(&mut t, k, m); }
    // the keyed form derives its one-time key from block 0
    for _ in 0..t.n(80, 1000) {
        let n = r.below(50);
        let (k, n_, m) = (r.bytes(32), r.bytes(12), r.bytes(n));
        t.call("polymac", args! {k: &k, n: &n_, m: &m}, || {
            let x = poly1305::poly_mac(&sec(&m), chacha20::Key::from_public_slice(&k), chacha20::IV::from_public_slice(&n_)); (0..16).map(|i| x[i as usize]).collect::<Vec<u8>>() });
    }
    t.close()
}
