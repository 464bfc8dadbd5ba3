use hacspec::prelude::*;
use hacspec_examples::aes_gcm::aes::*;
use harness::*;
fn main() {
    let mut t = Trace::open(4);
    let mut r = t.rng(15);
    let blk = |t: &mut Trace, k: Vec<u8>, b: Vec<u8>| { t.call("aes", args! {k: &k, b: &b}, || {
        let i = Block::from_public_slice(&b);
        arrv!(if k.len() == 16 { aes128_encrypt_block(Key128::from_public_slice(&k), i, 4, 10) } else { aes256_encrypt_block(Key256::from_public_slice(&k), i, 8, 14) }) }); };
    for kl in [16usize, 32] {
        for i in 0..8 * kl { if t.thorough || i % 5 == 0 { let mut k = vec![0; kl]; k[i / 8] = 1 << (i % 8); blk(&mut t, k, vec![0; 16]) } }
        for i in 0..128 { if t.thorough || i % 5 == 0 { let mut b = vec![0; 16]; b[i / 8] = 1 << (i % 8); blk(&mut t, vec![0; kl], b) } }
        for _ in 0..t.n(200, 4000) { let (k, b) = (r.bytes(kl), r.bytes(16)); blk(&mut t, k, b) }
        // every byte value in every key and block position
        for v in 0..=255u8 { if t.thorough || v % 4 == 0 { blk(&mut t, (0..kl).map(|i| v.wrapping_add(i as u8)).collect(), (0..16).map(|i| v ^ (17 * i) as u8).collect()) } }
    }
    let ctr = |t: &mut Trace, dec: bool, k: &[u8], n: &[u8], c: u32, m: &[u8]| -> Option<Vec<u8>> {
        t.call_v("aesctr", args! {k: k, n: n, c: c.to_le_bytes(), m: m, dec: dec}, || {
            let (nn, cc, mm) = (Nonce::from_public_slice(n), U32(c), sec(m));
            let o = if k.len() == 16 { let k = Key128::from_public_slice(k); if dec { aes128_decrypt(k, nn, cc, &mm) } else { aes128_encrypt(k, nn, cc, &mm) } }
                    else { let k = Key256::from_public_slice(k); if dec { aes256_decrypt(k, nn, cc, &mm) } else { aes256_encrypt(k, nn, cc, &mm) } };
            let v = seqv(&o); (v.clone(), v) }) };
    for i in 0..t.n(400, 6000) {
        let kl = *r.pick(&[16usize, 32]);
        let (k, n) = (r.bytes(kl), r.bytes(12));
        let c = *r.pick(&[0u32, 1, 2, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff, r.clone().next() as u32]);
        let l = if i < 52 { i } else { r.below(100) };
        let m = r.bytes(l);
        if let Some(ct) = ctr(&mut t, false, &k, &n, c, &m) { ctr(&mut t, true, &k, &n, c, &ct); }
    }
    // a long message: counter carries out of its lowest byte
    let (k, n, m) = (r.bytes(16), r.bytes(12), r.bytes(16 * 260 + 5));
    ctr(&mut t, false, &k, &n, 0xfffffff0, &m);
    ctr(&mut t, false, &k, &n, 0xfff0, &m[..16 * 20]);
    // messages of more than 65536 blocks: what a block gives depends on its counter alone
    for (kl, c) in [(16usize, 1u32), (32, 0xffff8000), (16, 0x7fff_ffff)] {
        let (k, n) = (r.uniform(kl), r.uniform(12));
        let m = r.uniform(16 * 65540 + 7);
        let o = seqv(&if kl == 16 { aes128_encrypt(Key128::from_public_slice(&k), Nonce::from_public_slice(&n), U32(c), &sec(&m)) } else { aes256_encrypt(Key256::from_public_slice(&k), Nonce::from_public_slice(&n), U32(c), &sec(&m)) });
        let ends = [0usize, 1, 15, 16, 127, 128, 255, 256, 257, 511, 512, 4095, 4096, 32767, 32768, 65534, 65535, 65536, 65537, 65539, 65540];
        for i in ends.iter().cloned().chain((0..t.n(40, 2000)).map(|_| r.below(65541)).collect::<Vec<_>>()) {
            let e = (16 * i + 16).min(m.len());
            t.call("aesctr", args! {k: &k, n: &n, c: c.wrapping_add(i as u32).to_le_bytes(), m: &m[16 * i..e], dec: false}, || o.get(16 * i..(if e == m.len() { o.len() } else { e })).unwrap().to_vec());
        }
    }
    t.close()
}
