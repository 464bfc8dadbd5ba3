use hacspec::prelude::*;
use hacspec_examples::chacha20_poly1305::chacha20::*;
use harness::*;
fn main() {
    let mut t = Trace::open(4);
    let mut r = t.rng(17);
    fn words(s: &State) -> Vec<Vec<u8>> { (0..16).map(|i| s[i as usize].declassify().to_le_bytes().to_vec()).collect() }
    fn state(b: &[u8]) -> State { let mut s = State::new(); for i in 0..16usize { s[i] = U32(u32::from_le_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]])) } s }
    for _ in 0..t.n(300, 8000) {
        let b = r.bytes(64);
        let s = state(&b);
        let mut ix: Vec<u32> = (0..16).collect();
        for i in 0..4 { let j = r.range(i, 15); ix.swap(i, j) }
        let (p, q, u, v) = (ix[0], ix[1], ix[2], ix[3]);
        t.call("qr", args! {s: words(&s), i: vec![p as u8, q as u8, u as u8, v as u8]}, || words(&quarter_round(p, q, u, v, s)));
    }
    let ctrs = [0u32, 1, 2, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff];
    for i in 0..t.n(400, 8000) {
        let c = if i < 11 { ctrs[i] } else { r.next() as u32 };
        let (k, n) = (r.bytes(32), r.bytes(12));
        let (kk, nn) = (Key::from_public_slice(&k), IV::from_public_slice(&n));
        match i % 4 {
            0 => { t.call("chinit", args! {k: &k, c: c.to_le_bytes(), n: &n}, || words(&block_init(kk, U32(c), nn))); }
            1 => { t.call("chinner", args! {k: &k, c: c.to_le_bytes(), n: &n}, || words(&block_inner(kk, U32(c), nn))); }
            _ => { t.call("chblock", args! {k: &k, c: c.to_le_bytes(), n: &n}, || arrv!(block(kk, U32(c), nn))); }
        }
    }
    for _ in 0..t.n(60, 600) {
        let b = r.bytes(64); let s = state(&b);
        t.call("chser", args! {s: words(&s)}, || arrv!(state_to_bytes(s)));
    }
    let st = |t: &mut Trace, k: &[u8], n: &[u8], m: &[u8]| -> Option<Vec<u8>> { t.call_v("chacha", args! {k: k, c: 1u32.to_le_bytes(), n: n, m: m}, || {
        let v = seqv(&chacha(Key::from_public_slice(k), IV::from_public_slice(n), &sec(m)).unwrap()); (v.clone(), v) }) };
    for l in block_lengths(64, if t.thorough { 9 } else { 3 }).into_iter().chain(0..t.n(130, 400)) {
        let (k, n, m) = (r.bytes(32), r.bytes(12), r.bytes(l));
        if let Some(c) = st(&mut t, &k, &n, &m) { if l % 5 == 0 { st(&mut t, &k, &n, &c); } }
    }
    for _ in 0..t.n(80, 2000) { let l = r.below(400); let (k, n, m) = (r.bytes(32), r.bytes(12), r.bytes(l)); st(&mut t, &k, &n, &m); }
    let m = r.bytes(64 * 258 + 1); let (k, n) = (r.bytes(32), r.bytes(12)); st(&mut t, &k, &n, &m); // counter > 255
    // more than 65536 blocks: what a block gives depends on its counter alone
    {
        let (k, n, m) = (r.uniform(32), r.uniform(12), r.uniform(64 * 65540 + 9));
        let o = seqv(&chacha(Key::from_public_slice(&k), IV::from_public_slice(&n), &sec(&m)).unwrap());
        let ends = [0usize, 1, 15, 16, 127, 128, 254, 255, 256, 511, 512, 4095, 4096, 16383, 16384, 32767, 32768, 65534, 65535, 65536, 65539, 65540];
        for i in ends.iter().cloned().chain((0..t.n(60, 3000)).map(|_| r.below(65541)).collect::<Vec<_>>()) {
            let e = (64 * i + 64).min(m.len());
            t.call("chacha", args! {k: &k, c: (1 + i as u32).to_le_bytes(), n: &n, m: &m[64 * i..e]}, || o.get(64 * i..(if e == m.len() { o.len() } else { e })).unwrap().to_vec());
        }
    }
    t.close()
}
