//! Histories of encryption, tampering and decryption.
use hacspec_examples::aes_gcm::{aes, decrypt_aes128, decrypt_aes256, encrypt_aes128, encrypt_aes256, gf128};
use hacspec_examples::chacha20_poly1305::{chacha20, decrypt, encrypt, poly1305};
use harness::{container::V, *};
#[derive(Clone)]
struct Pkt { k: Vec<u8>, n: Vec<u8>, a: Vec<u8>, m: Vec<u8>, c: Vec<u8>, t: Vec<u8> }
fn enc(t: &mut Trace, alg: usize, k: &[u8], n: &[u8], a: &[u8], m: &[u8]) -> Option<Pkt> {
    let op = if alg == 2 { "cpenc" } else { "gcmenc" };
    t.call_v(op, args! {k: k, n: n, a: a, m: m}, || {
        let (c, g) = match alg {
            0 => { let (c, g) = encrypt_aes128(aes::Key128::from_public_slice(k), aes::Nonce::from_public_slice(n), &sec(a), &sec(m)); (seqv(&c), arrv!(g)) }
            1 => { let (c, g) = encrypt_aes256(aes::Key256::from_public_slice(k), aes::Nonce::from_public_slice(n), &sec(a), &sec(m)); (seqv(&c), arrv!(g)) }
            _ => { let (c, g) = encrypt(chacha20::Key::from_public_slice(k), chacha20::IV::from_public_slice(n), &sec(a), &sec(m)).unwrap(); (seqv(&c), (0..16).map(|i| g[i as usize]).collect()) }
        };
        (Pkt { k: k.to_vec(), n: n.to_vec(), a: a.to_vec(), m: m.to_vec(), c: c.clone(), t: g.clone() }, vec![c, g])
    })
}
fn dec(t: &mut Trace, alg: usize, p: &Pkt) { open(t, alg, p, None) }
/// decrypts; with the ideal channel's verdict, if there is one
fn open(t: &mut Trace, alg: usize, p: &Pkt, ideal: Option<u32>) {
    let op = match (alg == 2, ideal) { (true, None) => "cpdec", (false, None) => "gcmdec", (true, _) => "cpopen", _ => "gcmopen" };
    let mut a = args! {k: &p.k, n: &p.n, a: &p.a, c: &p.c, t: &p.t};
    if let Some(x) = ideal { a.extend(args! {x: x}) }
    t.call(op, a, || {
        let r = match alg {
            0 => decrypt_aes128(aes::Key128::from_public_slice(&p.k), aes::Nonce::from_public_slice(&p.n), &sec(&p.a), &sec(&p.c), gf128::Tag::from_public_slice(&p.t)),
            1 => decrypt_aes256(aes::Key256::from_public_slice(&p.k), aes::Nonce::from_public_slice(&p.n), &sec(&p.a), &sec(&p.c), gf128::Tag::from_public_slice(&p.t)),
            _ => decrypt(chacha20::Key::from_public_slice(&p.k), chacha20::IV::from_public_slice(&p.n), &sec(&p.a), &sec(&p.c), poly1305::Tag::from_slice(&p.t)),
        };
        match r { Ok(m) => (1u32, J::from(seqv(&m))), Err(_) => (0u32, J::from(Vec::<u8>::new())) }
    });
}
/// A value on the wire: its origin and the edits made to it (spec/Channel.tla).
#[derive(Clone, Default)]
struct Term { base: Vec<u8>, fl: Vec<usize>, cut: bool, add: bool, pre: Option<u8> }
impl Term {
    fn of(b: &[u8]) -> Term { Term { base: b.to_vec(), ..Default::default() } }
    fn bytes(&self) -> Vec<u8> {
        let mut v = self.base.clone();
        let l = v.len();
        for p in &self.fl { v[p * (l - 1) / 16] ^= 1 << (p % 8) }
        if self.cut { v.pop(); }
        if self.add { v.push(0) }
        if let Some(x) = self.pre { v.insert(0, x) }
        v
    }
}
fn replay(t: &mut Trace, r: &mut Rng, h: &[V]) {
    let alg = h[0].int() as usize;
    let kl = [16, 32, 32][alg];
    let lens = [7usize, 8, 9, 15, 16, 17, 18, 31, 32, 33, 47, 48, 49, 63, 64, 65, 66, 80];
    let keys: Vec<_> = (0..3).map(|_| r.uniform(kl)).collect();
    let nonces: Vec<_> = (0..3).map(|_| r.uniform(12)).collect();
    let texts: Vec<_> = (0..3).map(|i| if i == 0 { vec![] } else { let n = *r.pick(&lens); r.uniform(n) }).collect();
    let auths: Vec<_> = (0..3).map(|i| if i == 0 { vec![] } else { let n = *r.pick(&lens); r.uniform(n) }).collect();
    let mut sealed: Vec<[Vec<u8>; 5]> = vec![];
    let mut wire: [Term; 5] = Default::default();
    t.begin(vec![]);
    for s in &h[1..] {
        let s = s.list();
        let n = |i: usize| s[i].int() as usize;
        let f = |i: usize| ["k", "n", "a", "c", "t"].iter().position(|x| *x == s[i].s()).expect("field");
        match s[0].s() {
            "seal" => match enc(t, alg, &keys[n(1)], &nonces[n(2)], &auths[n(3)], &texts[n(4)]) {
                Some(p) => sealed.push([p.k, p.n, p.a, p.c, p.t]),
                None => return, // the panic is in the trace
            },
            "take" => for i in 0..5 { wire[i] = Term::of(&sealed[n(1) - 1][i]) },
            "splice" => wire[f(1)] = Term::of(&sealed[n(2) - 1][f(1)]),
            "flip" => { let w = &mut wire[f(1)]; let p = n(2); if let Some(i) = w.fl.iter().position(|x| *x == p) { w.fl.remove(i); } else { w.fl.push(p) } }
            "cut" => { let w = &mut wire[f(1)]; if w.add { w.add = false } else { w.cut = true } }
            "extend" => wire[f(1)].add = true,
            "shift" => { let x = *wire[2].base.last().unwrap(); wire[2].cut = true; wire[3].pre = Some(x) }
            "deliver" => {
                let p = Pkt { k: wire[0].bytes(), n: wire[1].bytes(), a: wire[2].bytes(), m: vec![], c: wire[3].bytes(), t: wire[4].bytes() };
                open(t, alg, &p, Some(n(1) as u32))
            }
            x => panic!("unknown step {x}"),
        }
    }
}
fn flip(r: &mut Rng, v: &mut Vec<u8>) { if !v.is_empty() { let i = r.below(v.len()); v[i] ^= 1 << r.below(8) } }
fn main() {
    let mut t = Trace::open(0);
    let mut r = t.rng(22);
    for h in 0..t.n(24, 200) {
        let alg = h % 3;
        t.begin(vec![]);
        let kl = [16, 32, 32][alg];
        let (k, n) = (r.bytes(kl), r.bytes(12));
        let mut ps: Vec<Pkt> = vec![];
        for i in 0..3 {
            let k = if i == 2 { r.uniform(kl) } else { k.clone() };
            let mut n = n.clone(); n[11] ^= i as u8;
            let lens = [0usize, 1, 15, 16, 17, 31, 32, 33, 40, 64, 65];
            let (a, m) = (*r.pick(&lens), *r.pick(&lens));
            let (a, m) = (r.bytes(a), r.bytes(m));
            if let Some(p) = enc(&mut t, alg, &k, &n, &a, &m) { ps.push(p) }
        }
        for p in &ps { dec(&mut t, alg, p) }
        if ps.is_empty() { continue }
        // every kind of tampering, and the same tampering twice on one packet
        for step in 0..t.n(22, 60) {
            let i = r.below(ps.len()); let j = r.below(ps.len());
            let mut p = ps[i].clone(); let q = ps[j].clone();
            match step % 22 {
                0 => flip(&mut r, &mut p.k), 1 => flip(&mut r, &mut p.n), 2 => flip(&mut r, &mut p.a), 3 => flip(&mut r, &mut p.c), 4 => flip(&mut r, &mut p.t),
                5 => { p.c.pop(); } 6 => { p.a.pop(); } 7 => p.c.push(0), 8 => p.a.push(0),
                9 => p.t = q.t, 10 => p.n = q.n, 11 => p.a = q.a, 12 => p.c = q.c, 13 => p.k = q.k,
                14 => if let Some(x) = p.a.pop() { p.c.insert(0, x) },          // move a byte from aad to ciphertext
                15 => if !p.c.is_empty() { let x = p.c.remove(0); p.a.push(x) },
                16 => { std::mem::swap(&mut p.a, &mut p.c) }
                17 => { p.t[15] ^= 0x80 } 18 => { p.t[0] ^= 1 }
                19 => { let x = p.t[0]; p.t[0] = p.t[15]; p.t[15] = x } // permuted tag
                20 => { for x in &mut p.t { *x = !*x } }
                _ => { p.c.extend(vec![0; 16]); }
            }
            dec(&mut t, alg, &p)
        }
        for b in 0..16 { if t.thorough || b % 3 == h % 3 { let mut p = ps[0].clone(); p.t[b] ^= 1 << r.below(8); dec(&mut t, alg, &p) } } // every tag byte counts
        for p in &ps { dec(&mut t, alg, p) } // untouched packets still decrypt
        for p in &ps { if p.m.len() > 0 { let mut q = p.clone(); q.c = q.m.clone(); dec(&mut t, alg, &q) } }
    }
    // packets without authenticated data, without a message, without both; and tags an adversary would try first
    for h in 0..t.n(18, 90) {
        let alg = h % 3;
        t.begin(vec![]);
        let (a, m) = [(0usize, 0usize), (0, 5), (5, 0), (0, 16), (16, 0), (3, 3)][h / 3 % 6];
        let (k, n, a, m) = (r.uniform([16, 32, 32][alg]), r.uniform(12), r.uniform(a), r.uniform(m));
        let Some(p) = enc(&mut t, alg, &k, &n, &a, &m) else { continue };
        dec(&mut t, alg, &p);
        let mut tags: Vec<Vec<u8>> = vec![vec![0; 16], vec![0xff; 16], vec![1; 16], p.t.iter().rev().cloned().collect(), p.t.iter().map(|x| x.swap_bytes().reverse_bits()).collect(), p.k[..16].to_vec()];
        for half in [1, 4, 8, 12, 15] { let mut x = p.t.clone(); for b in &mut x[half..] { *b = 0 } tags.push(x); let mut x = p.t.clone(); for b in &mut x[..half] { *b = 0 } tags.push(x) }
        for i in [0, 7, 8, 15] { let mut x = p.t.clone(); x[i] = x[i].wrapping_add(1); tags.push(x) }
        { let mut x = p.t.clone(); x.rotate_left(1); tags.push(x); let mut x = p.t.clone(); x.rotate_left(8); tags.push(x) }
        if m.len() == 16 { tags.push(p.c.clone()); tags.push(p.m.clone()) }
        for x in tags { let mut q = p.clone(); q.t = x; dec(&mut t, alg, &q) }
        let mut q = p.clone(); flip(&mut r, &mut q.n); dec(&mut t, alg, &q);
        let mut q = p.clone(); flip(&mut r, &mut q.k); dec(&mut t, alg, &q);
        for c in [vec![], vec![0], vec![0; 16]] { for a in [vec![], vec![0], vec![0; 16]] { for x in [p.t.clone(), vec![0; 16]] { let mut q = p.clone(); q.c = c.clone(); q.a = a.clone(); q.t = x; dec(&mut t, alg, &q) } } }
        // the message taken for its ciphertext, under its own tag
        let mut q = p.clone(); q.c = p.m.clone(); dec(&mut t, alg, &q);
        dec(&mut t, alg, &p);
    }
    // long packets: every part of them counts
    for (i, (a, m)) in [(5000usize, 300usize), (300, 5000), (4097, 0), (0, 4097), (66000, 66000)].into_iter().enumerate() { for alg in 0..3 {
        if (i + alg) % 3 != 0 && i != 4 && !t.thorough { continue }
        if i == 4 && alg != 2 { continue }
        t.begin(vec![]);
        let (k, n, aa, mm) = (r.uniform([16, 32, 32][alg]), r.uniform(12), r.uniform(a), r.uniform(m));
        let Some(p) = enc(&mut t, alg, &k, &n, &aa, &mm) else { continue };
        dec(&mut t, alg, &p);
        for at in [0usize, 15, 16, 63, 64, 255, 256, 511, 1023, 2047, 4095, 4096, usize::MAX] {
            if i == 4 && at != usize::MAX && at != 4096 { continue }
            if !p.a.is_empty() { let mut q = p.clone(); let x = at.min(p.a.len() - 1); q.a[x] ^= 1 << r.below(8); dec(&mut t, alg, &q) }
            if !p.c.is_empty() { let mut q = p.clone(); let x = at.min(p.c.len() - 1); q.c[x] ^= 1 << r.below(8); dec(&mut t, alg, &q) }
        }
        let mut q = p.clone(); let x = q.a.len() / 2; q.c.extend(q.a.split_off(x)); dec(&mut t, alg, &q);
        let mut q = p.clone(); let x = q.c.len() / 2; q.c.truncate(x); dec(&mut t, alg, &q);
        let mut q = p.clone(); let x = q.a.len() / 2; q.a.truncate(x); dec(&mut t, alg, &q);
    } }
    if let Some(path) = std::env::args().nth(1) {
        for h in std::fs::read_to_string(path).unwrap().lines().map(V::parse) { replay(&mut t, &mut r, h.list()) }
    }
    t.close()
}
