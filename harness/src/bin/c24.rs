//! C24: the library and the examples as functions.  A table of calls, each identified by a number
//! (function and argument variant); histories of such calls, in fresh processes, in one process, on
//! handed-over threads, in a build without debug assertions, on concurrent threads, repeated many times.
#![allow(dead_code)]
use hacspec::prelude::*;
use hacspec::prelude::Rng as _;
use hacspec_examples::aes_gcm::{aes, decrypt_aes128, decrypt_aes256, encrypt_aes128, encrypt_aes256, gf128};
use hacspec_examples::blake2::blake2b;
use hacspec_examples::chacha20_poly1305::{chacha20, decrypt, encrypt, poly1305};
use hacspec_examples::{curve25519, fips202, hkdf, hmac, p256, sha2};
use harness::{sec, Rng, Trace, args, J};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{mpsc, Arc, Barrier, Mutex};

use hacspec_dev::*;
create_test_vectors!(Entry, id: u32, msg: String);
bytes!(B16, 16);
public_bytes!(P16, 16);
array!(W8, 8, U32);
array!(Q4, 4, u64);
both_bytes!(BP8, BS8, 8);
unsigned_integer!(Big, 256);
signed_integer!(SBig, 256);
unsigned_public_integer!(PBig, 256);
nat_mod!(F255, F255C, 256, "7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed");
public_nat_mod!(PF, PFC, 128, "ffffffffffffffffffffffffffffff61");
public_nat_mod!(P251, P251C, 8, "fb");
poly!(Pol3, u128, 3, 3, &[(0, 2), (1, 2), (3, 1)]);
poly!(Pol, i128, 6, 251, [(5, 1i128), (1, 1i128), (0, 1i128)]);

/// Arguments of one call. Variants differ from variant 0 in one argument, as little as possible.
struct G { v: usize, base: u64, slot: usize, vslot: usize, vmod: usize, before: String, after: String }
impl G {
    fn new(f: usize, v: usize) -> G {
        let (vslot, vmod) = if v == 0 { (99, 0) } else { ((v - 1) % 4, (v - 1) / 4) };
        G { v, base: f as u64 * 1000 + 17, slot: 0, vslot, vmod, before: String::new(), after: String::new() }
    }
    fn raw(&mut self, n: usize, grow: bool) -> Vec<u8> {
        let slot = self.slot; self.slot += 1;
        let mut v = Rng::new(self.base + slot as u64 * 7919).uniform(n);
        if slot == self.vslot && n > 0 {
            match self.vmod {
                0 => v[n - 1] ^= 1,
                1 => v[0] ^= 0x10,
                2 => v[n / 2] ^= 0x80,
                3 => { v.swap(0, n - 1); if n == 1 { v[0] ^= 3 } }
                4 => if grow { v.push(0) } else { v[n / 3] ^= 0x40 },
                _ => if grow { v.truncate(n / 2) } else { v.reverse(); if n == 1 { v[0] ^= 5 } },
            }
        }
        v
    }
    fn bytes(&mut self, n: usize) -> Vec<u8> { self.raw(n, true) }
    fn fixed(&mut self, n: usize) -> Vec<u8> { self.raw(n, false) }
    fn seq(&mut self, n: usize) -> Seq<U8> { sec(&self.bytes(n)) }
    fn u128(&mut self) -> u128 { let b = self.fixed(16); let mut x = [0; 16]; x.copy_from_slice(&b); u128::from_le_bytes(x) }
    fn small(&mut self, n: usize) -> usize { let b = self.fixed(2); (b[0] as usize + 256 * b[1] as usize) % n }
    /// which of n ways the call goes: calls that fail among calls that do not
    fn way(&self, n: usize) -> usize { self.v % n }
    fn hex(&mut self, n: usize) -> String { self.fixed(n).iter().map(|b| format!("{:02x}", b)).collect() }
}
type Call = fn(&mut G) -> String;
/// the results of several calls, each of which may panic
macro_rules! each { ($($e:expr),* $(,)?) => { vec![ $( catch_unwind(AssertUnwindSafe(|| format!("{:?}", $e))).unwrap_or("!".into()) ),* ] } }
/// call!{name, [arguments by reference], result}
macro_rules! calls { ($( $name:literal [$($a:ident = |$g:ident| $mk:expr),*] $r:expr; )*) => {
    vec![ $( ($name, (|g: &mut G| -> String {
        $( #[allow(unused_mut)] let mut $a = { let $g = &mut *g; $mk }; )*
        $( g.before.push_str(&format!("{:?};", $a)); )*
        let r = format!("{:?}", $r);
        $( g.after.push_str(&format!("{:?};", $a)); )*
        r
    }) as Call) ),* ]
} }
fn table() -> Vec<(&'static str, Call)> {
    calls! {
        "sha256" [m = |g| g.seq(61)] sha2::hash(&m);
        "sha3224" [m = |g| g.seq(30)] fips202::sha3224(&m);
        "sha3256" [m = |g| g.seq(136)] fips202::sha3256(&m);
        "sha3384" [m = |g| g.seq(20)] fips202::sha3384(&m);
        "sha3512" [m = |g| g.seq(71)] fips202::sha3512(&m);
        "shake128" [m = |g| g.seq(33), n = |g| 1 + g.small(200)] fips202::shake128(&m, n);
        "shake256" [m = |g| g.seq(33), n = |g| 1 + g.small(200)] fips202::shake256(&m, n);
        "blake2b" [m = |g| g.seq(130)] blake2b::blake2b(&m);
        "hmac" [k = |g| g.seq(32), m = |g| g.seq(50)] hmac::hmac(&k, &m);
        "hmac-long" [k = |g| g.seq(80), m = |g| g.seq(10)] hmac::hmac(&k, &m);
        "extract" [k = |g| g.seq(13), m = |g| g.seq(22)] hkdf::extract(&k, &m);
        "expand" [k = |g| g.seq(32), m = |g| g.seq(10), l = |g| 1 + g.small(90)] hkdf::expand(&k, &m, l);
        "chacha" [k = |g| chacha20::Key::from_public_slice(&g.fixed(32)), n = |g| chacha20::IV::from_public_slice(&g.fixed(12)), m = |g| g.seq(70)] chacha20::chacha(k.clone(), n.clone(), &m);
        "chachablock" [k = |g| chacha20::Key::from_public_slice(&g.fixed(32)), n = |g| chacha20::IV::from_public_slice(&g.fixed(12)), c = |g| g.small(9) as u32] chacha20::block(k.clone(), U32(c), n.clone());
        "poly" [k = |g| chacha20::Key::from_public_slice(&g.fixed(32)), m = |g| g.seq(37)] poly1305::poly(&m, k.clone());
        "polymac" [k = |g| chacha20::Key::from_public_slice(&g.fixed(32)), n = |g| chacha20::IV::from_public_slice(&g.fixed(12)), m = |g| g.seq(37)] poly1305::poly_mac(&m, k.clone(), n.clone());
        "cpenc" [k = |g| chacha20::Key::from_public_slice(&g.fixed(32)), n = |g| chacha20::IV::from_public_slice(&g.fixed(12)), a = |g| g.seq(12), m = |g| g.seq(40)] encrypt(k.clone(), n.clone(), &a, &m);
        "cpdec" [k = |g| chacha20::Key::from_public_slice(&g.fixed(32)), n = |g| chacha20::IV::from_public_slice(&g.fixed(12)), a = |g| g.seq(12), m = |g| g.seq(40)]
            decrypt(k.clone(), n.clone(), &a, &m, poly1305::Tag::from_slice(&[7; 16]));
        "cpround" [k = |g| chacha20::Key::from_public_slice(&g.fixed(32)), n = |g| chacha20::IV::from_public_slice(&g.fixed(12)), a = |g| g.seq(12), m = |g| g.seq(40)]
            { let (c, t) = encrypt(k.clone(), n.clone(), &a, &m).unwrap(); decrypt(k.clone(), n.clone(), &a, &c, t) };
        "aes128" [k = |g| aes::Key128::from_public_slice(&g.fixed(16)), b = |g| aes::Block::from_public_slice(&g.fixed(16))] aes::aes128_encrypt_block(k.clone(), b.clone(), 4, 10);
        "aes256" [k = |g| aes::Key256::from_public_slice(&g.fixed(32)), b = |g| aes::Block::from_public_slice(&g.fixed(16))] aes::aes256_encrypt_block(k.clone(), b.clone(), 8, 14);
        "aesctr" [k = |g| aes::Key128::from_public_slice(&g.fixed(16)), n = |g| aes::Nonce::from_public_slice(&g.fixed(12)), c = |g| g.small(4) as u32, m = |g| g.seq(37)] aes::aes128_encrypt(k.clone(), n.clone(), U32(c), &m);
        "aesctr256" [k = |g| aes::Key256::from_public_slice(&g.fixed(32)), n = |g| aes::Nonce::from_public_slice(&g.fixed(12)), c = |g| g.small(4) as u32, m = |g| g.seq(37)] aes::aes256_decrypt(k.clone(), n.clone(), U32(c), &m);
        "gmac" [k = |g| gf128::Key::from_public_slice(&g.fixed(16)), m = |g| g.seq(37)] gf128::gmac(&m, k.clone());
        "gcm128" [k = |g| aes::Key128::from_public_slice(&g.fixed(16)), n = |g| aes::Nonce::from_public_slice(&g.fixed(12)), a = |g| g.seq(12), m = |g| g.seq(37)] encrypt_aes128(k.clone(), n.clone(), &a, &m);
        "gcm256" [k = |g| aes::Key256::from_public_slice(&g.fixed(32)), n = |g| aes::Nonce::from_public_slice(&g.fixed(12)), a = |g| g.seq(12), m = |g| g.seq(37)] encrypt_aes256(k.clone(), n.clone(), &a, &m);
        "gcmround128" [k = |g| aes::Key128::from_public_slice(&g.fixed(16)), n = |g| aes::Nonce::from_public_slice(&g.fixed(12)), a = |g| g.seq(12), m = |g| g.seq(37)]
            { let (c, t) = encrypt_aes128(k.clone(), n.clone(), &a, &m); decrypt_aes128(k.clone(), n.clone(), &a, &c, t) };
        "gcmdec256" [k = |g| aes::Key256::from_public_slice(&g.fixed(32)), n = |g| aes::Nonce::from_public_slice(&g.fixed(12)), a = |g| g.seq(12), m = |g| g.seq(37)]
            decrypt_aes256(k.clone(), n.clone(), &a, &m, gf128::Tag::from_public_slice(&[9; 16]));
        "x25519" [k = |g| curve25519::SerializedScalar::from_public_slice(&g.fixed(32)), u = |g| curve25519::SerializedPoint::from_public_slice(&g.fixed(32))] curve25519::scalarmult(k.clone(), u.clone());
        "x25519base" [k = |g| curve25519::SerializedScalar::from_public_slice(&g.fixed(32))] curve25519::secret_to_public(k.clone());
        "p256" [k = |g| g.hex(32)] p256::point_mul(p256::Scalar::from_hex(&k));
        // arguments of several blocks
        "sha256-long" [m = |g| g.seq(300)] sha2::hash(&m);
        "sha3-long" [m = |g| g.seq(500), n = |g| 200 + g.small(300)] (fips202::sha3256(&m), fips202::sha3512(&m), fips202::shake128(&m, n));
        "blake2b-long" [m = |g| g.seq(400)] blake2b::blake2b(&m);
        "hmac-blocks" [k = |g| g.seq(200), m = |g| g.seq(300)] hmac::hmac(&k, &m);
        "hkdf-long" [k = |g| g.seq(150), m = |g| g.seq(200), l = |g| 200 + g.small(300)] (hkdf::extract(&k, &m), hkdf::expand(&k, &m, l));
        "chacha-long" [k = |g| chacha20::Key::from_public_slice(&g.fixed(32)), n = |g| chacha20::IV::from_public_slice(&g.fixed(12)), m = |g| g.seq(400)] chacha20::chacha(k.clone(), n.clone(), &m);
        "polymac-long" [k = |g| chacha20::Key::from_public_slice(&g.fixed(32)), n = |g| chacha20::IV::from_public_slice(&g.fixed(12)), m = |g| g.seq(200)] (poly1305::poly_mac(&m, k.clone(), n.clone()), poly1305::poly(&m, k.clone()));
        "cp-long" [k = |g| chacha20::Key::from_public_slice(&g.fixed(32)), n = |g| chacha20::IV::from_public_slice(&g.fixed(12)), a = |g| g.seq(120), m = |g| g.seq(260)]
            { let (c, t) = encrypt(k.clone(), n.clone(), &a, &m).unwrap(); (c.clone(), format!("{:?}", t), decrypt(k.clone(), n.clone(), &a, &c, t)) };
        "ctr-long" [k = |g| aes::Key128::from_public_slice(&g.fixed(16)), n = |g| aes::Nonce::from_public_slice(&g.fixed(12)), c = |g| g.small(4) as u32, m = |g| g.seq(200)] aes::aes128_encrypt(k.clone(), n.clone(), U32(c), &m);
        "gmac-long" [k = |g| gf128::Key::from_public_slice(&g.fixed(16)), m = |g| g.seq(200)] gf128::gmac(&m, k.clone());
        "gcm-long" [k = |g| aes::Key128::from_public_slice(&g.fixed(16)), n = |g| aes::Nonce::from_public_slice(&g.fixed(12)), a = |g| g.seq(90), m = |g| g.seq(150)]
            { let (c, t) = encrypt_aes128(k.clone(), n.clone(), &a, &m); (format!("{:?}", (&c, &t)), decrypt_aes128(k.clone(), n.clone(), &a, &c, t)) };
        "gcm256-long" [k = |g| aes::Key256::from_public_slice(&g.fixed(32)), n = |g| aes::Nonce::from_public_slice(&g.fixed(12)), a = |g| g.seq(90), m = |g| g.seq(150)]
            { let (c, t) = encrypt_aes256(k.clone(), n.clone(), &a, &m); (format!("{:?}", (&c, &t)), decrypt_aes256(k.clone(), n.clone(), &a, &c, t)) };
        "hex-long" [h = |g| g.hex(300)] (Seq::<U8>::from_hex(&h), Seq::<U8>::from_hex(&h).to_hex(), PublicSeq::<u8>::from_hex(&h));
        "seq-long" [s = |g| g.seq(300), t = |g| g.seq(100)] (s.clone().update(40, &t), s.get_chunk(64, 2), Seq::<U8>::from_sub(&s, 100, 90), s.subr(20..150), s.num_chunks(64));
        "shake-long" [m = |g| g.seq(40), n = |g| 300 + g.small(300)] fips202::shake256(&m, n);
        "shake128-long" [m = |g| g.seq(40), n = |g| 300 + g.small(300)] fips202::shake128(&m, n);
        // arguments of exactly one block, or none
        "hash-block" [m = |g| g.seq(64)] (sha2::hash(&m), fips202::sha3256(&m), fips202::shake128(&m, 16));
        "hash-none" [m = |g| g.seq(0)] (sha2::hash(&m), fips202::sha3512(&m), blake2b::blake2b(&m));
        "rate-block" [m = |g| g.seq(72)] (fips202::sha3512(&m), fips202::sha3224(&m));
        "blake-block" [m = |g| g.seq(128)] blake2b::blake2b(&m);
        "hmac-block" [k = |g| g.seq(64), m = |g| g.seq(64)] hmac::hmac(&k, &m);
        "expand-block" [k = |g| g.seq(32), m = |g| g.seq(0), l = |g| 32 * (1 + g.small(3))] hkdf::expand(&k, &m, l);
        "chacha-block" [k = |g| chacha20::Key::from_public_slice(&g.fixed(32)), n = |g| chacha20::IV::from_public_slice(&g.fixed(12)), m = |g| g.seq(64)] chacha20::chacha(k.clone(), n.clone(), &m);
        "poly-block" [k = |g| chacha20::Key::from_public_slice(&g.fixed(32)), m = |g| g.seq(16)] poly1305::poly(&m, k.clone());
        "cp-block" [k = |g| chacha20::Key::from_public_slice(&g.fixed(32)), n = |g| chacha20::IV::from_public_slice(&g.fixed(12)), a = |g| g.seq(16), m = |g| g.seq(64)] encrypt(k.clone(), n.clone(), &a, &m);
        "cp-none" [k = |g| chacha20::Key::from_public_slice(&g.fixed(32)), n = |g| chacha20::IV::from_public_slice(&g.fixed(12)), a = |g| g.seq(0), m = |g| g.seq(0)] encrypt(k.clone(), n.clone(), &a, &m);
        "ctr-block" [k = |g| aes::Key128::from_public_slice(&g.fixed(16)), n = |g| aes::Nonce::from_public_slice(&g.fixed(12)), c = |g| g.small(4) as u32, m = |g| g.seq(16)] aes::aes128_encrypt(k.clone(), n.clone(), U32(c), &m);
        "ctr-block-256" [k = |g| aes::Key256::from_public_slice(&g.fixed(32)), n = |g| aes::Nonce::from_public_slice(&g.fixed(12)), c = |g| g.small(4) as u32, m = |g| g.seq(16)] aes::aes256_encrypt(k.clone(), n.clone(), U32(c), &m);
        "gmac-block" [k = |g| gf128::Key::from_public_slice(&g.fixed(16)), m = |g| g.seq(16)] gf128::gmac(&m, k.clone());
        "gcm-block" [k = |g| aes::Key128::from_public_slice(&g.fixed(16)), n = |g| aes::Nonce::from_public_slice(&g.fixed(12)), a = |g| g.seq(16), m = |g| g.seq(16)] encrypt_aes128(k.clone(), n.clone(), &a, &m);
        "gcm-none" [k = |g| aes::Key128::from_public_slice(&g.fixed(16)), n = |g| aes::Nonce::from_public_slice(&g.fixed(12)), a = |g| g.seq(0), m = |g| g.seq(0)] encrypt_aes128(k.clone(), n.clone(), &a, &m);
        "seq-block" [s = |g| g.seq(16)] (s.num_chunks(16), s.get_chunk(16, 0), s.to_hex(), B16::from_seq(&s));
        // machine integers
        "u32-arith" [a = |g| g.u128() as u32, b = |g| g.u128() as u32] (a.wrap_add(b), a.wrap_sub(b), a.wrap_mul(b), Integer::rotate_left(a, b % 32), Integer::rotate_right(b, a % 32));
        "u64-mod" [a = |g| g.u128() as u64 >> 33, b = |g| g.u128() as u64 >> 33, n = |g| 1 + (g.u128() as u64 >> 33)] each!(a.add_mod(b, n), a.sub_mod(b % n, n), a.mul_mod(b, n), (a % 30000).pow_mod(b % 3, 30011));
        "i64-mod" [a = |g| g.u128() as i64 >> 33, b = |g| g.u128() as i64 >> 33, n = |g| 1 + ((g.u128() as i64) >> 33).abs()] each!(a.add_mod(b, n), a.sub_mod(b, n), a.mul_mod(b, n), a.modulo(n));
        "u64-inv" [a = |g| g.u128() as u64 >> 20] NumericBase::inv(a, (1u64 << 61) - 1);
        "u128-bits" [a = |g| g.u128(), i = |g| g.small(128) as u32] each!(a.get_bit(i), a.set_bit(1, i), a.set(3, a, i), a.pow(1), a.greater_than_bm(1 << 99), a.equal_bm(a));
        "U32-arith" [a = |g| U32(g.u128() as u32), b = |g| U32(g.u128() as u32)] (a + b, a - b, a * b, a ^ b, a & b, a | b, !a, a.comp_gte(b), a.comp_eq(b), a.comp_lt(b));
        "U64-bytes" [a = |g| U64(g.u128() as u64)] (U64_to_le_bytes(a), U64_to_be_bytes(a), U64_from_le_bytes(U64_to_be_bytes(a)));
        "U128-mod" [a = |g| U128(g.u128() >> 70), b = |g| U128(g.u128() >> 70), n = |g| U128((g.u128() >> 70) + 1)] each!(a.add_mod(b, n), a.mul_mod(b, n), a.modulo(n));
        "I32-arith" [a = |g| I32(g.u128() as i32), b = |g| I32(g.u128() as i32)] (a + b, a - b, a * b, a.wrap_add(b));
        "i128-abs" [a = |g| g.u128() as i128] each!(NumericBase::abs(a), a.wrap_sub(7), a.less_than(9));
        "select" [a = |g| g.u128() as u64, b = |g| g.u128() as u64] (cswap_bit(a, b, 1), cswap(a, b, 0), cadd(a, 1, !0u64 & 0), cset_bit(a, 1, 5, !0u64), ct_div(a, b | 1));
        "ct_div" [a = |g| g.u128() as u32, b = |g| 1 + (g.u128() as u32 >> 9)] ct_div(a, b);
        // containers
        "seq-update" [s = |g| g.seq(20), t = |g| g.seq(6)] (s.clone().update(3, &t), s.clone().update_sub(2, &t, 0, 2), s.clone().update_start(&t));
        "seq-chunks" [s = |g| g.seq(23), i = |g| g.small(5)] (s.num_chunks(5), s.get_chunk(5, i), Seq::<U8>::from_sub(&s, 1, 4), s.subr(2..5));
        "seq-set" [s = |g| g.seq(20), t = |g| sec(&g.fixed(5)), i = |g| g.small(4)] if s.len() == 20 { s.clone().set_chunk(5, i, &t) } else { s.clone() };
        "seq-index" [s = |g| g.seq(20)] { let mut x = s.clone(); x[3usize] = U8(9); (x[3usize], x, s[0usize]) };
        "seq-hex" [h = |g| g.hex(11)] (Seq::<U8>::from_hex(&h), Seq::<U8>::from_hex(&h).to_hex(), PublicSeq::<u8>::from_hex(&h));
        "seq-string" [h = |g| g.hex(5)] (Seq::<U8>::from_string(h.clone()), h == h.clone());
        "arr-words" [a = |g| B16::from_public_slice(&g.fixed(16))] (a.to_be_U32s(), a.to_le_U32s(), a.to_be_U64s(), a.to_le_U64s(), a.to_U128s_be(), a.to_U128s_le(), a.to_hex());
        "arr-pub-words" [a = |g| P16::from_slice(&g.fixed(16))] (a.to_be_u32s(), a.to_le_u64s(), a.to_u128s_be(), a.to_hex());
        "arr-update" [a = |g| B16::from_public_slice(&g.fixed(16)), s = |g| sec(&g.fixed(5))] (a.clone().update(2, &s), a.clone().update_start(&s), a.get_chunk(5, 3), B16::sub(&a, 3, 4), B16::from_sub(&a, 0, 16));
        "arr-eq" [a = |g| B16::from_public_slice(&g.fixed(16)), b = |g| B16::from_public_slice(&g.fixed(16))] (a.declassify_eq(&b), a.declassify_eq(&a.clone()), a.clone() ^ b.clone());
        "arr-ops" [a = |g| Q4::from_vec((0..4).map(|_| g.u128() as u64 >> 40).collect()), b = |g| Q4::from_vec((0..4).map(|_| 1 + (g.u128() as u64 >> 40)).collect())] each!(a + b, a * b, a ^ b, b - a);
        "arr-words-sec" [a = |g| W8::from_vec((0..8).map(|_| U32(g.u128() as u32)).collect())] (a.to_le_bytes(), a.to_be_bytes(), a + a);
        "arr-hex" [h = |g| g.hex(16)] (B16::from_hex(&h), P16::from_hex(&h));
        "both" [a = |g| BP8::from_slice(&g.fixed(8))] (BS8::from_public(a), BP8::from_secret_declassify(BS8::from_public(a)));
        // bounded integers, modular naturals, polynomials
        "big" [a = |g| Big::from_hex(&g.hex(16)), b = |g| Big::from_hex(&g.hex(15)), c = |g| Big::from_literal(g.u128() >> 2)] each!(a + b, a - b, a * b, b & c, b | c, b ^ c, b << 3, a >> 5);
        "sbig" [a = |g| SBig::from_hex("-", &g.hex(16)), b = |g| SBig::from_hex("-", &g.hex(15))] each!(a + b, b - a, a * b);
        "pbig" [a = |g| PBig::from_hex(&g.hex(16)), b = |g| PBig::from_hex(&g.hex(15))] each!(a / b, a % b, a > b, a == b, a.pow_mod(b, PBig::from_hex("ffffffffffffffc5")), a.inv(PBig::from_hex("ffffffffffffffc5")));
        "bytes-be" [a = |g| Big::from_hex(&g.hex(16))] (a.to_le_bytes(), Big::from_le_bytes(&a.to_le_bytes()), a.bit(7));
        "f255" [a = |g| F255::from_hex(&g.hex(31)), b = |g| F255::from_hex(&g.hex(31))] each!(a + b, a - b, a * b, a.pow(5));
        "f255-bytes" [a = |g| g.fixed(31)] { let x = F255::from_le_bytes(&a); (x, x.to_le_bytes(), x.bit(3)) };
        "pf" [a = |g| PF::from_hex(&g.hex(15)), b = |g| PF::from_hex(&g.hex(15))] each!(a + b, a - b, a * b, a / b, a.inv(), a > b, a.pow(77), a.pow_felem(b));
        "p251" [a = |g| P251::from_literal(g.u128() % 251), b = |g| P251::from_literal(1 + (g.u128() % 200))] each!(a + b, a - b, a * b, a / b, b.inv(), a.pow(3));
        "poly-raw" [a = |g| (0..6).map(|_| (g.u128() % 251) as i128).collect::<Vec<i128>>(), b = |g| (0..4).map(|_| 1 + (g.u128() % 250) as i128).collect::<Vec<i128>>()]
            each!(hacspec::poly::poly_add(&a, &b, 251), hacspec::poly::poly_sub(&a, &b, 251), hacspec::poly::poly_mul(&a, &b, 251), hacspec::poly::poly_div(&a, &b, 251), leading_coefficient(&a));
        "poly-inv" [a = |g| (0..5).map(|_| (g.u128() % 251) as i128).collect::<Vec<i128>>()] hacspec::poly::extended_euclid(&a, &[1, 1, 0, 0, 0, 1], 251i128);
        "poly-type" [a = |g| Pol::from_vec((0..6).map(|_| (g.u128() % 251) as i128).collect()), b = |g| Pol::from_vec((0..6).map(|_| (g.u128() % 251) as i128).collect())] each!(a.clone() + b.clone(), a.clone() - b.clone(), a.clone() * b.clone());
        // printing, casts, words, vectors of numbers, files
        "print" [a = |g| U64(g.u128() as u64), b = |g| I32(g.u128() as i32)] (a.to_string(), b.to_string(), format!("{:#06x}{:x}", a, b), format!("{:?}{:?}", a, b));
        "print-arr" [a = |g| B16::from_public_slice(&g.fixed(16)), q = |g| Q4::from_vec((0..4).map(|_| g.u128() as u64).collect())] (format!("{:?}", a), format!("{:?}", q));
        "casts" [a = |g| U64(g.u128() as u64), b = |g| U8(g.u128() as u8), c = |g| I64(g.u128() as i64)] (U32::from(a), U128::from(a), U8::from(a), I64::from(a), u8::from(b), usize::from(b), U64::from(b), I16::from(c), U64::from(c));
        "int-lists" [a = |g| vec![U32(g.u128() as u32), U32(g.u128() as u32)]] (U32::to_le_bytes(&a), U32::to_be_bytes(&a), U32::from_le_bytes(&U32::to_be_bytes(&a)));
        "words" [a = |g| U16(g.u128() as u16), b = |g| U32(g.u128() as u32), c = |g| U128(g.u128())] (U16_to_be_bytes(a), U16_from_le_bytes(U16_to_be_bytes(a)), U32_to_le_bytes(b), U32_from_be_bytes(U32_to_le_bytes(b)), U128_to_be_bytes(c), U128_from_le_bytes(U128_to_be_bytes(c)));
        "pub-words" [a = |g| g.u128() as u16, b = |g| g.u128() as u32, c = |g| g.u128()] (u16_to_be_bytes(a), u16_from_le_bytes(u16_to_be_bytes(a)), u32_to_le_bytes(b), u32_from_be_bytes(u32_to_le_bytes(b)), u128_to_be_bytes(c), u128_from_le_bytes(u128_to_be_bytes(c)), u64_from_be_bytes(u64_to_le_bytes(c as u64)));
        "seq-ops" [a = |g| PublicSeq::<u32>::from_vec((0..5).map(|_| g.u128() as u32).collect()), b = |g| PublicSeq::<u32>::from_vec((0..5).map(|_| g.u128() as u32).collect())] each!(a.clone() ^ b.clone(), a.clone() + b.clone(), a.clone() * b.clone(), a.iter().max());
        "pub-seq" [a = |g| PublicSeq::<u8>::from_vec(g.fixed(9)), b = |g| PublicSeq::<u8>::from_vec(g.fixed(9))] each!(a.clone() ^ b.clone(), a.clone().update(2, &PublicSeq::from_sub(&b, 0, 3)), a.num_chunks(4), a.get_chunk(4, 2));
        "vectors" [h = |g| g.hex(6), n = |g| g.u128() as u32] {
            let p = std::env::temp_dir().join(format!("c24-{}-{:?}.json", std::process::id(), std::thread::current().id()));
            std::fs::write(&p, format!("[{{\"id\":{n},\"msg\":\"{h}\"}},{{\"id\":7,\"msg\":\"\"}}]")).unwrap();
            let name: &'static str = Box::leak(p.to_str().unwrap().to_string().into_boxed_str());
            let v = catch_unwind(|| Entry::new_array(name).iter().map(|e| (e.id, e.msg.clone())).collect::<Vec<_>>());
            std::fs::remove_file(&p).unwrap();
            v.unwrap()
        };
        // calls that fail
        "fail-sub" [s = |g| g.seq(8)] s.subr(4..40);
        "fail-div" [a = |g| g.u128() as u32] a / (a - a);
        "fail-big" [a = |g| PBig::from_hex(&g.hex(32))] a + PBig::max_val();
        "fail-hex" [h = |g| g.hex(15)] B16::from_hex(&h);
        // one function, some of whose calls fail midway: a failed call leaves nothing behind
        "ways-poly-div" [w = |g| g.way(4), x = |g| (g.u128() % 251) as i128] match w { 0 => hacspec::poly::poly_div(&[x, 2, 3, 4], &[1, 1, 0, 0], 251), 1 => hacspec::poly::poly_div(&[1, x, 3], &[0, 0, 0], 251), 2 => hacspec::poly::poly_div(&[1, 2, 3, 4, 5, x], &[3, 1, 7], 251), _ => hacspec::poly::poly_div(&[1, x, 3, 4], &[1, 3], 0) };
        "ways-poly-inv" [w = |g| g.way(4), x = |g| (g.u128() % 251) as i128] match w { 0 => hacspec::poly::extended_euclid(&[x, 1, 2], &[1, 1, 0, 0, 0, 1], 251i128), 1 => hacspec::poly::extended_euclid(&[0, 1], &[0, 0, 0, 1], 251i128), 2 => hacspec::poly::extended_euclid(&[1, x], &[1, 0, 1, 1], 251i128), _ => hacspec::poly::extended_euclid(&[0, 0], &[1, 1, 0, 1], 251i128) };
        "ways-poly-invert" [w = |g| g.way(3), x = |g| g.u128()] match w { 0 => Pol3::from_vec(vec![x % 2 + 1, 1, 0]).inv(), 1 => Pol3::from_vec(vec![0, 0, 0]).inv(), _ => Pol3::from_vec(vec![x % 3, 2, 1]).inv() };
        "ways-inv" [w = |g| g.way(4), x = |g| g.u128() % 1000] match w { 0 => x.modulo(997).inv(997), 1 => 14u128.inv(21), 2 => (x % 91).max(1).inv(91), _ => 6u128.inv(9) };
        "ways-inv-signed" [w = |g| g.way(4), x = |g| (g.u128() % 1000) as i64] match w { 0 => x.inv(997), 1 => 14i64.inv(21), 2 => (-x).inv(997), _ => 6i64.inv(9) };
        "ways-expand" [w = |g| g.way(3), k = |g| g.seq(32), l = |g| 1 + g.small(90)] match w { 0 => hkdf::expand(&k, &k, l), 1 => hkdf::expand(&k, &k, 8161), _ => hkdf::expand(&k, &ByteSeq::new(0), l + 32) };
        "ways-hex" [w = |g| g.way(3), h = |g| g.hex(16)] match w { 0 => format!("{:?}", B16::from_hex(&h)), 1 => format!("{:?}", B16::from_hex(&(h[..20].to_string() + "x0"))), _ => format!("{:?}", Seq::<U8>::from_hex(&h)) };
        "ways-update" [w = |g| g.way(4), s = |g| g.seq(20), b = |g| B16::from_public_slice(&g.fixed(16))] match w { 0 => b.clone().update_sub(2, &s, 3, 9), 1 => b.clone().update_sub(10, &s, 3, 9), 2 => b.clone().update_sub(0, &s, 0, 16), _ => b.clone().update(9, &s) };
        "ways-chunk" [w = |g| g.way(3), s = |g| g.seq(20), b = |g| B16::from_public_slice(&g.fixed(16))] match w { 0 => s.clone().set_chunk(16, 0, &b), 1 => s.clone().set_chunk(16, 1, &b), _ => s.clone().set_chunk(8, 1, &b.subr(0..8)) };
        "ways-bytes" [w = |g| g.way(3), s = |g| g.seq(8)] match w { 0 => U32::from_le_bytes(&s.iter().cloned().take(8).collect::<Vec<_>>()), 1 => U32::from_le_bytes(&s.iter().cloned().take(7).collect::<Vec<_>>()), _ => U32::from_be_bytes(&s.iter().cloned().take(4).collect::<Vec<_>>()) };
        "ways-big" [w = |g| g.way(4), a = |g| PBig::from_hex(&g.hex(31)), b = |g| PBig::from_hex(&g.hex(15))] match w { 0 => a - b, 1 => b - a, 2 => a * b, _ => b * b };
        "ways-big-div" [w = |g| g.way(3), a = |g| PBig::from_hex(&g.hex(31)), b = |g| PBig::from_hex(&g.hex(15))] match w { 0 => a / b, 1 => a / PBig::from_literal(0), _ => a % b };
        "ways-big-text" [w = |g| g.way(3), h = |g| g.hex(30)] match w { 0 => SBig::from_hex("-", &h), 1 => SBig::from_hex("+", &("7f".to_string() + &h + "0000ff")), _ => SBig::from_hex("", &h) };
        "ways-nat" [w = |g| g.way(3), x = |g| g.u128()] match w { 0 => PF::from_literal(x >> 1), 1 => PF::from_literal(u128::MAX), _ => PF::from_literal(x >> 9) / PF::from_literal((x & 1) as u128) };
        "ways-checked" [w = |g| g.way(3), a = |g| U16(g.u128() as u16)] match w { 0 => (a >> 1).checked_add(a >> 1), 1 => (a | U16(0x8000)).checked_add(a | U16(0x8000)), _ => (a >> 9).checked_mul(a >> 9) };
        "ways-mod" [w = |g| g.way(4), a = |g| (g.u128() % 60000) as u32] match w { 0 => a.sub_mod(7, 60001), 1 => a.sub_mod(u32::MAX, 60001), 2 => a.mul_mod(a, 60001), _ => u32::MAX.mul_mod(u32::MAX - a, 60001) };
        "ways-cp" [w = |g| g.way(3), k = |g| chacha20::Key::from_public_slice(&g.fixed(32)), m = |g| g.seq(33)] { let n = chacha20::IV::new(); let (c, t) = encrypt(k.clone(), n, &m, &m).unwrap(); match w { 0 => format!("{:?}", decrypt(k.clone(), n, &m, &c, t)), 1 => format!("{:?}", decrypt(k.clone(), n, &c, &c, t)), _ => format!("{:?}", decrypt(chacha20::Key::new(), n, &m, &c, t)) } };
        "ways-gcm" [w = |g| g.way(3), k = |g| aes::Key128::from_public_slice(&g.fixed(16)), m = |g| g.seq(33)] { let n = aes::Nonce::new(); let (c, t) = encrypt_aes128(k.clone(), n, &m, &m); match w { 0 => format!("{:?}", decrypt_aes128(k.clone(), n, &m, &c, t)), 1 => format!("{:?}", decrypt_aes128(k.clone(), n, &c, &c, t)), _ => format!("{:?}", decrypt_aes128(aes::Key128::new(), n, &m, &c, t)) } };
        "ways-file" [w = |g| g.way(3), h = |g| g.hex(6)] {
            let p = std::env::temp_dir().join(format!("c24w-{}-{:?}.json", std::process::id(), std::thread::current().id()));
            std::fs::write(&p, if w == 1 { format!("[{{\"id\":3,\"msg\":\"{h}\"}},{{\"id\":-7,\"msg\":\"\"}}]") } else { format!("[{{\"id\":4,\"msg\":\"{h}\"}},{{\"id\":7,\"msg\":\"\"}}]") }).unwrap();
            let name: &'static str = Box::leak(p.to_str().unwrap().to_string().into_boxed_str());
            let v = catch_unwind(|| Entry::new_array(name).iter().map(|e| (e.id, e.msg.clone())).collect::<Vec<_>>());
            std::fs::remove_file(&p).unwrap();
            v.unwrap()
        };
        "fail-checked" [a = |g| U8(200 + g.small(50) as u8)] a.checked_add(a);
    }
}

const V: usize = 13;
fn fnv(s: &str) -> u64 { let mut h = 0xcbf29ce484222325u64; for b in s.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); h ^= h >> 29 } h }
fn short(s: &str) -> String { let c: String = s.chars().filter(|c| (*c as u32) < 127).take(16).collect(); format!("{}#{:016x}/{}", c, fnv(s), s.len()) }
/// (result, arguments before, arguments after); "!" if it panicked
fn perform(tab: &[(&str, Call)], k: usize) -> (String, String, String) {
    let mut g = G::new(k / V, k % V);
    let r = catch_unwind(AssertUnwindSafe(|| tab[k / V].1(&mut g)));
    // "!": the call, or a part of it, panicked
    match r { Ok(r) => (format!("{}{}", if r.contains("\"!\"") { "!" } else { "" }, short(&r)), short(&g.before), short(&g.after)), Err(_) => ("!".into(), String::new(), String::new()) }
}

/// the calls a and b (one in seven) until `most` ms have passed and at least `least` calls were made, or `many`:
/// only changes are kept, and the last one
fn repeated(tab: &[(&str, Call)], a: usize, b: usize, least: usize, many: usize, most: u128) -> Vec<(usize, (String, String, String))> {
    let started = std::time::Instant::now();
    let mut h = vec![];
    let (mut la, mut lb) = (None, None);
    for i in 0..many {
        let k = if i % 7 == 3 { b } else { a };
        let x = perform(tab, k);
        let last = if k == a { &mut la } else { &mut lb };
        let stop = i + 1 >= many || (i >= least && (most > 0 && started.elapsed().as_millis() > most));
        if last.as_ref() != Some(&x) || stop { h.push((k, x.clone())); }
        *last = Some(x);
        if stop { if std::env::var("C24_COUNT").is_ok() { eprintln!("{} {}", tab[a / V].0, i + 1) } break }
    }
    h
}
struct Later<F: FnMut()>(F);
impl<F: FnMut()> Drop for Later<F> { fn drop(&mut self) { (self.0)() } }
fn main() {
    let argv: Vec<String> = std::env::args().collect();
    let tab = table();
    if argv.len() > 2 && argv[1] == "--fresh" { // calls in a process of its own
        std::panic::set_hook(Box::new(|_| {}));
        for a in argv[2].split(',') { let x = perform(&tab, a.parse().unwrap()); println!("@@{}\t{}\t{}", x.0, x.1, x.2) }
        return;
    }
    if argv.len() > 3 && argv[1] == "--repeat" { // one call over and over, and a neighbour
        std::panic::set_hook(Box::new(|_| {}));
        let k: usize = argv[2].parse().unwrap();
        for (k, x) in repeated(&tab, k, k + 1 + k / V % 4, 1000, 90000, argv[3].parse().unwrap()) { println!("@@{}\t{}\t{}\t{}", k, x.0, x.1, x.2) }
        return;
    }
    let mut t = Trace::open(0);
    std::panic::set_hook(Box::new(|_| {}));
    let mut r = t.rng(24);
    let slow = |k: usize| ["x25519", "x25519base", "p256"].contains(&tab[k / V].0);
    let nf = tab.len();
    // what each call gives when it is the only one its process ever makes
    let keys: Vec<usize> = (0..nf * V).filter(|k| !slow(*k) || k % V < 5).collect();
    let fresh: Vec<Mutex<(String, String, String)>> = (0..nf * V).map(|_| Default::default()).collect();
    let next = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|s| for _ in 0..8 { s.spawn(|| loop {
        let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        if i >= keys.len() { break }
        let out = std::process::Command::new(&argv[0]).args(["--fresh", &keys[i].to_string()]).output().unwrap();
        let text = String::from_utf8_lossy(&out.stdout).to_string();
        // the library prints on its own now and then
        let mut f = text.lines().filter_map(|l| l.strip_prefix("@@")).next().unwrap_or("died").split('\t').map(|x| x.to_string());
        *fresh[keys[i]].lock().unwrap() = (f.next().unwrap_or("died".into()), f.next().unwrap_or_default(), f.next().unwrap_or_default());
    }); });
    // the same in processes that were built without debug assertions and overflow checks
    let release = std::path::Path::new(&argv[0]).parent().unwrap().parent().unwrap().join("release").join("c24");
    let plain: Vec<Vec<(usize, (String, String, String))>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..nf).map(|f| { let (ks, release) = (keys.iter().copied().filter(|k| k / V == f).collect::<Vec<_>>(), release.clone()); (f, s.spawn(move || {
            let list: Vec<String> = ks.iter().map(|k| k.to_string()).collect();
            let out = std::process::Command::new(&release).args(["--fresh", &list.join(",")]).output().unwrap();
            let text = String::from_utf8_lossy(&out.stdout).to_string();
            let mut lines = text.lines().filter_map(|l| l.strip_prefix("@@"));
            ks.into_iter().map(|k| { let mut f = lines.next().unwrap_or("died").split('\t').map(|x| x.to_string());
                (k, (f.next().unwrap(), f.next().unwrap_or_default(), f.next().unwrap_or_default())) }).collect::<Vec<_>>()
        })) }).collect();
        hs.into_iter().map(|(_, h)| h.join().unwrap()).collect()
    });
    let fresh: Vec<(String, String, String)> = fresh.into_iter().map(|m| m.into_inner().unwrap()).collect();
    // a history is written down with its fresh calls first
    let put = |t: &mut Trace, shape: &str, h: &[(usize, usize, (String, String, String))]| {
        t.begin(args! {shape: shape});
        let mut seen = vec![];
        for (_, k, _) in h { if !seen.contains(k) {
            seen.push(*k);
            let x = fresh[*k].clone();
            t.call("call", args! {f: tab[k / V].0, v: k % V, k: seen.len(), at: 0usize, before: x.1.as_str(), after: x.2.as_str()}, || x.0.clone());
        } }
        for (th, k, x) in h {
            let id = seen.iter().position(|y| y == k).unwrap() + 1;
            t.call("call", args! {f: tab[k / V].0, v: k % V, k: id, at: *th, before: x.1.as_str(), after: x.2.as_str()}, || x.0.clone());
        }
    };
    // 0. the other build: where a call panics with debug assertions it may do anything without
    for h in &plain {
        let h: Vec<_> = h.iter().filter(|(k, _)| !fresh[*k].0.starts_with('!')).map(|(k, x)| (40, *k, x.clone())).collect();
        put(&mut t, "release", &h);
    }
    // two long-lived threads that are handed calls one at a time
    let worker = || { let (tx, rx) = mpsc::channel::<usize>(); let (otx, orx) = mpsc::channel();
        std::thread::spawn(move || { let tab = table(); for k in rx { otx.send(perform(&tab, k)).unwrap() } }); (tx, orx) };
    let ws = [worker(), worker()];
    let on = |th: usize, k: usize| -> (String, String, String) { ws[th - 1].0.send(k).unwrap(); ws[th - 1].1.recv().unwrap() };
    // 1. the shapes generated from the specification: which steps repeat which call, and on which thread
    let text = std::fs::read_to_string(&argv[1]).expect("behaviours");
    let mut shapes: Vec<Vec<(usize, usize)>> = text.lines().map(|l| {
        let n: Vec<usize> = l.split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
        n.chunks(2).map(|c| (c[0], c[1])).collect() }).collect();
    shapes.sort();
    let pick = |r: &mut Rng| loop { let k = *r.pick(&keys); if !slow(k) || r.chance(12) { break k } };
    for rep in 0..t.n(1, 12) {
        for (i, sh) in shapes.iter().enumerate() {
            // calls of one function, of neighbouring functions, of any functions
            let a = if rep == 0 { let k = (i % nf) * V; if slow(k) && i / nf > 0 { pick(&mut r) } else { k } } else { pick(&mut r) };
            let mut cs = vec![a];
            while cs.len() < 3 {
                let k = match r.below(4) { 0 => pick(&mut r), 1 => (a / V + 1) % nf * V + r.below(V), _ => a / V * V + r.below(V) };
                if keys.contains(&k) && !cs.contains(&k) { cs.push(k) }
            }
            let h: Vec<_> = sh.iter().map(|(c, th)| (*th, cs[c - 1], on(*th, cs[c - 1]))).collect();
            put(&mut t, "generated", &h);
        }
    }
    // 2. every ordered pair of neighbouring functions
    for f in 0..nf { for chunk in 0..(nf + 15) / 16 {
        if slow(f * V) && chunk % 2 == 0 && !t.thorough { continue }
        let mut h = vec![];
        for g in chunk * 16..((chunk + 1) * 16).min(nf) {
            if slow(g * V) && !t.thorough { continue }
            let (a, b) = (f * V + r.below(5), g * V + r.below(5));
            h.push((3, a, perform(&tab, a))); h.push((3, b, perform(&tab, b)));
        }
        put(&mut t, "pairs", &h);
    } }
    // 3. one call many times over, with another variant among them
    for f in 0..nf {
        // a few hundred times at least, as often as there is time otherwise
        let h = if slow(f * V) { repeated(&tab, f * V, f * V + 1 + r.below(4), 1, t.n(6, 60), 0) } else { repeated(&tab, f * V, f * V + 1 + r.below(4), t.n(300, 3000), t.n(20000, 1000000), t.n(150, 4000) as u128) };
        let h: Vec<_> = h.into_iter().map(|(k, x)| (3, k, x)).collect();
        put(&mut t, "repeated", &h);
    }
    // more than 65536 times, if there is time, in the faster build
    let next = std::sync::atomic::AtomicUsize::new(0);
    let many: Vec<Mutex<String>> = (0..nf).map(|_| Default::default()).collect();
    let most = t.n(3000, 60000).to_string();
    std::thread::scope(|s| for _ in 0..8 { s.spawn(|| loop {
        let f = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        if f >= nf { break }
        if slow(f * V) { continue }
        let out = std::process::Command::new(&release).args(["--repeat", &(f * V).to_string(), &most]).output().unwrap();
        *many[f].lock().unwrap() = String::from_utf8_lossy(&out.stdout).to_string();
    }); });
    for f in 0..nf {
        let h: Vec<_> = many[f].lock().unwrap().lines().filter_map(|l| l.strip_prefix("@@")).map(|l| { let mut i = l.split('\t').map(|x| x.to_string()); let k: usize = i.next().unwrap().parse().unwrap(); (41, k, (i.next().unwrap(), i.next().unwrap_or_default(), i.next().unwrap_or_default())) })
            .filter(|(_, k, _)| !fresh[*k].0.starts_with('!')).collect();
        put(&mut t, "repeated, release", &h);
    }
    // 4. every variant, in ascending, descending and shuffled order
    for f in 0..nf {
        let ks: Vec<usize> = (f * V..f * V + V).filter(|k| keys.contains(k)).collect();
        let mut order = ks.clone(); order.extend(ks.iter().rev());
        for _ in 0..ks.len() { order.push(*r.pick(&ks)) }
        let h: Vec<_> = order.into_iter().map(|k| (3, k, perform(&tab, k))).collect();
        put(&mut t, "variants", &h);
    }
    // calls made by a destructor, while its thread unwinds from a panic
    for f in 0..nf {
        if slow(f * V) && !t.thorough { continue }
        let mut h = vec![];
        let ks = [f * V, f * V + 1 + r.below(4), f * V];
        let _ = catch_unwind(AssertUnwindSafe(|| { let _later = Later(|| for k in ks { h.push((3, k, perform(&tab, k))) }); panic!() }));
        put(&mut t, "unwinding", &h);
    }
    // 5. concurrent threads, all calls in different orders
    let rounds = t.n(6, 60);
    for round in 0..rounds {
        let set: Vec<usize> = (0..24).map(|_| if round % 3 == 0 { (round * 11 + r.below(3)) % nf * V + r.below(4) } else { pick(&mut r) }).filter(|k| keys.contains(k)).collect();
        let bar = Arc::new(Barrier::new(8));
        let hs: Vec<_> = (0..8usize).map(|th| {
            let (bar, mut set) = (bar.clone(), set.clone());
            let mut r2 = Rng::new(r.next());
            std::thread::spawn(move || {
                let tab = table();
                for i in (1..set.len()).rev() { let j = r2.below(i + 1); set.swap(i, j) }
                bar.wait();
                let mut h = vec![];
                for _ in 0..2 { for k in &set { h.push((10 + th, *k, perform(&tab, *k))) } }
                h
            })
        }).collect();
        let all: Vec<Vec<_>> = hs.into_iter().map(|h| h.join().unwrap()).collect();
        for h in all { put(&mut t, "concurrent", &h) }
    }
    // 6. functions that share code, called at once over and over, each thread with calls of its own
    let family = |n: &str| -> usize {
        let has = |ps: &[&str]| ps.iter().any(|p| n.starts_with(p));
        if has(&["sha256", "hash", "hm", "hk", "ex"]) { 0 } else if has(&["sha3", "shake", "rate", "hash"]) { 1 } else if has(&["blake"]) { 2 }
        else if has(&["cha", "poly-block", "polymac", "cp"]) || n == "poly" { 3 } else if has(&["aes", "gmac", "gcm", "ctr"]) { 4 } else if has(&["x25519"]) { 5 } else if has(&["p256"]) { 6 }
        else if has(&["seq", "arr", "hex", "pub-seq", "both"]) { 7 } else if has(&["u", "U", "I", "i", "sel", "ct", "cast", "word", "pub-word", "print"]) { 8 } else { 9 }
    };
    for f in 0..nf {
        if slow(f * V) && !t.thorough && tab[f].0 != "x25519" { continue }
        let kin: Vec<usize> = (0..nf).filter(|g| family(tab[*g].0) == family(tab[f].0) && (!slow(*g * V) || slow(f * V))).collect();
        let bar = Arc::new(Barrier::new(6));
        let hs: Vec<_> = (0..6usize).map(|th| {
            // every thread has two calls, at least one of them of the function itself
            let a = f * V + r.below(5);
            let b = if th % 2 == 0 { f * V + r.below(if slow(f * V) { 5 } else { V }) } else { *r.pick(&kin) * V + r.below(5) };
            let (bar, ms) = (bar.clone(), t.n(40, 1500) as u128);
            let least = if slow(f * V) { 1 } else { t.n(12, 100) };
            std::thread::spawn(move || {
                let tab = table();
                let mut h: Vec<(usize, usize, (String, String, String))> = vec![];
                let mut last = [None, None];
                bar.wait();
                let started = std::time::Instant::now();
                for i in 0.. {
                    for (j, k) in [a, b].into_iter().enumerate() {
                        let x = perform(&tab, k);
                        // only changes are written down
                        if last[j].as_ref() != Some(&x) { h.push((20 + th, k, x.clone())) }
                        last[j] = Some(x);
                    }
                    if h.len() > 40 || (i >= least && started.elapsed().as_millis() > ms) { break }
                }
                h
            })
        }).collect();
        let all: Vec<Vec<_>> = hs.into_iter().map(|h| h.join().unwrap()).collect();
        for h in all { put(&mut t, "kin", &h) }
    }
    t.close()
}
