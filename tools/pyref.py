"""Independent Python references, used only to validate the TLA+ specification (tools/specval.py)."""
import hashlib, hmac as _hmac, struct, subprocess

def xor(a, b): return bytes(x ^ y for x, y in zip(a, b))

def aes_ecb(k, data):
    r = subprocess.run(["openssl", "enc", "-aes-%d-ecb" % (8 * len(k)), "-K", k.hex(), "-nopad"], input=data, capture_output=True)
    assert r.returncode == 0, r.stderr
    return r.stdout

def aesctr(k, n, c, m):
    nb = (len(m) + 15) // 16
    if nb == 0: return b""
    ks = aes_ecb(k, b"".join(n + struct.pack(">I", (c + i) & 0xffffffff) for i in range(nb)))
    return xor(m, ks)

def gfmul(x, y):
    R = 0xe1 << 120
    z, v = 0, y
    for i in range(128):
        if (x >> (127 - i)) & 1: z ^= v
        v = (v >> 1) ^ (R if v & 1 else 0)
    return z

def ghash(h, bs):
    y, h = 0, int.from_bytes(h, "big")
    for b in bs: y = gfmul(y ^ int.from_bytes(b, "big"), h)
    return y.to_bytes(16, "big")

def pblocks(m): return [m[i:i + 16].ljust(16, b"\0") for i in range(0, len(m), 16)]
def gmac(m, h): return ghash(h, pblocks(m))
def gcm(k, n, a, m):
    c = aesctr(k, n, 2, m)
    h = aes_ecb(k, bytes(16))
    s = ghash(h, pblocks(a) + pblocks(c) + [struct.pack(">QQ", 8 * len(a), 8 * len(c))])
    return c, xor(s, aes_ecb(k, n + b"\0\0\0\1"))

def rotl(x, k): return ((x << k) | (x >> (32 - k))) & 0xffffffff
def qr(s, a, b, c, d):
    M = 0xffffffff
    s = list(s)
    s[a] = (s[a] + s[b]) & M; s[d] = rotl(s[d] ^ s[a], 16)
    s[c] = (s[c] + s[d]) & M; s[b] = rotl(s[b] ^ s[c], 12)
    s[a] = (s[a] + s[b]) & M; s[d] = rotl(s[d] ^ s[a], 8)
    s[c] = (s[c] + s[d]) & M; s[b] = rotl(s[b] ^ s[c], 7)
    return s
def chblock(k, c, n):
    s0 = list(struct.unpack("<4I", b"expand 32-byte k") + struct.unpack("<8I", k) + (c,) + struct.unpack("<3I", n))
    s = s0
    for _ in range(10):
        for q in ((0,4,8,12),(1,5,9,13),(2,6,10,14),(3,7,11,15),(0,5,10,15),(1,6,11,12),(2,7,8,13),(3,4,9,14)): s = qr(s, *q)
    return struct.pack("<16I", *((x + y) & 0xffffffff for x, y in zip(s, s0)))
def chacha(k, c, n, m):
    return xor(m, b"".join(chblock(k, (c + i) & 0xffffffff, n) for i in range((len(m) + 63) // 64)))
def poly(k, m):
    r = int.from_bytes(k[:16], "little") & 0x0ffffffc0ffffffc0ffffffc0fffffff
    a = 0
    for i in range(0, len(m), 16): a = (a + int.from_bytes(m[i:i + 16] + b"\1", "little")) * r % (2**130 - 5)
    return ((a + int.from_bytes(k[16:], "little")) % 2**128).to_bytes(16, "little")
def pad16(m): return m + bytes(-len(m) % 16)
def cp(k, n, a, m):
    c = chacha(k, 1, n, m)
    return c, poly(chblock(k, 0, n)[:32], pad16(a) + pad16(c) + struct.pack("<QQ", len(a), len(c)))

P = 2**255 - 19
def x25519(k, u):
    k = bytearray(k); k[0] &= 248; k[31] &= 127; k[31] |= 64
    k = int.from_bytes(k, "little"); u = int.from_bytes(u, "little") % 2**255 % P
    # affine reference through the ladder written with generic differential addition
    x1, x2, z2, x3, z3 = u, 1, 0, u, 1
    for t in reversed(range(255)):
        if k >> t & 1: (x2, z2), (x3, z3) = (x3, z3), (x2, z2)
        A, B, C, D = (x2 + z2) ** 2, (x2 - z2) ** 2, (x3 + z3) * (x2 - z2), (x3 - z3) * (x2 + z2)
        E = A - B
        x3, z3 = (C + D) ** 2 % P, u * (D - C) ** 2 % P
        x2, z2 = A * B % P, E * (A + 121665 * E) % P
        if k >> t & 1: (x2, z2), (x3, z3) = (x3, z3), (x2, z2)
    return (x2 * pow(z2, P - 2, P) % P).to_bytes(32, "little")

p256 = 0xffffffff00000001000000000000000000000000ffffffffffffffffffffffff
n256 = 0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551
b256 = 0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b
G = (0x6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296, 0x4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5)
def padd(p, q):
    if p is None: return q
    if q is None: return p
    if p[0] == q[0]:
        if (p[1] + q[1]) % p256 == 0: return None
        l = (3 * p[0] ** 2 - 3) * pow(2 * p[1], -1, p256)
    else: l = (q[1] - p[1]) * pow(q[0] - p[0], -1, p256)
    x = (l * l - p[0] - q[0]) % p256
    return x, (l * (p[0] - x) - p[1]) % p256
def pmul(k, p=G):
    r = None
    while k:
        if k & 1: r = padd(r, p)
        p = padd(p, p); k >>= 1
    return r

def hkdf_expand(prk, info, l):
    o, t, i = b"", b"", 1
    while len(o) < l:
        t = _hmac.new(prk, t + info + bytes([i]), "sha256").digest(); o += t; i += 1
    return o[:l]
def hmac(k, m): return _hmac.new(k, m, "sha256").digest()
