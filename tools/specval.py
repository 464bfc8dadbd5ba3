#!/usr/bin/env python3
"""Validates the TLA+ specification itself: events computed by independent implementations (hashlib,
openssl, Python integers) and published test vectors must all be accepted by the trace modules.
Usage: specval.py [hash|crypto|curve ...]"""
import hashlib, json, os, random, struct, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import pyref as R
R_ = random.Random(7)
def rb(n): return bytes(R_.randrange(256) for _ in range(n)) if R_.random() < .7 else bytes([R_.choice([0, 255])]) * n
ev = []
def E(op, r, **a):
    f = lambda x: list(x) if isinstance(x, (bytes, tuple)) else x
    g = lambda x: [g(y) for y in x] if isinstance(x, (list, tuple)) else list(x) if isinstance(x, bytes) else x
    ev.append(dict(op=op, **{k: g(v) for k, v in a.items()}, p=0, r=g(r)))
def le(x, n): return x.to_bytes(n, "little")
def gen_hash():
    for n in list(range(0, 140)) + [200, 255, 256, 257, 1000]:
        m = rb(n)
        E("sha256", hashlib.sha256(m).digest(), m=m)
        E("blake2b", hashlib.blake2b(m).digest(), m=m)
        b = R_.choice([224, 256, 384, 512])
        E("sha3", hashlib.new("sha3_%d" % b, m).digest(), m=m, bits=b)
        b = R_.choice([128, 256]); o = R_.randrange(1, 400)
        E("shake", hashlib.new("shake_%d" % b, m).digest(o), m=m, bits=b, n=o)
        k = rb(R_.choice([0, 1, 31, 63, 64, 65, 128, 130]))
        E("hmac", R.hmac(k, m), k=k, m=m)
        E("extract", R.hmac(k or bytes(32), m), salt=k, ikm=m)
        if n % 6 == 0:
            l = R_.choice([1, 32, 33, 500, 8160] if n % 36 == 0 else [1, 31, 32, 33, 64, 100])
            E("expand", R.hkdf_expand(rb_ := rb(32), m, l), prk=rb_, info=m, len=l)
def gen_crypto():
    E("aes", bytes.fromhex("69c4e0d86a7b0430d8cdb78070b4c55a"), k=bytes(range(16)), b=bytes.fromhex("00112233445566778899aabbccddeeff"))
    E("aes", bytes.fromhex("8ea2b7ca516745bfeafc49904b496089"), k=bytes(range(32)), b=bytes.fromhex("00112233445566778899aabbccddeeff"))
    # SP 800-38D test case 4 (McGrew-Viega)
    k = bytes.fromhex("feffe9928665731c6d6a8f9467308308"); n = bytes.fromhex("cafebabefacedbaddecaf888")
    m = bytes.fromhex("d9313225f88406e5a55909c5aff5269a86a7a9531534f7da2e4c303d8a318a721c3c0c95956809532fcf0e2449a6b525b16aedf5aa0de657ba637b39")
    a = bytes.fromhex("feedfacedeadbeeffeedfacedeadbeefabaddad2")
    c, t = R.gcm(k, n, a, m)
    assert t.hex() == "5bc94fbc3221a5db94fae95ae7121a47"
    for i in range(60):
        k = rb(R_.choice([16, 32])); n = rb(12); c = R_.choice([0, 1, 2**32 - 1, 2**31, R_.randrange(2**32)])
        m, a = rb(R_.randrange(0, 70)), rb(R_.randrange(0, 50))
        E("aes", R.aes_ecb(k, x := rb(16)), k=k, b=x)
        E("aesctr", R.aesctr(k, n, c, m), k=k, n=n, c=le(c, 4), m=m)
        E("gmac", R.gmac(m, x), m=m, h=x)
        ct, t = R.gcm(k, n, a, m)
        E("gcmenc", [ct, t], k=k, n=n, a=a, m=m)
        E("gcmdec", [1, m], k=k, n=n, a=a, c=ct, t=t)
        E("gcmdec", [0, b""], k=k, n=n, a=a + b"\0", c=ct, t=t)
    assert R.poly(bytes.fromhex("85d6be7857556d337f4452fe42d506a80103808afb0db2fd4abff6af4149f51b"), b"Cryptographic Forum Research Group").hex() == "a8061dc1305136c6c22b8baf0c0127a9"
    # RFC 8439 A.3 carry cases
    for k, m, t in (("02" + "00" * 31, "ff" * 16, "03" + "00" * 15), ("02" + "00" * 15 + "ff" * 16, "02" + "00" * 15, "03" + "00" * 15),
                    ("02" + "00" * 31, "fd" + "ff" * 15, "fa" + "ff" * 15)):
        E("poly", bytes.fromhex(t), k=bytes.fromhex(k), m=bytes.fromhex(m))
    assert R.cp(bytes(range(0x80, 0xa0)), bytes.fromhex("070000004041424344454647"), bytes.fromhex("50515253c0c1c2c3c4c5c6c7"),
                b"Ladies and Gentlemen of the class of '99: If I could offer you only one tip for the future, sunscreen would be it.")[1].hex() == "1ae10b594f09e26a7e902ecbd0600691"
    for i in range(60):
        k = rb(32); n = rb(12); c = R_.choice([0, 1, 2**32 - 1, R_.randrange(2**32)])
        m, a = rb(R_.randrange(0, 140)), rb(R_.randrange(0, 50))
        s = [R_.randrange(2**32) for _ in range(16)]; ix = R_.sample(range(16), 4)
        E("qr", [le(x, 4) for x in R.qr(s, *ix)], s=[le(x, 4) for x in s], i=ix)
        E("chblock", R.chblock(k, c, n), k=k, c=le(c, 4), n=n)
        E("chacha", R.chacha(k, c, n, m), k=k, c=le(c, 4), n=n, m=m)
        E("poly", R.poly(k, m), k=k, m=m)
        ct, t = R.cp(k, n, a, m)
        E("cpenc", [ct, t], k=k, n=n, a=a, m=m)
        E("cpdec", [1, m], k=k, n=n, a=a, c=ct, t=t)
        E("cpdec", [0, b""], k=k, n=n, a=a, c=ct + b"\0", t=t)
def gen_curve():
    E("x25519", bytes.fromhex("c3da55379de9c6908e94ea4df28d084f32eccf03491c71f754b4075577a28552"),
      k=bytes.fromhex("a546e36bf0527c9d3b16154b82465edd62144c0ac1fc5a18506a2244ba449ac4"), u=bytes.fromhex("e6db6867583030db3594c1a424b15f7c726624ec26b3353b10a903a6d0ab1c4c"))
    for i in range(12):
        k, u = rb(32), R_.choice([rb(32), le(R.P + i, 32), le(i, 32), b"\xff" * 32, le(2**255 - 1 - i, 32)])
        E("x25519", R.x25519(k, u), k=k, u=u)
        E("x25519base", R.x25519(k, le(9, 32)), k=k)
        s = R_.choice([i + 1, R.n256 - 1 - i, R.n256 + 1 + i, R_.randrange(2**256)])
        E("p256", [le(x, 32) for x in R.pmul(s % R.n256)], k=le(s, 32))
mods = {"hash": ("Trace_Hash", gen_hash), "crypto": ("Trace_Crypto", gen_crypto), "curve": ("Trace_Curve", gen_curve)}
os.makedirs(os.path.join(HERE, ".build"), exist_ok=True)
bad = 0
for name in sys.argv[1:] or mods:
    mod, g = mods[name]
    ev.clear(); g()
    p = os.path.join(HERE, ".build", "specval.ndjson")
    n = 0
    with open(p, "w") as f:
        for i, e in enumerate(ev):
            if i % 8 == 0: f.write('{"op":"begin"}\n'); n += 1
            f.write(json.dumps(e) + "\n"); n += 1
    r = subprocess.run([os.path.join(HERE, "bin/tlc.sh"), "-workers", "8", "-noGenerateSpecTE", "-metadir", os.path.join(HERE, ".build/meta/specval"), "-config", "Trace.cfg", mod + ".tla"],
                       cwd=os.path.join(HERE, "spec"), env=dict(os.environ, TRACE=p), capture_output=True, text=True)
    rej = [x for x in r.stdout.splitlines() if "REJECT" in x]
    ok = r.returncode == 0 and not rej
    print(mod, len(ev), "events", "ok" if ok else "FAILED")
    if not ok: print("\n".join(rej[:5]) or r.stdout[-4000:]); bad = 1
sys.exit(bad)
