"""Cases for base64 and UTF-8."""
import base64, itertools
from vf import hx

AL64 = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"

def rb(rng, n, pool=None):
    return bytes(rng.choice(pool) if pool else rng.randrange(256) for _ in range(n))

def valid(b):
    if len(b) % 4:
        return False
    t = b
    if t.endswith(b"=="):
        t = t[:-2]
    elif t.endswith(b"="):
        t = t[:-1]
    return all(c in AL64 for c in t)

def b64(tier, rng, work):
    big = tier == "thorough"
    # encoding: every single byte, every pair of edge bytes, every triple of some, random data of every short length
    yield "enc n 3"
    yield "enc x 3"
    yield "encf x 2"
    for b in range(256):
        yield "enc %s 5" % hx([b])
        for c in ((0, 1, 15, 16, 63, 64, 127, 128, 240, 255) if not big else range(0, 256, 3)):
            yield "enc %s 6" % hx([b, c])
            yield "enc %s 4" % hx([c, c ^ b, b])
    for n in range(1, 40 if big else 25):
        for _ in range(60 if big else 25):
            d = rb(rng, n, rng.choice([None, None, (0, 255), (0, 1, 128, 251, 255)]))
            L = 4 * ((n + 2) // 3)
            yield "%s %s %d" % (rng.choice(["enc", "encf"]), hx(d), L + rng.randrange(4))
    for _ in range(300 if big else 60):
        d = rb(rng, rng.randrange(40, 200))
        yield "enc %s %d" % (hx(d), 0)
    # validity: every byte in every position of a quartet; every placement of padding; every length
    for p in range(4):
        for b in range(256):
            q = bytearray(b"QUJD"); q[p] = b
            yield "valid " + hx(q)
            if b in (61, 45, 95, 0, 128, 255, 58, 64, 91, 96, 123):
                yield "valid " + hx(b"QUJD" + bytes(q))
                yield "valid " + hx(bytes(q) + b"QUJD")
    yield "valid n"
    for n in range(1, 3):
        for t in itertools.product(b"A=/", repeat=4 * n):
            if n == 1 or big or rng.random() < .3 or t.count(61) <= 3:
                yield "valid " + hx(t)
    for n in range(0, 18):
        for _ in range(8):
            t = rb(rng, n, AL64)
            yield "valid " + hx(t)
            if n:
                u = bytearray(t); u[rng.randrange(n)] = rng.choice(b"=-_ \n\x00\xff=")
                yield "valid " + hx(u)
    # decoding
    def dec(t, op="dec"):
        n = 3 * (len(t) // 4) - t[-2:].count(61) if valid(t) else 3
        return "%s%s %s %d" % ("" if valid(t) or len(t) % 4 else "!", op, hx(t), n + rng.randrange(3))
    yield "dec n 2"
    yield "dec x 0"
    yield "decf x 1"
    for p in range(4):
        for b in range(256):
            q = bytearray(b"QUJD"); q[p] = b
            yield dec(bytes(q))
    for t in itertools.product(b"Az=", repeat=4):
        yield dec(bytes(t))
        yield dec(b"QUJD" + bytes(t))
        yield dec(bytes(t) + b"QUJD")
    for a in AL64:
        for b in (AL64 if big else rng.sample(AL64, 12)):
            yield dec(bytes([a, b]) + b"==")
            yield dec(bytes([65, a, b]) + b"=")
            yield dec(bytes([a, b, b, a]))
            yield dec(bytes([b, a, a, b]))
    for n in range(0, 12):
        for _ in range(60 if big else 25):
            t = rb(rng, 4 * n, AL64)
            k = rng.randrange(3)
            if n and k:
                t = t[:-k] + b"=" * k
            yield dec(t, rng.choice(["dec", "decf"]))
            if len(t) > 1:
                yield dec(t[:-1])
                u = bytearray(t); u[rng.randrange(len(u))] = rng.choice(b"=-_ \x80")
                yield dec(bytes(u))
    for _ in range(400 if big else 100):
        n = rng.choice((64, 85, 86, 100, 128, 170, 171, 192, 200, rng.randrange(12, 250)))
        d = rb(rng, n, rng.choice([None, None, (0, 255), (0,), (255,)]))
        L = 4 * ((n + 2) // 3)
        yield "%s %s %d" % (rng.choice(["enc", "encf"]), hx(d), rng.choice((L, L + 1)))
        t = base64.b64encode(d)
        yield dec(t, rng.choice(["dec", "decf"]))
        yield "valid " + hx(t)
        u = bytearray(t); u[rng.randrange(len(u))] = rng.choice(b"=-_ \x80\x00")
        yield "valid " + hx(u)
        yield dec(bytes(u))
    # more than 64 KiB
    for n in (65535, 65536, 65537, 70000):
        yield "encbig %s %d" % (hx(rb(rng, 7)), n)
        yield "decbig %s %d" % (hx(rb(rng, 20, AL64)), (n + 2) // 3)
    # typed values
    for ty, n in (("u8", 1), ("u16", 2), ("i32", 4), ("u64", 8), ("d", 8), ("rec", 8)):
        for _ in range(60 if big else 25):
            yield "typed %s %s" % (ty, hx(rb(rng, n, rng.choice([None, (0, 255), (1, 128)]))))
    for k in range(6):
        for _ in range(20):
            yield "typedarr %s %d" % (hx(rb(rng, 10)), k)

def utf(tier, rng, work):
    big = tier == "thorough"
    M = 0x10ffff
    edges = (0, 0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, M, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xfffd)
    # every code point
    step = 1024
    for f in range(0, M + 1, step):
        yield "codes %d %d" % (f, min(step, M + 1 - f))
    yield "codes %d 3000" % (M - 5)
    for e in edges:
        for d in range(-3, 4):
            c = e + d
            if c < 0:
                continue
            yield "code %s %d" % (hx(c.to_bytes(4, "big")), rng.choice((4, 4, 5, 9)))
            if c:
                yield "hex %s %d" % (hx("%x" % c), rng.choice((4, 6)))
                yield "hex %s %d" % (hx("%X" % c), 4)
            for n in range(4):
                yield "!code %s %d" % (hx(c.to_bytes(4, "big")), n)
                if c:
                    yield "!hex %s %d" % (hx("%x" % c), n)
    for _ in range(4000 if big else 1500):
        c = rng.getrandbits(rng.randrange(1, 33))
        yield "code %s 4" % hx(c.to_bytes(4, "big"))
        if c:
            t = "%x" % c
            yield "hex %s %d" % (hx("".join(rng.choice((x.upper(), x)) for x in t)), rng.choice((4, 5)))
            yield "!hex %s 4" % hx("0" * rng.randrange(1, 9 - len(t) + 1) + t if len(t) < 8 else "0" + t[1:])
    # texts that are no code point: every byte in a place of a good text, prefixes
    for b in range(256):
        if chr(b) in "0123456789abcdefABCDEF":
            continue
        for t in (bytes([b]), b"a" + bytes([b]), bytes([b]) + b"a", b"1" + bytes([b]) + b"2"):
            yield "hex %s 4" % hx(t)
    for p in ("U+", "\\x", "\\u", "\\U", "0x", "0", "00", ""):
        yield "!hex %s 4" % hx(p)
        for t in ("1", "abc", "10ffff", "1234567"):
            if p:
                yield "!hex %s 4" % hx(p + t)
    for t in ("123456789", "abcdefabc", "fffffffff"):
        yield "!hex %s 4" % hx(t)
    for t in ("ffffffff", "110000", "80000000", "7fffffff", "100000"):
        yield "hex %s 4" % hx(t)
