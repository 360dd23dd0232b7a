"""Bits, raw memory, hashes, layouts."""
import itertools
from vf import hx

WID = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "ull": 64}

def bl(v):
    return "x" + bytes(i for i in range(64) if v >> i & 1).hex()

def bits1(tier, rng, work):
    return bits(tier, rng, work, True)

def bits(tier, rng, work, portable=False):
    big = tier == "thorough"
    for t, w in WID.items():
        vals = set()
        if w == 8 or (w == 16 and big):
            vals = set(range(1, 1 << w))
        else:
            for i in range(w):
                vals.add(1 << i)
                vals.add((1 << i) - 1)
                vals.add(((1 << w) - 1) ^ ((1 << i) - 1))
                for j in range(i):
                    vals.add((1 << i) | (1 << j))
            for _ in range(20000 if big else 1500):
                vals.add(rng.getrandbits(rng.randint(1, w)) << 0)
                vals.add((rng.getrandbits(w) << rng.randrange(w)) & ((1 << w) - 1))
            vals.discard(0)
        for v in sorted(vals):
            yield "bit %s %s" % (t, bl(v))
        yield "!bit %s x" % t
    if portable: return
    for t, n in (("u8", 255), ("u16", 12), ("u32", 12), ("u64", 11), ("i8", 5), ("i32", 6), ("i64", 5)):
        for k in range(n):
            yield "bitct %s %d" % (t, k)
    for t, w in (("u8", 8), ("i8", 7), ("u16", 16), ("i16", 15), ("u32", 32), ("i32", 31), ("u64", 64), ("i64", 63)):
        for f in range(w + 1):
            for l in range(f, w + 1):
                yield "mask %s %d %d" % (t, f, l)
    for t, n in (("u8", 81), ("i8", 64), ("u16", 289), ("i32", 289), ("u64", 11)):
        for k in range(n):
            yield "maskct %s %d" % (t, k)
    # powers: all that fit and, for types that are not promoted to a signed type, some that do not
    for t, w in (("i8", 8), ("u8", 8), ("i16", 16), ("u16", 16), ("i32", 32), ("u32", 32), ("i64", 64), ("u64", 64)):
        s = t[0] == "i"
        lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if s else (0, (1 << w) - 1)
        bases = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 31, 100, 127, 181, 255, 256, 1000, 46340, 46341, 65535, 65536, 3037000499, 4294967295, hi, hi - 1, hi // 2}
        if s: bases |= {-b for b in bases} | {lo, lo + 1}
        for b in sorted(x for x in bases if lo <= x <= hi):
            es = ("int", "uint", "i8", "u8", "u64")
            for e in es if big or w < 32 else rng.sample(es, 2):
                for n in list(range(0, 70)) + [127]:
                    fits = abs(b) <= 1 or (n <= 64 and lo <= b ** n <= hi)
                    wraps = t in ("u32", "u64") and n <= 66
                    if fits or wraps:
                        yield "ipow %s %s %d %d" % (t, e, b, n)
                    if n > 0 and e in ("int", "i8") and b != 0 and (fits or n < 3):
                        yield "ipow %s %s %d %d" % (t, e, b, -n)
        tb = [1, 2, 3, 10, 7, 0, 16] + ([-1, -2, -3, -10] if s else [])
        for k, b in enumerate(tb):
            for e in ("int", "uint", "i8"):
                for n in range(0, 66):
                    if abs(b) <= 1 or lo <= b ** n <= hi:
                        yield "ipowct %s %s %d %d" % (t, e, k, n)
                        if e != "uint" and n and b: yield "ipowct %s %s %d %d" % (t, e, k, -n)
    for t, m in (("float", 100), ("double", 900)):
        for e in ("int", "uint"):
            for k in (-5, -1, 0, 1, 2, 7):
                for n in range(0, 40):
                    if abs(k * n) <= m:
                        yield "ipowf %s %s %d %d" % (t, e, k, n)
                        if e == "int" and n: yield "ipowf %s %s %d %d" % (t, e, k, -n)
    for s in range(0, 70):
        for m in list(range(1, 40)) + [64, 128]:
            yield "rem %d %d" % (s, m)
    for n in list(range(0, 130)) + [255, 256, 257, 1000]:
        yield "chars %d" % n

def rb(rng, n, alpha=None):
    return bytes(rng.choice(alpha) if alpha else rng.randrange(256) for _ in range(n))

def xb(b):
    return "x" + b.hex()

def raw(tier, rng, work):
    big = tier == "thorough"
    for n in range(1, 18 if big else 12):
        for k in range(0, 70 if big else 40):
            yield "repeat %s %d" % (xb(rb(rng, n)), k)
            yield "repin %s %d %d" % (xb(rb(rng, n)), k, (n + k) % 2)
    for n in (1, 2, 3, 5, 8):
        for k in (63, 64, 65, 127, 128, 129, 255, 256, 257, 300):
            yield "repeat %s %d" % (xb(rb(rng, n)), k)
    for n in (1, 2, 3, 7, 16, 31, 32, 33, 63, 64, 65, 100, 255, 256, 257, 1000):
        for tot in (512, 1024, 1025, 2048, 3000, 4096, 4100, 8200, 9999) + ((16400, 20000) if big else ()):
            yield "repeat %s %d" % (xb(rb(rng, n)), max(1, tot // n + rng.choice((0, 1))))
            if rng.random() < .3: yield "repin %s %d %d" % (xb(rb(rng, n)), max(1, tot // n), rng.choice((0, 1)))
    for n in range(1, 5):
        for k in range(1, 5):
            for at in range(0, n * k):
                yield "!repov %s %d %d" % (xb(rb(rng, n)), k, at)
    for t in ("u8", "u16", "u32", "u64", "void", "one", "one8"):
        for n in range(0, 13):
            for at in range(0, 13 - n):
                if t.startswith("one") and n != 1: continue
                yield "zero %s %d %d" % (t, n, at)
    m = 7 if big else 5
    for a in range(0, 2 * m):
        for na in range(1, m):
            for b in range(0, 2 * m):
                for nb in range(1, m):
                    yield "ovl %d %d %d %d" % (a, na, b, nb)
    for t in ("u8", "u16", "u32", "u64"):
        for n in (0, 1, 2, 4, 8, 16, 64, 4096):
            for a in list(range(0, 36)) + [63, 64, 65, 4095, 4096, 4097, 8192, 12288, 12289]:
                yield "algn %s %d %d" % (t, a, n)
                if n <= 64: yield "algn %s %d %d %d" % (t, a, n, rng.choice((1, 2, 3, 31, 40)))
    for c in range(256):
        yield "space %d" % c
    for w in (32, 64):
        yield "hash %d" % w
        for c in range(256):
            yield "hash %d x%02x" % (w, c)
        for a, b in itertools.product(range(0, 256, 17), repeat=2):
            yield "hash %d x%02x x%02x" % (w, a, b)
        for _ in range(3000 if big else 600):
            k = rng.randint(1, 5)
            al = rng.choice((None, b"\x00\xff\x7f\x80", b"abc"))
            yield "hash %d %s" % (w, " ".join(xb(rb(rng, rng.choice((0, 1, 2, 3, 8, 17)), al)) for _ in range(k)))
        for n in (31, 32, 33, 63, 64, 65, 200, 255, 256, 257, 511, 513, 1000) + ((4097, 5000) if big else (2049,)):
            d = rb(rng, n)
            yield "hash %d %s" % (w, xb(d))
            i = rng.randrange(n)
            yield "hash %d %s %s" % (w, xb(d[:i]), xb(d[i:]))

PAIRS = "int_int int_char char_int e_e e_e1 e1_e e_int int_e e_str str_e str_str s_s s_int pod_pod pod_e e_pod tail_char char_tail tail_tail e_tail tail_e e_has has_e e_derived long_str".split()

def layout(tier, rng, work):
    big = tier == "thorough"
    for c in PAIRS:
        steps = ["f.11", "s.12", "k", "a", "f.-3", "s.-4", "p"]
        for start in ("d", "c.1.2", "c.-5.6", "g.3", "g.-7"):
            for n in range(0, 4 if not big else 5):
                for h in itertools.product(steps, repeat=n):
                    yield "pair %s %s" % (c, "_".join((start,) + h))
    for t in ("pod5", "podic", "priv", "virt", "empty"):
        for k in range(16):
            yield "pad %s %d" % (t, k)
    yield "padmove 5"
    for t in ("size", "int", "u8", "ll"):
        for n in range(130):
            yield "seq %s %d" % (t, n)
    for n in (0, 511, 512, 513, 514, 515, 516, 517, 518, 519, 520, 575, 576, 600, 777, 1000, 1023, 1024, 1025):
        yield "seq big %d" % n
    for n in range(1, 33):
        yield "each %d" % n
    for k in range(13):
        yield "tname %d" % k
    yield "traits"

def rngs(tier, rng, work):
    big = tier == "thorough"
    seeds = ["%016x" % s for s in (0, 1, 2, 1 << 63, (1 << 64) - 1, 0x7fffffffffffffff, 0x8000000000000001, 0xffffffff, 1 << 32, 42)]
    for k in ("splitmix", "xorshift", "pcg"):
        yield "rng %s n_u_d_d_d_d_d" % k
        for s in seeds:
            for w in "Ns":
                yield "rng %s %s.%s_d_d_d_c_d_b_e_d_b_b_e" % (k, w, s)
        # the same state reached in different ways
        for s in seeds:
            for s2 in seeds:
                yield "rng %s N.%s_c_N.%s_s.%s_e_d_b_e_d_b_e" % (k, s, s2, s)
                yield "rng %s N.%s_d_c_N.%s_d_e_c_e_s.%s_e_d_b_e" % (k, s, s2, s2)
                yield "rng %s N.%s_s.%s_c_n_s.%s_e_d_b_e_k.9_e" % (k, s2, s, s)
        # far skips
        far = [(1 << q) + x for q in (7, 8, 9, 12, 15, 16, 17) for x in (-1, 0, 1)] + [rng.getrandbits(20) for _ in range(6)]
        if big: far += [rng.getrandbits(24) for _ in range(10)] + [(1 << 32) + 5]
        for n in far:
            yield "rng %s N.%016x_c_j.%016x_d_d_e_b_c_k.3_j.%x_d" % (k, rng.getrandbits(64), n, rng.getrandbits(9))
        # all short histories, looked at afterwards
        steps = ["n", "N." + seeds[4], "s." + seeds[6], "d", "b", "k.0", "k.1", "k.3", "c"]
        for n in range(1, 4 if not big else 5):
            for h in itertools.product(steps, repeat=n):
                yield "rng %s %s_e_d_b_e" % (k, "_".join(h))
        for _ in range(600 if not big else 3000):
            h = [rng.choice("Ns") + ".%016x" % rng.getrandbits(64)]
            for _ in range(rng.randint(5, 25)):
                h.append(rng.choice(["d", "d", "d", "b", "c", "e", "k.%d" % rng.randrange(7), "s.%016x" % rng.getrandbits(64)]))
            if rng.random() < .3: h += ["c", "N.%016x" % rng.getrandbits(64), h[0].replace("N", "s"), "e", "d", "b", "e"]
            yield "rng %s %s" % (k, "_".join(h))
