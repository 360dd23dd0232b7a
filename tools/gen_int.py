"""Case generators for integer <-> text conversions (inputs only)."""
import itertools
from vf import hx
from gen_substr import strs, rstr, ANY

FIXED = ["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64"]
BITS = dict(i8=8, u8=8, i16=16, u16=16, i32=32, u32=32, i64=64, u64=64, ll=64, ull=64, ptr=64)
def signed(T): return T[0] == "i" or T in ("ll", "ptr")
def rng_of(T):
    b = BITS[T]
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if signed(T) else (0, (1 << b) - 1)
def mag(v):
    v = abs(v)
    return hx(v.to_bytes((v.bit_length() + 7) // 8, "big"))
def val(v): return "%d %s" % (v < 0, mag(v))

def interesting(T, rng, n):
    lo, hi = rng_of(T)
    S = {lo, lo + 1, hi, hi - 1, 0, 1, 9, 10, 99, 100}
    for base in (2, 8, 10, 16):
        p = 1
        while p <= hi + 1:
            S |= {p - 1, p, p + 1, -p, 1 - p, -p - 1, p * 3, p * 7 % (hi + 1), p * (base - 1), p * (base // 2)}
            p *= base
    k = BITS[T]
    for _ in range(n):
        S.add(rng.getrandbits(rng.randint(1, k)))
        S.add(-rng.getrandbits(rng.randint(1, k)))
        # long runs of one digit, and numbers with a zero pair inside
        d = rng.randint(1, 20)
        S.add(int(str(rng.randint(1, 9)) * d))
        S.add(int("".join(rng.choice("0019") for _ in range(d)) or "0"))
    return sorted(v for v in S if lo <= v <= hi)

def ndig(v, radix):
    v = abs(v); n = 1
    while v >= radix:
        v //= radix; n += 1
    return n

def write(tier, rng, work):
    big = tier == "thorough"
    for b in (0, 1):
        yield "tobool %d 4" % b
    for c in range(256):
        yield "tochar %d 3" % c
    # more digits than a size in 32 bits counts
    for T in FIXED:
        for r in (10, 16, 8, 2):
            for w in (2**31 - 1, 2**31, 2**32 - 3, 2**32 - 2, 2**32 - 1, 2**32, 2**32 + 1, 2**32 + 5, 2**32 + 100, 2**33 + 9, 2**62 + 3):
                for v in {rng_of(T)[0], 0, 5, rng_of(T)[1]}:
                    for f in ("toa", "gtoa", "fmt", "bare"):
                        if f == "bare" and v < 0: continue
                        yield "wide %s %s %d %s %s %d" % (f, T, r, val(v), mag(w), rng.choice((0, 1, 3, 8, 20, 70)))
    # hundreds of digits
    for T in FIXED:
        for r in (10, 16, 8, 2):
            for f in ("toa", "fmt", "bare"):
                v = rng.choice((0, 5, rng_of(T)[1], rng_of(T)[0] if f != "bare" else 7))
                w = rng.choice((100, 127, 128, 129, 200, 255, 256, 257, 258, 300))
                k = rng.choice((w - 1, w, w + 1, w + 4))
                yield "one %s %s %d %s %s %d" % (f, T, r, val(v), mag(w), k + (0 if f == "bare" else rng.choice((0, 2, 3))))
    # every 8-bit and 16-bit value
    for T, lo, hi, step in (("i8", -128, 127, 64), ("u8", 0, 255, 64), ("i16", -32768, 32767, 512), ("u16", 0, 65535, 512)):
        for f, radices in (("toa", (10, 16, 8, 2)), ("to_chars", (10,))):
            for r in radices:
                if step == 512 and not big and r in (8, 2) and f == "toa":
                    ranges = [range(lo, lo + 1024, step), range(max(lo, -512), 1024, step), range(hi - 1023, hi, step)]
                else:
                    ranges = [range(lo, hi + 1, step)]
                for R in ranges:
                    for v in R:
                        yield "span %s %s %d %d %d" % (f, T, r, v, min(step, hi + 1 - v))
        for r in (10, 16, 8, 2):
            for v in range(0, hi + 1, step):
                if step == 512 and not big and (r != 10) and (v // step) % 4 != 1: continue
                yield "spanbare %s %d %d %d" % (T, r, v, min(step, hi + 1 - v))
    for T in ("i32", "u32", "i64", "u64"):
        for f, r in (("toa", 10), ("toa", 16)):
            for v in (-512, -100, 0, 100, 9990, 65530, 99990, 999990, 16777200, 99999990, 999999990):
                if v < 0 and not signed(T): continue
                yield "span %s %s %d %d %d" % (f, T, r, v, 100 if v < 1000 else 20)
    for T in FIXED + ["ll", "ull", "ptr"]:
        vals = interesting(T, rng, 400 if big else 60)
        for v in vals:
            if T != "ptr" and v >= 0:
                yield "digits %s %s" % (T, mag(v))
            for r in (10, 16, 8, 2):
                n = ndig(v, r)
                pre = (2 if r != 10 else 0) + (v < 0)
                edge = v in rng_of(T) or rng.random() < (.5 if big else .12)
                if T == "ptr":
                    if r == 16:
                        yield "full to_chars ptr 16 %s -1 %d" % (val(v), n + pre + 2)
                        yield "full xtoa ptr 16 %s -1 %d" % (val(v), n + pre + 1)
                        yield "full fmt ptr 16 %s %d %d" % (val(v), n + rng.randint(0, 3), n + pre + 4)
                    if r != 10 and edge:
                        yield "full fmt ptr %d %s -1 %d" % (r, val(v), n + pre + 1)
                    continue
                fs = ["toa"] + (["xtoa", "fmt"] if T in FIXED else [])
                f = rng.choice(fs)
                for ff in (fs if v in rng_of(T) or big else [f]):
                    yield "full %s %s %d %s -1 %d" % (ff, T, r, val(v), n + pre + (2 if edge else 0))
                nds = {0, 1, n, n + 1, n + 2, n + pre, n + pre + 1} if edge else {rng.choice([0, n - 1, n, n + 1, n + 2, n + 3, n + pre, n + pre + 3])}
                for nd in sorted(x for x in nds if x >= 0):
                    f = rng.choice(fs)
                    ff = f if (r != 10 or f != "fmt") else rng.choice(["fmt", "toa"])
                    yield "full %s %s %d %s %d %d" % (ff, T, r, val(v), nd, max(n, nd) + pre + (2 if edge else 0))
                if v >= 0 and T in FIXED:
                    if edge: yield "bare %s %d %s -1 %d" % (T, r, val(v), n + 2)
                    nd = rng.choice([0, n, n + 1, n + 5])
                    yield "bare %s %d %s %d %d" % (T, r, val(v), nd, max(n, nd) + 2)
            if T == "ptr": continue
            n = ndig(v, 10) + (v < 0)
            yield "full xtoa %s -1 %s -1 %d" % (T, val(v), n + 1)
            if T in FIXED:
                yield "full fmt %s -1 %s %d %d" % (T, val(v), rng.choice([0, n, n + 1, n + 2]), n + 5)
            yield "full toa %s -1 %s -1 %d" % (T, val(v), n + 1)
            yield "full to_chars %s -1 %s -1 %d" % (T, val(v), n + 1)
            yield "full sub %s -1 %s -1 %d" % (T, val(v), n + 1)
        if T != "ptr":
            # very wide padding
            for v in (rng_of(T)[0], rng_of(T)[1], 0, 5):
                for r in (10, 16, 8, 2):
                    for nd in (64, 65, 70, 100):
                        yield "full toa %s %d %s %d %d" % (T, r, val(v), nd, nd + 4)

ALPHA = "0129afxXbo-g"
def texts_of(v, r, rng):
    """spellings of a value"""
    s = {10: "%d", 16: "%x", 8: "%o", 2: "{0:b}"}[r]
    b = format(abs(v), "b") if r == 2 else s % abs(v)
    z = "0" * rng.choice([0, 0, 0, 1, 2, 7])
    if r == 16: b = "".join(rng.choice([c, c.upper()]) for c in b)
    p = {10: "", 16: rng.choice(["0x", "0X"]), 8: rng.choice(["0o", "0O"]), 2: rng.choice(["0b", "0B"])}[r]
    return ("-" if v < 0 else "") + p + z + b

def mutated(s, rng, pool=ANY):
    """a character of a text replaced, inserted, repeated or removed"""
    k = rng.randrange(len(s)); m = rng.random()
    c = rng.choice(pool) if rng.random() < .5 else rng.choice("0179afFxXbBoO-+_'. ,gG8")
    if m < .4: return s[:k] + c + s[k + 1:]
    if m < .7: return s[:k] + c + s[k:]
    if m < .85: return s[:k] + s[k] + s[k:]
    return s[:k] + s[k + 1:]

def limits(T, rng, n):
    """values around the limits of a type, inside and outside"""
    lo, hi = rng_of(T)
    b = BITS[T]
    S = set()
    for c in (lo, hi, 0, 1 << b, 1 << (b - 1), -(1 << (b - 1)), -(1 << b), (1 << b) * 2, 10 ** len(str(hi)), 10 ** (len(str(hi)) - 1), -10 ** len(str(hi)), 10 ** (len(str(hi)) + 1)):
        for d in (-11, -10, -9, -8, -2, -1, 0, 1, 2, 8, 9, 10, 11):
            S.add(c + d)
    for r in (2, 8, 16):
        k = ndig(hi, r)
        for m in range(1, r):
            S |= {m * r ** (k - 1), -m * r ** (k - 1), m * r ** (k - 1) - 1, m * r ** k, -(m * r ** (k - 1) + 1)}
        S |= {r ** k - 1, r ** (k + 1) - 1, -(r ** k) + 1}
    for _ in range(n):
        S.add(rng.getrandbits(rng.randint(1, b + 6)))
        S.add(-rng.getrandbits(rng.randint(1, b + 6)))
        # one digit of a limit changed
        t = list(str(rng.choice([hi, -lo if lo else hi, hi])))
        t[rng.randrange(len(t))] = rng.choice("0123456789")
        S.add(int("".join(t)) * rng.choice([1, -1]))
    return sorted(S)

def longs(T, rng, n):
    """numbers of hundreds of digits: leading zeros, or really that long"""
    for _ in range(n):
        r = rng.choice((10, 16, 8, 2))
        pre = {10: "", 16: "0x", 8: "0o", 2: "0b"}[r]
        z = rng.choice((50, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 500, rng.randrange(40, 600)))
        lo, hi = rng_of(T)
        v = rng.choice((0, 1, 5, hi, hi + 1, hi // 2, rng.getrandbits(BITS[T]), -lo, -lo + 1))
        ds = {10: "%d", 16: "%x", 8: "%o"}.get(r, "b")
        body = "0" * z + (bin(v)[2:] if ds == "b" else ds % v)
        if rng.random() < .2: body = body.replace("0" * 20, rstr(rng, {10: "0123456789", 16: "0123456789abcdefABCDEF", 8: "01234567", 2: "01"}[r], 20, 20), 1)
        yield rng.choice(("", "-") if signed(T) else ("",)) + pre + body

def read(tier, rng, work):
    big = tier == "thorough"
    T0 = FIXED + ["ll", "ull"]
    for T in T0:
        for s in longs(T, rng, 100 if big else 30):
            yield "parse %s %s %s" % (rng.choice(("ato", "atox", "from_chars")), T, hx(s))
            r = {"x": 16, "o": 8, "b": 2}.get(s.lstrip("-")[1:2], 10)
            yield "read %s %d %s" % (T, r, hx(s.lstrip("-")[0 if r == 10 else 2:]))
    small = strs(ALPHA, 4 if big else 3)
    fns = ["ato", "atox", "from_chars"]
    def par(f, T, s):
        return "%sparse %s %s %s" % ("!" if signed(T) and s[:1] == "+" else "", f, T, hx(s))
    for k, s in enumerate(small):
        for T in ("i8", "u64") if not big else T0:
            yield par(fns[k % 3], T, s)
        if k % 3 == 0: yield par("from_chars", "i64", s); yield par("ato", "u16", s)
        if k % 5 == 0: yield "parse from_chars ptr " + hx(s)
    for T in T0:
        for r in (10, 16, 8, 2):
            yield "!read %s %d x" % (T, r)
        for s in ["", "-", "+", "+1", "--1", "-+1", "+-1", "0x", "0b", "0o", "-0x", "-0b", "-0o", "0", "-0", "00", "-00", "000", "0x0", "-0x0", " 1", "1 ", "1\n", "\t1",
                  "1.0", "1e3", "0xg", "0x-1", "-0x-1", "0x+1", "0b2", "0o8", "0o9", "0x ", "x1", "b1", "-x1", "1-", "1_000", "0x1\0", "1\0", "\xb1", "0x\xe1", "0xG", "0X1F", "0B101", "0O17", "0xfF", "0x1x", "00x1", "-00x1"]:
            for f in fns:
                yield par(f, T, s)
        yield "parse ato %s n" % T
        for v in limits(T, rng, 200 if big else 30):
            for r in (10, 16, 8, 2):
                if r != 10 and not big and rng.random() < .4: continue
                yield par(rng.choice(fns), T, texts_of(v, r, rng))
                if v >= 0 and rng.random() < .5:
                    yield "read %s %d %s" % (T, r, hx(texts_of(v, r, rng).lstrip("-")[0 if r == 10 else 2:]))
    # one character of a well-formed number replaced by any other
    for c in ANY:
        for s in ("12%s4", "%s2", "1%s", "0x1%s", "0b1%s", "0o1%s", "0%s1", "-%s1", "0x%sf", "0%s12", "0%s123", "-0%s12", "-0%s", "00%s1", "123%s", "%s123", "-12%s4", "0x1%s2f", "0b1%s01", "0o1%s07", "-0x%s1", "-0b1%s", "-0o%s7", "1%s00"):
            t = s % c
            for T in ("i32", "u32"):
                yield par("ato", T, t)
        for r, s in ((10, "1%s3"), (16, "a%sF"), (8, "7%s7"), (2, "1%s0")):
            for T in ("u8", "i64", "u64", "i16"):
                yield "read %s %d %s" % (T, r, hx(s % c))
    for T in T0:
        vals = interesting(T, rng, 20)
        for _ in range(3000 if big else 400):
            s = texts_of(rng.choice(vals), rng.choice((10, 10, 16, 8, 2)), rng)
            for _ in range(rng.randint(1, 2)): s = mutated(s, rng) or "0"
            yield par(rng.choice(fns), T, s)
    for T in ("i8", "u8", "i16", "u16", "i32", "u64", "i64", "u32"):
        for v in interesting(T, rng, 60 if big else 12):
            for r in (10, 16, 8, 2):
                yield "roundtrip %s %d %s" % (T, r, val(v))
    for v in interesting("ptr", rng, 10):
        if v >= 0 or v > -(1 << 63):
            yield "parse atox ptr %s" % hx(texts_of(v, 16, rng))
            yield "parse from_chars ptr %s" % hx(texts_of(v, 16, rng))
    yield from boolchar(False)

def boolchar(firsts):
    words = ["true", "false", "True", "False", "TRUE", "FALSE", "tRUE", "t", "f", "yes", "no", "on", "off", "tru", "truee", "true ", " true", "fals", "falsee",
             "0", "1", "2", "-1", "00", "01", "10", "0x0", "0x1", "0x", "-0", "", "00000", "0b0", "0o0", "4294967296", "4294967297", "truefalse"]
    for w in words:
        if not firsts:
            yield "bool " + hx(w)
            continue
        for pre in ("", " ", "\n\t", "  "):
            for post in ("", " ", " x", "\n0", ","):
                yield "boolfirst " + hx(pre + w + post)
    if firsts:
        yield "boolfirst n"; yield "charfirst n"
    else:
        yield "bool n"; yield "char n"
    for s in strs("ab ", 3) + ANY + [" " + c for c in "ab "]:
        yield ("charfirst " if firsts else "char ") + hx(s)
    for k in range(len(words)):
        for i in range(len(words[k])):
            w = words[k][:i] + chr(ord(words[k][i]) ^ 0x20) + words[k][i + 1:]
            if w[:1] != "+":
                yield ("boolfirst " if firsts else "bool ") + hx(w)

def first(tier, rng, work):
    big = tier == "thorough"
    T0 = FIXED + ["ll", "ull"]
    for T in T0:
        for s in longs(T, rng, 60 if big else 15):
            yield "first %s %s %s" % (rng.choice(("ato", "from_chars")), T, hx(s + rng.choice(("", " ", ",7", "z"))))
        for n in (10, 100, 127, 128, 200, 255, 256, 257, 300, 600):
            ws = "".join(rng.choice(" \t\n\r") for _ in range(n)) if rng.random() < .5 else " " * n
            v = rng.choice(interesting(T, rng, 1))
            yield "first %s %s %s" % (rng.choice(("ato", "from_chars")), T, hx(ws + texts_of(v, rng.choice((10, 16, 8, 2)), rng) + rng.choice(("", " ", ",", "x"))))
    for k, s in enumerate(strs("01x-+ ,a", 4 if not big else 5)):
        for T in (("i32", "u32") if not big else ("i8", "u64", "i64")):
            yield "first %s %s %s" % (("ato", "from_chars")[k % 2], T, hx(s))
        if k % 7 == 0: yield "first from_chars ptr " + hx(s)
    delims = " \n\r\t,;])}\0"
    others = "aZ.[({:/-+_\"'\x01\x80"
    for T in T0:
        vals = interesting(T, rng, 20 if big else 3)
        for v in rng.sample(vals, min(len(vals), 300 if big else 40)):
            for r in (10, 16, 8, 2):
                t = rng.choice(["", "", " ", "\n", "\t\r ", "  \n"]) + texts_of(v, r, rng)
                for tail in ("", rng.choice(delims), rng.choice(delims) + rng.choice(["1", "x", " "]), rng.choice(others)):
                    yield "first %s %s %s" % (rng.choice(["ato", "from_chars"]), T, hx(t + tail))
        for s in ("", " ", "-", "+", "+1", " +1", "-+1", "- 1", "0x", "-0x", "0xg", " 0b", "0b2", "0o8", "x", "a1", "1a", ".1", "1.5", "1e5", "-", "--1", "\0001", "1\0002"):
            yield "first ato %s %s" % (T, hx(s))
            yield "first from_chars %s %s" % (T, hx(s))
        yield "first ato %s n" % T
    for T in T0:
        vals = interesting(T, rng, 20)
        for _ in range(3000 if big else 300):
            s = rng.choice(["", " ", "\n"]) + texts_of(rng.choice(vals), rng.choice((10, 10, 16, 8, 2)), rng) + rng.choice(["", ",", " 1", "]"])
            for _ in range(rng.randint(1, 2)): s = mutated(s, rng) or "0"
            yield "first %s %s %s" % (rng.choice(["ato", "from_chars"]), T, hx(s))
    for c in ANY:
        for s in ("0%s12", "-0%s1", "1%s2,3", "12%s", "%s12", "12%s34", "0x1%s", "-1%s", " %s1"):
            yield "first ato i32 " + hx(s % c); yield "first ato u32 " + hx(s % c)
    for v in interesting("ptr", rng, 5):
        if v > -(1 << 63):
            t = texts_of(v, 16, rng)
            for pre, post in (("", ""), (" ", " 1"), ("\n", ","), ("", "z")):
                yield "first from_chars ptr " + hx(pre + t + post)
    yield from boolchar(True)
    for s in ("", "z", "-", "0x", "+0x1", " "):
        yield "first from_chars ptr " + hx(s)

def overflow(tier, rng, work):
    big = tier == "thorough"
    T0 = FIXED + ["ll", "ull"]
    for T in T0:
        for v in limits(T, rng, 400 if big else 120):
            for r in (10, 16, 8, 2):
                s = texts_of(v, r, rng)
                if not signed(T) and v <= 0 and s[0] == "-": s = "-1"
                yield "overflows %s %s" % (T, hx(s))
                if T in FIXED: yield "checked %s %s" % (T, hx(s))
    # many zeros
    for T in T0:
        for s in longs(T, rng, 150 if big else 50):
            yield "overflows %s %s" % (T, hx(s))
            if T in FIXED: yield "checked %s %s" % (T, hx(s))
    for T in T0:
        for s in ("0", "00", "000", "0" * 25, "0x0", "0x00", "0b000", "0o00", "0X" + "0" * 40, "0b" + "0" * 70, "0o" + "0" * 30, "0" * 30 + "1", "0x" + "0" * 20 + "7f", "0b" + "0" * 70 + "1", "0o" + "0" * 30 + "17"):
            for t in ((s, "-" + s) if signed(T) else (s,)):
                yield "overflows %s %s" % (T, hx(t))
                if T in FIXED: yield "checked %s %s" % (T, hx(t))
    # all 8-bit spellings and every 3/4-digit number around the limits
    for T in ("i8", "u8"):
        for v in range(-300 if T == "i8" else 0, 1100):
            for r in (10, 16, 8, 2):
                yield "overflows %s %s" % (T, hx(texts_of(v, r, rng)))
                if r == 10: yield "checked %s %s" % (T, hx(texts_of(v, r, rng)))
    for T in ("i16", "u16"):
        for v in list(range(32700, 32840)) + list(range(65500, 65600)) + list(range(99900, 100100)) + rng.sample(range(200000), 2000 if big else 300):
            for r in (10, 8, 16):
                yield "overflows %s %s" % (T, hx(texts_of(v, r, rng)))
                if signed(T): yield "overflows %s %s" % (T, hx(texts_of(-v, r, rng)))
    # digit strings of every length
    for T in T0:
        for r, ds in ((10, "0123456789"), (16, "0123456789abcdefABCDEF"), (8, "01234567"), (2, "01")):
            for n in range(1, ndig(rng_of(T)[1], r) + 4):
                for _ in range(12 if big else 4):
                    body = rstr(rng, ds, n, n)
                    pre = {10: "", 16: "0x", 8: "0o", 2: "0b"}[r]
                    for sg in ("", "-") if signed(T) else ("",):
                        yield "overflows %s %s" % (T, hx(sg + pre + body))
                        if T in FIXED: yield "checked %s %s" % (T, hx(sg + pre + body))
    for T in FIXED:
        for s in ("12a", "0xg", "1 ", "0b2", "0o8", "0x", "abc", "-", "", "-x", "1-", " "):
            if signed(T) or not s.startswith("-"):
                yield "checked %s %s" % (T, hx(s))
