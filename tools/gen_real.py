"""Case generators for real <-> text conversions (inputs only)."""
import struct
from fractions import Fraction
from vf import hx
from gen_substr import strs

FMT = {"d": (52, 1023, 2047, ">d", 8), "f": (23, 127, 255, ">f", 4)}
def mk(T, sign, E, m):
    pb, bias, emax, _, n = FMT[T]
    return ((sign * (emax + 1) + E << pb) + m).to_bytes(n, "big")
def value(T, b):
    """exact value of finite nonnegative bits"""
    pb, bias, emax, _, n = FMT[T]
    x = int.from_bytes(b, "big") & ((1 << (n * 8 - 1)) - 1)
    E, m = x >> pb, x & ((1 << pb) - 1)
    return Fraction(m + ((1 << pb) if E else 0)) * Fraction(2) ** (max(E, 1) - bias - pb)
def exact(fr):
    """exact decimal digits and exponent of a dyadic rational"""
    k = 0
    d = fr.denominator
    while d > 1:
        d //= 2; k += 1
    return fr.numerator * (5 ** k), -k          # N * 10^-k

def interesting(T, rng, n):
    pb, bias, emax, _, nb = FMT[T]
    S = []
    full = (1 << pb) - 1
    for E in (0, 1, 2, bias - 30, bias - 4, bias - 1, bias, bias + 1, bias + 3, bias + pb - 1, bias + pb, bias + pb + 1, bias + 64, emax - 2, emax - 1):
        for m in (0, 1, 2, full, full - 1, 1 << (pb - 1), (1 << (pb - 1)) + 1):
            S.append((E, m))
    for _ in range(n):
        S.append((rng.randrange(emax), rng.getrandbits(pb)))
        S.append((bias + rng.randint(-8, 40), rng.getrandbits(pb)))
        S.append((bias + rng.randint(-8, 12), rng.getrandbits(6) << (pb - 6)))      # short binary fractions
        # decimal fractions and integers, which users write
        x = rng.choice([rng.randint(0, 10 ** rng.randint(1, 9)), rng.randint(0, 99999) / 10 ** rng.randint(0, 6),
                        10 ** rng.randint(0, 22), rng.randint(1, 9) * 10.0 ** -rng.randint(1, 9), rng.randint(1, 999) + .5,
                        float("9" * rng.randint(1, 9)), float("0." + "9" * rng.randint(1, 9))])
        b = int.from_bytes(struct.pack(FMT[T][3], x), "big")
        S.append((b >> pb, b & full))
    seen, out = set(), []
    for E, m in S:
        b = mk(T, rng.random() < .3, E, m)
        if b not in seen:
            seen.add(b); out.append(b)
    return out

def write(tier, rng, work):
    big = tier == "thorough"
    for T in "df":
        pb, bias, emax, _, nb = FMT[T]
        specials = [mk(T, s, emax, m) for s in (0, 1) for m in (0, 1 << (pb - 1))] + [mk(T, s, 0, 0) for s in (0, 1)]
        vals = interesting(T, rng, 160 if big else 28)
        for b in specials:
            for fm in ("flt", "sci", "flx", "hex"):
                for p in (-1, 0, 3):
                    yield "rwrite toa %s %s %s %d" % (T, hx(b), fm, p)
            yield "rwrite to_chars %s %s flx -1" % (T, hx(b))
        for k, b in enumerate(vals):
            mag = float(value(T, b))
            yield "rwrite %s %s %s flx -1" % (("to_chars", "xtoa", "sub", "toa")[k % 4], T, hx(b))
            fn = ("toa", "fmt", "xtoap")[k % 3]
            for fm in ("flt", "sci", "flx", "hex"):
                ps = [-1, 0, 1, 2, 6] if k % 4 == 0 or big else [rng.choice([-1, 0, 1])]
                ps.append(rng.randint(2, 20 if fm != "hex" else 13))
                for p in ps:
                    if fm == "flt" and not (1e-40 < mag < 1e40) and k % 6: continue
                    yield "rwrite %s %s %s %s %d" % (fn, T, hx(b), fm, p)
            if k % 5 == 0:
                yield "rwrite toa1 %s %s flx %d" % (T, hx(b), rng.randint(0, 17))
        # ties and carries at the requested precision
        for x, p in ((.5, 0), (1.5, 0), (2.5, 0), (.125, 2), (.375, 2), (.25, 1), (.75, 1), (9.5, 0), (99.5, 0), (.0625, 3), (9.96875, 1), (999.75, 1),
                     (.000099951171875, 2), (95, 0), (0.00009999, 3), (99999.5, 5), (999999.5, 6), (1e5, 5), (123456, 6), (1234567, 6), (0.0001, 1), (0.00001, 1)):
            b = struct.pack(FMT[T][3], x)
            for fm in ("flt", "sci", "flx"):
                for pp in (p, p + 1):
                    yield "rwrite fmt %s %s %s %d" % (T, hx(b), fm, pp)
        for b in vals[:: 1 if big else 3] + specials:
            for f in ("flx", "sci", "hex"):
                yield "rtrip %s %s %s" % (f, T, hx(b))
    for v in (1e300, 1.7976931348623157e308, 5e-324, 2.2250738585072014e-308, 123456789.123456789):
        for fm, p in (("flt", -1), ("flt", 0), ("flt", 10), ("sci", 100), ("flx", 50), ("flx", 400), ("flt", 1080)):
            yield "rwrite fmt d %s %s %d" % (hx(struct.pack(">d", v)), fm, p)

def spell(rng, N, e, neg=False):
    """some spelling of N * 10^e"""
    ds = str(N)
    k = rng.randint(0, 3)
    if k == 0:
        t = ds + "e%d" % e
    elif k == 1:
        c = rng.randint(0, len(ds))
        t = ds[:c] + "." + ds[c:]
        if c == 0 and len(ds) == 0: t = "0."
        x = e + len(ds) - c
        t += rng.choice(["e%d", "E%+d", "e%+03d"]) % x if x or rng.random() < .3 else ""
    elif k == 2 and -60 < e <= 0:
        ds = ds.rjust(-e + 1, "0")
        t = ds[:len(ds) + e] + ("." + ds[len(ds) + e:] if e < 0 else rng.choice(["", "."]))
    else:
        z = rng.randint(0, 5)
        t = "0" * rng.randint(0, 3) + ds + "0" * z + "e%d" % (e - z)
    return ("-" if neg else "") + t

def hexspell(rng, T, b):
    v = value(T, b)
    pb = FMT[T][0]
    if v == 0: return "0x0p+0"
    N, k = v.numerator, v.denominator.bit_length() - 1     # N * 2^-k
    while N % 2 == 0 and N: N //= 2; k -= 1
    # choose a number of fractional hex digits
    nf = rng.randint(0, 4)
    N2, ex = N, -k
    sh = rng.randint(0, 3)
    if N.bit_length() + sh <= pb + 1: N2 <<= sh; ex -= sh
    h = "%x" % N2
    nf = min(nf, len(h))
    t = h[:len(h) - nf] + ("." + h[len(h) - nf:] if nf else rng.choice(["", "."]))
    ex += 4 * nf
    # the same value with more room in the digits than in the exponent, and the other way round
    if rng.random() < .3:
        z = rng.choice((1, 2, 3, 10, 20))
        t, ex = (t.replace(".", "") + "0" * z, ex - 4 * z - 4 * nf) if rng.random() < .5 else ("0." + "0" * (z - 1 if z > 1 else 0) + h, ex - 4 * nf + 4 * (len(h) + (z - 1 if z > 1 else 0)))
    t = "0x" + t + ("p%+d" % ex if ex or rng.random() < .5 else "")
    return t.upper().replace("0X", rng.choice(["0x", "0X"])) if rng.random() < .3 else t

def texts(tier, rng, T):
    big = tier == "thorough"
    pb, bias, emax, pk, nb = FMT[T]
    vals = interesting(T, rng, 500 if big else 60)
    vals = [bytes([b[0] & 127]) + b[1:] for b in vals]
    out = []
    for b in vals:
        fr = value(T, b)
        x = struct.unpack(pk, b)[0]
        neg = rng.random() < .3
        s = repr(x) if T == "d" else "%.9g" % x
        out.append(("-" if neg else "") + s)
        out.append("%.*e" % (rng.randint(0, 18), x))
        if rng.random() < .5: out.append(("-" if neg else "") + hexspell(rng, T, b))
        # exactly halfway to the next value, and just off it
        nxt = (int.from_bytes(b, "big") + 1).to_bytes(nb, "big")
        if int.from_bytes(nxt, "big") >> pb < emax:
            h = (fr + value(T, nxt)) / 2
        else:
            h = fr + Fraction(2) ** (emax - 1 - bias - pb) / 2
        if big or rng.random() < .35 or fr == 0:
            N, e = exact(h)
            if len(str(N)) < 800:
                out.append(spell(rng, N, e, neg))
                out.append(spell(rng, N * 10 + 1, e - 1, neg))
                out.append(spell(rng, N * 10 - 1, e - 1, neg))
        # 19 to 40 digits of a nearby real
        N, e = exact(h)
        d = rng.randint(17, 40)
        ds = str(N)
        if len(ds) > d:
            out.append(spell(rng, int(ds[:d]) + rng.randint(-1, 1), e + len(ds) - d, neg))
    for _ in range(2500 if big else 300):
        N = rng.getrandbits(rng.randint(1, 90))
        e = rng.choice([rng.randint(-30, 30), rng.randint(-5, 5), rng.randint(-345, 310) if T == "d" else rng.randint(-60, 45)])
        out.append(spell(rng, N, e, rng.random() < .4))
    out += ["0", "-0", "0.0", "-0.0", "0e0", "0e400", "-0e-400", "1e400", "-1e400", "1e-400", "1e99999999999", "1e-99999999999", "0e99999999999",
            "1.7976931348623157e308", "1.7976931348623158e308", "1.7976931348623159e308", "179769313486231580793" + "0" * 288, "4.9e-324", "2.4e-324", "2.5e-324", "3e-324",
            "2.2250738585072011e-308", "2.2250738585072012e-308", "3.4028235e38", "3.4028236e38", "3.5e38", "1.4e-45", "7e-46", "8e-46", "9007199254740993", "9007199254740992", "9007199254740991",
            "16777217", "16777216.5", "1" + "0" * 30, "." + "0" * 30 + "1", "0" * 50 + "1", "1." + "0" * 60, "1." + "0" * 60 + "1", "." , "-.", "-", "e5", ".e5", "-e5", "1e", "1e+", "1e-", "1.e", "1.5e5.5",
            "1e5e5", "1..5", "1.5.5", "1,5", "1_000", "--1", "-+1", "+1.5", "+-1", "1-", "1+", "1e+-5", "0x", "0x.", "0xp1", "0x1p", "0x1p+", "0x1.8", "0x.8", "0x.8p+1", "0x1.8p+1", "-0x1.8p-1", "0X1.8P+1",
            "0x1.8p3", "0xap+0", "0xA.Bp-4", "0x1.fffffffffffffp+1023", "0x0.0000000000001p-1022", "0x1p-1022", "0x1p-1074", "0x1p+1023", "0x1p+1024", "0x1p+2000", "0x1p-2000", "0x1p+32767", "0x1p+32768", "0x1p-32768", "0x1p+65536", "0x1p+65537", "-0x1p+65537", "0x1p-65536", "0x1p+4294967296", "0x1p0x10", "0x1p+99999999999999999999", "0x1.8p+1 ", "0x1.8g", "0xg", "0x1.8.8", "0x-1", "-0x", "0x1p+1x", "0b101", "0o17", "0b1.1p+1",
            "0x00001.8000p+0001", "0x0", "0x0.0p+0", "0x10", "0xff", "0xFF.ff", "0x1e5", "0x1e+5",
            "inf", "-inf", "infinity", "-infinity", "nan", "-nan", "INF", "-Inf", "NaN", "Infinity", "infinit", "infi", "inf ", "infx", "in", "i", "nanx", "na", "nan(1)", "nano", ".inf", "-.inf", ".nan",
            "1 ", "1.5\t", "1.5 2", "1.5\0", "\x001", "1.5f", "1.5d", "1.5L", "0.1e1x", "1e5 ", "1e5,", "\u00a01"]
    # hexadecimal: around the largest, the smallest and half of the smallest value, split in all ways between digits and exponent
    top, low = (1023, -1074) if T == "d" else (127, -149)
    for q in (top, top + 1, top - 1, low, low - 1, low - 2, low + 1, low + pb, low + pb - 1):
        for m in (1, 2, 3, 5, 7, (1 << pb) | 1, (2 << pb) - 1, (1 << (pb + 1)) - 2):
            for k in rng.sample((-9, -5, -1, 0, 1, 3, 6, 12), 8 if big else 3):
                x = q - (m.bit_length() - 1 if q >= top - 1 else rng.choice((0, m.bit_length() - 1)))
                h = "%x" % m
                t = "0x" + h + "0" * k if k >= 0 else "0x0." + "0" * (-k - 1) + h
                x = x - 4 * k if k >= 0 else x + 4 * (len(h) - k - 1)
                out.append(rng.choice(("", "-")) + t + "p%+d" % x)
    # few digits far behind or before the point, made up for by the power
    for _ in range(150 if big else 50):
        h = "%x" % rng.getrandbits(rng.choice((1, 4, 8, 20, pb)))
        z = rng.randint(0, (127 if T == "d" else 15) - len(h)) if T == "d" else rng.randint(0, max(0, 15 - len(h)))
        tail = "0" * rng.choice((0, 0, 1, 5))
        if rng.random() < .6: tx, x = "0x%s.%s%s%s" % (rng.choice(("0", "0", "00", "")), "0" * z, h, tail), 4 * (z + len(h)) + rng.randint(-60, 60)
        else: tx, x = "0x%s%s%s" % (h, "0" * z, rng.choice(("", ".", ".0", ".000"))), -4 * z + rng.randint(-60, 60)
        if tx.startswith("0x.") and tx.endswith("."): continue
        out.append(rng.choice(("", "-")) + tx + "p%+d" % x)
    # halfway, and a digit that decides far beyond the digits that are ever needed
    lim = 769 if T == "d" else 114
    m = (1 << (pb + 1)) + 1
    for k in (range(8) if big else range(3)):
        t = m * 2 ** rng.choice((0, 1, 3, rng.randint(0, 60)))
        if rng.random() < .4: t += 2 * (t // m) * rng.choice((1, 2, 5)) # the even neighbour is above
        D = str(t)
        for z in (lim - len(D) + x for x in rng.sample((-9, -8, -2, -1, 0, 1, 2, 7, 8, 9, 40), 11 if big else 4)):
            for c in ("", "1", "0" * rng.choice((1, 7, 8, 9)), "0" * rng.choice((7, 8, 12)) + "1"):
                out.append("%s.%s%s" % (D, "0" * z, c))
                out.append("%s%s%se-%d" % (D, "0" * z, c, z + len(c)))
                if k == 0: out.append("%s%s.%se-%d" % (D, "0" * z, c, z))
                if k == 0: out.append("0.%s%s%s%se%d" % ("0" * 5, D, "0" * z, c, 5 + len(D)))
    out += ["0x0p%s" % x for x in ("0", "1023", "1024", "5000", "-5000", "32767", "-32767")]
    return out

def read(tier, rng, work):
    big = tier == "thorough"
    ch = "01.5e-+xpE"
    for f, T, n in (("ato", "d", 5 if big else 4), ("ato", "f", 4 if big else 3)):
        for s in strs(ch, n):
            yield "%srread %s %s %s" % ("!" if not s else "", f, T, hx(s))
    for T in "df":
        for s in ("", " 1", "\t1.5", "\n2", "\r0"):
            yield "!rread ato %s %s" % (T, hx(s))
        ts = texts(tier, rng, T)
        for k, t in enumerate(ts):
            f = ("ato", "atox", "from_chars")[k % 3]
            yield "rread %s %s %s" % (f, T, hx(t))
        for t in rng.sample(ts, min(len(ts), 1500 if big else 250)):
            if len(t) > 60: continue
            c = list(t)
            k = rng.randint(0, 2)
            i = rng.randint(1 if k else 0, len(c))
            if k == 0: c.insert(i, chr(rng.randrange(256)))
            elif c and i < len(c): c[i] = chr(rng.randrange(256))
            else: c.append(chr(rng.randrange(256)))
            s = "".join(c)
            if s and s[0] not in " \t\n\r":
                yield "rread %s %s %s" % ("ato", T, hx(s))
        for base in ("1.5", "1e5", "-2.25", "0x1.8p+1", "inf"):
            for i in range(len(base) + 1):
                for c in range(256):
                    if i == 0 and c in (32, 9, 10, 13): continue
                    if not big and T == "f" and c % 3: continue
                    yield "rread ato %s %s" % (T, hx(base[:i].encode() + bytes([c]) + base[i:].encode()))

def first(tier, rng, work):
    big = tier == "thorough"
    for T, n in (("d", 5 if big else 4), ("f", 4 if big else 3)):
        for s in strs("1.e- ,x+", n):
            yield "rfirst ato %s %s" % (T, hx(s))
    for T in "df":
        for s in ("n",):
            yield "rfirst ato %s n" % T
        ts = texts("quick", rng, T)
        if not big: ts = rng.sample(ts, 400)
        for t in ts:
            if len(t) > 100: continue
            pre = "".join(rng.choice(" \t\n\r") for _ in range(rng.choice([0, 0, 1, 2])))
            post = rng.choice(["", " ", ",", ";x", "]", ")", "}", "\t2", "\n", "x", "0", ".", "e", "e5", "-", "+", ":", "/", "\0", "%", " abc"])
            yield "rfirst %s %s %s" % (rng.choice(["ato", "from_chars"]), T, hx(pre + t + post))
        for c in range(256):
            yield "rfirst ato %s %s" % (T, hx(b"1.25" + bytes([c]) + b"7"))
            yield "rfirst ato %s %s" % (T, hx(bytes([c]) + b"1.25"))
