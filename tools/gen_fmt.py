"""Case generators for formatting, scanning and dumping (inputs only)."""
import itertools
from vf import hx
from gen_substr import strs, ANY, rstr as rstr0

def rstr(rng, A, n): return rstr0(rng, A, n, n)

def h(b): return (b.encode("latin-1") if isinstance(b, str) else bytes(b)).hex()

BASIC = ["s", "s61", "s6162c3", "S", "S7a7a00", "z", "z717273", "V", "V2d2d", "n", "w78", "i0", "i-1", "i12345", "i-2147483648", "i2147483647",
         "j-128", "j127", "l-9223372036854775808", "l9223372036854775807", "u65535", "U18446744073709551615", "h255", "h-1", "o8", "o-2147483648", "b5", "b-1",
         "d-42", "H4294967295", "P1234", "Z7:4", "Z-7:4", "Z123456:2", "Y255:6", "Y-1:1", "c65", "c0", "c255", "B0", "B1", "A0", "A1",
         "L5:46:(s6162)", "R5:46:(s6162)", "L1:46:(s6162)", "R1:46:(s6162)", "L2:46:(s6162)", "R2:46:(s6162)", "L0:46:(i-5)", "R6:48:(i-5)", "L6:48:(h255)", "R9:32:(A1)",
         "L4:45:(R2:43:(i7))", "R4:45:(L2:43:(s))", "R3:120:(n)", "L3:120:(z)"]
FEW = ["s", "s6162", "i-7", "c63", "R4:46:(i12)"]
FMTS = ["", "{}", "a{}", "{}b", "a{}b", "{}{}", "{} {}", "{}{}{}", "x{}y{}z{}w", "{", "}", "{{}", "{}}", "{{}}", "{ }", "no marks", "{}{", "{}}{", "}{", "}{}{", "{}{}{}{}{}{}", "ab{}{}cd{"]

def rarg(rng, depth=0):
    k = rng.choice("sSzVwnijluUhobdHPZYcBALR" if depth < 2 else "sSziluhZcA")
    if k in "sSVw": return k + h(rstr(rng, ANY, rng.randint(0, 9) if rng.random() < .95 else rng.choice((20, 31, 33, 64, 100))))
    if k == "z": return k + h(rstr(rng, "abcXYZ {}09-", rng.randint(0, 9)))
    if k == "n": return "n"
    if k == "j": return "j%d" % rng.randint(-128, 127)
    if k == "l": return "l%d" % (rng.getrandbits(rng.randint(1, 63)) * rng.choice((1, -1)))
    if k == "u": return "u%d" % rng.getrandbits(16)
    if k == "U": return "U%d" % rng.getrandbits(rng.randint(1, 64))
    if k == "P": return "P%d" % rng.getrandbits(rng.randint(1, 47))
    if k == "H": return "H%d" % rng.getrandbits(rng.randint(1, 32))
    if k in "ihobd": return "%s%d" % (k, rng.getrandbits(rng.randint(1, 31)) * rng.choice((1, -1)))
    if k in "ZY": return "%s%d:%d" % (k, rng.getrandbits(rng.randint(1, 31)) * rng.choice((1, -1)), rng.randint(0, 14))
    if k == "c": return "c%d" % rng.randint(0, 255)
    if k in "BA": return "%s%d" % (k, rng.randint(0, 1))
    return "%s%d:%d:(%s)" % (k, rng.randint(0, 14), rng.choice((32, rng.randint(33, 126))), rarg(rng, depth + 1))

def join(args): return ",".join(args) if args else "-"

def rfmt(rng):
    return "".join(rng.choice(["{}", "{}", "{}", "{", "}", "a", "bc", " ", "{ }", "-"]) for _ in range(rng.randint(0, 8)))

def calls(tier, rng):
    """mode, separator/format, arguments"""
    big = tier == "thorough"
    for a in BASIC:
        yield "cat", "-", [a]
        for b in (BASIC if big else BASIC[::3]):
            yield "cat", "-", [a, b]
        for s in ("c44", "s2c20", "s", "i0"):
            yield "sep", s, [a]
            for b in (BASIC if big else BASIC[::9]):
                yield "sep", s, [a, b]
        for f in FMTS:
            yield "fmt", hx(f), [a]
    for n in (0, 3, 4, 5):
        for args in itertools.islice(itertools.product(FEW, repeat=n), 0, None, 1 if n < 4 or big else 7):
            args = list(args)
            yield "cat", "-", args
            yield "sep", "c44", args
            if n <= 3 or big: yield "sep", "s3b5f", args
            for f in (FMTS if n <= 3 and (big or n == 0) else FMTS[3:9] + FMTS[-3:]):
                yield "fmt", hx(f), args
    for _ in range(6000 if big else 900):
        args = [rarg(rng) for _ in range(rng.choice((0, 1, 2, 3, 4, 5, 0, 1, 2, 3, 4, 5, 6, 8, 10)))]
        m = rng.choice(("cat", "sep", "fmt"))
        yield m, {"cat": "-", "sep": rarg(rng), "fmt": hx(rfmt(rng))}[m], args

def write(tier, rng, work):
    big = tier == "thorough"
    for nd in (0, 1, 5, 20, 70):
        yield "nulls %d" % nd
        for u in (0, 1, 7, 8, 255, 4096, 0xdeadbeef, (1 << 47) - 8, (1 << 63) - 1):
            yield "ptrs %d %d" % (u, nd)
        for T, b in (("i8", 8), ("u8", 8), ("i16", 16), ("u16", 16), ("i32", 32), ("u32", 32), ("i64", 64), ("u64", 64), ("ll", 64), ("ull", 64)):
            lo, hi = (0, 2 ** b - 1) if T[0] == "u" else (-2 ** (b - 1), 2 ** (b - 1) - 1)
            for v in {0, 1, 7, 8, 9, 10, 15, 16, 99, 100, hi, hi - 1, hi // 2, lo, lo // 2, lo + (T[0] != "u"), -1 if lo else 2} | {rng.randint(lo, hi) >> rng.randint(0, b - 1) for _ in range(20 if big else 4)}:
                yield "wrap %s %d %d" % (T, v, nd)
    for t in strs("a ", 5) + [rstr(rng, ANY, rng.randint(0, 20)) for _ in range(400 if big else 100)]:
        for n in sorted({0, 1, 2, 3, max(0, len(t) - 1), len(t), len(t) + 1, len(t) + 4}):
            yield "views %s %d" % (hx(t), n)
    for k in (0, 65, 255):
        yield "rawdef %d" % k
    k = 0
    for m, x, args in calls(tier, rng):
        k += 1
        base = "%s %s %s" % (m, x, join(args))
        # enough to hold everything in most calls
        yield "write %s %d" % (base, 12 if k % 2 else 36 if len(args) < 3 else 70)
        if k % 3 == 0 or big:
            yield "sub %s %d" % (base, rng.choice((0, 1, 2, 3, 5, 8, 13, 21, 60)))
        if k % 3 == 1 or big:
            yield "rs %s %d %s %s" % (base, rng.choice((0, 1, 2)), rng.choice(("string", "vector")), hx(rstr(rng, "qrs", rng.choice((0, 1, 5, 30, 60)))))
    for m, x, args in (("cat", "-", ["s616263"]), ("sep", "c44", ["i1", "i2"]), ("fmt", hx("<{}>"), ["i12"]), ("cat", "-", []), ("fmt", hx(""), ["s"]), ("cat", "-", ["s"])):
        for n in range(0, 7):
            yield "sub %s %s %s %d" % (m, x, join(args), n)
        for how in (0, 1, 2):
            for c in ("string", "vector"):
                for l in range(0, 8):
                    yield "rs %s %s %s %d %s %s" % (m, x, join(args), how, c, hx("qrstuvw"[:l]))
    # long results
    for _ in range(600 if big else 150):
        n = rng.choice((1, 2, 3, 4, 6, 8, 10))
        args = [rng.choice("sSVz") + h(rstr(rng, list("abcdXYZ0"), rng.choice((0, 1, 30, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 300)))) if rng.random() < .6 else rarg(rng) for _ in range(n)]
        if rng.random() < .2: args[0] = "%s%d:46:(%s)" % (rng.choice("LR"), rng.choice((64, 100, 128, 255, 256, 257)), rarg(rng, 1))
        m = rng.choice(("cat", "sep", "fmt"))
        f = "".join(rng.choice(["{}", "{}", "ab", "{", "}" , "c" * 40]) for _ in range(rng.randint(1, 16)))
        base = "%s %s %s" % (m, {"cat": "-", "sep": rng.choice(("c44", "s2c20", "s" + "2d" * 40)), "fmt": hx(f)}[m], join(args))
        for how in (0, 1, 2):
            yield "rs %s %d %s %s" % (base, how, rng.choice(("string", "vector")), hx("q" * rng.choice((0, 1, 40, 100, 300, 1000))))
        for cap in (rng.choice((64, 100, 128, 256)), 2000):
            yield "sub %s %d" % (base, cap)
    # thousands of characters
    for _ in range(24):
        n = rng.choice((1023, 1024, 1025, 3000, 4095, 4096, 4097, 5000))
        args = ["s" + h(rstr(rng, list("abcdXYZ0"), n)), rarg(rng)]
        m, x = rng.choice((("cat", "-"), ("sep", "c44"), ("fmt", hx("<{}|{}>"))))
        yield "rs %s %s %s %d %s %s" % (m, x, join(args), rng.choice((0, 1, 2)), rng.choice(("string", "vector")), hx("q" * rng.choice((0, 100, 4096, 4500, 7000))))
    for l in (4095, 4096, 4500, 5000, 6000):
        for how in (0, 1, 2):
            for m, x in (("cat", "-"), ("sep", "c44"), ("fmt", hx("<{}|{}>"))):
                yield "rs %s %s %s %d %s %s" % (m, x, join(["s" + h(rstr(rng, list("abcdXYZ0"), 5000)), "i7"]), how, rng.choice(("string", "vector")), hx("q" * l))
    # raw data
    for m in range(16):
        for al in (1, 2, 4, 8, 16):
            for d in (b"", b"a", b"abc", b"0123456789abcdef"):
                for n in sorted({0, 1, len(d), len(d) + 1, len(d) + al - 1, len(d) + al, len(d) + ((-m) % al), max(0, len(d) + ((-m) % al) - 1)}):
                    yield "raw %d %d %s %d" % (m, al, hx(d), n)
        yield "rawcat %d %d %d %d" % (m, rng.getrandbits(16), rng.getrandbits(60), rng.getrandbits(8))
    for n in (0, 1, 7):
        yield "blob " + hx("abcdefg"[:n])

TOK = ["1", "-12", "0", "x", "0x1f", "true", "0", ",", " ", "99999999999999999999", "-0b11", "abc", "False", "\t", "70000", "200", "-129"]
def read(tier, rng, work):
    big = tier == "thorough"
    seps = ["", " ", ",", ", ", "  ", "\n", "x", ";"]
    # texts made of tokens and separators
    texts = set(TOK) | {""}
    for a in TOK:
        for s in seps:
            for b in TOK[:: (1 if big else 2)]:
                texts.add(a + s + b)
    for _ in range(4000 if big else 700):
        texts.add("".join(rng.choice(TOK + seps) for _ in range(rng.randint(1, 7))))
    texts = sorted(texts)
    kinds = ["i", "u", "B", "c", "s", "w", "j", "l"]
    for t in texts:
        for k in rng.sample(kinds, 3):
            yield "unread cat - %s %s" % (k, hx(t))
        for _ in range(2 if big else 1):
            ks = "".join(rng.choice(kinds) for _ in range(rng.randint(2, 4)))
            yield "unread cat - %s %s" % (ks, hx(t))
            yield "unread sep %s %s %s" % (rng.choice("ccsi"), ks, hx(t))
    # written by format, read back with the same format
    vals = {"i": ["1", "-2147483648", "77", "0x1f"], "u": ["0", "65535", "65536"], "j": ["-128", "127", "255"], "l": ["-9223372036854775808", "18446744073709551615"],
            "B": ["0", "1", "true", "False", "2"], "c": ["q", " ", "\xff"], "s": ["word", "{}", "a,b"], "w": ["word", "a-rather-long-word-here"]}
    for f in ["{}", "{} {}", "{},{}", "a{} b{}", "<{}>", "({}, {})", "{} and {} and {}", "{}{}", "x", "", "{}{", "{}x{}", "{ }{}", "{}-{}"]:
        for _ in range(200 if big else 60):
            n = max(1, f.count("{}"))
            ks = "".join(rng.choice(kinds) for _ in range(n + rng.choice((0, 0, 0, 1))))
            vs = [rng.choice(vals[k]) for k in ks]
            t = f
            for v in vs:
                t = t.replace("{}", v, 1) if "{}" in t and v != "{}" else t
            t = t + rng.choice(["", "", "", " tail", "9", ","])
            if rng.random() < 0.2: t = t[:rng.randint(0, len(t))]
            if rng.random() < 0.2: t = rng.choice(("x", " ", "9")) + t
            yield "unread fmt %s %s %s" % (hx(f), ks[:4], hx(t))
    # many values
    for _ in range(1000 if big else 250):
        n = rng.choice((4, 5, 5, 7, 7))
        ks = "".join(rng.choice("iulBcj") for _ in range(n))
        vs = [rng.choice(vals[k]) for k in ks]
        sep = rng.choice((" ", ",", ";"))
        t = sep.join(vs) + rng.choice(("", "", " tail", ","))
        if rng.random() < .2: t = t[:rng.randint(0, len(t))]
        yield "unread sep c %s %s" % (ks, hx(t))
        fm = rng.choice((", ", " ", "-", " and ")); f = rng.choice(("", "<")) + fm.join(["{}"] * n) + rng.choice(("", ">", "}"))
        t = f
        for v in vs: t = t.replace("{}", v, 1)
        if rng.random() < .2: t = t[:rng.randint(0, len(t))]
        yield "unread fmt %s %s %s" % (hx(f), ks, hx(t))
        yield "unread cat - %s %s" % (ks, hx(rng.choice(("", " ")).join(vs)))

# typed arguments: D view, N array of three characters, G anything else
DARGS = ["Ds", "Ds6162", "Ns717273", "Gs", "Gs41", "Gs4142", "Gs414243", "Gi-12", "Gz7879"]
def dump(tier, rng, work):
    big = tier == "thorough"
    def modes(n):
        yield "cat", "-", 0
        yield "sep", "s2c", 1
        yield "sep", "s2c2d", 0
        yield "sep", "s", 0
        for f in {0: ["", "ab", "{}", "{"], 1: ["{}", "a{}", "{}b", "ab{}c", "none", "{}{}"], 2: ["{}{}", "a{}b{}c", "{}-", "{} {} {}"], 3: ["{}{}{}", "a{}b{}c{}d", "{}{}"]}[n]:
            yield "fmt", hx(f), 0
    for n in (0, 1, 2, 3):
        combos = list(itertools.product(DARGS, repeat=n))
        if n == 3: combos = combos[:: (1 if big else 7)]
        for args in combos:
            for m, x, sd in modes(n):
                for tpl in (0, 1):
                    for b in ((0, 1, 2, 3, 4) if n < 3 else (0, 1, 2, 3) if big else (rng.choice((0, 1)), rng.choice((2, 3)))):
                        yield "dump %d %d %s %s %s %d" % (tpl, sd, m, x, join(args), b)
    # every history of buffer sizes
    seqs = [s for L in range(1, 5) for s in itertools.product((0, 1, 2, 3), repeat=L)]
    small = [s for L in range(1, 4) for s in itertools.product((0, 1, 2, 3), repeat=L)]
    core = [["Gs4142", "Ds61", "Gs41"], ["Ds61", "Gs414243", "Ds62"], ["Gs41", "Gs4142", "Gs414243"], ["Gs414243", "Gs4142", "Gs41"], ["Gs4142", "Gs4343"],
            ["Gs", "Gs4142", "Ds"], ["Ns717273", "Gs4142", "Ns717274"], ["Ds61", "Ds62", "Ds63"], ["Gs414243"], ["Ds61"]]
    for args in core:
        for m, x, sd in modes(len(args)):
            for tpl in (0, 1):
                for s in (seqs if big else small[(tpl * 2) % 3::3] + rng.sample(seqs, 25)):
                    yield "resume %d %d %s %s %s %s" % (tpl, sd, m, x, join(args), " ".join(map(str, s)))
    for _ in range(20000 if big else 2500):
        n = rng.randint(1, 3)
        args = [rng.choice(DARGS + ["G" + rarg(rng)]) for _ in range(n)]
        m, x, sd = rng.choice(list(modes(n)))
        L = rng.randint(1, 8)
        top = rng.choice((3, 5, 12))
        yield "resume %d %d %s %s %s %s" % (rng.randint(0, 1), sd, m, x, join(args), " ".join(str(rng.randint(0, top)) for _ in range(L)))
    # more arguments, longer pieces
    for _ in range(6000 if big else 800):
        n = rng.choice((4, 5, 6))
        args = ["G" + (rarg(rng) if rng.random() < .7 else "s" + h(rstr(rng, list("abcd"), rng.choice((0, 1, 2, 30, 64, 100))))) for _ in range(n)]
        m, x, sd = rng.choice([("cat", "-", 0), ("sep", "s2c", 1), ("sep", "s2c2d", 0), ("sep", "s", 0), ("fmt", hx(rng.choice(("{}" * n, "a{}b{}" * n, "{} {} {}", "-{}" * (n + 1)))), 0)])
        top = rng.choice((3, 12, 40, 110))
        yield "dump %d %d %s %s %s %d" % (rng.randint(0, 1), sd, m, x, join(args), rng.randint(0, top))
        yield "resume %d %d %s %s %s %s" % (rng.randint(0, 1), sd, m, x, join(args), " ".join(str(rng.randint(0, top)) for _ in range(rng.randint(1, 9))))
    # pieces of hundreds of characters, which have to be written to the buffer
    for _ in range(600 if big else 120):
        n = rng.choice((1, 2, 3))
        args = [rng.choice(("G%s%d:46:(%s)" % (rng.choice("LR"), rng.choice((100, 127, 128, 129, 250, 255, 256, 257, 300, 500)), rarg(rng, 1)), "Gs" + h(rstr(rng, list("abcd"), rng.choice((128, 255, 256, 257, 400)))), rng.choice(DARGS))) for _ in range(n)]
        m, x, sd = rng.choice([("cat", "-", 0), ("sep", "s2c2d", 0), ("fmt", hx("a{}b" * n + "c" * rng.choice((0, 300))), 0)])
        top = [rng.choice((0, 50, 256, 300, 600)) for _ in range(rng.randint(1, 4))]
        yield "dump %d %d %s %s %s %d" % (rng.randint(0, 1), sd, m, x, join(args), rng.choice((255, 256, 300, 600)))
        yield "resume %d %d %s %s %s %s" % (rng.randint(0, 1), sd, m, x, join(args), " ".join(map(str, top)))
    for f in ("", "ab", "{}"):
        for s in small:
            yield "resume %d 0 fmt %s - %s" % (rng.randint(0, 1), hx(f), " ".join(map(str, s)))
