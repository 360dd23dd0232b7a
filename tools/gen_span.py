"""Histories of spans, relations of spans, size conversions, blobs."""
import itertools
from gen_mem import from_spec
from vf import hx

def sim(rng, cls, N, L, bad):
    """a valid random history; optionally its last step must be refused"""
    off, size, cap, org = None, 0, 0, 0
    st = []
    cur = [-1, 0, 0, 0]
    def r(n):
        return rng.choice((0, n, rng.randrange(n + 1), max(0, n - 1), min(1, n)))
    for q in range(L):
        off, size, cap, org = cur
        k = rng.choice("NAsssSggGfflRRTTLLCokcwwFBDW" if q else "NNNNA")
        last = bad and q == L - 1
        if last:
            k = rng.choice("sSgGflRTLwFB")
            hi = size + rng.randrange(1, 5)
            if k == "s": st.append(rng.choice(["s:%d:%d" % (hi, 0), "s:%d:%d" % (r(size), hi), "s:%d:-1" % rng.randrange(size + 1), "s:%d:%d" % (size, 1)])); return st
            if k == "S": st.append("s:%d" % hi); return st
            if k == "g": st.append(rng.choice(["g:%d:%d" % (r(size), hi), "g:%d:%d" % (hi, hi), "g:%d:%d" % (size, size - 1) if size else "g:%d:%d" % (hi, hi)])); return st
            if k == "G": st.append("g:%d" % hi); return st
            if k in "flTL": st.append("%s:%d" % (k, hi)); return st
            if k == "R": st.append("R:%d" % ((size if cls == "span" else cap) + rng.randrange(1, 4))); return st
            if k == "w": st.append("w:%d:7" % (size + rng.randrange(0, 3))); return st
            st.append("R:0")
            st.append("%s:7" % k)
            return st
        if k in "NA":
            o = r(N); c = r(N - o); z = c if cls == "span" or rng.random() < .2 else r(c)
            if k == "A" and cls == "rsl" and rng.random() < .5:
                g = r(o)
                st.append("A:%d:%d:%d:%d" % (o, z, c, g)); cur = [o, z, c, g]
            elif z == c or cls == "span":
                st.append("%s:%d:%d" % (k, o, z)); cur = [o, z, z, 0]
            else:
                st.append("%s:%d:%d:%d" % (k, o, z, c)); cur = [o, z, c, 0]
        elif k in "sSgGflL":
            f = r(size); n = r(size - f)
            if k == "s": st.append("s:%d:%d" % (f, n))
            elif k == "S": st.append("s:%d" % f); n = size - f
            elif k == "g": st.append("g:%d:%d" % (f, f + n))
            elif k == "G": st.append("g:%d" % f); n = size - f
            elif k == "f": n = f; f = 0; st.append("f:%d" % n)
            elif k == "l": n = f; f = size - n; st.append("l:%d" % n)
            else:
                if f == size: continue
                n = size - f; st.append("L:%d" % f)
            cur = [off if off < 0 else off + f, n, n if cls == "span" else cap - f, org + f]
        elif k == "R":
            n = r(size if cls == "span" else cap); st.append("R:%d" % n)
            cur = [off, n, n if cls == "span" else cap, org]
        elif k == "T":
            n = r(size)
            if n == size: continue
            st.append("T:%d" % n); cur = [off, size - n, size - n if cls == "span" else cap, org]
        elif k == "C": st.append("C"); cur = [off, 0, 0 if cls == "span" else cap, org]
        elif k == "o" and cls == "rsl":
            st.append("o:%d" % rng.randrange(3)); cur = [off if off < 0 else off - org, cap + org, cap + org, 0]
        elif k in "kc": st.append(k)
        elif k == "w" and size: st.append("w:%d:%d" % (rng.choice((0, size - 1, rng.randrange(size))), rng.randrange(1, 60000)))
        elif k == "W" and cap and cls != "span": st.append("W:%d:%d" % (cap - 1, rng.randrange(1, 60000)))
        elif k in "FB" and size: st.append("%s:%d" % (k, rng.randrange(1, 60000)))
        elif k == "D" and rng.random() < .2: st.append("D"); cur = [-1, 0, 0, 0]
    return st

def spans(tier, rng, work):
    big = tier == "thorough"
    for c in ("span", "rs", "rsl"):
        yield from from_spec("GenSpan", "GenSpan_%s.cfg" % c, work)
        if big:
            yield from from_spec("GenSpan", "GenSpan_%sT.cfg" % c, work)
    for c in ("span", "rs", "rsl"):
        for I in ("size", "int", "u8", "i8"):
            for _ in range(2500 if big else 500):
                bad = rng.random() < .25
                N = rng.choice((0, 1, 2, 5, 9, 20, 100 if I != "u8" else 200, 120))
                st = sim(rng, c, N, rng.randrange(2, 14), bad)
                yield "%sspan %s %s %d %s" % ("!" if bad else "", c, I, N, " ".join(st))
            # trimming everything
            for n in (0, 1, 3):
                for s in ("T:%d" % n, "L:%d" % n):
                    yield "%sspan %s %s 4 N:1:%d %s" % ("!" if I == "size" else "", c, I, n, s)
        # very large arrays, of which only the addresses are used
        for I in ("size", "int"):
            for _ in range(600 if big else 120):
                bad = rng.random() < .2
                N = rng.choice((100001, 131072, 1 << 24, 10 ** 9))
                st = [x for x in sim(rng, c, N, rng.randrange(2, 14), bad) if x[0] not in "wWFB"]
                if bad and st and st[-1] == "R:0": bad = False
                if st: yield "%sspan %s %s %d %s" % ("!" if bad else "", c, I, N, " ".join(st))
            for N in (1 << 17, 10 ** 9):
                for _ in range(60 if big else 25):
                    a, b = sorted((rng.randrange(N), rng.choice((0, N, rng.randrange(N))))), sorted((rng.randrange(N), rng.choice((0, N, rng.randrange(N)))))
                    if rng.random() < .4: a[1] = rng.choice((b[0], b[1])); a.sort()
                    if rng.random() < .3: b = sorted((rng.randrange(a[0], a[1] + 1), rng.randrange(a[0], a[1] + 1)))
                    yield "srel %s %s %d %d %d %d %d" % (c, I, N, a[0], a[1] - a[0], b[0], b[1] - b[0])
        for I in ("size", "int", "u8"):
            for N in (0, 1, 2, 3, 4) if I == "size" else (3,):
                v = [(o, s) for o in range(N + 1) for s in range(N - o + 1)] + [(-1, 0), (1000, 2)]
                for a in v[:-1]:
                    for b in v:
                        if (a, b) != ((1000, 2), (1000, 2)):
                            yield "srel %s %s %d %d %d %d %d" % (c, I, N, a[0], a[1], b[0], b[1])
    for c in ("span", "rs", "rsl"):
        for w in ("array5", "array1", "assign5", "assign1"):
            for I in ("size", "int", "u8"):
                yield "smake %s %s %s" % (c, I, w)
        for w in ("list0", "list1", "list3", "lassign1", "lassign3"):
            yield "smake %s size %s" % (c, w)
        for d in ("span", "rs", "rsl"):
            for N in (0, 3, 200):
                v = [(-1, 0), (0, 0), (N, 0), (0, N), (N // 2, N - N // 2), (0, N // 2), (min(1, N), max(0, N - 1))]
                for a in v:
                    for b in v:
                        yield "ssame %s %s %d %d %d %d %d" % (c, d, N, a[0], a[1], b[0], b[1])
    # order
    seqs = [bytes(p) for n in range(4) for p in itertools.product((0, 1, 255), repeat=n)]
    pairs = [(a, b) for a in seqs for b in seqs]
    cl = [(c, I) for c in ("span", "rs", "rsl") for I in ("size", "int", "u8")]
    for x in cl:
        for y in cl:
            if x == y == ("span", "size") or big:
                ps = pairs
            else:
                ps = rng.sample(pairs, 60)
            for a, b in ps:
                yield "scmp %s %s %s %s %s %s" % (x[0], x[1], y[0], y[1], hx(a), hx(b))
    for a, b in ((b"\1" * 255, b"\1" * 300), (b"\1" * 300, b"\1" * 255), (b"\1" * 44, b"\1" * 300), (b"\1" * 300, b"\1" * 44), (b"\1" * 300, b"\1" * 300), (b"", b"\1" * 256), (b"\1" * 256, b"")):
        for x in cl:
            for y in cl:
                if (x[1] != "u8" or len(a) < 256) and (y[1] != "u8" or len(b) < 256):
                    yield "scmp %s %s %s %s %s %s" % (x[0], x[1], y[0], y[1], hx(a), hx(b))
    # size conversions
    T = {"i8": 127, "u8": 255, "i16": 32767, "u16": 65535, "i32": 2**31 - 1, "u32": 2**31 - 1, "i64": 2**31 - 1, "u64": 2**31 - 1}
    for o in T:
        for i in T:
            for v in sorted({0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 1000000, 2**31 - 1} | {rng.randrange(2**31) for _ in range(4)}):
                if v <= T[i]:
                    yield "%sszconv %s %s %d" % ("!" if v > T[o] else "", o, i, v)
    for b in ("blob", "cblob"):
        for w in ("dbl", "chr", "arr", "parr"):
            yield "%s %s 0" % (b, w)
        for n in range(0, 6):
            for w in ("ptr", "pptr", "void"):
                yield "%s %s %d" % (b, w, n)
