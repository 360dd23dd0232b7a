"""Names, values and bitmasks of the enumerations in d_enum.cpp."""
import itertools
from vf import hx

TAB = {
    "plain": (3, [((), "FOO"), ((0,), "BAR"), ((1,), "BAZ"), ((0, 2), "BAZAAR")], 0, 0),
    "cls": (2, [((), "Cls::FOO"), ((0,), "Cls::BAR"), ((1,), "Cls::FOOT")], 5, 0),
    "mask": (5, [((), "BM_NONE"), ((0,), "BM_FOO"), ((1,), "BM_BAR"), ((2,), "BM_BAZ"), ((0, 1), "BM_FOO_BAR"), ((0, 1, 2), "BM_FOO_BAR_BAZ"), ((4,), "BM_D4")], 0, 3),
    "mcls": (5, [((), "K::BM_NONE"), ((0,), "K::BM_FOO"), ((1,), "K::BM_BAR"), ((3,), "K::BM_BAZ"), ((0, 1), "K::BM_FOO_BAR")], 3, 6),
    "nonull": (8, [((0, 1), "FOO_BAR"), ((0,), "FOO"), ((1,), "BAR"), ((2,), "FOO2"), ((3,), "F"), ((7,), "x80")], 0, 0),
    "over": (4, [((0, 1), "AB"), ((1, 2), "BC"), ((2,), "C"), ((0,), "A")], 0, 0),
    "wide": (0, [((), "W_0"), ((0,), "W_b0"), ((31,), "W_b31"), ((32,), "W_b32"), ((63,), "W_b63"), ((31, 32), "W_mid"), ((7, 15, 62), "W_odd")], 0, 2),
    "many": (7, [(tuple(i for i in range(7) if k >> i & 1), "V%02d" % k) for k in range(80)], 0, 0),
}

def spell(t):
    _, syms, c, p = TAB[t]
    for _, n in syms:
        yield n
        if c: yield n[c:]
        if p: yield n[p:]

def enums(tier, rng, work):
    big = tier == "thorough"
    for t, (nb, syms, cls, pfx) in TAB.items():
        yield "syms " + t
        yield "offs " + t
        # names: all spellings, their parts, their extensions, others
        names = set(spell(t)) | {"", "?", "0", "foo"}
        for n in list(names):
            for i in range(len(n)):
                names |= {n[:i], n[i:], n[:i] + n[i + 1:], n[:i] + "x" + n[i + 1:], n[i:] + n[:i]}
            names |= {n + c for c in "_ x\0:|2"} | {c + n for c in "_ x:|2"} | {n + n, n.lower(), n + "\0" + n}
        for n in sorted(names):
            yield "name %s %s" % (t, hx(n))
        # values: all sets of bits
        if t == "wide":
            vals = [v for k in range(4) for v in itertools.combinations((0, 7, 15, 31, 32, 62, 63), k)] + [(0, 7, 15, 31, 32, 62, 63), tuple(range(64))]
        else:
            vals = [tuple(i for i in range(nb) if x >> i & 1) for x in range(1 << nb)]
        for v in vals:
            b = "x" + bytes(v).hex()
            yield "value %s %s" % (t, b)
            for w in ("none", "cls", "pfx"):
                yield "bst %s %s %s" % (t, b, w)
                L = sum(len(n) + 1 for _, n in syms) + 2
                for n in range(0, L) if (nb <= 5 or big) else sorted({0, 1, 2, 3, L} | {rng.randrange(L) for _ in range(6)}):
                    yield "b2s %s %s %s %d" % (t, b, w, n)
        # texts
        sp = sorted(set(spell(t)))
        nums = ["0", "1", "2", "3", "7", "10", "0x0", "0x1", "0x3", "0x7", "0xf", "0xA", "0b11", "0o7", "00", "16", "0x10"] + (["0x8000000000000000", "4294967296", "0xffffffffffffffff", "9223372036854775808"] if t == "wide" else [])
        if t in ("mcls", "mask", "plain", "cls", "over"):
            nums += ["0xff", "255", "0xFf", "0xabc", "4095"]
        junk = ["", " ", "B", "BM_", "BM_F", "FO", "FOOO", "F O O", "1x", "x1", "0x", "0xg", "1 2", "-1", "FOO-", "FOO,BAR", ":", "::", "K::", "Cls:", "_", "1_", "0x1_", "2F", "0b2", "0o8", "a" * 40, "BAR BAZ", "\t", "é"]
        toks = sp + nums + junk
        ws = ["%s", " %s", "%s ", "  %s  "]
        for k in toks:
            for w in ws:
                for op in ("s2b", "s2bc"):
                    yield "%s %s %s" % (op, t, hx(w % k))
        for a, b in itertools.product(toks, toks) if big else [(rng.choice(toks), rng.choice(toks)) for _ in range(1500)]:
            yield "%s %s %s" % (rng.choice(("s2b", "s2bc")), t, hx(a + "|" + b))
        good = sp + nums
        for _ in range(6000 if big else 1500):
            n = rng.randrange(1, 6)
            parts = [rng.choice(ws) % rng.choice(good) for _ in range(n)]
            if rng.random() < .15:
                parts[rng.randrange(n)] = rng.choice(junk)
            s = "|".join(parts)
            if rng.random() < .1:
                s += rng.choice("|\0 ") + rng.choice(("", "FOO", "|", "\xff", "BAR"))
            yield "s2b %s %s" % (t, hx(s))
            if "\0" not in s:
                yield "s2bc %s %s" % (t, hx(s))
        # what was written is read
        for s in ("\0", "\0FOO", "|", "||", "|FOO", "FOO|", "FOO||BAR", " |FOO", "FOO| ", "FOO|\0BAR", "1|", "|1", "1||2", "FOO\0|", "FOO\0\xff", " \0", "FOO |BAR", "FOO | BAR", "FOO|BAR "):
            yield "s2b %s %s" % (t, hx(s))
        alpha = "F0|x :1\0"
        for n in range(1, 6 if big else 5):
            for p in itertools.product(alpha, repeat=n):
                yield "s2b %s %s" % (t, hx("".join(p)))
