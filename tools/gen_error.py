"""Histories of error settings, ending in errors of all kinds."""
from gen_mem import from_spec
from vf import hx

SITES = "err lit num warn check checkm assert assertm Xassert Xassertm assertif Xassertif ni nim niif niifm never neverm".split()

def text(rng):
    k = rng.randrange(8)
    if k == 0: return ""
    if k < 5: return "".join(rng.choice("abc %d%s%n\\\n\t:,\xe9\xff") for _ in range(rng.randrange(1, 30)))
    n = rng.choice((900, 980, 1000, 1010, 1021, 1022, 1023, 1024, 1025, 1100, 1500, rng.randrange(960, 1030)))
    s = "".join(rng.choice("abcdefgh%") for _ in range(n))
    return s

def raise_(rng, site=None):
    return "E:%s:%d:%s" % (site or rng.choice(SITES), rng.choice((0, 0, 1, 2, 3, 7, 10)), hx(text(rng)))

def errors(tier, rng, work):
    big = tier == "thorough"
    for t in (0, 1, 1):
        yield "dbg %d" % t
    yield from from_spec("GenErr", "GenErr.cfg", work)
    if big:
        yield from from_spec("GenErr", "GenErrT.cfg", work)
    # every kind of error with all flags and callbacks
    for site in SITES:
        for f in range(32):
            for c in range(6):
                if big or site in ("num", "checkm") or rng.random() < .12:
                    yield "err F:%d C:%d %s" % (f, c, raise_(rng, site))
    for f in (2, 4, 6, 15, 16, 20):
        for c in range(6):
            yield "err F:%d C:%d E:bad:1:x" % (f, c)
    # lengths around the limit
    for n in range(1000, 1030):
        for site in ("err", "num", "checkm", "nim", "neverm", "warn"):
            yield "err F:%d C:%d E:%s:2:%s" % (rng.choice((6, 4, 15, 20)), rng.choice((1, 2, 3, 4, 5)), site, hx("".join(rng.choice("xyz%") for _ in range(n))))
    for _ in range(3000 if big else 400):
        st, d = [], 0
        for _ in range(rng.randrange(1, 14)):
            k = rng.randrange(9)
            f, c = rng.randrange(32), rng.randrange(6)
            if k < 1: st.append("F:%d" % f)
            elif k < 2: st.append("C:%d" % c)
            elif k < 3: st.append("pF:%d" % f); d += 1
            elif k < 4: st.append("pC:%d" % c); d += 1
            elif k < 5: st.append("pB:%d:%d" % (f, c)); d += 1
            elif k < 8 and d: st.append("q"); d -= 1
            elif k == 8: st.append(raise_(rng))
        st.append(raise_(rng))
        yield "err " + " ".join(st)
