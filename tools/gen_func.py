"""Histories of functions kept in place."""
from gen_mem import from_spec

def funcs(tier, rng, work):
    big = tier == "thorough"
    yield from from_spec("GenFunc", "GenFuncT.cfg" if big else "GenFunc.cfg", work)
    for k in range(6):
        yield "room %d" % k
    for _ in range(300 if big else 60):
        yield "pass %d %d" % (rng.randint(-1000, 1000), rng.randint(-1000, 1000))
    def make(i):
        t = rng.choice("ftbcer" if i < 5 else "ftbcerd")
        return "%s.%d.%s.%d" % (rng.choice("kKA"), i, t, rng.randint(0, 3) if t == "f" else rng.randint(0, 900))
    # every type, every way of passing it on
    for t in "ftbcerd":
        for o in "kKA":
            for q in "cmCMuU":
                for i, j in ((1, 2), (5, 6)) if t != "d" else ((5, 6),):
                    for pre in ("", "k.%d.t.7_" % j, "k.%d.c.7_" % j, "k.%d.f.1_" % j, "k.%d.r.9_" % j):
                        yield "func %s%s.%d.%s.3_a.%d.4_%s.%d.%d_a.%d.5_a.%d.6_Z.%d_a.%d.1" % (pre, o, i, t, i, q, j, i, j, i, i, j)
                if t != "d":
                    for pre in ("", "k.5.d.7_", "k.5.t.7_"):
                        yield "func %s%s.1.%s.3_%s.5.1_a.5.4_a.1.4_s.5.6_a.6.2_%s.5.6_a.5.2" % (pre, o, t, q, q)
    for _ in range(12000 if big else 2500):
        h = []
        for _ in range(rng.randint(3, 16)):
            i = rng.choice((1, 2, 3, 4, 1, 2, 5, 6))
            o = rng.choice("kkknzZaaacmCMCMuUss")
            if o == "k": h.append(make(i))
            elif o in "nzZ": h.append("%s.%d" % (o, i))
            elif o == "a": h.append("a.%d.%d" % (i, rng.randint(-50, 50)))
            else:
                j = rng.choice([x for x in range(1, 7) if (x <= 4 or i > 4) and (o != "s" or (x > 4) == (i > 4)) and (x != i or o in "CMUs")])
                h.append("%s.%d.%d" % (o, i, j))
        yield "func " + "_".join(h)
