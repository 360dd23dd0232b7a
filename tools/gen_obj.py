"""Histories of objects in raw memory."""
from gen_mem import from_spec

KIND = {"u8": "t", "u64": "t", "pod": "t", "asg": "t", "ptr": "t", "trk": "m", "cpy": "c"}

def sim(rng, typ, N, L, bad):
    """a random history in which every operation is allowed; R raw, L live, M moved, U unknown"""
    kind = KIND[typ]
    sl = ["L" if kind == "t" else "R"] * N
    st = []
    ok = lambda d, n, set_: all(x in set_ for x in sl[d:d + n])
    BL = "RML" if kind == "t" else "RM"
    val = lambda: rng.randrange(256)
    def rg(set_, n=None, tries=12):
        for _ in range(tries):
            d = rng.randrange(N + 1)
            m = n if n is not None else rng.choice((0, 1, 1, 2, 3, rng.randrange(N + 1)))
            if d + m <= N and ok(d, m, set_): return d, m
        return None
    def fill(d, n, x):
        for k in range(d, d + n): sl[k] = x
    dead = "L" if kind == "t" else "R"
    src = "M" if kind == "m" else "L"
    q = 0
    while q < L:
        q += 1
        o = rng.choice("c cv cn cnv cc ccn cca ccv ccvn ca can caa cav cavn mc mcn ma man x xn mr mr mrp mrt mrT dr dr drt".split())
        if q <= 2 and kind != "t": o = rng.choice(("cnv", "cv", "cn"))
        if bad and q == L:
            o = rng.choice("cc ccn ca can mc mcn ma man mrp mrp mrt dr drt drt".split())
            g = rg("L")
            if not g: return None
            d, n = g
            if o in ("cc", "ca", "mc", "ma"):
                if d >= N: return None
                st.append("!:%s:%d:%d" % (o, d, d))
            elif o in ("ccn", "can", "mcn", "man"): st.append("!:%s:%d:%d:%d" % (o, d, d, n))
            elif o == "mrp":
                room, pos, cap = rng.randrange(4), rng.randrange(n + 3), n + rng.randrange(3)
                if pos <= n and room + n <= cap: return None
                st.append("!:mrp:%d:%d:%d:%d:%d" % (d, cap, n, pos, room))
            elif o == "mrt": st.append("!:mrt:0:%d:%d:%d:%d" % (d, n, rng.randrange(3), n + rng.randrange(1, 4)))
            elif o == "dr": st.append("!:dr:%d:%d:%d" % (d, n, n + rng.randrange(1, 4)))
            else:
                pos, room = rng.randrange(n + 2), rng.randrange(n + 3)
                if pos < n and pos + room <= n: return None
                st.append("!:drt:0:%d:%d:%d:%d" % (d, n, room, pos))
            return st
        one = 3 if o in ("cca", "caa") else 1 if o in ("c", "cv", "cc", "ccv", "ca", "cav", "mc", "ma", "x") else None
        if o in ("c", "cv", "cn", "cnv", "ccv", "ccvn"):
            g = rg(BL, one)
            if not g: continue
            d, n = g
            st.append({"c": "c:%d" % d, "cv": "cv:%d:%d" % (d, val()), "cn": "cn:%d:%d" % (d, n), "cnv": "cnv:%d:%d:%d" % (d, n, val()),
                       "ccv": "ccv:%d:%d" % (d, val()), "ccvn": "ccvn:%d:%d:%d" % (d, val(), n)}[o])
            fill(d, n, "L")
        elif o in ("cav", "cavn"):
            g = rg("LM", one)
            if not g: continue
            d, n = g
            st.append("cav:%d:%d" % (d, val()) if o == "cav" else "cavn:%d:%d:%d" % (d, val(), n))
            fill(d, n, "L")
        elif o in ("cc", "ccn", "cca", "mc", "mcn", "ca", "can", "caa", "ma", "man"):
            g = rg("L", one)
            if not g: continue
            s, n = g
            g = rg("LM" if o in ("ca", "can", "caa", "ma", "man") else BL, n)
            if not g: continue
            d = g[0]
            if d == s or not (d + n <= s or s + n <= d): continue
            st.append("%s:%d:%d" % (o, d, s) if one else "%s:%d:%d:%d" % (o, d, s, n))
            fill(d, n, "L")
            if o[0] == "m": fill(s, n, src)
        elif o in ("x", "xn"):
            g = rg("LM", one)
            if not g: continue
            d, n = g
            st.append("d:%d" % d if o == "x" else "dn:%d:%d" % (d, n))
            fill(d, n, dead)
        elif o in ("mr", "mrp"):
            g = rg("L")
            if not g: continue
            p, n = g
            room = rng.randrange(N - p - n + 1)
            if not ok(p + n, room, BL): continue
            pos = 0
            if o == "mr": st.append("mr:%d:%d:%d" % (p, n, room))
            else:
                pos = rng.randrange(n + 1)
                st.append("mrp:%d:%d:%d:%d:%d" % (p, n + room + rng.choice((0, 0, 2)), n, pos, room))
            m = n - pos
            if room:
                fill(p + pos, min(m, room), src)
                fill(p + pos + room, m, "L")
        elif o in ("mrt", "mrT", "drt"):
            g = rg("L")
            if not g: continue
            s, n = g
            room = rng.randrange(4) if o != "drt" else rng.randrange(n + 1)
            if o == "drt" and n == 0: continue
            pos = rng.randrange(n) if n else 0
            if o == "drt" and pos + room > n: continue
            tot = n + room if o != "drt" else n - room
            if tot > N: continue
            d = rng.randrange(N - tot + 1)
            if not (d + tot <= s or s + n <= d): continue
            if o == "drt":
                if not ok(d, tot, BL): continue
                fill(d, tot, "L")
            else:
                if not (ok(d, pos, BL) and ok(d + pos + room, n - pos, BL)): continue
                fill(d, pos, "L"); fill(d + pos + room, n - pos, "L")
            st.append("%s:%d:%d:%d:%d:%d" % (o, d, s, n, room, pos))
        elif o == "dr":
            g = rg("L")
            if not g: continue
            p, n = g
            room = rng.randrange(n + 1)
            st.append("dr:%d:%d:%d" % (p, n, room))
            if room == n: fill(p, n, dead)
            elif room and kind != "t": fill(p + n - room, room, "U")
    return st

def objects(tier, rng, work):
    big = tier == "thorough"
    for t in ("trk", "cpy", "u64"):
        yield from from_spec("GenObj", "GenObj_%s.cfg" % t, work)
        if big:
            yield from from_spec("GenObj", "GenObj_%sT.cfg" % t, work)
    # every position and room of every function that makes or closes room
    for t in KIND:
        for n in range(1, 8 if not big else 11):
            mk = ["cv:%d:%d" % (k, 17 * k + 5) for k in range(n)]
            for pos in range(n + 1):
                for room in range(0, n + 3):
                    ops = ["mrp:0:%d:%d:%d:%d" % (n + room, n, pos, room)]
                    if pos == 0: ops.append("mr:0:%d:%d" % (n, room))
                    if pos == 0 and room <= n: ops.append("dr:0:%d:%d" % (n, room))
                    if pos < n:
                        ops += ["%s:%d:0:%d:%d:%d" % (o, n, n, room, pos) for o in ("mrt", "mrT")]
                        if pos + room <= n: ops.append("drt:%d:0:%d:%d:%d" % (n, n, room, pos))
                    for o in ops:
                        yield "obj %s %s %d %s %s" % (t, rng.choice(("size", "int", "u8", "i16")), 3 * n + 4, " ".join(mk), o)
    # many objects: every number of them up to a hundred or so, and some hundreds
    BULK = ("mcn", "man", "ccn", "can", "mrp", "mr", "mrt", "drt", "dr", "dn", "cn", "ccvn", "cavn", "cnv")
    def bulk(t, I, op, n):
        room = rng.choice((1, 2, 17, 64, 70))
        if I == "u8" and op[:2] == "mr": n = min(n, 255 - room)
        # a few different values among many
        mk = ["cnv:0:%d:%d" % (n, rng.randrange(256))]
        for _ in range(3):
            p = rng.randrange(n); m = min(n - p, rng.choice((1, 9, 40)))
            mk.append("cavn:%d:%d:%d" % (p, rng.randrange(256), m))
        pos = rng.randrange(n - 1)
        o = {"mcn": ["mcn:%d:0:%d" % (n, n)], "ccn": ["ccn:%d:0:%d" % (n, n)],
             "man": ["cn:%d:%d" % (n, n), "man:%d:0:%d" % (n, n)], "can": ["cn:%d:%d" % (n, n), "can:%d:0:%d" % (n, n)],
             "mrp": ["mrp:0:%d:%d:%d:%d" % (n + room, n, pos, room)], "mr": ["mr:0:%d:%d" % (n, room)],
             "mrt": ["mrt:%d:0:%d:%d:%d" % (n, n, room, pos)], "drt": ["drt:%d:0:%d:%d:%d" % (n, n, min(room, n - pos), pos)],
             "dr": ["dr:0:%d:%d" % (n, min(room, n))], "dn": ["dn:0:%d" % n], "cn": ["cn:%d:%d" % (n, n)],
             "ccvn": ["ccvn:%d:77:%d" % (n, n)], "cavn": ["cavn:0:77:%d" % n], "cnv": ["cnv:%d:%d:78" % (n, n)]}[op]
        return "obj %s %s %d %s %s" % (t, I, 2 * n + 80, " ".join(mk), " ".join(o))
    for op in BULK:
        for n in range(8, 135):
            yield bulk(rng.choice(("trk", "cpy", "trk", "cpy", "u64", "pod", "asg")), rng.choice(("size", "int", "u8", "i16")), op, n)
    for t in KIND:
        for I in ("size", "int", "u8", "i16"):
            for op in BULK:
                for _ in range(4 if big else 1):
                    yield bulk(t, I, op, rng.randrange(135, 250 if I == "u8" else 320))
    for t in KIND:
        for I in ("size", "int", "u8", "i16"):
            for _ in range(1200 if big else 150):
                bad = rng.random() < .2
                N = rng.choice((1, 3, 5, 8, 8, 12, 20, 60))
                st = sim(rng, t, N, rng.randrange(2, 16), bad)
                if st: yield "%sobj %s %s %d %s" % ("!" if st[-1][0] == "!" else "", t, I, N, " ".join(st))
