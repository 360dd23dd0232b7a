"""Histories for memory resources and allocators."""
import itertools

def seqs(rng, n, target, prm, sizes, aligns, ids=4, length=(3, 14), special=(), wr=True, zero_re=True):
    """random histories; ids may be invalid: the step is then skipped, which the specification also knows"""
    for _ in range(n):
        L = rng.randrange(*length)
        p = prm(rng) if callable(prm) else prm
        st = []
        live = []
        for _ in range(L):
            x = rng.random()
            if x < .4 or not live:
                i = rng.randrange(1, ids + 1)
                st.append("a:%d:%d:%d" % (i, rng.choice(sizes), rng.choice(aligns)))
                live.append(i)
                if wr and rng.random() < .8:
                    st.append("w:%d:%d" % (i, rng.randrange(1, 250)))
            elif x < .65:
                i = rng.choice(live) if rng.random() < .95 else rng.randrange(1, ids + 1)
                st.append("r:%d:%d" % (i, rng.choice(sizes if not zero_re else list(sizes) + [0])))
                if wr and rng.random() < .6:
                    st.append("w:%d:%d" % (i, rng.randrange(1, 250)))
            elif x < .85:
                i = rng.choice(live)
                live = [k for k in live if k != i]
                st.append("d:%d" % i)
            elif special and x < .95:
                s = rng.choice(special)
                s = s(rng) if callable(s) else s
                st.append(s)
                if s[0] in "cRQBE":
                    live = []
                if s[0] == "E":
                    break
            else:
                i = rng.choice(live)
                st.append("w:%d:%d" % (i, rng.randrange(1, 250)))
        yield "mem %s %s %s" % (target, ",".join(map(str, p)) or "0", " ".join(st))

def lin_special(rng):
    return rng.choice(["c", "R", "E", "Q:%d" % rng.choice((1, 8, 24, 40)), "B:%d:%d" % (rng.choice((0, 5, 16, 33)), rng.randrange(0, 64))])

def from_spec(module, cfg, work):
    import vf, re
    r = vf.tlc(module, work, cfg=cfg, workers=1)
    if r.returncode != 0:
        raise vf.CheckError("generation of behaviours failed: " + r.stdout[-2000:])
    return re.findall(r'^<<\s*"CASE",\s*"(.*?)"\s*>>', r.stdout, re.M)

def linear(tier, rng, work):
    big = tier == "thorough"
    N = 1500 if big else 350
    # every behaviour of the specification up to a depth
    for c in from_spec("GenMem", "GenMemT.cfg" if big else "GenMem.cfg", work):
        yield c
    A = (1, 1, 2, 4, 8, 16)
    yield from seqs(rng, 3 * N, "lin", lambda g: (g.choice((0, 1, 7, 16, 31, 40, 64)), g.choice((0, 0, 1, 3, 4, 8, 15, 63))), (1, 1, 2, 3, 5, 8, 16), A, special=[lin_special, "c"])
    yield from seqs(rng, N, "lin", lambda g: (g.choice((100, 200)), g.randrange(64)), (1, 2, 7, 24, 40, 90), A + (32, 64), special=["c"], length=(8, 24), ids=6)
    yield from seqs(rng, N, "own", lambda g: (g.choice((1, 8, 30, 64)),), (1, 2, 3, 8, 16), A, special=[lin_special])
    yield from seqs(rng, N // 2, "none", (), (1, 2, 3, 8), A, special=[lin_special, lin_special])
    yield from seqs(rng, N // 2, "arr16", (), (1, 2, 3, 8, 16), A, special=["c"])
    yield from seqs(rng, N // 2, "arr40", (), (1, 2, 3, 8, 16, 39), A, special=["c", lin_special])
    # alignments beyond a cache line
    W = (1, 8, 64, 128, 256, 512, 1024, 2048, 4096)
    yield from seqs(rng, N // 4, "linw", lambda g: (g.choice((5000, 9000, 14000)), g.choice((0, 1, 64, 100, 256, 1000, 2048, 4095))), (1, 2, 7, 100, 700), W, special=["c"], ids=6)
    yield from seqs(rng, N // 8, "ownw", lambda g: (g.choice((5000, 9000)),), (1, 2, 7, 100, 700), W, special=["c"], ids=6)
    # the limits: exactly full, one too many, sizes that wrap around
    for cap in range(0, 20):
        for al in (1, 2, 4, 8):
            for mis in (0, 1, 4):
                for k in range(0, min(cap, 6)):
                    yield "mem lin %d,%d a:1:%d:1 a:2:%d:%d w:2:7 a:3:1:1" % (cap, mis, k, cap - k, al)
    for n in (-1, -2, -8, -9, -16, -17, -64):
        yield "mem lin 40,0 a:1:8:1 w:1:9 r:1:%d a:2:8:1 w:2:5" % n
        yield "mem lin 40,0 a:1:8:1 w:1:9 a:2:4:1 w:2:3 r:1:%d r:2:%d a:3:8:1 w:3:5" % (n, n)
    # everything owned is given back, whatever happens in between
    for s in ("R", "E", "Q:8", "B:9:1", "c", "Q:8 Q:9", "B:3:0 Q:8 R", "R R", "Q:8 R E", "c E", "R Q:16 E", "B:8:0 E", "Q:24 B:8:1 Q:8 E"):
        for t in ("own 32", "none 0", "lin 24,3"):
            yield "mem %s a:1:4:4 w:1:8 %s a:2:3:1 w:2:9 a:3:8:8" % (t, s) if not s.endswith("E") else "mem %s a:1:4:4 %s" % (t, s)

def counts(tier, rng, work):
    big = tier == "thorough"
    N = 1200 if big else 350
    yield from seqs(rng, 2 * N, "cnt", lambda g: (g.choice((1, 1, 2)),), (0, 1, 2, 7, 100), (1, 8, 16), special=["f", "f"], length=(2, 20))
    # blocks of gigabytes (without the memory)
    yield from seqs(rng, N, "cntg", lambda g: (g.choice((1, 1, 2)),), (0, 1, 2, 3, 7, 100, 5000, 60000), (1, 8, 16), special=["f"], length=(2, 20))
    # scopes
    def sc(L):
        st, depth, nid = [], 0, 0
        for _ in range(L):
            x = rng.random()
            if x < .12: st.append("S:%d" % rng.randrange(4)); depth += 1
            elif x < .26: st.append("C"); depth += 1
            elif x < .38: st.append("K:%d" % rng.randrange(4)); depth += 1
            elif x < .55: st.append("P")
            elif x < .60: st.append("s:%d" % rng.randrange(4))
            elif x < .80: st.append("a:%d" % rng.choice((1, 2, 8, 50))); nid += 1
            elif x < .93: st.append("d:%d" % rng.randrange(1, max(2, nid + 1)))
            elif x < .96: st.append("f"); st.append("a:4")
            elif x < .985: st.append("t")
            else: st.append("P")
        return "scope " + " ".join(st)
    # a counting resource that was destroyed must not be used any more: a 'set' inside a scope
    # is undone when the scope ends, so histories are well-formed if scopes are nested
    for _ in range(4 * N):
        yield sc(rng.randrange(1, 22))
    for c in from_spec("GenScope", "GenScopeT.cfg" if big else "GenScope.cfg", work):
        yield c
    for _ in range(300):
        a = bytes(rng.choice((rng.randrange(128), rng.randrange(128, 256))) for _ in range(rng.randrange(8)))
        b = bytes(rng.choice((rng.randrange(128), rng.randrange(128, 256))) for _ in range(rng.randrange(8)))
        yield "cntop x%s x%s" % (a.hex(), b.hex())

def alloc(tier, rng, work):
    big = tier == "thorough"
    N = 1000 if big else 250
    for sz, al, tag in ((1, 1, 0), (4, 4, 1), (12, 4, 2), (12, 4, 3), (16, 16, 4), (8, 8, 5)):
        yield from seqs(rng, N // 2, "alc", (sz, al, tag), (0, 1, 2, 5), (0, al, 2 * al, 16), special=["f"])
    for sz, al, tag, n in ((1, 1, 0, 8), (4, 4, 1, 4), (12, 4, 2, 3), (1, 8, 3, 12), (4, 4, 4, 6), (2, 4, 5, 5)):
        yield from seqs(rng, 2 * N, "small", (sz, al, tag, n), [0] + [k for k in (1, 1, 1, 2, 2, 3, n - 1, n, n + 1, 2 * n)], (0, 0, 0, al, 2 * al, 16), ids=5, length=(3, 18), special=["f"])
        # the growth of a vector: new block, move, free the old one
        st = []
        for k in range(9):
            st += ["a:%d:%d:0" % (k % 2 + 1, max(1, 1 << k) if k < 5 else 1 << 5), "w:%d:%d" % (k % 2 + 1, 10 + k)] + (["d:%d" % (2 - k % 2)] if k else [])
        yield "mem small %d,%d,%d,%d %s" % (sz, al, tag, n, " ".join(st))
        # every order of freeing three blocks and taking another one

        for x in itertools.product((1, 2), repeat=3):
            for o in itertools.permutations((1, 2, 3)):
                for k in range(1, 4):
                    st = ["a:%d:%d:0" % (b, x[b - 1]) for b in (1, 2, 3)] + ["w:%d:%d" % (b, b) for b in (1, 2, 3)]
                    for d in o[:k]:
                        st.append("d:%d" % d)
                        st += ["a:4:%d:0" % x[0], "w:4:9"]
                        st += ["d:4"] if d != o[k - 1] else ["a:5:1:0", "w:5:8"]
                    yield "mem small %d,%d,%d,%d %s" % (sz, al, tag, n, " ".join(st))
    for d in (0, 1):
        yield from seqs(rng, N, "malloc", (d,), (1, 2, 7, 16, 33, 100), (1, 2, 4, 8, 16, 32, 64, 256, 1024), zero_re=False)
        yield from seqs(rng, N // 4, "malloc", (d,), (1, 16, 100, 700, 1500), (1, 16, 64, 2048, 4096), zero_re=False)
        for n, m in ((70000, 66000), (66000, 90000), (300, 65536), (65537, 200), (65536, 65537), (1000000, 2000000), (3000000, 1 << 20)):
            yield "bigre %d %d %d %d" % (d, n, m, rng.choice((1, 8, 16, 64, 4096)))
        for al in (0, 3, 5, 6, 7, 12, 48, 100):
            yield "mem malloc %d a:1:8:%d a:2:8:8 w:2:5" % (d, al)
    # replaced functions
    for via in (0, 1):
        for f in itertools.product((0, 1, 2), repeat=3):
            yield "hooks %d A:%d R:%d F:%d a:1:8:8 a:2:40:32 r:1:20 r:2:4 d:1 d:2 A:0 R:0 F:0 a:1:5:1 r:1:9 d:1" % ((via,) + f)
        for _ in range(N):
            st = []
            for _ in range(rng.randint(4, 16)):
                k = rng.random()
                if k < .3: st.append("%s:%d" % (rng.choice("ARF"), rng.randint(0, 2)))
                elif k < .6: st.append("a:%d:%d:%d" % (rng.randint(1, 4), rng.choice((1, 8, 33, 100)), rng.choice((1, 4, 8, 16, 64, 512))))
                elif k < .8: st.append("r:%d:%d" % (rng.randint(1, 4), rng.choice((1, 8, 33, 100))))
                else: st.append("d:%d" % rng.randint(1, 4))
            yield "hooks %d %s" % (via, " ".join(st))
        for al in (1, 8, 16, 64):
            for k in (0, 1, 100):
                yield "huge %d %d %d" % (k, al, via)
    for w in ("g", "m", "s", "sm", "gr", "mr", "sr", "sor", "lin", "linr"):
        for k in (0, 1, 2, 5, 100):
            for z in (8, 24):
                yield "many %s %d %d" % (w, k, z)
    for c in itertools.product((1, 2, 3), (0, 1, 2, 3), (1, 2, 3), (0, 1, 2, 3), (1, 2, 3)):
        yield "alceq %d %d %d %d %d" % c
    for t in ("vec", "gvec", "svec", "list", "deq", "str"):
        for _ in range(N):
            st = []
            for _ in range(rng.randint(2, 24)):
                k = rng.random()
                if k < .4: st.append("p:%d" % rng.randint(0, 99))
                elif k < .5: st.append("o")
                elif k < .65: st.append("i:%d:%d" % (rng.randint(0, 6), rng.randint(0, 99)))
                elif k < .75: st.append("e:%d" % rng.randint(0, 6))
                elif k < .82: st.append("z:%d" % rng.choice((0, 1, 3, 4, 5, 8, 17, 40)))
                elif k < .84: st.append("c")
                elif k < .9: st.append("k")
                elif k < .93: st.append("r:%d" % rng.choice((0, 3, 4, 5, 9, 33)))
                elif k < .97: st.append("x")
                else: st.append("y")
            yield "cont %s %s" % (t, " ".join(st))
