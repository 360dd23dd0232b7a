"""Case generators for the string-view properties (inputs only, no expectations)."""
import itertools
from vf import hx

def strs(alpha, n):
    out = []
    for k in range(n + 1):
        out += ["".join(t) for t in itertools.product(alpha, repeat=k)]
    return out

def rstr(rng, alpha, lo, hi):
    return "".join(rng.choice(alpha) for _ in range(rng.randint(lo, hi)))

ANY = [chr(c) for c in range(256)]
EDGE = ["\x00", "\x01", " ", "\t", "a", "b", "A", "Z", "z", "\x7f", "\x80", "\xff", "0", "9", "/", ".", "\\", "'", '"']
LENS = [0, 1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65]

def alphabets(rng):
    return rng.choice([list("ab"), list("abc"), list("ab"), EDGE, ANY, list("aab")])

LONG = [100, 127, 128, 129, 200, 255, 256, 257, 300, 400, 511, 512, 513, 700]

def rlong(rng):
    """a long text: mixed, or the same character with a rare different one (often near an end)"""
    n = rng.choice(LONG)
    if rng.random() < .4: return rstr(rng, alphabets(rng), n, n)
    t = [rng.choice("ab\xe9")] * n
    for _ in range(rng.randint(0, 3)):
        t[rng.choice((0, 1, n // 2, n - 1, n - 2, rng.randrange(n)))] = rng.choice("abc\x00\xff")
    return "".join(t)

def rtext(rng, hi=40):
    if hi >= 40 and rng.random() < .04: return rlong(rng)
    return rstr(rng, alphabets(rng), 0, hi) if rng.random() < .7 else rstr(rng, alphabets(rng), *(2 * [rng.choice(LENS)]))

def select(tier, rng, work):
    big = tier == "thorough"
    for t in strs("ab\0", 6 if big else 5):
        yield "make " + hx(t)
    for t in strs("a\xff\0", 3):
        for k in range(len(t)):
            yield "cindex %s %d" % (hx(t), k)
        yield "!cindex %s %d" % (hx(t), len(t))
        yield ("cends " if t else "!cends ") + hx(t)
    L = list(range(0, 6)) + [9, 16, 33]
    if big: L += [7, 12, 64, 129, 256]
    for n in L:
        s = hx("".join(chr(97 + i % 26) for i in range(n)))
        vals = sorted(set(list(range(0, min(n, 8) + 3)) + [n - 1, n, n + 1, n + 2])) if n > 8 else list(range(0, n + 3))
        vals = [v for v in vals if v >= 0]
        for v in vals + [-1]:
            bad = "!" if (v == -1 or v > n) else ""
            yield "%ssub1 %s %d" % (bad, s, v)
            yield "%srange1 %s %d" % (bad, s, v)
            ok = v == -1 or v <= n
            for op in ("first", "last", "left_of"):
                yield "%s%s %s %d" % ("" if ok else "!", op, s, v)
            yield "%sright_of %s %d" % ("" if v == -1 or v < n else "!", s, v)
            for inc in (0, 1):
                yield "%sleft_of_i %s %d %d" % ("" if v == -1 or v + inc <= n else "!", s, v, inc)
                yield "%sright_of_i %s %d %d" % ("" if v == -1 or v + 1 - inc <= n else "!", s, v, inc)
            if v >= 0:
                yield "%sindex %s %d" % ("" if v < n else "!", s, v)
            for w in vals + [-1]:
                yield "%ssub2 %s %d %d" % ("" if v >= 0 and v <= n and (w == -1 or v + w <= n) else "!", s, v, w)
                yield "%srange %s %d %d" % ("" if v >= 0 and v <= n and (w == -1 or v <= w <= n) else "!", s, v, w)
                if v >= 0 and w >= 0:
                    yield "%soffs %s %d %d" % ("" if v <= n and w <= n and v + w <= n else "!", s, v, w)
                    if v + w <= n:
                        yield "left_of_sub %s %d %d" % (s, v, w)
                        yield "right_of_sub %s %d %d" % (s, v, w)
        yield "%sfront %s" % ("" if n else "!", s)
        yield "%sback %s" % ("" if n else "!", s)
        if n <= 5 or (big and n <= 9):
            for o1 in range(n + 1):
                for l1 in range(0, n - o1 + 1):
                    for o2 in range(n + 1):
                        for l2 in range(0, n - o2 + 1):
                            yield "rel %s %d %d %d %d" % (s, o1, l1, o2, l2)
    for op in ("sub1 n 0", "sub2 n 0 0", "sub2 n 0 -1", "range1 n 0", "range n 0 0", "range n 0 -1", "first n 0", "first n -1",
               "last n 0", "last n -1", "offs n 0 0", "info n", "triml_c n 97", "trimr_c n 97", "trim_c n 97", "triml_s n x61",
               "trimr_s n x61", "trim_s n x61", "trim_s n n", "stripl n x61", "stripr n x61", "stripl n x", "stripr n n", "unquoted n"):
        yield op
    for c in ANY:
        yield "info " + hx(c)
        yield "info " + hx(c + "q")
        for op in ("triml_c", "trimr_c", "trim_c"):
            yield "%s %s %d" % (op, hx(c + "q" + c + c), ord(c))
    # trimming and stripping: every small text
    for t in strs("ab", 6 if big else 5):
        yield "info " + hx(t)
        for op in ("triml_c", "trimr_c", "trim_c"):
            yield "%s %s 97" % (op, hx(t))
        for op in ("triml_s", "trimr_s", "trim_s"):
            for c in ("", "a", "ab", "ba", "bc", "c"):
                yield "%s %s %s" % (op, hx(t), hx(c))
        for p in strs("ab", 3) + [t, t + "a", "a" + t]:
            yield "stripl %s %s" % (hx(t), hx(p))
            yield "stripr %s %s" % (hx(t), hx(p))
    for t in strs("'\"\\a", 5 if big else 4):
        yield "unquoted " + hx(t)
    for _ in range(4000 if big else 1200):
        t = rtext(rng)
        n = len(t)
        c = ord(rng.choice(t)) if t and rng.random() < .8 else rng.randrange(256)
        cs = "".join(rng.choice(t or "q") for _ in range(rng.randint(0, 4)))
        s = hx(t)
        for op in ("triml_c", "trimr_c", "trim_c"):
            yield "%s %s %d" % (op, s, c)
        for op in ("triml_s", "trimr_s", "trim_s"):
            yield "%s %s %s" % (op, s, hx(cs))
        k = rng.randint(0, n)
        yield "stripl %s %s" % (s, hx(t[:k]))
        yield "stripr %s %s" % (s, hx(t[k:]))
        yield "info " + s
        f = rng.randint(0, n)
        w = rng.randint(0, n - f)
        yield "sub2 %s %d %d" % (s, f, w)
        yield "range %s %d %d" % (s, f, f + w)
        yield "offs %s %d %d" % (s, f, w)
        yield "left_of_sub %s %d %d" % (s, f, w)
        yield "right_of_sub %s %d %d" % (s, f, w)
        yield "unquoted " + hx(rng.choice("'\"") + rstr(rng, list("'\"\\ab"), 0, rng.choice((3, 9, 30, 130))) + rng.choice("'\"\\"))
        q = rng.choice("'\""); yield "unquoted " + hx(q + t + q)

def lookup(tier, rng, work):
    big = tier == "thorough"
    texts = strs("ab", 5 if big else 4)
    for t in texts:
        s, n = hx(t), len(t)
        for st in list(range(0, n + 2)) + [-1]:
            okf = st == -1 or st <= n
            for c in (97, 98, 99):
                for op in ("find_c", "first_of_c", "last_of_c", "last_not_of_c", "select_c"):
                    yield "%s%s %s %d %d" % ("" if okf else "!", op, s, c, st)
                for op in ("first_not_of_c", "count_c"):
                    yield "%s%s %s %d %d" % ("" if 0 <= st <= n else "!", op, s, c, st)
            for p in strs("ab", 3) + ["c", "ac", "abab"]:
                for op in ("find_s", "select_s"):
                    yield "%s%s %s %s %d" % ("" if okf else "!", op, s, hx(p), st)
                yield "%scount_s %s %s %d" % ("" if 0 <= st <= n else "!", s, hx(p), st)
            for p in ("", "a", "b", "ab", "c", "ca", "cb", "abc"):
                for op in ("first_of_s", "last_of_s", "last_not_of_s"):
                    yield "%s%s %s %s %d" % ("" if okf else "!", op, s, hx(p), st)
                yield "%sfirst_not_of_s %s %s %d" % ("" if 0 <= st <= n else "!", s, hx(p), st)
        for c in (97, 98):
            yield "find_c0 %s %d" % (s, c)
            yield "nostart_c %s %d" % (s, c)
            for op in ("begins_with_c", "ends_with_c"):
                yield "%s %s %d" % (op, s, c)
            for k in range(0, n + 2):
                for op in ("begins_with_cn", "ends_with_cn"):
                    yield "%s %s %d %d" % (op, s, c, k)
        for p in strs("ab", 3) + ["c", "ac", "ca", t, t + "a", "a" + t]:
            yield "find_s0 %s %s" % (s, hx(p))
            yield "nostart_s %s %s" % (s, hx(p))
            for op in ("begins_with_s", "ends_with_s", "begins_with_any", "ends_with_any"):
                yield "%s %s %s" % (op, s, hx(p))
        pats = ["", "a", "b", "ab", "ba", "bb", "c"]
        for ps in itertools.product(pats, repeat=2):
            yield "first_of_any2 %s %s" % (s, " ".join(map(hx, ps)))
    for t in strs("(a)", 6 if big else 5):
        yield "pair_range_nested %s 40 41" % hx(t)
        first = t.find("(")
        end = t.find(")", first + 1) if first >= 0 else -1
        nested = end >= 0 and "(" in t[first + 1:end + 1]
        yield "%spair_range %s 40 41" % ("!" if nested else "", hx(t))
        yield "pair_range_esc %s 40 41" % hx(t)
    for t in strs("'\\a", 6 if big else 5):
        yield "pair_range_esc %s 39 92" % hx(t)
        yield "pair_range_esc %s 39 97" % hx(t)
        q = [i for i, c in enumerate(t) if c == "'"]
        yield "%spair_range %s 39 39" % ("!" if len(q) >= 2 else "", hx(t))
    for v in ("n", "x"):
        for q in ("find_c %s 97 0", "find_c0 %s 97", "find_s %s x61 0", "find_s %s x 0", "find_s0 %s n", "count_c %s 97 0", "count_s %s x61 0",
                  "select_c %s 97 0", "begins_with_c %s 97", "begins_with_cn %s 97 0", "begins_with_cn %s 97 1", "begins_with_s %s n",
                  "begins_with_s %s x61", "begins_with_any %s x61", "ends_with_c %s 97", "ends_with_cn %s 97 0", "ends_with_cn %s 97 1",
                  "ends_with_s %s n", "ends_with_s %s x61", "ends_with_any %s x61", "ends_with_any %s n", "first_of_c %s 97 0", "last_of_c %s 97 -1", "last_of_c %s 97 0",
                  "first_of_s %s x61 0", "last_of_s %s x61 -1", "first_not_of_c %s 97 0", "last_not_of_c %s 97 -1", "first_not_of_s %s x61 0",
                  "last_not_of_s %s x61 -1", "nostart_c %s 97", "nostart_s %s x61", "nostart_s %s n", "pair_range %s 40 41", "pair_range_esc %s 39 92",
                  "pair_range_nested %s 40 41", "first_of_any2 %s x61 x62"):
            yield q % v
    for _ in range(5000 if big else 1300):
        t = rtext(rng)
        n = len(t)
        s = hx(t)
        st = rng.choice([0, n, rng.randint(0, n), -1])
        sp = max(st, 0)
        c = ord(rng.choice(t)) if t and rng.random() < .8 else rng.randrange(256)
        f = rng.randint(0, n); p = t[f:f + rng.choice((1, 2, 3, 4, 5, rng.randint(1, 5), rng.randint(6, 40)))] or "a"
        if rng.random() < .3: p = p + rng.choice("ab")
        cs = "".join(rng.choice(t or "q") for _ in range(rng.randint(0, 4)))
        for op in ("find_c", "first_of_c", "last_of_c", "last_not_of_c", "select_c"):
            yield "%s %s %d %d" % (op, s, c, st)
        for op in ("first_not_of_c", "count_c"):
            yield "%s %s %d %d" % (op, s, c, sp)
        for op in ("find_s", "select_s"):
            yield "%s %s %s %d" % (op, s, hx(p), st)
        yield "count_s %s %s %d" % (s, hx(p), sp)
        for op in ("first_of_s", "last_of_s", "last_not_of_s"):
            yield "%s %s %s %d" % (op, s, hx(cs), st)
        yield "first_not_of_s %s %s %d" % (s, hx(cs), sp)
        yield "nostart_c %s %d" % (s, c)
        yield "nostart_s %s %s" % (s, hx(p))
        yield "begins_with_s %s %s" % (s, hx(t[:f] + ("" if rng.random() < .5 else "z")))
        yield "ends_with_s %s %s" % (s, hx(("" if rng.random() < .5 else "z") + t[f:]))
        yield "begins_with_any %s %s" % (s, hx(cs))
        yield "ends_with_any %s %s" % (s, hx(cs))
        run = rng.choice((rng.randint(0, 20), rng.randint(0, 20), rng.randint(21, 300)))
        yield "begins_with_cn %s 97 %d" % (hx("a" * rng.randint(0, 20) + "b" * rng.randint(0, 2)), run)
        yield "ends_with_cn %s 97 %d" % (hx("b" * rng.randint(0, 2) + "a" * rng.randint(0, 20)), run)
        k = rng.randint(2, 5)
        ps = []
        for _ in range(k):
            g = rng.randint(0, n)
            ps.append(t[g:g + rng.randint(0, 4)] + rng.choice(["", "", "a", "\xff"]))
        yield "first_of_any%d %s %s" % (k, s, " ".join(map(hx, ps)))
        br = rstr(rng, list("(()a)"), 0, 24) if rng.random() < .9 else "(" * rng.randint(1, 90) + rstr(rng, list("()a"), 0, 60) + ")" * rng.randint(0, 120)
        yield "pair_range_nested %s 40 41" % hx(br)
        esc = rstr(rng, list("'\\ab"), 0, 24) if rng.random() < .9 else "'" + rstr(rng, list("a\\\\\\'"), 0, 150) + "'"
        yield "pair_range_esc %s 39 92" % hx(esc)
    # long texts: one character throughout, a rare other one, periodic; long patterns and large sets of characters
    for n in (64, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 700) + ((1000, 1025) if big else ()):
        for kind in range(4 if big else 3):
            per = rng.choice(("a", "a", "ab", "abc"))
            t = list((per * n)[:n])
            if kind: t[rng.choice((0, n - 1, n // 2, rng.randrange(n)))] = "\xe9"
            t = "".join(t); s = hx(t)
            k = rng.choice((n // 2, n - 1, n, rng.randint(1, n), min(n, 256), min(n, 257)))
            p = t[:k]; q = p[:-1] + "z"; at = rng.randint(0, n); al = "".join(map(chr, rng.sample(range(256), rng.choice((40, 200)))))
            for c in (97, 98, 0xe9):
                for op in ("find_c", "first_of_c", "select_c", "first_not_of_c", "count_c"):
                    yield "%s %s %d %d" % (op, s, c, rng.choice((0, at)))
                for op in ("last_of_c", "last_not_of_c"):
                    yield "%s %s %d %d" % (op, s, c, rng.choice((-1, at)))
                yield "begins_with_cn %s %d %d" % (s, c, rng.choice((n, n - 1, k)))
                yield "ends_with_cn %s %d %d" % (s, c, rng.choice((n, n - 1, k)))
            for x in (p, q, t[n - k:], "z" + p[1:], per, "\xe9"):
                for op in ("find_s", "select_s", "count_s"):
                    yield "%s %s %s %d" % (op, s, hx(x), rng.choice((0, at)))
                yield "begins_with_s %s %s" % (s, hx(x))
                yield "ends_with_s %s %s" % (s, hx(x))
            for x in (al, al.replace("a", ""), "abc", "b\xe9"):
                for op in ("first_of_s", "first_not_of_s"):
                    yield "%s %s %s %d" % (op, s, hx(x), rng.choice((0, at)))
                for op in ("last_of_s", "last_not_of_s"):
                    yield "%s %s %s %d" % (op, s, hx(x), rng.choice((-1, at)))
                yield "begins_with_any %s %s" % (s, hx(x))
                yield "ends_with_any %s %s" % (s, hx(x))
            yield "first_of_any3 %s %s %s %s" % (s, hx(q), hx("\xe9"), hx("zz"))

def compare(tier, rng, work):
    big = tier == "thorough"
    A = strs("ab", 3) + ["\x80", "a\x80", "\xff", "a\xff", "\x00", "a\x00", "\x7f", "a\x00b"]
    if big: A += strs("abc", 3)
    A = list(dict.fromkeys(A))
    for x in A:
        for y in A:
            yield "cmp %s %s" % (hx(x), hx(y))
            yield "cmp_std %s %s" % (hx(x), hx(y))
            if len(y) <= 4:
                yield "cmp_arr %s %s" % (hx(x), hx(y))
        for c in (0, 97, 98, 99, 127, 128, 255):
            yield "cmp_c %s %d" % (hx(x), c)
    for c in range(256):
        for d in ([0, 1, 97, 127, 128, 129, 255, c, (c + 1) % 256] if not big else range(256)):
            yield "cmp_c %s %d" % (hx([c]), d)
            yield "cmp %s %s" % (hx([c]), hx([d]))
        yield "cmp_c %s %d" % (hx([c, 97]), c)
    for q in ("cmp n n", "cmp n x", "cmp x n", "cmp x61 n", "cmp n x61", "cmp_c n 97", "cmp_c x 97", "cmp_c n 0", "cmp_std n x", "cmp_std n x61", "cmp_arr n x", "cmp_arr n x61"):
        yield q
    for c in (0, 97, 127, 128, 255):
        for d in (0, 97, 98, 127, 128, 255):
            for k in (0, 1, 2, 3):
                yield "cmp_long %s %d %d" % (hx([c]), d, k)
    for _ in range(6000 if big else 2500):
        t = rtext(rng, 70)
        m = rng.random()
        if m < .3: u = t
        elif m < .6 and t:
            k = rng.randrange(len(t)); u = t[:k] + rng.choice(ANY) + t[k + 1:]
        elif m < .8: u = t[:rng.randint(0, len(t))]
        else: u = t + rtext(rng, 4)
        yield "cmp %s %s" % (hx(t), hx(u))
        yield "cmp %s %s" % (hx(u), hx(t))
        yield "cmp_std %s %s" % (hx(t), hx(u))
        if len(u) <= 4: yield "cmp_arr %s %s" % (hx(t), hx(u))
    noz = [c for c in ANY if c != "\x00"]
    for t in strs("ab", 3) + [rstr(rng, noz, 0, 40) for _ in range(200 if not big else 2000)]:
        yield "adapt " + hx(t)
    for t in strs("ab", 3) + [rtext(rng) for _ in range(100 if not big else 1000)]:
        for n in sorted({0, 1, max(0, len(t) - 1), len(t), len(t) + 1, len(t) + 3}):
            yield "std_chars %s %d" % (hx(t), n)

def split(tier, rng, work):
    big = tier == "thorough"
    def one(t, c):
        s = hx(t)
        yield "split %s %d" % (s, c)
        for k in (0, 1):
            for op in ("pop_left", "pop_right", "gpop_left", "gpop_right"):
                yield "%s %s %d %d" % (op, s, c, k)
        yield "basename %s %d" % (s, c)
        yield "dirname %s %d" % (s, c)
    for t in strs("a/", 8 if big else 7):
        yield from one(t, 47)
        n = len(t)
        if n:
            yield "next_split %s 47 0" % hx(t)
            for st in range(1, n):
                if len(t) <= 5:
                    yield "split_at %s 47 %d" % (hx(t), st)
                    yield "next_split %s 47 %d" % (hx(t), st)
            if n <= 5:
                yield "!split_at %s 47 %d" % (hx(t), n)
                yield "!split_at %s 47 %d" % (hx(t), n + 1)
                yield "!split_eq %s 47 97 0 0" % hx(t)
                for i in range(n + 3):
                    for j in range(n + 3):
                        yield "split_eq %s 47 47 %d %d" % (hx(t), i, j)
        else:
            yield "next_split %s 47 0" % hx(t)
    for t in strs("a./", 6 if big else 5):
        yield from one(t, 47)
        yield "exts " + hx(t)
    for t in strs("ab.", 6 if big else 5):
        yield "exts " + hx(t)
    for q in ("split n 47", "pop_left n 47 0", "pop_left n 47 1", "pop_right n 47 0", "pop_right n 47 1", "gpop_left n 47 0", "gpop_left n 47 1",
              "gpop_right n 47 0", "gpop_right n 47 1", "basename n 47", "dirname n 47", "exts n"):
        yield q
    for _ in range(4000 if big else 1000):
        c = rng.choice([47, 44, 0, 255, 32, 97])
        t = rstr(rng, [chr(c)] * 3 + rng.choice([list("ab"), ANY, EDGE]), 0, 30)
        if rng.random() < .05: t = rlong(rng)[:400] if rng.random() < .5 else rstr(rng, [chr(c)] + list("abcdefg"), 100, 300)
        yield from one(t, c)
        if t:
            st = rng.randrange(len(t))
            yield "split_at %s %d %d" % (hx(t), c, st)
            yield "next_split %s %d %d" % (hx(t), c, st)
        yield "exts " + hx(rstr(rng, list("ab...") + ["/"], 0, 20))

NUMATOMS = ["0", "1", "7", "8", "9", "a", "f", "g", "A", "F", "x", "X", "b", "B", "o", "O", "e", "E", "p", "P", ".", "+", "-", "0x", "0b", "0o", "0X",
            "inf", "infinity", "nan", "in", "na", " ", "\t", "\n", "\r", ",", ";", "]", ")", "}", "\x00", "\x80", "z", "_", "1e", "e+", "e-", "p+", "p-", "p+1", "e-1"]

def numtok(tier, rng, work):
    big = tier == "thorough"
    for t in strs("019afxboep.+- ,", 4 if big else 3):
        yield "spans " + hx(t)
    for t in strs(NUMATOMS, 3 if big else 2):
        yield "spans " + hx(t)
    for pre in ("", "+", "-", " ", " -"):
        for t in strs("1.e+", 6 if big else 5):
            yield "spans " + hx(pre + t)
        for p2 in ("0x", "0X", "0b", "0o", "0B", "0O"):
            for t in strs("1.p+", 5 if big else 4) + strs("f8-", 3):
                yield "spans " + hx(pre + p2 + t)
    words = ["inf", "infinity", "nan", "infinit", "infx", "nanx", "Inf", "NaN", "in", "na", "n", "i"]
    for pre in ("", "+", "-", "++", " ", "0"):
        for w in words:
            for suf in ["", " ", ",", "x", "]", "0", "\x00", ".", "inity", "\n"]:
                yield "spans " + hx(pre + w + suf)
    for c in ANY:
        for t in ("1" + c, c + "1", "12" + c, "123" + c, "0x1" + c, "0b1" + c, "0o1" + c, "1." + c, "1e1" + c, ".1" + c, "0x1.1" + c, "0x1p+1" + c, "nan" + c, "inf" + c,
                  "0b.1" + c, "0b1p-1" + c, "0o.7" + c, "0o7p+1" + c, "+" + c, "-1" + c, "1" + c + "1", "0x" + c + "1", "0b" + c + "1", "0o" + c + "1", "1e" + c + "1", "0x1p" + c + "1", c, c + c):
            yield "spans " + hx(t)
    yield "spans n"
    for _ in range(20000 if big else 6000):
        k = rng.randint(2, 7)
        yield "spans " + hx("".join(rng.choice(NUMATOMS) for _ in range(k)))
    def digs(a, lo, hi): return rstr(rng, list(a), lo, hi)
    for _ in range(20000 if big else 6000):
        pre, dg, ex = rng.choice([("", "0123456789", "eE"), ("0x", "0123456789abcdefABCDEF", "pP"), ("0b", "01", "pP"), ("0o", "01234567", "pP")])
        t = rng.choice(["", "", " ", "\n\t"]) + rng.choice(["", "", "+", "-"]) + pre + (digs(dg, 0, 9) if rng.random() < .9 else digs(dg, 10, 80))
        if rng.random() < .5: t += "." + (digs(dg, 0, 6) if rng.random() < .9 else digs(dg, 7, 70))
        if rng.random() < .5: t += rng.choice(ex) + rng.choice(["", "+", "-"]) + digs("0123456789", 0, 3)
        t += rng.choice(["", "", "", " ", ",", ";", "]", ")", "}", "\n", "\r", "\t", "\x00", "z", "_", "8", "g", ":"])
        if rng.random() < .3: t += digs("0a,", 0, 3)
        yield "spans " + hx(t)
    # hundreds of digits in one of the parts
    for _ in range(2000 if big else 250):
        pre, dg, ex = rng.choice([("", "0123456789", "eE"), ("0x", "0123456789abcdefABCDEF", "pP"), ("0b", "01", "pP"), ("0o", "01234567", "pP")])
        w = rng.choice(("ws", "int", "frac", "exp", "int", "frac"))
        L = lambda a, k: digs(a, 1, 4) if w != k else rstr(rng, list(a), *(2 * [rng.choice((100, 127, 128, 255, 256, 257, 300, 400, 600))]))
        t = (" " if w != "ws" else " " * rng.choice((100, 128, 255, 256, 257, 500))) + rng.choice(["", "+", "-"]) + pre + L(dg, "int")
        if w in ("frac", "exp") or rng.random() < .4: t += "." + L(dg, "frac")
        if w == "exp" or rng.random() < .4: t += rng.choice(ex) + rng.choice(["", "+", "-"]) + L("0123456789", "exp")
        yield "spans " + hx(t + rng.choice(["", "", " ", ",", "]", "z", "_", "."]))

def edit(tier, rng, work):
    big = tier == "thorough"
    for c in ANY:
        for op in ("toupper", "tolower"):
            if ord(c) < 128:
                yield "%s %s" % (op, hx(c))
                yield "%s %s" % (op, hx("aZ" + c + "zA"))
    L = list(range(0, 7)) + ([8, 12, 17] if big else [9])
    for n in L:
        t = "".join(chr(97 + i) for i in range(n)); s = hx(t)
        yield "fill %s 120" % s
        yield "reverse " + s
        for f in range(n + 2):
            for m in range(n + 2):
                ok = f <= n and f + m <= n
                yield "%sreverse_sub %s %d %d" % ("" if ok else "!", s, f, m)
                yield "%serase %s %d %d" % ("" if ok else "!", s, f, m)
                if ok: yield "erase_sub %s %d %d" % (s, f, m)
                if f <= m <= n:
                    yield "reverse_range %s %d %d" % (s, f, m)
                if f <= m:
                    yield "%serase_range %s %d %d" % ("" if m <= n else "!", s, f, m)
        for k in range(0, min(n, 6) + 3):
            src = hx("ABCDEFGHIJ"[:k])
            yield "copy_from0 %s %s" % (s, src)
            for f in range(n + 2):
                for m in list(range(0, min(n, 6) + 3)) + [-1]:
                    num = min(n - f if m == -1 else m, k)
                    ok = f <= n and f + num <= n
                    yield "%scopy_from %s %s %d %d" % ("" if ok else "!", s, src, f, m)
    for t in strs("ab", 5 if big else 4):
        s, n = hx(t), len(t)
        for st in list(range(n + 2)) + [-1]:
            b = "" if st <= n else "!"
            yield "%sreplace_c %s 97 98 %d" % (b, s, st)
            yield "%sreplace_c %s 97 97 %d" % (b, s, st)
            yield "%sreplace_c %s 99 98 %d" % (b, s, st)
            for C in ("", "a", "ab", "c", "bc"):
                yield "%sreplace_s %s %s 99 %d" % (b, s, hx(C), st)
        for p in strs("ab", 3)[1:]:
            for r in ("", "a", "b", "xy", "xyz", p):
                yield "!replace_all %s %d %s %s %d" % (s, n + 8, hx(p), hx(r), n + 1)
                for pos in list(range(n + 1)) + [-1]:
                    for dl in ((0, 3, n, n + 8) if not big else (0, 1, 2, 3, n, n + 1, n + 8)):
                        yield "replace_all %s %d %s %s %d" % (s, dl, hx(p), hx(r), pos)
    for q in ("toupper n", "tolower n", "fill n 97", "reverse n", "reverse_sub n 0 0", "reverse_range n 0 0", "copy_from0 n n", "copy_from0 n x61", "copy_from0 x61 n",
              "copy_from n x61 0 0", "replace_c n 97 98 0", "replace_s n x61 98 0", "replace_all x 0 x61 x62 0", "replace_all n 3 x61 x62 0", "replace_all n 0 x61 n 0", "!replace_all x6161 8 x x62 0", "!replace_all x6161 8 n x62 0", "erase_range x 0 0"):
        yield q
    for _ in range(4000 if big else 1500):
        t = rtext(rng); n = len(t); s = hx(t)
        low = hx("".join(c for c in t if ord(c) < 128))
        yield "toupper " + low
        yield "tolower " + low
        f = rng.randint(0, n); m = rng.randint(0, n - f)
        yield "reverse " + s
        yield "reverse_sub %s %d %d" % (s, f, m)
        yield "erase %s %d %d" % (s, f, m)
        yield "erase_sub %s %d %d" % (s, f, m)
        src = rtext(rng, 12 if rng.random() < .7 else 40)
        yield "copy_from %s %s %d %d" % (s, hx(src), f, rng.choice([-1, m]))
        yield "copy_from0 %s %s" % (s, hx(src))
        c = ord(rng.choice(t)) if t else 97
        yield "replace_c %s %d %d %d" % (s, c, rng.randrange(256), rng.choice([0, f, -1]))
        yield "replace_s %s %s %d %d" % (s, hx("".join(rng.choice(t or "a") for _ in range(rng.randint(0, 4)))), rng.randrange(256), rng.choice([0, f, -1]))
        p = t[f:f + rng.choice((1, 2, 3, rng.randint(1, 3), rng.randint(4, 30)))] or "a"
        if n > 200: t = t[:200]; n = 200; s = hx(t); f = rng.randint(0, n); p = t[f:f + rng.choice((1, 2, 3, 20))] or "a"
        r = rstr(rng, list("abXY"), 0, 5 if rng.random() < .85 else 40)
        import builtins
        need = len(t[:0]) + len(t.replace(p, r))
        for dl in {0, max(0, need - 1), need, need + 5, need // 2} if n < 80 else {max(0, need - 1), need}:
            yield "replace_all %s %d %s %s %d" % (s, dl, hx(p), hx(r), rng.choice([0, 0, f, -1]))
    for n in (127, 128, 255, 256, 257, 300):
        yield "replace_all %s %d x61 %s 0" % (hx("a" * n), 2 * n, hx("bc"))
    # hundreds of occurrences, and of anything that is replaced
    for _ in range(60 if big else 12):
        p = rng.choice(("a", "ab", "aa", "aba"))
        t = "".join(rng.choice((p, p, p, "b", "x")) for _ in range(rng.choice((130, 200, 300))))
        r = rng.choice(("", "b", "bc", "xyzw", p))
        need = len(t.replace(p, r))
        for dl in (0, need - 1 if need else 0, need):
            yield "replace_all %s %d %s %s %d" % (hx(t), dl, hx(p), hx(r), rng.choice((0, 0, 3)))
        yield "replace_c %s 97 120 0" % hx(t)
        yield "replace_s %s %s 99 0" % (hx(t), hx("abx"))
        n = len(t); f = rng.randrange(n)
        yield "reverse_range %s %d %d" % (hx(t), f, rng.randint(f, n))
        yield "erase_range %s %d %d" % (hx(t), f, rng.randint(f, n))
        yield "fill %s 97" % hx(t)
        yield "copy_from %s %s %d -1" % (hx(t), hx(rstr(rng, list("cde"), 300, 300)), f)
