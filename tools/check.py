#!/usr/bin/env python3
"""check.py <PROPERTY> [quick|thorough]        decide one property
   check.py <PROPERTY> replay <file>           run one recorded case again

exit 0: held on everything explored
exit 1: VIOLATION property=<id> replay=<path>
other : the check could not be carried out"""
import collections, concurrent.futures as cf, json, os, random, shutil, sys, tempfile, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf
from vf import CheckError, log
import props


def load_known():
    out = []
    p = os.path.join(vf.VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known:"):
                out.append(json.loads(line[len("known:"):]))
    return out


def run_cases(b, part, config, cases, work, tag, jobs=4):
    """run the cases of a part in one configuration, split over processes"""
    exe = b.driver(part.driver, config, part.defines)
    chunks = []
    n = max(1, min(jobs, len(cases) // 3000 + 1))
    bounds = [len(cases) * k // n for k in range(n + 1)]
    if part.stateful:
        adj = [0]
        for x in bounds[1:-1]:
            while x < len(cases) and not cases[x].lstrip("!").startswith("begin"):
                x += 1
            adj.append(max(x, adj[-1]))
        bounds = adj + [len(cases)]
    for k in range(n):
        lo, hi = bounds[k], bounds[k + 1]
        if hi > lo:
            chunks.append((lo, cases[lo:hi]))
    res = []
    with cf.ThreadPoolExecutor(jobs) as ex:
        futs = [ex.submit(vf.run_driver, exe, ch, work, "%s-%s-%d" % (tag, config, k), part.hang_s)
                for k, (lo, ch) in enumerate(chunks)]
        for (lo, ch), f in zip(chunks, futs):
            r = f.result()
            res.append((lo, ch, r))
    return res


def session_of(cases, idx):
    """the session (stateful parts) that contains case idx (0-based)"""
    lo = idx
    while lo > 0 and not cases[lo].lstrip("!").startswith("begin"):
        lo -= 1
    hi = idx + 1
    while hi < len(cases) and not cases[hi].lstrip("!").startswith("begin"):
        hi += 1
    return cases[lo:hi]


def write_replay(pid, part, config, cases, why, event=None, expected=None):
    d = os.path.join(vf.VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s.json" % (pid, part.name))
    with open(p, "w") as f:
        json.dump({"property": pid, "part": part.name, "config": config, "cases": cases, "why": why,
                   "event": event, "specification_expects": expected,
                   "how": "python3 tools/check.py %s replay %s" % (pid, p)}, f, indent=1)
    return p


def judge(b, part, config, cases, work, tag):
    """run and validate a few cases; returns a description of the first problem, or None"""
    exe = b.driver(part.driver, config, part.defines)
    r = vf.run_driver(exe, cases, work, tag, part.hang_s)
    if r.crash:
        return ("crash", r.crash[1], None, None)
    evs = [e for _, e in r.events]
    mism, n, _ = vf.validate(part.spec, evs, work, tag, part.cut if part.stateful else None)
    if mism:
        i, exp = mism[0]
        return ("mismatch", "the specification does not allow this outcome", evs[i], exp)
    return None


def main():
    pid = sys.argv[1]
    mode = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = props.PROPS[pid]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="vf-%s-" % pid, dir=os.environ.get("VF_TMP", "/tmp"))
    try:
        b = vf.Builder(work)
        if mode == "replay":
            return replay(b, P, pid, sys.argv[3], work)
        return check(b, P, pid, mode, seed, work, t0)
    except vf.DoesNotCompile as e:
        d = os.path.join(vf.VERIF, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-build.json" % pid)
        json.dump({"property": pid, "why": "a program using the library does not compile", "compiler": str(e)}, open(p, "w"), indent=1)
        log("[%s] %s" % (pid, e))
        print("VIOLATION property=%s replay=%s" % (pid, p))
        return 1
    except CheckError as e:
        log("ERROR %s: %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(b, P, pid, path, work):
    d = json.load(open(path))
    if "compiler" in d:
        for part in P.parts:
            for c in part.configs_thorough:
                b.driver(part.driver, c, part.defines)
        print("not reproduced")
        return 0
    part = [p for p in P.parts if p.name == d["part"]][0]
    bad = judge(b, part, d["config"], d["cases"], work, "replay")
    if bad:
        print(json.dumps({"kind": bad[0], "why": bad[1], "event": bad[2], "expected": bad[3]}, indent=1))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("not reproduced")
    return 0


def check(b, P, pid, tier, seed, work, t0):
    known = [k for k in load_known() if k["property"] == pid]
    violations = []          # (part, config, cases, why, event, expected)
    cov = collections.OrderedDict()
    states = trans = validated = evaluations = 0
    opcount = collections.Counter()
    samples = []
    mcs = []
    ex = cf.ThreadPoolExecutor(4)

    # 1. model checking of the specification itself
    def run_mc(m):
        r = vf.tlc(m.module, work, cfg=m.cfg, workers=m.workers, heap=m.heap, timeout=m.timeout)
        if r.returncode != 0 or "No error has been found" not in r.stdout:
            raise CheckError("model checking of %s/%s failed:\n%s" % (m.module, m.cfg, r.stdout[-3000:]))
        return m, vf.tlc_counts(r.stdout), r.wall
    mcf = [ex.submit(run_mc, m) for m in P.models if tier == "thorough" or not m.thorough_only]

    # 2. conformance of the code
    for part in P.parts:
        configs = part.configs_thorough if tier == "thorough" else part.configs
        if os.environ.get("VF_CONFIGS"):
            configs = os.environ["VF_CONFIGS"].split(",")
        bf = [ex.submit(b.driver, part.driver, c, part.defines) for c in configs]
        rng = random.Random("%d:%s:%s" % (seed, pid, part.name))
        tg = time.time()
        cases = list(part.gen(tier, rng, work))
        log("[%s] %s: %d cases generated in %.1fs" % (pid, part.name, len(cases), time.time() - tg))
        evaluations += len(cases) * len(configs)
        for f in bf:
            f.result()
        log("[%s] %s: drivers built at %.1fs" % (pid, part.name, time.time() - t0))
        seen = {}            # event text -> (config, case index)
        runs = [ex.submit(run_cases, b, part, c, cases, work, part.name) for c in configs]
        stateful_runs = []
        for c, f in zip(configs, runs):
            for lo, ch, r in f.result():
                if r.crash:
                    idx = lo + max(r.crash[0], 1) - 1
                    cs = session_of(cases, idx) if part.stateful else [cases[min(idx, len(cases) - 1)]]
                    violations.append((part, c, cs, r.crash[1], None, None, cases))
                if part.stateful:
                    stateful_runs.append((c, lo, r.events))
                else:
                    for i, e in r.events:
                        if e not in seen:
                            seen[e] = (c, lo + i - 1)
        log("[%s] %s: drivers run at %.1fs" % (pid, part.name, time.time() - t0))
        if violations:
            break
        if part.stateful:
            # identical sessions observed in several configurations are judged once
            evs, src, have = [], [], set()
            for c, lo, events in stateful_runs:
                cur, cursrc = [], []
                def flush():
                    if cur:
                        t = "\n".join(cur)
                        if t not in have:
                            have.add(t)
                            evs.extend(cur); src.extend(cursrc)
                for i, e in events:
                    if part.cut(e):
                        flush()
                        cur, cursrc = [], []
                    cur.append(e); cursrc.append((c, lo + i - 1))
                flush()
        else:
            evs = list(seen.keys())
            src = [seen[e] for e in evs]
        mism, n, nsh = vf.validate(part.spec, evs, work, part.name, part.cut if part.stateful else None)
        validated += n
        for e in evs[:: max(1, len(evs) // 20000)]:
            opcount[e[6:e.index('"', 6)]] += 1
        if evs:
            rr = random.Random(seed)
            for _ in range(3):
                samples.append(json.loads(rr.choice(evs)))
        log("[%s] %s: %d events validated, %d rejected, at %.1fs" % (pid, part.name, n, len(mism), time.time() - t0))
        cov["part_" + part.name] = {"cases": len(cases), "configurations": list(configs), "distinct_events": n}
        for i, exp in mism:
            c, ci = src[i]
            cs = session_of(cases, ci) if part.stateful else [cases[ci]]
            violations.append((part, c, cs, "the specification does not allow this outcome", evs[i], exp, cases))

    for f in mcf:
        m, (g, d), wall = f.result()
        states += d
        trans += g
        mcs.append({"module": m.module, "config": m.cfg, "states_generated": g, "distinct_states": d, "checks": m.what})
        log("[%s] model %s: %d states (%.1fs)" % (pid, m.cfg, d, wall))

    # 3. known findings, confirmation and report
    rc = 0
    reported = set()
    fresh = []
    for v in violations:
        k = next((k for k in known if k["part"] == v[0].name and v[2] == k["cases"]), None)
        if k:
            if k["what"] not in reported:
                print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
                reported.add(k["what"])
        else:
            fresh.append(v)
    nviol = len(fresh)
    if fresh:
        for v in fresh[:12]:
            log("  rejected [%s/%s]: %s\n    event    %s\n    expected %s" % (v[0].name, v[1], v[2][-1][:300], (v[4] or v[3])[:1200], v[5]))
        part, c, cs, why, event, exp, allc = fresh[0]
        again = judge(b, part, c, cs, work, "confirm")
        if again is None:
            again = judge(b, part, c, allc, work, "confirm2")
            cs = allc
        if again is None:
            raise CheckError("a rejection could not be reproduced: %s %s" % (event, why))
        path = write_replay(pid, part, c, cs[:5000], why, event, exp)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        rc = 1
    cov.update({"states": states, "transitions": trans, "traces_validated_against_impl": validated,
                "evaluations": evaluations, "models": mcs, "operations_observed": dict(opcount), "samples": samples})
    if evaluations and not validated and rc == 0:
        raise CheckError("nothing was validated")
    os.makedirs(os.path.join(vf.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(vf.VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump({"property": pid, "tier": "thorough" if tier == "thorough" else "quick", "seed": seed, "level": P.level,
                   "coverage": cov, "assumptions": P.assumptions, "wall_s": round(time.time() - t0, 2),
                   "violations": nviol}, f, indent=1)
    log("[%s] %s in %.1fs" % (pid, "VIOLATED" if rc else "ok", time.time() - t0))
    return rc


if __name__ == "__main__":
    sys.exit(main())
