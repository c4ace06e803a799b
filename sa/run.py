"""Command line of the checks: run.py <property> [--tier quick|thorough]"""
import argparse, json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from prog import AnalysisBroken, VERIF, REPO

LIMIT = 40


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.violations = []
        self.obl = []
        self.stats = {}
        self.fns = set()
        self.notes = []
        self.samples = []
        self.peak = {}
        self.pool = None            # when set: jobs are gathered here instead of being run
        self.sparse = 1             # every how many-th group of scenes is analysed
        self.only = None            # when set: the keys (kinds of report) that count

    def violation(self, loc, msg, key=None):
        if self.only is not None and key not in self.only:
            return
        k = key or loc
        if any(v["loc"] == loc and v["msg"] == msg for v in self.violations):
            return
        self.violations.append({"loc": loc, "msg": msg, "key": k})

    def obligation(self, text, ok=True):
        if self.only is not None:
            ok = not self.violations
        self.obl.append((text, bool(ok)))

    def stat(self, name, n):
        self.stats[name] = self.stats.get(name, 0) + n

    def functions(self, prog, keys):
        for k in keys:
            f = prog.fns.get(k)
            if f is not None:
                l = str(f.get("loc", ""))
                self.fns.add((l, f["qn"]))


def parallel(C, jobs, width=8):
    """Runs job(check) for every job in forked children; merges what they found, in the order of the jobs."""
    import pickle, select, signal
    import interp
    if C.pool is not None:
        C.pool += jobs
        return
    todo = list(enumerate(jobs))
    live, done = {}, {}
    while todo or live:
        while todo and len(live) < width:
            i, job = todo.pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                sub = Check(C.pid, C.tier)
                sub.only = C.only
                interp.PEAK.clear()
                err = None
                t0 = time.time()
                try:
                    job(sub)
                except AnalysisBroken as e:
                    err = ("broken", str(e), traceback.format_exc())
                except BaseException as e:
                    err = ("error", repr(e), traceback.format_exc())
                if os.environ.get("VERIF_TIMES"):
                    print("%6.1f s  job %d %s" % (time.time() - t0, i, sub.obl[:1]), file=sys.stderr)
                with os.fdopen(w, "wb") as f:
                    pickle.dump((sub.violations, sub.obl, sub.stats, sub.fns, sub.notes, sub.samples, interp.PEAK, err), f)
                os._exit(0)
            os.close(w)
            live[r] = (i, pid, [])
        for r in select.select(list(live), [], [])[0]:
            b = os.read(r, 1 << 16)
            i, pid, buf = live[r]
            if b:
                buf.append(b)
                continue
            os.close(r)
            os.waitpid(pid, 0)
            del live[r]
            done[i] = pickle.loads(b"".join(buf)) if buf else ([], [], {}, set(), [], [], {}, ("error", "a worker ended early", ""))
    broken = None
    for i in sorted(done):
        vs, obl, stats, fns, notes, samples, peak, err = done[i]
        for k, n in peak.items():
            C.peak[k] = max(C.peak.get(k, 0), n)
        for v in vs:
            C.violation(v["loc"], v["msg"], v["key"])
        C.obl += obl
        for k, n in stats.items():
            C.stat(k, n)
        C.fns |= fns
        C.notes += notes
        C.samples += samples
        if err and broken is None:
            broken = err
    if broken:
        e = AnalysisBroken(broken[1]) if broken[0] == "broken" else RuntimeError(broken[1])
        if os.environ.get("VERIF_DEBUG"):
            print(broken[2])
        raise e


def known(pid):
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [e for e in json.load(open(p))["findings"] if e["property"] == pid]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    t0 = time.time()
    import checks
    from interp import big_stack
    C = Check(a.property, a.tier)
    broken = None
    try:
        big_stack(lambda: checks.CHECKS[a.property](C))
    except AnalysisBroken as e:
        broken = "analysis cannot decide: %s" % e
        if os.environ.get("VERIF_DEBUG"):
            print(getattr(e, "tb", ""))
    except Exception as e:
        broken = "analysis error: %r" % (e,)
        print(getattr(e, "tb", traceback.format_exc()), file=sys.stderr)
    meta = checks.META[a.property]
    kn = known(a.property)
    new, old = [], []
    for v in C.violations:
        m = [e for e in kn if e["key"] == v["key"]]
        (old if m else new).append((v, m[0] if m else None))
    rdir = os.path.join(VERIF, "build", "replay")
    os.makedirs(rdir, exist_ok=True)
    shown = set()
    for v, e in old:
        if e["key"] not in shown:
            shown.add(e["key"])
            print("KNOWN-FINDING: property=%s %s" % (a.property, e["what"]))
    if new:
        rp = os.path.join(rdir, a.property + ".txt")
        with open(rp, "w") as f:
            f.write("property %s\nrule: %s\n" % (a.property, meta["rule"]))
            for v, _ in new:
                f.write("%s: %s [%s]\n" % (v["loc"], v["msg"], v["key"]))
        for v, _ in new[:LIMIT]:
            print("%s: %s [%s]" % (v["loc"], v["msg"], v["key"]))
        print("VIOLATION property=%s replay=%s" % (a.property, rp))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cov = {
        "explanation": meta["rule"],
        "obligations": len(C.obl),
        "discharged": sum(1 for _, ok in C.obl if ok),
        "checker_cmd": "./check %s" % a.property,
        "trusted_base": meta.get("trusted", []) + ["clang 18 front end (parsing, overload resolution, template instantiation)",
                                                   "the transfer functions for the language and the standard library in sa/interp.py and sa/models.py"],
        "functions_analysed": len(C.fns),
        "functions": sorted("%s (%s)" % (q, l.replace(REPO + "/", "")) for l, q in C.fns if REPO in l or not l.startswith("/usr"))[:400],
        "obligation_list": ["%s %s" % ("ok  " if ok else "FAIL", t) for t, ok in C.obl][:600],
        "counts": C.stats,
        "samples": (C.samples or [t for t, _ in C.obl])[:20],
    }
    cov.update(meta.get("coverage", lambda C: {})(C))
    ev = {"property": a.property, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": seed, "level": meta["level"], "coverage": cov,
          "assumptions": meta.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", a.property + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if new:
        sys.stdout.flush()
        os._exit(1)
    if broken:
        print("ERROR property=%s %s" % (a.property, broken))
        sys.stdout.flush()
        os._exit(2)
    print("ok property=%s obligations=%d/%d functions=%d (%.1f s)" % (a.property, cov["discharged"], cov["obligations"], len(C.fns), time.time() - t0))
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
