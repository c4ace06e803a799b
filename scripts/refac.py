#!/usr/bin/env python3
"""refac.py [-c CHECK,...] [-g] ids: applies behaviour-preserving edits to a scratch clone, builds, tests, runs checks: they must be quiet.
-g: all the edits in one copy."""
import json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant, refactors


def group(bs, checks):
    d, r = plant.scratch()
    try:
        for b in bs:
            e = plant.apply(b, r)
            if e:
                return "%s: %s" % (b["id"], e)
        e = plant.build_and_test(r)
        if e:
            return "build or test: " + e
        out = []
        for c in checks or sorted({c for b in bs for c in b["checks"]}):
            p = subprocess.run([plant.V + "/check", c], env=dict(os.environ, VERIF_REPO=r), capture_output=True, text=True)
            if p.returncode:
                ls = [l for l in p.stdout.splitlines() if l.strip()]
                out.append("  %s exit %d: %s" % (c, p.returncode, "\n      ".join(ls[:4])[:900]))
        return "\n" + "\n".join(out) if out else "quiet"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = sys.argv[1:]
    checks, g = None, False
    while a and a[0].startswith("-"):
        o = a.pop(0)
        if o == "-c":
            checks = a.pop(0).split(",")
        else:
            g = True
    bs = [b for b in refactors.EDITS if not a or b["id"] in a or any(x.endswith("*") and b["id"].startswith(x[:-1]) for x in a)]
    if g:
        print("+".join(b["id"] for b in bs), group(bs, checks), flush=True)
    else:
        for b in bs:
            print(b["id"], group([b], checks), flush=True)


main()
