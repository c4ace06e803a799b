#!/usr/bin/env python3
"""Confirms candidate bugs in scratch copies of /repo and keeps the ones that count under /verif/seeded.
usage: plant.py SPEC.py [id...]      (SPEC defines BUGS: list of dicts; see scripts/bugs.py)
       plant.py --check [id...]      runs the checks of the kept bugs' properties against patched scratch copies"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = dict(stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
DEMO = """#!/bin/bash
# run with cwd /repo: builds demo.cpp with the library's sources and runs it (0: behaves, other: does not)
here=$(cd "$(dirname "$0")" && pwd)
exe=$(mktemp)
g++ -std=gnu++20 -w -I include "$here/demo.cpp" %s -o "$exe" || { unlink "$exe"; exit 3; }
timeout 60 "$exe"
rc=$?
unlink "$exe"
exit $rc
"""
HEAD = """#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <iterator>
#include <sstream>
#include <string>
#include <vector>
#include "uri/uri.hpp"
#include "uri/parts.hpp"
#include "uri/rule.hpp"
static int bad = 0;
#define EXPECT(c) do { if (!(c)) { std::printf ("line %d: %s\\n", __LINE__, #c); bad = 1; } } while (0)
"""


def run(cmd, **kw):
    return subprocess.run(cmd, **{**SH, **kw})


def scratch():
    d = tempfile.mkdtemp(prefix="plant-")
    r = d + "/repo"
    run(["git", "clone", "-q", "/repo", r], check=True)
    return d, r


def build_and_test(r):
    env = dict(os.environ, CC="/usr/bin/gcc", CXX="/usr/bin/g++", GTEST_FILTER="-*", LC_ALL="C.UTF-8")
    p = run(["cmake", "-S", r, "-B", r + "/_build", "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Debug", "-DFETCHCONTENT_FULLY_DISCONNECTED=ON",
             "-DFETCHCONTENT_SOURCE_DIR_GOOGLETEST=/usr/src/googletest"], env=env)
    if p.returncode:
        return "cmake: " + p.stdout[-500:]
    p = run(["ninja", "-C", r + "/_build"], env=env)
    if p.returncode:
        return "build: " + p.stdout[-1500:]
    env.pop("GTEST_FILTER")
    p = run(["timeout", "120", "./unittest", "--gtest_brief=1"], env=env, cwd=r + "/_build/unittests/uri")
    if p.returncode:
        return "tests (%d): " % p.returncode + "\n".join([l for l in p.stdout.splitlines() if "FAILED" in l][:6]) + p.stdout[-200:]
    return None


def write_demo(b, d):
    os.makedirs(d, exist_ok=True)
    if "sh" in b:
        open(d + "/demo.sh", "w").write(b["sh"])
    else:
        open(d + "/demo.sh", "w").write(DEMO % ("lib/uri/*.cpp"))
        open(d + "/demo.cpp", "w").write(HEAD + b.get("pre", "") + "int main () {\n" + b["demo"] + "\n  return bad;\n}\n")
    for n, t in b.get("files", {}).items():
        open(d + "/" + n, "w").write(t)
    os.chmod(d + "/demo.sh", 0o755)


def demo(d, r):
    p = run(["bash", d + "/demo.sh"], cwd=r)
    return p.returncode, p.stdout[-600:]


def apply(b, r):
    for f, old, new in b["edits"]:
        p = r + "/" + f
        s = open(p).read()
        if s.count(old) != 1:
            return "edit does not match once in %s (%d): %r" % (f, s.count(old), old[:60])
        open(p, "w").write(s.replace(old, new))


def one(b):
    d, r = scratch()
    try:
        write_demo(b, d + "/demo")
        rc, out = demo(d + "/demo", r)
        if rc != 0:
            return b, "demo fails on the unchanged tree (%d): %s" % (rc, out)
        e = apply(b, r)
        if e:
            return b, e
        diff = run(["git", "diff"], cwd=r).stdout
        e = build_and_test(r)
        if e:
            return b, e
        rc, out = demo(d + "/demo", r)
        if rc == 0:
            return b, "demo passes with the change"
        k = V + "/seeded/" + b["id"]
        os.makedirs(k, exist_ok=True)
        write_demo(b, k)
        open(k + "/patch.diff", "w").write(diff)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(k + "/meta.json", "w"), indent=1)
        c = check(b["id"], b["property"], r)
        return b, "KEPT (demo: %s)\n    %s" % (out.strip()[:160], c)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(bid, pid, r):
    p = run([V + "/check", pid], env=dict(os.environ, VERIF_REPO=r, VERIF_REPLAY="0"), timeout=900)
    lines = [l for l in p.stdout.splitlines() if l.strip()]
    return "check %s exit %d: %s" % (pid, p.returncode, " | ".join(lines[:2] + lines[-1:])[:420])


def recheck(bid):
    k = V + "/seeded/" + bid
    pid = json.load(open(k + "/meta.json"))["property"]
    d, r = scratch()
    try:
        p = run(["git", "apply", k + "/patch.diff"], cwd=r)
        if p.returncode:
            return bid, "patch does not apply: " + p.stdout
        return bid, check(bid, pid, r)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a and a[0] == "--check":
        ids = a[1:] or sorted(os.listdir(V + "/seeded"))
        with ThreadPoolExecutor(3) as ex:
            for bid, m in ex.map(recheck, ids):
                print(bid, m, flush=True)
        return
    ns = {}
    exec(open(a[0]).read(), ns)
    bugs = [b for b in ns["BUGS"] if (not a[1:] and not os.path.exists(V + "/seeded/" + b["id"])) or b["id"] in a[1:]]
    with ThreadPoolExecutor(4) as ex:
        for b, m in ex.map(one, bugs):
            print(b["id"], b["property"], m, flush=True)


if __name__ == "__main__":
    main()
