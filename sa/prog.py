"""Loads the JSON-lines AST produced by /verif/tool/astdump for a set of TUs."""
import json, os, subprocess, sys, glob, hashlib, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
ASTDUMP = os.path.join(VERIF, "build", "astdump")
FLAGS = ["-std=gnu++20", "-I" + REPO + "/include", "-w"]


class AnalysisBroken(Exception):
    """The analysis cannot give an answer (not a verdict about the property)."""


class Prog:
    def __init__(self):
        self.types = {}     # (tu,id) -> type
        self.fns = {}       # key -> fn record
        self.vars = {}
        self.recs = {}
        self.tus = []
        self.diag = {}

    def load(self, path, tu):
        types = {}
        done = False
        with open(path) as f:
            for line in f:
                r = json.loads(line)
                k = r["R"]
                if k == "type":
                    types[r["id"]] = r
                elif k == "fn":
                    r["T"] = types
                    r["tu"] = tu
                    o = self.fns.get(r["key"])
                    if o is None or (o.get("body") is None and r.get("body") is not None) or \
                       (o.get("body") is None and "inits" not in o and "inits" in r):
                        self.fns[r["key"]] = r
                elif k == "var":
                    r["T"] = types
                    o = self.vars.get(r["key"])
                    if o is None or ("init" not in o and "init" in r):
                        self.vars[r["key"]] = r
                elif k == "rec":
                    r["T"] = types
                    o = self.recs.get(r["key"])
                    if o is None or o.get("incomplete"):
                        self.recs[r["key"]] = r
                elif k == "end":
                    done = True
        if not done:
            raise AnalysisBroken("front end produced no complete dump for " + tu)
        self.tus.append(tu)

    # -- helpers ---------------------------------------------------------
    def index(self):
        if getattr(self, "_idx_n", None) != len(self.fns):
            self._idx_n = len(self.fns)
            self._by_name, self._by_qn = {}, {}
            for f in self.fns.values():
                self._by_name.setdefault(f["name"], []).append(f)
                self._by_qn.setdefault(f["qn"], []).append(f)

    def named(self, name):
        """all functions with this unqualified name"""
        self.index()
        return self._by_name.get(name, [])

    def fn_by_qn(self, qn, pred=None, need_body=True):
        self.index()
        r = [f for f in self._by_qn.get(qn, []) if (not need_body or f.get("body") is not None)
             and (pred is None or pred(f))]
        return r

    def one(self, qn, pred=None):
        r = self.fn_by_qn(qn, pred)
        if len(r) != 1:
            raise AnalysisBroken("anchor %s: expected one definition, found %d" % (qn, len(r)))
        return r[0]


def build_tool():
    p = subprocess.run([os.path.join(VERIF, "tool", "build.sh")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0 or not os.path.exists(ASTDUMP):
        raise AnalysisBroken("cannot build the AST front end: " + p.stdout.decode(errors="replace")[-800:])


def lib_sources():
    return sorted(glob.glob(REPO + "/lib/**/*.cpp", recursive=True))


def load_program(tus):
    """tus: list of (name, path). Dumps each TU afresh from the working tree."""
    build_tool()
    tmp = tempfile.mkdtemp(prefix="uri-sa-")
    try:
        def one(i_tu):
            i, (name, path) = i_tu
            out = os.path.join(tmp, "%d.jsonl" % i)
            p = subprocess.run([ASTDUMP, out, "T%d" % i, path, "--"] + FLAGS, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT)
            return name, out, p.returncode, p.stdout.decode(errors="replace")
        prog = Prog()
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, enumerate(tus)))
        for name, out, rc, msg in res:
            if rc != 0:
                raise AnalysisBroken("front end failed on %s: %s" % (name, msg[-1500:]))
            prog.load(out, name)
        return prog
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def repo_program(extra=()):
    tus = [(os.path.relpath(p, REPO), p) for p in lib_sources()]
    if not tus:
        raise AnalysisBroken("no library sources under %s/lib" % REPO)
    for n in extra:
        if n.startswith("/"):
            tus.append((n, n))
        else:
            tus.append(("tu/" + n, os.path.join(VERIF, "tu", n)))
    return load_program(tus)
