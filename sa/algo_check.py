"""C26: find_last and starts_with over ranges of symbolic elements, every iterator category, against their definitions."""
from prog import AnalysisBroken
from values import *
from interp import Interp
from models import Vec
from pct_check import report_ub

VALS = range(0, 4)
INT = {"k": "int", "w": 32, "s": True}


def branch(ctx, f, *vs):
    """f over the (array) values, forking when both outcomes are possible"""
    if not any(isinstance(v, Tab) for v in vs):
        return bool(f(*vs))
    tabs = [v for v in vs if isinstance(v, Tab)]
    axes, arrs = align(tabs)
    it = iter(arrs)
    m = f(*[next(it) if isinstance(v, Tab) else v for v in vs])
    import numpy as np
    return ctx.branch_tab(Tab(axes, np.broadcast_to(m, [len(a.vals) for a in axes])))


def half(x):
    return x // 2 if isinstance(x, int) else x // 2


FIND = {"fl_fwd": None, "fl_fwd_sent": None, "fl_fwd_proj": half, "fl_fwd_range": None, "fl_bidi": None, "fl_bidi_sent": None, "fl_bidi_proj": half,
        "fl_bidi_range": half, "fl_ptr": None, "fl_ptr_proj": half, "fl_vec": None, "fl_vec_proj": half}
EQ = lambda a, b: a == b
STARTS = {"sw_in": EQ, "sw_in_fwd": EQ, "sw_fwd_in": EQ, "sw_bidi": EQ, "sw_ptr": EQ, "sw_sent": EQ, "sw_range": EQ, "sw_vec": EQ,
          "sw_pred": lambda a, b: a // 2 == b, "sw_proj1": lambda a, b: a // 2 == b, "sw_proj2": lambda a, b: a == b // 2,
          "sw_range_all": lambda a, b: (a + 2) // 2 == b - 1}


def args_for(I, fn, seqs):
    a = []
    for vals, nm in seqs:
        if fn.endswith("_vec") or fn.endswith("_vec_proj"):
            a.append(Cell(Vec(I, (None, INT), [Cell(v) for v in vals], nm)))
        else:
            arr = Arr([Cell(v) for v in vals], nm)
            a += [Cell(Ptr(arr, 0)), Cell(Ptr(arr, len(vals)))]
    return a


def text(ctx, vals):
    s = ctx.sample()
    return "{%s}" % ",".join(str(s.get(v.axes[0].name) if isinstance(v, Tab) else v) for v in vals)


def loc(prog, nm):
    for f in prog.fns.values():
        if f["qn"].startswith("uri::") and nm in f["qn"] and f.get("body") is not None:
            return f["loc"]
    return "include/uri/%s.hpp" % nm


def find_job(prog, fn, sizes):
    def job(S):
        rep, an = [], set()
        proj = FIND[fn]
        bad = []
        for n in sizes:
            def run(ctx):
                I = Interp(prog, ctx)
                I.reports, I.analysed = rep, an
                vals = [ctx.axis("e%02d" % i, VALS) for i in range(n)]
                x = ctx.axis("value", VALS)
                ctx.info = (vals, x)
                r = I.load_if(I.call_fn(prog.one("vtu::" + fn), None, args_for(I, fn, [(vals, "range")]) + [Cell(x)], "tu/algo.cpp"))
                got = tuple(I.load(c) for _, c in sorted(r.f.items(), key=lambda kv: str(kv[0])))
                last = n
                for i in range(n - 1, -1, -1):
                    if branch(ctx, lambda e, v: (proj(e) if proj else e) == v, vals[i], x):
                        last = i
                        break
                return None if got == (last, n) else (text(ctx, vals), text(ctx, [x])[1:-1], got, (last, n))
            for ctx, r in explore(run):
                S.stat("abstract paths", 1)
                if r is not None:
                    bad.append(r)
        for seq, x, got, want in bad[:3]:
            S.violation(loc(prog, "find_last"), "find_last (%s) of %s in %s is the subrange [%s,%s) where it should be [%s,%s)" % ((fn[3:], x, seq) + got + want),
                        key=fn)
        report_ub(S, rep, "find_last (%s): " % fn[3:])
        S.obligation("find_last, %s, %s elements" % (fn[3:], "/".join(map(str, sizes))), not bad)
        S.functions(prog, an)
    return job


def starts_job(prog, fn, sizes):
    def job(S):
        rep, an = [], set()
        pred = STARTS[fn]
        bad = []
        for n, m in sizes:
            def run(ctx):
                I = Interp(prog, ctx)
                I.reports, I.analysed = rep, an
                a = [ctx.axis("a%02d" % i, VALS) for i in range(n)]
                b = [ctx.axis("b%02d" % i, VALS) for i in range(m)]
                r = I.truth(I.load_if(I.call_fn(prog.one("vtu::" + fn), None, args_for(I, fn, [(a, "first"), (b, "second")]), "tu/algo.cpp")))
                want = m <= n
                if want:
                    for x, y in zip(a, b):
                        if not branch(ctx, pred, x, y):
                            want = False
                            break
                return None if r == want else (text(ctx, a), text(ctx, b), r, want)
            for ctx, r in explore(run):
                S.stat("abstract paths", 1)
                if r is not None:
                    bad.append(r)
        for a, b, r, w in bad[:3]:
            S.violation(loc(prog, "starts_with"), "starts_with (%s) of %s and %s is %s where it should be %s" % (fn[3:], a, b, r, w), key=fn)
        report_ub(S, rep, "starts_with (%s): " % fn[3:])
        S.obligation("starts_with, %s, %d pairs of lengths" % (fn[3:], len(sizes)), not bad)
        S.functions(prog, an)
    return job


def jobs(prog, tier):
    N = 6 if tier == "thorough" else 4
    fs = [find_job(prog, f, list(range(N + 1))) for f in FIND]
    sizes = [(n, m) for n in range(N + 1) for m in range(N + 1)]
    return fs + [starts_job(prog, f, sizes) for f in STARTS]
