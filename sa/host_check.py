"""Host labels (part of C12, C13): the label loop around punycode::encode / punycode::decode, which are opaque here."""
import numpy as np
from prog import AnalysisBroken
from values import *
from interp import Interp
import models
from models import SV, Str, Vec, Var, ErrC, Tup, Opt, out_write
from symparts import flds
from pct_check import report_ub, loc_of
from coding_check import u8

ERR = ErrC(77, "opaque-error")


def same_value(I, a, b):
    """None when equal under every assignment of the path, else a sample"""
    t = I.rel("!=", a, b)
    if isinstance(t, Tab):
        if I.ctx.feasible(t):
            I.ctx.assume(t)
            return I.ctx.sample()
        return None
    return I.ctx.sample() if t else None


def it_same(I, b, e):
    bv, ev = I.load(b), I.load(e)
    if models.it_kind(bv) and models.it_kind(ev):
        return models.it_eq(I, bv, ev)
    rb, re = getattr(bv, "rec", None), getattr(ev, "rec", None)
    for f in I.prog.named("operator=="):
        if f.get("body") is None:
            continue
        ps = [I.param_rec(f, i) for i in range(len(f["params"]))]
        B, E = (b if isinstance(b, Cell) else Cell(b)), (e if isinstance(e, Cell) else Cell(e))
        if not f.get("rec") and len(ps) == 2:
            if re is not None and ps[1] == re and (rb is None or ps[0] == rb):
                return I.truth(I.load(I.call_fn(f, None, [B, E], I.loc)))
            if re is not None and ps[0] == re and ps[1] == rb:
                return I.truth(I.load(I.call_fn(f, None, [E, B], I.loc)))
        elif f.get("rec") and len(ps) == 1:
            if f["rec"] == re and ps[0] == rb:
                return I.truth(I.load(I.call_fn(f, E, [B], I.loc)))
            if f["rec"] == rb and ps[0] == re:
                return I.truth(I.load(I.call_fn(f, B, [E], I.loc)))
    return I.truth(I.call_eq(bv, ev))


def elems(I, b, e):
    out = []
    b = I.copyval(I.load(b))
    while not it_same(I, b, e):
        out.append(I.copyval(I.load(models.it_deref(I, b))))
        b = models.it_next(I, b)
        if len(out) > 300:
            I.diverge(I.loc, "label does not end")
    return out, b


def range_bounds(I, cell):
    v = I.load(cell)
    if isinstance(v, SV):
        return v.ptr, Ptr(v.ptr.arr, v.ptr.i + v.len)
    if isinstance(v, Vec):
        return Ptr(v.arr, 0), Ptr(v.arr, len(v.arr.cells))
    if not isinstance(v, Obj):
        raise AnalysisBroken("range %r" % (v,))
    r = []
    for n in ("begin", "end"):
        ops = models.find_ops(I, v, n, 0)
        if not ops:
            raise AnalysisBroken("%s() of %s" % (n, v.rec))
        r.append(I.load(I.call_fn(ops[0], cell if isinstance(cell, Cell) else Cell(v), [], I.loc)))
    return r


def ge128(I, v):
    if isinstance(v, int):
        return v >= 128
    v.norm()
    return I.ctx.branch_tab(Tab(v.axes, v.arr >= 128, v.vers))


def is_(I, v, c):
    if isinstance(v, int):
        return (v & 0xFFFFFFFF if v >= 0 else v & 255) == c
    v.norm()
    return I.ctx.branch_tab(Tab(v.axes, v.arr == c, v.vers))


def split_labels(I, vals):
    labels, cur = [], []
    for v in vals:
        if is_(I, v, 0x2E):
            labels.append(cur)
            cur = []
        else:
            cur.append(v)
    return labels + [cur]


def show(vals, s):
    t = ""
    for v in vals:
        b = v if isinstance(v, int) else s.get(v.axes[0].name, 0)
        t += chr(b) if 0x20 < b < 0x7F else "\\u{%x}" % b if b >= 0 else "\\x%02x" % (b & 255)
    return '"%s"' % t


CPS = list(range(128)) + [0x80, 0xE9, 0x3002, 0xD800, 0xFF0E, 0xFF61, 0xFFFD, 0x1F600, 0x10FFFF]


def encode_job(prog, shape, what):
    def job(S):
        nd, an = [], set()
        loc = loc_of(prog, "uri::details::puny_encoded")

        def run(ctx):
            I = Interp(prog, ctx)
            I.reports, I.analysed = nd, an
            vals = [ctx.axis("c%02d" % i, CPS) if x is None else x for i, x in enumerate(shape)]
            ctx.vals = vals
            arr = Arr([Cell(v) for v in vals], "host")
            calls = []

            def enc(c):
                b, e = range_bounds(I, c.args[0])
                es, endit = elems(I, b, e)
                out = Cell(I.copyval(I.load(c.args[2])))
                plain = I.truth(I.load(c.args[1]))
                any_ = False
                for x in es:
                    if ge128(I, x):
                        any_ = True
                if any_:
                    for m in (0x3C, 0x30 + len(calls), 0x3E):
                        out_write(I, out, m)
                    calls.append(es)
                else:
                    for x in es:
                        out_write(I, out, x)
                    if not plain and es:
                        out_write(I, out, 0x2D)
                rec = prog.recs[c.fn["T"][c.fn["ret"]]["rec"]]
                return Tup([Cell(endit), Cell(out.v), Cell(any_)], I.flat_targs(rec))
            I.intercept = {"uri::punycode::encode": enc}
            r = I.load(I.call_fn(prog.one("vtu::host_encode"), None, [Cell(SV(Ptr(arr, 0), len(vals)))], loc))
            f = flds(I, r)
            got = [I.load(c) for c in f["out"].v.arr.cells]
            anyr = I.truth(f["any"].v)
            exp, k, any_ = [], 0, False
            labels = split_labels(I, vals)
            ecalls = []
            for i, l in enumerate(labels):
                exp += [0x2E] if i else []
                na = False
                for x in l:
                    if ge128(I, x):
                        na = True
                if na:
                    any_ = True
                    exp += list(b"xn--") + [0x3C, 0x30 + k, 0x3E]
                    k += 1
                    ecalls.append(l)
                else:
                    exp += l
            if len(calls) != len(ecalls) or any(len(a) != len(b) for a, b in zip(calls, ecalls)):
                return "passes the wrong labels to punycode::encode", ctx.sample()
            for a, b in zip(calls, ecalls):
                for x, y in zip(a, b):
                    s = same_value(I, x, y)
                    if s is not None:
                        return "passes the wrong label text to punycode::encode", ctx.sample()
            if anyr != any_:
                return "reports any_non_ascii = %s" % str(anyr).lower(), ctx.sample()
            if len(got) != len(exp):
                return "writes %d characters instead of %d" % (len(got), len(exp)), ctx.sample()
            for i, (g, e) in enumerate(zip(got, exp)):
                if same_value(I, g, e) is not None:
                    return "writes the wrong character at position %d" % i, ctx.sample()
            calls.clear()
            sz = I.load(I.call_fn(prog.one("vtu::host_encoded_size"), None, [Cell(SV(Ptr(arr, 0), len(vals)))], loc))
            if same_value(I, sz, len(exp) if any_ else 0) is not None:
                return "has encoded size %r instead of %d" % (sz, len(exp) if any_ else 0), ctx.sample()
            return None
        ok = True
        for ctx, r in explore(run):
            S.stat("abstract paths (labels)", 1)
            if r is not None:
                ok = False
                S.violation(loc, "encoding host %s %s" % (show(ctx.vals, r[1]), r[0]), key="labels:encode")
        report_ub(S, nd, "host labels: ")
        S.obligation("host labels are encoded one by one, %s" % what, ok and not nd)
        S.functions(prog, an)
    return job


def decode_job(prog, shape, what):
    def job(S):
        nd, an = [], set()
        loc = loc_of(prog, "uri::details::puny_decoded")

        def run(ctx):
            I = Interp(prog, ctx)
            I.reports, I.analysed = nd, an
            vals = [ctx.axis("b%02d" % i, range(-128, 128)) if x is None else x for i, x in enumerate(shape)]
            ctx.vals = vals
            arr = Arr([Cell(v) for v in vals], "host")
            calls = []
            outcome = {}

            def dec(c):
                if len(c.args) == 1:
                    b, e = range_bounds(I, c.args[0])
                else:
                    b, e = I.load(c.args[0]), I.load(c.args[1])
                es, endit = elems(I, b, e)
                k = len(calls)
                calls.append(es)
                if k not in outcome:
                    outcome[k] = ctx.choose(3, ("punycode", k))
                rec = prog.recs[c.fn["T"][c.fn["ret"]]["rec"]]
                alts = I.flat_targs(rec)
                ei = [i for i, (T, t) in enumerate(alts) if t["k"] == "rec" and prog.recs[t["rec"]]["qn"] == "std::error_code"][0]
                if outcome[k] == 1:
                    return Var(ei, Cell(ERR), alts)
                T, t = alts[1 - ei]
                o = I.default_value(T, t)
                f = flds(I, o)
                for cp in ([0xE9, 0x3042, 0x1F600 + k] if outcome[k] == 0 else []):
                    f["str"].v.push(I, cp)
                f["in"].v = endit
                return Var(1 - ei, Cell(o), alts)
            I.intercept = {"uri::punycode::decode": dec}
            o, anyc, ec = Cell(I.new_string(None) if hasattr(I, "new_string") else Str(I, (None, {"k": "int", "w": 8, "s": True}))), Cell(False), Cell(ErrC(0, "system"))
            r = I.truth(I.load(I.call_fn(prog.one("vtu::host_decode"), None, [Cell(SV(Ptr(arr, 0), len(vals))), o, anyc, ec], loc)))
            exp, ecalls, err = [], [], False
            for i, l in enumerate(split_labels(I, vals)):
                exp += [0x2E] if i else []
                if len(l) >= 4 and all([is_(I, x, y) for x, y in zip(l, b"xn--")]):
                    k = len(ecalls)
                    ecalls.append(l[4:])
                    oc = outcome.get(k)
                    if oc is None:
                        if not err:
                            return "does not pass every xn-- label to punycode::decode", ctx.sample()
                    elif oc == 1:
                        err = True
                    elif oc == 0:
                        exp += u8([0xE9, 0x3042, 0x1F600 + k])
                else:
                    exp += l
            if len(calls) > len(ecalls) or (not err and len(calls) != len(ecalls)):
                return "passes other labels than the xn-- ones to punycode::decode", ctx.sample()
            for a, b in zip(calls, ecalls):
                if len(a) != len(b) or any(same_value(I, x, y) is not None for x, y in zip(a, b)):
                    return "passes the wrong label text to punycode::decode", ctx.sample()
            if r == err:
                return ("yields a result although a label is malformed" if err else "reports an error although every label is well formed"), ctx.sample()
            if err:
                if I.load(ec) != ERR:
                    return "reports %r instead of the error of the label" % (I.load(ec),), ctx.sample()
            else:
                if I.truth(anyc.v) != bool(ecalls):
                    return "reports any_encoded = %s" % str(I.truth(anyc.v)).lower(), ctx.sample()
                got = [I.load(c) for c in o.v.arr.cells]
                if len(got) != len(exp):
                    return "writes %d bytes instead of %d" % (len(got), len(exp)), ctx.sample()
                for i, (g, e) in enumerate(zip(got, exp)):
                    e = e if isinstance(e, Tab) else e - 256 if e > 127 else e
                    g = g if isinstance(g, Tab) else g - 256 if g > 127 else g
                    if same_value(I, g, e) is not None:
                        return "writes the wrong byte at position %d" % i, ctx.sample()
            calls.clear()
            v = I.load(I.call_fn(prog.one("vtu::host_decoded_size"), None, [Cell(SV(Ptr(arr, 0), len(vals)))], loc))
            if (v.idx == 0) != err:
                return "has a decoded size although a label is malformed" if err else "has no decoded size", ctx.sample()
            if not err and same_value(I, I.load(v.cell), len(exp) if ecalls else 0) is not None:
                return "has decoded size %r instead of %d" % (I.load(v.cell), len(exp) if ecalls else 0), ctx.sample()
            return None
        ok = True
        for ctx, r in explore(run):
            S.stat("abstract paths (labels)", 1)
            if r is not None:
                ok = False
                S.violation(loc, "decoding host %s %s" % (show(ctx.vals, r[1]), r[0]), key="labels:decode")
        report_ub(S, nd, "host labels: ")
        S.obligation("host labels are decoded one by one, %s" % what, ok and not nd)
        S.functions(prog, an)
    return job


def jobs(prog, kind, tier):
    N = None
    if kind == "encode":
        n = 6 if tier == "thorough" else 5
        js = [encode_job(prog, [N] * k, "%d symbolic code points" % k) for k in range(n, -1, -1)]
        lab = [ord(c) for c in "averylonglabel"]
        js.append(encode_job(prog, lab + [N] + lab + [0xE9] + [N] + lab, "long labels"))
        js.append(encode_job(prog, [0xE9, N] * 5, "alternating"))
        return js
    n = 6 if tier == "thorough" else 5
    js = [decode_job(prog, [N] * k, "%d symbolic bytes" % k) for k in range(n, -1, -1)]
    x = list(b"xn--")
    for t, w in ((x + [N, N], "xn-- and two bytes"), (x + [N] + [0x2E] + x + [N, N], "two xn-- labels"), ([N] + x + [N], "a byte before xn--"),
                 ([N] + x[1:] + [97], "?n--"), (x[:1] + [N] + x[2:] + [97, 46, 98], "x?--"), (x[:2] + [N, N, 97], "xn??"),
                 (list(b"label.") + x + list(b"abc-def.") + x + list(b"ghi.last") + [N], "long text"), ([N] * 2 + [46] + x, "trailing xn--")):
        js.append(decode_job(prog, t, w))
    return js
