"""C12-C14: encode and decode of whole parts objects, and of host labels."""
import numpy as np
from prog import AnalysisBroken
from values import *
from interp import Interp
import models
from models import SV, Str, Vec, Opt, Var, ErrC, Tup
from symparts import flds
from pct_check import Run, HEX, membership, decode_oracle, out_vals, show, pick, report_ub, loc_of

COMPS = ["scheme", "userinfo", "host", "port", "query", "fragment"]
SETOF = {"userinfo": "userinfo", "query": "query", "fragment": "fragment", "path": "path"}
PLAIN = {"scheme": "ab", "userinfo": "u-x", "host": "h.z", "port": "80", "query": "q=1", "fragment": "f.f", "path": "seg"}
CHANGE_ENC = {"userinfo": "u v", "host": "a\u00e9\u3042.b.\U0001f600", "query": "q \"", "fragment": "f \x01", "path": "p q?"}
CHANGE_DEC = {"userinfo": "u%20v", "host": "x.xn--bcher-kva.c", "query": "%71", "fragment": "f%2", "path": "p%2Fq%zz"}
BADHOST = "ok.xn--a!b.c"


def punycode_encode(label):
    """RFC 3492 section 6.3"""
    out = [c for c in label if c < 128]
    h = b = len(out)
    if b:
        out.append(0x2D)
    n, delta, bias = 128, 0, 72
    while h < len(label):
        m = min(c for c in label if c >= n)
        delta += (m - n) * (h + 1)
        n = m
        for c in label:
            if c < n:
                delta += 1
            elif c == n:
                q, k = delta, 36
                while True:
                    t = 1 if k <= bias else 26 if k >= bias + 26 else k - bias
                    if q < t:
                        break
                    out.append(digit(t + (q - t) % (36 - t)))
                    q = (q - t) // (36 - t)
                    k += 36
                out.append(digit(q))
                bias = adapt(delta, h + 1, h == b)
                delta = 0
                h += 1
        delta += 1
        n += 1
    return out


def digit(d):
    return d + 97 if d < 26 else d - 26 + 48


def adapt(delta, numpoints, first):
    delta = delta // 700 if first else delta // 2
    delta += delta // numpoints
    k = 0
    while delta > 35 * 26 // 2:
        delta //= 35
        k += 36
    return k + 36 * delta // (delta + 38)


def punycode_decode(txt):
    """RFC 3492 section 6.2; None on malformed input. A delimiter in first position is ignored, as this library documents."""
    d = max([i for i, c in enumerate(txt) if c == 0x2D], default=None)
    out = [] if d is None else txt[:d]
    if any(c > 127 for c in out):
        return None
    rest = txt if d is None else txt[d + 1:]
    n, i, bias = 128, 0, 72
    p = 0
    while p < len(rest):
        old, w, k = i, 1, 36
        while True:
            if p >= len(rest):
                return None
            c = rest[p]
            p += 1
            v = c - 48 + 26 if 48 <= c <= 57 else c - 97 if 97 <= c <= 122 else c - 65 if 65 <= c <= 90 else None
            if v is None:
                return None
            i += v * w
            t = 1 if k <= bias else 26 if k >= bias + 26 else k - bias
            if v < t:
                break
            w *= 36 - t
            k += 36
        bias = adapt(i - old, len(out) + 1, old == 0)
        n += i // (len(out) + 1)
        i %= len(out) + 1
        out.insert(i, n)
        i += 1
    return out


def u8(cps):
    return list("".join(chr(c) if not 0xD800 <= c < 0xE000 and c < 0x110000 else "\ufffd" for c in cps).encode("utf-8"))


def host_encoded(b):
    """expected bytes of the encoded host (None: unchanged), for concrete well-formed UTF-8"""
    cps = [ord(c) for c in bytes(b).decode("utf-8")]
    labels, cur = [], []
    for c in cps + [0x2E]:
        if c == 0x2E:
            labels.append(cur)
            cur = []
        else:
            cur.append(c)
    if all(c < 128 for c in cps):
        return None
    out = []
    for i, l in enumerate(labels):
        out += ([0x2E] if i else []) + (list(b"xn--") + punycode_encode(l) if any(c > 127 for c in l) else l)
    return out


def host_decoded(b):
    """("ok", bytes) or ("err", None)"""
    labels = [list(x) for x in bytes(b).split(b".")]
    out = []
    for i, l in enumerate(labels):
        out += [0x2E] if i else []
        if l[:4] == list(b"xn--"):
            d = punycode_decode(l[4:])
            if d is None:
                return "err", None
            out += u8(d)
        else:
            out += l
    return "ok", out


class Scene:
    """One parts object: text (list of byte values / None for a symbolic byte), "null" or None (absent) per component."""
    def __init__(self, R, comps, segs, absolute):
        I = R.I
        self.R, self.I = R, I
        rec = I.prog.recs["uri::parts"]
        o = I.default_obj(rec)
        f = flds(I, o)
        self.texts = {}
        self.nullv = set()

        def view(nm, t):
            if t == "null":
                self.nullv.add(nm)
                return SV(NULL, 0)
            cells, vals = [], []
            for i, b in enumerate(t):
                if b is None:
                    x = R.ctx.axis("%s[%d]" % (nm, i), range(-128, 128))
                    cells.append(Cell(x))
                    vals.append(Tab(x.axes, x.arr & 255, x.vers))
                else:
                    cells.append(Cell(b - 256 if b > 127 else b))
                    vals.append(b)
            v = SV(Ptr(Arr(cells, nm), 0), len(cells))
            self.texts[nm] = (v, vals)
            return v

        def opt(cell, nm):
            t = comps.get(nm)
            if t is not None:
                cell.v = Opt(Cell(view(nm, t)), cell.v.et)
        for nm in ("scheme", "query", "fragment"):
            opt(f[nm], nm)
        if comps.get("host") is not None:
            au = f["authority"].v
            ao = I.default_value(au.et[0], au.et[1])
            af = flds(I, ao)
            af["host"].v = view("host", comps["host"])
            opt(af["userinfo"], "userinfo")
            opt(af["port"], "port")
            f["authority"].v = Opt(Cell(ao), au.et)
        pf = flds(I, f["path"].v)
        pf["absolute"].v = absolute
        old = pf["segments"].v
        pf["segments"].v = Vec(I, old.et, [Cell(view("seg%d" % i, t)) for i, t in enumerate(segs)], "segments")
        self.o, self.comps, self.nseg, self.absolute = o, comps, len(segs), absolute

    def result(self, o):
        """[(name, value or None)] of a parts object, plus presence of the authority and the absolute flag"""
        I = self.I
        f = flds(I, o)
        out = {}

        def g(cell):
            c = cell.v
            return c.cell.v if isinstance(c, Opt) and c.cell is not None else None
        for nm in ("scheme", "query", "fragment"):
            out[nm] = g(f[nm])
        a = g(f["authority"])
        out["authority"] = a is not None
        for nm in ("userinfo", "host", "port"):
            out[nm] = None
        if a is not None:
            af = flds(I, a)
            out["userinfo"], out["port"], out["host"] = g(af["userinfo"]), g(af["port"]), af["host"].v
        pf = flds(I, f["path"].v)
        out["absolute"] = I.truth(pf["absolute"].v)
        out["segs"] = [c.v for c in pf["segments"].v.arr.cells]
        return out


def expected(sc, kind, mem, nm):
    """expected text of a component, as a list of byte values (None: unchanged)"""
    R = sc.R
    vals = sc.texts[nm][1]
    comp = "path" if nm.startswith("seg") else nm
    if comp in ("scheme", "port"):
        return vals
    if kind == "encode":
        if comp == "host":
            r = host_encoded(vals)
            return vals if r is None else r
        out = []
        for v in vals:
            if R.ask(v, mem[SETOF[comp]]):
                out.append(0x25)
                if isinstance(v, int):
                    out += [int(HEX[v >> 4]), int(HEX[v & 15])]
                else:
                    v.norm()
                    out += [Tab(v.axes, HEX[v.arr >> 4], v.vers), Tab(v.axes, HEX[v.arr & 15], v.vers)]
            else:
                out.append(v)
        return out
    if comp == "host":
        return host_decoded(vals)[1]
    return decode_oracle(R, vals)


class Fail(Exception):
    def __init__(self, aspect, msg, key):
        self.aspect, self.msg, self.key = aspect, msg, key


def describe(sc, s):
    t = []
    for nm in COMPS + ["seg%d" % i for i in range(sc.nseg)]:
        if nm in sc.nullv:
            t.append(nm + "=<null view>")
        elif nm in sc.texts:
            t.append("%s=%s" % (nm, show(sc.texts[nm][1], s)))
    if len(t) > 9:
        t = t[:9] + ["..."]
    return "{%s}" % ", ".join(t)


def judge(sc, kind, mem, store, o, fails):
    I, R = sc.I, sc.R
    r = sc.result(o)
    if r["authority"] != (sc.comps.get("host") is not None):
        raise Fail("value", "the authority is %s in the result" % ("present" if r["authority"] else "absent"), "authority")
    if r["absolute"] != sc.absolute:
        raise Fail("value", "the absolute flag changes", "absolute")
    if len(r["segs"]) != sc.nseg:
        raise Fail("value", "%d path segments become %d" % (sc.nseg, len(r["segs"])), "segments")
    used = []
    for nm in COMPS + ["seg%d" % i for i in range(sc.nseg)]:
        v = r["segs"][int(nm[3:])] if nm.startswith("seg") else r[nm]
        comp = "path" if nm.startswith("seg") else nm
        have = nm in sc.texts or nm in sc.nullv
        if (v is not None) != have:
            raise Fail("value", "%s is %s in the result" % (comp, "absent" if v is None else "present"), comp)
        if v is None:
            continue
        if not isinstance(v, SV):
            raise AnalysisBroken("%s of the result is %r" % (nm, v))
        if nm in sc.nullv:
            if v.len != 0:
                raise Fail("value", "the null %s becomes text" % comp, comp)
            continue
        ins, vals = sc.texts[nm]
        same = v.ptr == ins.ptr and v.len == ins.len
        if not same:
            if v.len != 0 or v.ptr is not NULL:
                if not isinstance(v.ptr, Ptr) or v.ptr.arr is not store.arr:
                    dead = isinstance(v.ptr, Ptr) and v.ptr.arr.dead
                    fails.append(Fail("place", "the view of %s %s" % (comp, "refers to storage the store has since given up" if dead else
                                                                     "is neither the input view nor inside the store"), "place:" + comp))
                    if dead:
                        continue
                elif not (0 <= v.ptr.i and v.ptr.i + v.len <= len(store.arr.cells)):
                    fails.append(Fail("place", "the view of %s reaches outside the store" % comp, "place:" + comp))
                    continue
                elif v.len:
                    for a, b, other in used:
                        if v.ptr.i < b and a < v.ptr.i + v.len:
                            fails.append(Fail("place", "the views of %s and %s overlap in the store" % (comp, other), "place:" + comp))
                    used.append((v.ptr.i, v.ptr.i + v.len, comp))
        exp = expected(sc, kind, mem, nm)
        got = [I.load(c) for c in v.ptr.arr.cells[v.ptr.i:v.ptr.i + v.len]] if v.len else []
        if len(got) != len(exp):
            raise Fail("value", "%s becomes %d bytes instead of %d" % (comp, len(got), len(exp)),
                       "host:empty" if comp == "host" and kind == "decode" and not exp else comp)
        for i, (g, e) in enumerate(zip(got, exp)):
            if R.differs(g, e) is not None:
                s = R.ctx.sample()
                raise Fail("value", "%s has 0x%02x at position %d instead of 0x%02x" % (comp, pick(g, s), i, pick(e, s)), comp)


STORES = [(4, 0), (0, 0), (100, 0), (4, 1000)]      # characters already in the store, further capacity


def scene_job(prog, fn, kind, aspect, mem, group):
    name, scenes = group

    def job(S):
        nd, an = [], set()
        loc = loc_of(prog, "uri::" + kind)
        fnr = prog.one("vtu::" + fn)
        cases = [(s, STORES[(i + len(name)) % len(STORES)]) for i, s in enumerate(scenes)]
        if aspect == "place":
            cases += [(scenes[0], st) for st in STORES if (scenes[0], st) not in cases]
        for (comps, segs, absolute), (held, room) in cases:
            def run(ctx):
                R = Run(prog, ctx, nd, an)
                I = R.I
                sc = Scene(R, comps, segs, absolute)
                ctx.sc = sc
                pt = I.prog.recs[fnr["T"][fnr["T"][fnr["params"][0]["t"]]["of"]]["rec"]] if False else None
                store = Cell(Str(I, (None, {"k": "int", "w": 8, "s": True})) if fn.endswith("str") else Vec(I, (None, {"k": "int", "w": 8, "s": True})))
                for i in range(held):
                    store.v.push(I, ord("old!"[i % 4]))
                store.v.cap = max(store.v.cap if isinstance(store.v, Str) else held, held + room)
                r = I.load(I.call_fn(fnr, None, [store, Cell(sc.o)], "tu/parts.cpp"))
                fails = []
                try:
                    if kind == "decode":
                        if not isinstance(r, Var):
                            raise AnalysisBroken("decode returns %r" % (r,))
                        bad = "host" in sc.texts and host_decoded(sc.texts["host"][1])[0] == "err"
                        if r.idx == 0:
                            if not bad:
                                raise Fail("value", "is refused with an error although the host is well formed", "error")
                            e = r.cell.v
                            if isinstance(e, ErrC) and isinstance(e.val, int) and e.val == 0:
                                raise Fail("value", "is refused with an error code that says success", "error")
                            return []
                        if bad:
                            raise Fail("value", "yields a result although a host label has malformed punycode", "error")
                        r = r.cell.v
                    judge(sc, kind, mem, store.v, r, fails)
                except Fail as e:
                    fails.append(e)
                return [(f.aspect, f.msg, f.key, ctx.sample()) for f in fails]
            for ctx, fs in explore(run):
                S.stat("abstract paths", 1)
                for asp, msg, key, s in fs:
                    if asp == aspect:
                        S.violation(loc, "%s of %s: %s" % (kind, describe(ctx.sc, s), msg), key=key)
        if aspect == "value":
            report_ub(S, nd, kind + ": ")
        else:
            report_ub(S, [r for r in nd if r.kind in ("dangling", "assert", "out-of-bounds", "terminate", "uncaught-exception")], kind + ": ")
        S.obligation("%s: %s (%d scenes)" % (fn, name, len(scenes)), not S.violations)
        S.functions(prog, an)
    return job


def B(t):
    return list(t.encode("utf-8"))


def scenes_for(kind, tier):
    CH = CHANGE_ENC if kind == "encode" else CHANGE_DEC
    groups = []

    def base(mode):
        c = {}
        for k in COMPS:
            if mode == "absent":
                c[k] = None
            elif mode == "plain" or k not in CH:
                c[k] = B(PLAIN[k])
            else:
                c[k] = B(CH[k])
        return c

    def segs(mode, n=2):
        return [] if mode == "absent" else [B(PLAIN["path"] if mode == "plain" else CH["path"])] * n
    modes = ["absent", "plain", "change"]
    # one symbolic component
    for comp in ("userinfo", "query", "fragment", "path"):
        for m in modes:
            g = []
            for t in (([None], [0x61, None, None]) if tier == "thorough" else ([0x61, None],)) if kind == "encode" else ([None], [0x25, None, None], [0x61, None, None, None]):
                c, s = base(m), segs(m)
                if comp == "path":
                    s = s[:1] + [t] + s[1:]
                else:
                    c[comp] = t
                    if comp == "userinfo" and c["host"] is None:
                        c["host"] = B("h")
                g.append((c, s, m == "plain"))
            groups.append(("symbolic %s, the others %s" % (comp, m), g))
    # pairs of components in every mode
    names = COMPS + ["seg0", "seg1"]
    opts = {}
    for k in COMPS + ["path"]:
        o = [None, "null", [], B(PLAIN[k])] + ([B(CH[k])] if k in CH else [])
        if k == "host":
            o += [B("xn--")] if kind == "decode" else [B("\u00e9")]
            o += [B(BADHOST), B("a.xn--bcher-kva"), B("xn--bcher-kva.a"), B("xn--b\u00e9-x"), B("xn"), B("xn--a.b.xn--a!")] if kind == "decode" else \
                [B("a.\u00e9"), B("\u00e9."), B(".\u00e9"), B("a..b"), B("xn--a")]
        opts[k] = o
    for i, a in enumerate(names):
        for b in names[i + 1:]:
            g = []
            for m in modes:
                for x in opts["path" if a.startswith("seg") else a]:
                    for y in opts["path" if b.startswith("seg") else b]:
                        c = base(m)
                        s = segs(m)
                        for k, t in ((a, x), (b, y)):
                            if k.startswith("seg"):
                                if t is not None:
                                    s.insert(int(k[3:]), t)
                            else:
                                c[k] = t
                        g.append((c, s, m != "plain"))
            groups.append(("every mode of %s and %s" % (a, b), g))
    # many segments: each position in turn
    ch, pl = B(CH["path"]), B(PLAIN["path"])
    big = 70 if tier == "thorough" else 40
    for lo in range(0, big, 5):
        g = []
        for k in range(lo, lo + 5):
            for c in (base("absent"),) + ((base("change"),) if tier == "thorough" else ()):
                g.append((c, [pl] * k + [ch] + [pl] * (big - 1 - k), True))
                g.append((c, [ch] * k + [pl] + [ch] * (big - 1 - k), True))
        groups.append(("one segment of %d differs, at %d..%d" % (big, lo, lo + 4), g))
    for n in (25, 26, 27, 31, 32, 33):
        groups.append(("%d segments" % n, [(base("plain"), [ch] * n, False), (base("change"), [pl] * (n - 1) + [ch], False),
                                           (base("change"), ["null"] * 3 + [ch] * n, True)]))
    # long components: the text to change at the front or the back, alone and together with other changed components
    LONG = (18, 70, 300) if tier == "thorough" else (18, 70, 260)
    for comp in ("userinfo", "host", "query", "fragment", "path"):
        for n in LONG:
            g = []
            ch = B(CH[comp])
            pad = B("".join("abcdefgh"[i % 8] for i in range(n)))
            for t in (ch + pad, pad + ch) if comp != "host" else (ch + B(".") + pad[:200], pad[:50] + B(".") * (n > 18) + pad[50:200] + B(".") + ch):
                for m in modes:
                    c, s = base(m), segs(m)
                    if comp == "path":
                        s = s[:1] + [t] + s[1:] + [ch]
                    else:
                        c[comp] = t
                        if comp == "userinfo" and c["host"] is None:
                            c["host"] = B("h")
                    g.append((c, s, m == "plain"))
            groups.append(("long %s (%d bytes)" % (comp, n), g))
    for n in LONG:
        c = base("change")
        for comp in COMPS:
            pad = B("z" * n)
            if comp == "host":
                c[comp] = c[comp] + B(".") + pad[:60]
            elif comp in CH:
                c[comp] = c[comp] + pad
        groups.append(("all components long (%d bytes)" % n, [(c, [B(CH["path"]) + B("z" * n), B(PLAIN["path"])], True)]))
    return groups


def coding_check(prog, C, kinds, aspect):
    import run
    reports, an = [], set()
    prog2 = prog
    mem = membership(prog2, C, "need1", None, reports, an)
    jobs = []
    for kind in kinds:
        gs = scenes_for(kind, C.tier)[::C.sparse]
        for i, g in enumerate(gs):
            jobs.append(scene_job(prog, kind + "_vec", kind, aspect, mem, g))
            if C.tier == "thorough" or i % 6 == 0 or aspect == "place" and i % 2 == 0:
                jobs.append(scene_job(prog, kind + "_str", kind, aspect, mem, g))
        C.stat("scenes (%s)" % kind, sum(len(g) for _, g in gs))
    if aspect == "value":
        import host_check
        for kind in kinds:
            jobs = host_check.jobs(prog, kind, C.tier) + jobs
    run.parallel(C, jobs)
