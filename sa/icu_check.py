"""C15-C18, C30: the transcoders, as transducers over symbolic code units.

Each transcoder object is explored as an abstract state machine: an abstract state is the set of member values reachable at a point
where a reference transcoder is between sequences (or, for UTF-16, holds one unpaired high surrogate, whose value is kept related to the
members).  From every such state all sequences of symbolic units up to the next such point are interpreted, what is emitted is compared
with the reference, and the member values found there become new abstract states until no new one appears."""
import os
import numpy as np
from prog import AnalysisBroken, load_program, VERIF, lib_sources, REPO
from values import *
from interp import Interp
from models import Vec, Var, SV
from pct_check import loc_of, report_ub

FFFD = 0xFFFD
WIDTH = {"8": 8, "16": 16, "32": 32, "x": 8}


def program():
    return load_program([("tu/icu.cpp", os.path.join(VERIF, "tu", "icu.cpp"))])


# ---- table helpers
def tmap(f, *vs):
    if all(isinstance(v, int) for v in vs):
        return int(f(*[np.int64(v) for v in vs]))
    tabs = [v for v in vs if isinstance(v, Tab)]
    axes, arrs = align(tabs)
    it = iter(arrs)
    args = [next(it).astype(np.int64) if isinstance(v, Tab) else np.int64(v) for v in vs]
    r = f(*args)
    return Tab(axes, np.broadcast_to(r, [len(a.vals) for a in axes]))


def ask(ctx, f, *vs):
    t = tmap(lambda *a: f(*a).astype(np.int64) if hasattr(f(*a), "astype") else int(f(*a)), *vs)
    if isinstance(t, int):
        return bool(t)
    return ctx.branch_tab(t)


def differs(ctx, got, exp, width):
    m = (1 << width) - 1
    if isinstance(got, bool):
        got = int(got)
    if not isinstance(got, (int, Tab)):
        raise AnalysisBroken("output unit %r" % (got,))
    t = tmap(lambda g, e: ((g & m) != (e & m)).astype(np.int64) if hasattr(g, "astype") else int((g & m) != (e & m)), got, exp)
    if isinstance(t, int):
        return bool(t)
    if ctx.feasible(t):
        ctx.assume(t)
        return True
    return False


class TooCoarse(AnalysisBroken):
    pass


class Ivl:
    """any integer of [lo, hi]: only operations whose result does not depend on which one are interpreted"""
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def __repr__(self):
        return "[%X..%X]" % (self.lo, self.hi)

    def copy(self):
        return self

    def rel(self, I, op, b):
        if isinstance(b, (bool, int)):
            f = {"<": lambda x: x < b, ">": lambda x: x > b, "<=": lambda x: x <= b, ">=": lambda x: x >= b}.get(op)
            if f is not None and f(self.lo) == f(self.hi):
                return f(self.lo)
            if f is None and not self.lo <= b <= self.hi:
                return op == "!="
        raise TooCoarse("comparison %s of an interval" % op)

    def conv(self, I, ty):
        w, s = ty.get("w", 32), ty.get("s", True)
        if ty["k"] in ("int", "enum") and self.hi < 1 << (w - 1 if s else w):
            return self
        raise TooCoarse("conversion of an interval")

    def to_bool(self, I):
        if self.lo > 0:
            return True
        raise TooCoarse("truth of an interval")

    def arith(self, I, op, b, ty, swapped):
        if isinstance(b, int) and not swapped:
            if op == "-" and b <= self.lo:
                return Ivl(self.lo - b, self.hi - b)
            if op == "+" and b >= 0 and self.hi + b < 1 << ty.get("w", 32) - (1 if ty.get("s") else 0):
                return Ivl(self.lo + b, self.hi + b)
            if op == ">>":
                return Ivl(self.lo >> b, self.hi >> b)
        raise TooCoarse("arithmetic %s on an interval" % op)


# ---- reference decoders (Unicode chapter 3, D76-D92)
class Ref8:
    def __init__(self, policy):
        self.p = []
        self.policy = policy          # "consume": the offending unit is part of the malformed sequence; "again": it is read afresh

    def step(self, ctx, v):
        if not self.p:
            if ask(ctx, lambda a: a < 0x80, v):
                return [v], True
            if ask(ctx, lambda a: (a >= 0xC2) & (a <= 0xF4), v):
                self.p = [v]
                return [], True
            return [FFFD], False
        n = len(self.p)
        if n == 1:
            okf = lambda a, b: ((b >= np.where(a == 0xE0, 0xA0, np.where(a == 0xF0, 0x90, 0x80)))
                                & (b <= np.where(a == 0xED, 0x9F, np.where(a == 0xF4, 0x8F, 0xBF))))
            ok = ask(ctx, okf, self.p[0], v)
        else:
            ok = ask(ctx, lambda b: (b >= 0x80) & (b <= 0xBF), v)
        if not ok:
            self.p = []
            if self.policy == "consume":
                return [FFFD], False
            o, _ = self.step(ctx, v)
            return [FFFD] + o, False
        self.p = self.p + [v]
        need = 2 if ask(ctx, lambda a: a < 0xE0, self.p[0]) else 3 if ask(ctx, lambda a: a < 0xF0, self.p[0]) else 4
        if len(self.p) < need:
            return [], True
        q, self.p = self.p, []
        if need == 2:
            return [tmap(lambda a, b: (a & 31) << 6 | (b & 63), *q)], True
        if need == 3:
            return [tmap(lambda a, b, c: (a & 15) << 12 | (b & 63) << 6 | (c & 63), *q)], True
        return [tmap(lambda a, b, c, d: (a & 7) << 18 | (b & 63) << 12 | (c & 63) << 6 | (d & 63), *q)], True

    def end(self, ctx):
        if self.p:
            self.p = []
            return [FFFD], False
        return [], True

    def cut(self):
        return not self.p

    def pending(self):
        return self.p


class Ref16:
    def __init__(self, policy=None):
        self.p = []

    def step(self, ctx, v):
        hi = ask(ctx, lambda a: (a >= 0xD800) & (a <= 0xDBFF), v)
        lo = False if hi else ask(ctx, lambda a: (a >= 0xDC00) & (a <= 0xDFFF), v)
        if self.p:
            h, self.p = self.p[0], []
            if lo:
                return [tmap(lambda a, b: 0x10000 + ((a - 0xD800) << 10) + (b - 0xDC00), h, v)], True
            if hi:
                self.p = [v]
                return [FFFD], False
            return [FFFD, v], False
        if hi:
            self.p = [v]
            return [], True
        if lo:
            return [FFFD], False
        return [v], True

    def end(self, ctx):
        if self.p:
            self.p = []
            return [FFFD], False
        return [], True

    def cut(self):
        return True

    def pending(self):
        return self.p


class Ref32:
    def __init__(self, policy=None):
        pass

    def step(self, ctx, v):
        if isinstance(v, Ivl):
            return [FFFD], False
        if ask(ctx, lambda a: (a <= 0x10FFFF) & ((a < 0xD800) | (a > 0xDFFF)), v):
            return [v], True
        return [FFFD], False

    def end(self, ctx):
        return [], True

    def cut(self):
        return True

    def pending(self):
        return []


MARKS = {(0xEF, 0xBB, 0xBF): "utf8", (0xFE, 0xFF): "utf16be", (0xFF, 0xFE): "utf16le", (0, 0, 0xFE, 0xFF): "utf32be", (0xFF, 0xFE, 0, 0): "utf32le"}


class RefX:
    """byte stream: longest byte order mark, dropped; otherwise UTF-8 from the first byte"""
    def __init__(self, policy):
        self.policy = policy
        self.mode = None
        self.buf = []
        self.unit = []
        self.inner = None
        self.slack = False

    def begin(self, mode):
        self.mode = mode
        self.inner = Ref8(self.policy) if mode == "utf8" else Ref16() if mode[3:5] == "16" else Ref32()

    def step(self, ctx, v):
        if self.mode is not None:
            return self.byte(ctx, v)
        pre = tuple(self.buf)
        for m in MARKS:
            if len(m) > len(pre) and m[:len(pre)] == pre:
                if ask(ctx, lambda a: a == m[len(pre)], v):
                    self.buf.append(m[len(pre)])
                    now = tuple(self.buf)
                    if now in MARKS and not any(len(x) > len(now) and x[:len(now)] == now for x in MARKS):
                        self.begin(MARKS[now])
                    return [], True
        return self.flush(ctx, [v])

    def flush(self, ctx, more):
        pre = tuple(self.buf)
        best = max([m for m in MARKS if pre[:len(m)] == m], key=len, default=())
        self.begin(MARKS[best] if best else "utf8")
        out, ok = [], True
        for b in list(pre[len(best):]) + more:
            o, k = self.byte(ctx, b)
            out += o
            ok = ok and k
        return out, ok

    def byte(self, ctx, v):
        if self.mode == "utf8":
            return self.inner.step(ctx, v)
        n = 2 if self.mode[3:5] == "16" else 4
        self.unit = self.unit + [v]
        if len(self.unit) < n:
            return [], True
        u, self.unit = self.unit, []
        if self.mode.endswith("le"):
            u = u[::-1]
        if n == 2:
            w = tmap(lambda a, b: a << 8 | b, *u)
        else:
            w = tmap(lambda a, b, c, d: a << 24 | b << 16 | c << 8 | d, *u)
        return self.inner.step(ctx, w)

    def end(self, ctx):
        out, ok = [], True
        if self.mode is None:
            out, ok = self.flush(ctx, [])
        o, k = self.inner.end(ctx)
        out, ok = out + o, ok and k
        if self.unit:
            self.unit = []
            ok = False
            self.slack = bool(o)      # one replacement for both or one for each
            out = out + [FFFD]
        return out, ok

    def cut(self):
        return self.mode is not None and not self.unit and self.inner.cut()

    def pending(self):
        if self.mode is None:
            return self.buf
        return self.inner.pending() + self.unit


REFS = {"8": Ref8, "16": Ref16, "32": Ref32, "x": RefX}


# ---- encoders
def enc(ctx, to, v):
    if to == "32":
        return [v]
    if to == "16":
        if ask(ctx, lambda a: a <= 0xFFFF, v):
            return [v]
        return [tmap(lambda a: 0xD800 + ((a - 0x10000) >> 10), v), tmap(lambda a: 0xDC00 + ((a - 0x10000) & 0x3FF), v)]
    if ask(ctx, lambda a: a < 0x80, v):
        return [v]
    if ask(ctx, lambda a: a < 0x800, v):
        return [tmap(lambda a: 0xC0 | a >> 6, v), tmap(lambda a: 0x80 | a & 63, v)]
    if ask(ctx, lambda a: a < 0x10000, v):
        return [tmap(lambda a: 0xE0 | a >> 12, v), tmap(lambda a: 0x80 | (a >> 6) & 63, v), tmap(lambda a: 0x80 | a & 63, v)]
    return [tmap(lambda a: 0xF0 | a >> 18, v), tmap(lambda a: 0x80 | (a >> 12) & 63, v), tmap(lambda a: 0x80 | (a >> 6) & 63, v), tmap(lambda a: 0x80 | a & 63, v)]


def enc_all(ctx, to, vs):
    return [u for v in vs for u in enc(ctx, to, v)]


# ---- abstract states of an object
def squeeze(v):
    """without the axes that have a single value left"""
    v.norm()
    one = tuple(i for i, a in enumerate(v.axes) if len(a.vals) == 1)
    if one:
        v = Tab(tuple(a for a in v.axes if len(a.vals) > 1), np.squeeze(v.arr, axis=one))
    return v


def unique(a):
    lo, hi = int(a.min()), int(a.max())
    if hi - lo > 1 << 24:
        return np.unique(a)
    seen = np.zeros(hi - lo + 1, dtype=bool)
    seen[a.ravel() - lo] = True
    return np.flatnonzero(seen) + lo


def snap(ctx, v, keep):
    """tree of the value; tables over the axes in `keep` stay related to them, others become sets of values"""
    if isinstance(v, Obj):
        return ("obj", v.rec, tuple((k, snap(ctx, c.v, keep)) for k, c in sorted(v.f.items(), key=lambda kv: str(kv[0]))))
    if isinstance(v, Var):
        return ("var", v.idx, snap(ctx, v.cell.v, keep), v.alts)
    if isinstance(v, Arr):
        return ("arr", tuple(snap(ctx, c.v, keep) for c in v.cells))
    if isinstance(v, bool) or isinstance(v, int):
        return ("int", v)
    if isinstance(v, Tab):
        c = v.const()
        if c is not None:
            return ("int", c)
        v = squeeze(v)
        if all(a.name in keep for a in v.axes):
            return ("rel", tuple(a.name for a in v.axes), v.arr.tobytes(), v.arr.shape, str(v.arr.dtype))
        m = np.ones(v.arr.shape, dtype=bool)
        gs = ctx._group_for(v.axes)
        if gs:
            axes, arrs = align([v] + gs)
            m = np.ones([len(a.vals) for a in axes], dtype=bool)
            for x in arrs[1:]:
                m = m & x.astype(bool)
            vals = unique(np.broadcast_to(arrs[0], m.shape)[m])
        else:
            vals = unique(v.arr)
        return ("set", tuple(int(x) for x in vals)) if len(vals) < 4096 else ("set", vals)
    if v is UNINIT:
        return ("uninit",)
    if v is None or type(v).__name__ in ("Mono", "Monostate", "Empty"):
        return ("const", v)
    raise AnalysisBroken("member value %r" % (v,))


def tkey(t):
    if t[0] == "obj":
        return ("obj", t[1], tuple((k, tkey(x)) for k, x in t[2]))
    if t[0] == "var":
        return ("var", t[1], tkey(t[2]))
    if t[0] == "arr":
        return ("arr", tuple(tkey(x) for x in t[1]))
    if t[0] == "set":
        return ("set",)
    return t


def tjoin(a, b):
    """union of the value sets; (tree, grew)"""
    if a[0] == "obj":
        l = [(k, tjoin(x, y)) for (k, x), (_, y) in zip(a[2], b[2])]
        return ("obj", a[1], tuple((k, t) for k, (t, _) in l)), any(g for _, (_, g) in l)
    if a[0] == "var":
        t, g = tjoin(a[2], b[2])
        return ("var", a[1], t, a[3]), g
    if a[0] == "arr":
        l = [tjoin(x, y) for x, y in zip(a[1], b[1])]
        return ("arr", tuple(t for t, _ in l)), any(g for _, g in l)
    if a[0] == "set":
        x, y = np.asarray(a[1]), np.asarray(b[1])
        u = np.union1d(x, y)
        return ("set", u), len(u) > len(x)
    return a, False


def rebuild(ctx, t, axes, n):
    if t[0] == "obj":
        o = Obj(t[1])
        for k, x in t[2]:
            o.f[k] = Cell(rebuild(ctx, x, axes, n))
        return o
    if t[0] == "var":
        return Var(t[1], Cell(rebuild(ctx, t[2], axes, n)), t[3])
    if t[0] == "arr":
        return Arr([Cell(rebuild(ctx, x, axes, n)) for x in t[1]])
    if t[0] == "int" or t[0] == "const":
        return t[1]
    if t[0] == "rel":
        a = tuple(axes[x] for x in t[1])
        return Tab(a, np.frombuffer(t[2], dtype=t[4]).reshape(t[3]).copy())
    if t[0] == "set":
        n[0] += 1
        return ctx.axis("zg%03d" % n[0], np.asarray(t[1]))
    return UNINIT


def rename(t, m):
    if t[0] == "obj":
        return ("obj", t[1], tuple((k, rename(x, m)) for k, x in t[2]))
    if t[0] == "var":
        return ("var", t[1], rename(t[2], m), t[3])
    if t[0] == "arr":
        return ("arr", tuple(rename(x, m) for x in t[1]))
    if t[0] == "rel":
        return ("rel", tuple(m[x] for x in t[1])) + t[2:]
    return t


class Machine:
    def __init__(self, prog, name, S, policy="consume", domains=None, maxlen=12, unit_vals=None, prefix=(), bytes8=None):
        self.prog, self.name, self.S, self.policy = prog, name, S, policy
        self.frm, self.to = name.split("_")
        self.domains = domains
        self.maxlen = maxlen
        self.unit_vals = unit_vals
        self.prefix = prefix
        self.bytes8 = bytes8
        self.reports, self.analysed = [], set()
        self.bad = []

    def interp(self, ctx):
        I = Interp(self.prog, ctx)
        I.reports, I.analysed = self.reports, self.analysed
        return I

    def call(self, I, fn, *args):
        f = self.prog.one("vtu::%s_%s" % (fn, self.name))
        return I.load_if(I.call_fn(f, None, list(args), "tu/icu.cpp"))

    def initial(self):
        out = []
        for ctx, r in explore(lambda ctx: snap(ctx, self.call(self.interp(ctx), "init"), ())):
            out.append(r)
        if len(out) != 1:
            raise AnalysisBroken("the initial state of transcoder %s is not unique" % self.name)
        return out[0]

    def fresh_ref(self, refstate, ctx, axes):
        r = REFS[self.frm](self.policy)
        kind, pend = refstate
        def val(p):
            if p[0] == "int":
                return p[1]
            return rebuild(ctx, p, axes, [0])
        if self.frm == "x":
            if kind is not None:
                r.begin(kind)
                r.inner.p = [val(p) for p in pend]
        elif pend:
            r.p = [val(p) for p in pend]
        return r

    def sample(self, ctx, units):
        s = ctx.sample()
        w = WIDTH[self.frm] // 4

        def one(u):
            if isinstance(u, int):
                return u
            if isinstance(u, Ivl):
                return u.lo
            u.norm()
            idx = tuple(int(np.searchsorted(a.vals, s[a.name])) if a.name in s else 0 for a in u.axes)
            return int(u.arr[idx])
        return " ".join("%0*X" % (w, one(u)) for u in units) or "(nothing)"

    def explore_state(self, st):
        """st: (tree, ok, refstate, pend axes {name: vals}, pend groups). Yields new states; records differences."""
        tree, ok0, refstate, paxes, pgroups = st
        new = []

        def run(ctx):
            I = self.interp(ctx)
            axes = {}
            for n_, vals in paxes:
                axes[n_] = ctx.axis(n_, np.asarray(vals)).axes[0]
            for ns, arr, shape in pgroups:
                ctx.groups.append(Tab(tuple(axes[x] for x in ns), np.frombuffer(arr, dtype=bool).reshape(shape).copy()))
            obj = Cell(rebuild(ctx, tree, axes, [0]))
            ref = self.fresh_ref(refstate, ctx, axes)
            ok = ok0
            units = list(ref.pending())
            k = 0
            pos = 0
            while True:
                dest = Arr([Cell() for _ in range(12)], "output")
                fixed = refstate[0] is None and k < len(self.prefix)
                ended = not fixed and (self.frm == "x" or ref.pending() or not units or k == 0) and ctx.choose(2, "end") == 0
                if ended:
                    r = self.call(I, "end", obj, Cell(Ptr(dest, 0)))
                    exp, good = ref.end(ctx)
                    what = "at the end of %s"
                else:
                    dom = self.unit_vals if self.unit_vals is not None else range(1 << WIDTH[self.frm])
                    if self.domains and self.frm == "x" and ref.mode and ref.mode[3:5] == "32":
                        dom = self.domains[len(ref.unit)]
                    if self.bytes8 is not None and self.frm == "x" and ref.mode == "utf8" and (k >= 4 or refstate[0] == "utf8"):
                        dom = self.bytes8
                    v = self.prefix[k] if fixed else dom if isinstance(dom, Ivl) else ctx.axis("u%02d" % k, dom)
                    k += 1
                    units.append(v)
                    r = self.call(I, "feed", obj, Cell(v), Cell(Ptr(dest, 0)))
                    exp, good = ref.step(ctx, v)
                    what = "after %s"
                ok = ok and good
                if not isinstance(r, Ptr) or r.arr is not dest:
                    return (self.sample(ctx, units), what, "returns an iterator unrelated to its argument")
                got = [I.load(c) for c in dest.cells[:r.i]]
                if any(g is UNINIT for g in got):
                    return (self.sample(ctx, units), what, "advances its output iterator without writing")
                want = enc_all(ctx, self.to, exp)
                if ended and getattr(ref, "slack", False) and len(got) < len(want):
                    want = want[:len(got)] if len(got) == len(enc_all(ctx, self.to, [FFFD])) else want
                if len(got) != len(want):
                    return (self.sample(ctx, units), what, "emits %d units instead of %d" % (len(got), len(want)))
                for i, (g, e) in enumerate(zip(got, want)):
                    if differs(ctx, g, e, WIDTH[self.to]):
                        return (self.sample(ctx, units), what, "emits %s at position %d instead of %s" % (
                            self.sample(ctx, [g]), i, self.sample(ctx, [e])))
                w = I.truth(self.call(I, "ok", obj))
                if w != ok:
                    return (self.sample(ctx, units), what, "reports well_formed() as %s" % str(w).lower())
                if ended:
                    return None
                p = I.truth(self.call(I, "partial", obj))
                if p != bool(ref.pending()):
                    return (self.sample(ctx, units), what, "reports partial() as %s" % str(p).lower())
                if self.frm == "x" and ref.mode is not None:
                    m = I.load(self.call(I, "sel", obj))
                    wantm = ["unknown", "utf8", "utf16be", "utf16le", "utf32be", "utf32le"].index(ref.mode)
                    if m != wantm:
                        return (self.sample(ctx, units), what, "selects encoding %r, not %s" % (m, ref.mode))
                if ref.cut():
                    new.append(self.freeze(ctx, obj.v, ok, ref))
                    return None
                if k > self.maxlen:
                    raise AnalysisBroken("no sequence boundary within %d units" % k)
        for ctx, r in explore(run):
            self.S.stat("abstract paths", 1)
            if r is not None:
                self.bad.append(r)
        return new

    def freeze(self, ctx, v, ok, ref):
        pend = ref.pending()
        pend = [squeeze(p) if isinstance(p, Tab) and p.const() is None else p for p in pend]
        names = sorted(set(a.name for p in pend if isinstance(p, Tab) for a in p.norm().axes))
        m = {n: "p%02d" % i for i, n in enumerate(names)}
        tree = rename(snap(ctx, v, names), m)
        ps = tuple(rename(snap(ctx, p, names), m) for p in pend)
        ax = tuple((m[n], tuple(int(x) for x in ctx.axes[n].vals)) for n in names)
        groups = []
        for g in ctx.groups:
            g.norm()
            if any(a.name in m for a in g.axes):
                keepd = tuple(i for i, a in enumerate(g.axes) if a.name not in m)
                arr = g.arr.any(axis=keepd) if keepd else g.arr
                groups.append((tuple(m[a.name] for a in g.axes if a.name in m), arr.tobytes(), arr.shape))
        return (tree, ok, (ref.mode if self.frm == "x" else None, ps), ax, tuple(groups))

    def fixpoint(self, limit=160):
        init = self.initial()
        seen = {}
        work = []

        def add(st):
            key = (tkey(st[0]), st[1], st[2], st[3], st[4])
            if key not in seen:
                seen[key] = st[0]
                work.append(key)
            else:
                t, g = tjoin(seen[key], st[0])
                if g:
                    seen[key] = t
                    if key not in work:
                        work.append(key)
        add((init, True, (None, ()), (), ()))
        n = 0
        while work:
            key = work.pop(0)
            for st in self.explore_state((seen[key],) + key[1:]):
                add(st)
            n += 1
            if n > limit:
                raise AnalysisBroken("the transcoder's abstract states do not converge")
            if self.bad:
                break
        self.S.stat("abstract states", len(seen))
        return not self.bad


def describe(prog, name):
    frm, to = name.split("_")
    n = {"8": "UTF-8", "16": "UTF-16", "32": "UTF-32", "x": "byte"}
    return "%s to %s transcoder" % (n[frm], n[to])


def tloc(prog, name, fn="operator()"):
    """where the called member of that transcoder is defined"""
    for f in prog.fns.values():
        if f["qn"] == "vtu::feed_" + name:
            for k in calls_in(f.get("body")):
                g = prog.fns.get(k)
                if g is not None and g.get("loc", "").find("icubaby") >= 0:
                    return g["loc"]
    return "include/uri/icubaby.hpp"


def calls_in(n):
    if isinstance(n, dict):
        if isinstance(n.get("fn"), str):
            yield n["fn"]
        for v in n.values():
            yield from calls_in(v)
    elif isinstance(n, list):
        for v in n:
            yield from calls_in(v)


SMALL = (0x00, 0x01, 0x10, 0x5A, 0xD8, 0xFF)


BYTES8 = (0x00, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xA5, 0xBB, 0xBF, 0xC0, 0xC1, 0xC2, 0xD5, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3,
          0xF4, 0xF5, 0xFD, 0xFE, 0xFF)


def byte_jobs(prog, name, pairs, bytes8):
    """the byte transcoder: every stream, 32-bit units with SMALL bytes; then 32-bit units with two bytes at a time unrestricted"""
    pol = ("consume", "again")
    jobs = [machine_job(prog, name, pol, domains=[SMALL] * 4, bytes8=bytes8)]
    for pre in ((0, 0, 0xFE, 0xFF), (0xFF, 0xFE, 0, 0)):
        for i, j in pairs:
            d = [range(256) if k in (i, j) else SMALL for k in range(4)]
            jobs.append(machine_job(prog, name, pol, domains=d, prefix=pre))
    return jobs


COARSE = {"8": BYTES8, "16": (0, 0x41, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xD800, 0xD801, 0xDBFF, 0xDC00, 0xDC01, 0xDFFF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFF), "x": BYTES8}


def machine_job(prog, name, policies=("consume",), **kw):
    def job(S):
        res = None
        for pol in policies:
            M = Machine(prog, name, S, pol, **kw)
            try:
                ok = M.fixpoint()
            except (TooLarge, AnalysisBroken):
                # refute with boundary values only; if that finds nothing the question stays open
                M = Machine(prog, name, S, pol, **dict(kw, unit_vals=COARSE.get(name.split("_")[0]), bytes8=BYTES8, domains=[SMALL] * 4))
                ok = M.fixpoint()
                if ok:
                    raise
            if res is None or ok:
                res = M
            if ok:
                break
        for units, what, msg in res.bad[:4]:
            S.violation(tloc(prog, name), "%s %s %s" % (describe(prog, name), what % units, msg), key=name)
        report_ub(S, res.reports)
        S.obligation("%s agrees with the reference on every sequence%s" % (describe(prog, name), kw.get("unit_vals") is not None and
                     " of units %X..%X" % (kw["unit_vals"][0], kw["unit_vals"][-1]) or
                     kw.get("prefix") and " after %s, bytes %s of a unit unrestricted" % (" ".join("%02X" % b for b in kw["prefix"]), "".join(
                         str(i) for i, d in enumerate(kw["domains"]) if len(d) == 256)) or ""), not res.bad)
        S.functions(prog, res.analysed)
    return job


TOP = 1 << 22


def wide_jobs(prog, exhaustive, step=1 << 20):
    """every 32-bit value; above TOP either one by one or, where nothing the code computes depends on the value, as one interval"""
    jobs = []

    def mk(n, lo, hi, interval):
        def job(S):
            def one(dom):
                M = Machine(prog, n, S, unit_vals=dom)
                M.fixpoint()
                report_ub(S, M.reports)
                S.functions(prog, M.analysed)
                return M.bad
            bad = None
            if interval:
                try:
                    bad = one(Ivl(lo, hi - 1))
                except TooCoarse:
                    pass
            if bad is None:
                bad = []
                for a in range(lo, hi, step):
                    bad += one(np.arange(a, a + step, dtype=np.int64))
            for units, what, msg in bad[:4]:
                S.violation(tloc(prog, n), "%s %s %s" % (describe(prog, n), what % units, msg), key=n)
            S.obligation("%s agrees with the reference for %08X..%08X" % (describe(prog, n), lo, hi - 1), not bad)
            S.stat("code unit values", hi - lo)
        return job
    for n in ("32_8", "32_16", "32_32"):
        jobs.append(mk(n, 0, TOP, False))
        for i in range(16):
            jobs.append(mk(n, max(TOP, i << 28), (i + 1) << 28, not exhaustive))
    return jobs


# ---- the range adaptor and the counting functions
def view_job(prog, name, shapes, pol, label):
    frm, to = name.split("_")

    def job(S):
        reports, analysed = [], set()
        first = None
        for policy in (pol if isinstance(pol, tuple) else (pol,)):
            bad = []
            for shape in shapes:
                def run(ctx):
                    I = Interp(prog, ctx)
                    I.reports, I.analysed = reports, analysed
                    vals = [ctx.axis("u%02d" % i, d) if not isinstance(d, int) else d for i, d in enumerate(shape)]
                    a = Arr([Cell(v) for v in vals], "input")

                    def arg():
                        if frm == "x":
                            return Cell(Vec(I, None, [Cell(v) for v in vals], "input"))
                        return Cell(SV(Ptr(a, 0), len(vals)))
                    M = Machine(prog, name, S, policy)
                    M.reports, M.analysed = reports, analysed
                    r = M.call(I, "view", arg())
                    ref = REFS[frm](policy)
                    exp, ok = [], True
                    for v in vals:
                        o, k = ref.step(ctx, v)
                        exp += o
                        ok = ok and k
                    o, k = ref.end(ctx)
                    exp, ok = exp + o, ok and k
                    want = enc_all(ctx, to, exp)
                    if not isinstance(r, Vec):
                        raise AnalysisBroken("result of the view is %r" % (r,))
                    got = [I.load(c) for c in r.arr.cells]
                    if getattr(ref, "slack", False) and len(got) < len(want):
                        want = want[:len(want) - len(enc_all(ctx, to, [FFFD]))]
                    if len(got) != len(want):
                        return M.sample(ctx, vals), "yields %d units instead of %d" % (len(got), len(want))
                    for i, (g, e) in enumerate(zip(got, want)):
                        if differs(ctx, g, e, WIDTH[to]):
                            return M.sample(ctx, vals), "yields %s at position %d instead of %s" % (M.sample(ctx, [g]), i, M.sample(ctx, [e]))
                    w = I.truth(M.call(I, "viewok", arg()))
                    if w != ok:
                        return M.sample(ctx, vals), "reports well_formed() as %s after the last element" % str(w).lower()
                    return None
                for ctx, r in explore(run):
                    S.stat("abstract paths", 1)
                    S.stat("inputs covered", ctx.count())
                    if r is not None:
                        bad.append(r)
            if first is None or not bad:
                first = bad
            if not bad:
                break
        loc = loc_of(prog, "icubaby::ranges::transcode_view::iterator::state::fill")
        for f in prog.named("fill"):
            if "transcode_view" in f["qn"]:
                loc = f["loc"]
        for units, msg in first[:3]:
            S.violation(loc, "views::transcode (%s) of %s %s" % (describe(prog, name).replace(" transcoder", ""), units, msg), key="view:" + name)
        report_ub(S, reports)
        S.obligation("views::transcode %s, %s" % (name, label), not first)
        S.functions(prog, analysed)
    return job


def view_jobs(prog, deep):
    jobs = []
    B, W = range(256), range(65536)
    pol8 = ("consume", "again")
    text = [ord(c) for c in "some text, long enough to take several turns: "]
    for to in ("8", "16", "32"):
        n = "8_" + to
        jobs.append(view_job(prog, n, [[B] * k for k in range(3)], pol8, "up to 2 symbolic bytes"))
        jobs.append(view_job(prog, n, [[BYTES8] * 3, text + [B, 0xE2, 0x82, 0xAC, 0xF0, 0x9F, 0x98, 0x80, B] + text, [0xF0, B, 0x90, B], [0xE1, 0x80, B, B]], pol8,
                             "longer byte sequences"))
        n = "16_" + to
        jobs.append(view_job(prog, n, [[W] * k for k in range(3)], "consume", "up to 2 symbolic units"))
        jobs.append(view_job(prog, n, [[W] * 3], "consume", "3 symbolic units"))
        jobs.append(view_job(prog, n, [text + [W, 0xD83D, 0xDE00, W] + text, [0xD800, 0xD800, W, 0xD800], [W, 0xD800, 0xDC00, W, 0xDBFF]], "consume", "longer sequences"))
        n = "32_" + to
        C32 = np.concatenate([np.arange(0, 0x1200, 1), np.arange(0xD000, 0xE100), np.arange(0xFFF0, 0x10010), np.arange(0x10FF00, 0x110100), np.array([0x200000, 0xFFFFFFFF])])
        jobs.append(view_job(prog, n, [[], [C32], text + [C32, 0x41, C32] + text], "consume", "values around every boundary"))
        n = "x_" + to
        for pre in ([], [0xEF, 0xBB, 0xBF], [0xFE, 0xFF], [0xFF, 0xFE], [0xFF, 0xFE, 0, 0], [0, 0, 0xFE, 0xFF]):
            shapes = [pre + [B if k < 2 else BYTES8] * k for k in range(3)]
            if not pre:
                shapes += [[BYTES8] * 3, [0, 0, 0xFE, BYTES8], [0, 0, 0xFE, BYTES8, BYTES8], [0xFF, 0xFE, 0, BYTES8, BYTES8], [0xEF, 0xBB, BYTES8, BYTES8],
                           [0] * 4, [0xFE] * 5, [0xFF] * 5, text]
            else:
                shapes += [pre + [0xD8, BYTES8, 0xDC, BYTES8], pre + [BYTES8, 0xD8, BYTES8, 0xDC], pre + [0, BYTES8, 0, 0x41], pre + [0xD8, 0, 0xD8, 0, 0xD8],
                           pre + [0, 0xD8, 0, 0xD8, 0], pre + [0, 0xD8, 0, 0xD8, 0xFF, 0xFF]]
            jobs.append(view_job(prog, n, shapes, pol8, "byte streams beginning %s" % (" ".join("%02X" % b for b in pre) or "without a mark")))
    return jobs


def count_jobs(prog, deep=False):
    jobs = []
    STARTS = {"8": lambda a: (a & 0xC0) != 0x80, "16": lambda a: (a & 0xFC00) != 0xDC00, "32": lambda a: (a <= 0x10FFFF) & ((a < 0xD800) | (a > 0xDFFF))}
    DOM = {"8": range(256), "16": range(65536), "32": np.concatenate([np.arange(0, 0x110000 + 64), np.array([0x200000, 0x7FFFFFFF, 0xFFFFFFFF])])}

    EDGES = np.concatenate([np.arange(0, 0x1200), np.arange(0xD7F0, 0xE010), np.arange(0xFFF0, 0x10010), np.arange(0x10FFF0, 0x110040), np.array([0x200000, 0x7FFFFFFF, 0xFFFFFFFF])])

    FLIP = {"8": 0x80, "16": 0x8000, "32": 0xD800}
    FORM = {"": "", "r": " (range)", "p": " (iterators, projection)", "q": " (range, projection)"}

    def mk(w, form):
        def job(S):
            reports, analysed = [], set()
            bad = []
            for n in range(3 if form else 4):
                dom = EDGES if w == "32" and n > 1 and not deep else DOM[w]
                for what in ["length"] + ["index %d" % p for p in range(n + 1)]:
                    def run(ctx):
                        I = Interp(prog, ctx)
                        I.reports, I.analysed = reports, analysed
                        vals = [ctx.axis("u%02d" % i, dom) for i in range(n)]
                        a = Arr([Cell(v) for v in vals], "input")
                        args = [Cell(Ptr(a, 0)), Cell(Ptr(a, n))]
                        if what != "length":
                            args.append(Cell(int(what.split()[1])))
                        r = I.load_if(I.call_fn(prog.one("vtu::%s_%s%s" % (what.split()[0], w, form)), None, args, "tu/icu.cpp"))
                        hits = [i for i, v in enumerate(vals) if ask(ctx, (lambda a: STARTS[w](a ^ FLIP[w])) if form in ("p", "q") else STARTS[w], v)]
                        M = Machine(prog, w + "_" + w, S)
                        if what == "length":
                            if isinstance(r, Tab):
                                r = I.concretize(r)
                            return None if r == len(hits) else (M.sample(ctx, vals), "is %r instead of %d" % (r, len(hits)))
                        p = int(what.split()[1])
                        e = hits[p] if p < len(hits) else n
                        return None if isinstance(r, Ptr) and r.i == e else (M.sample(ctx, vals), "is position %r instead of %d" % (getattr(r, "i", r), e))
                    for ctx, r in explore(run):
                        S.stat("abstract paths", 1)
                        S.stat("inputs covered", ctx.count())
                        if r is not None:
                            bad.append((what,) + r)
            for what, units, msg in bad[:3]:
                S.violation(loc_of(prog, "icubaby::" + what.split()[0]), "icubaby::%s%s of UTF-%s %s %s" % (what, FORM[form], w, units, msg), key="count:" + w)
            report_ub(S, reports)
            S.obligation("length and index%s over UTF-%s, up to %d symbolic units" % (FORM[form], w, 2 if form else 3), not bad)
            S.functions(prog, analysed)
        return job
    return [mk(w, form) for w in ("8", "16", "32") for form in ("", "r", "p", "q")]
