"""C09-C11: percent encoding and decoding over strings of symbolic bytes, against a table / left-to-right oracle."""
import numpy as np
from prog import AnalysisBroken
from values import *
from interp import Interp
from models import SV, Str, Vec
from symparts import flds

SETS = {"none": 0, "fragment": 1, "query": 2, "special_query": 4, "path": 8, "userinfo": 16, "component": 32, "form_urlencoded": 64}
NAMED = [s for s in SETS if s != "none"]


def whatwg():
    c0 = set(range(0x20)) | set(range(0x7F, 0x100))
    S = {}
    S["none"] = c0 | {0x20}
    pct = {0x25}
    S["fragment"] = c0 | {0x20, 0x22, 0x3C, 0x3E, 0x60}
    S["query"] = c0 | {0x20, 0x22, 0x23, 0x3C, 0x3E}
    S["special_query"] = S["query"] | {0x27}
    S["path"] = S["query"] | {0x3F, 0x60, 0x7B, 0x7D}
    S["userinfo"] = S["path"] | {0x2F, 0x3A, 0x3B, 0x3D, 0x40, 0x5B, 0x5C, 0x5D, 0x5E, 0x7C}
    S["component"] = S["userinfo"] | set(range(0x24, 0x27)) | {0x2B, 0x2C}
    S["form_urlencoded"] = S["component"] | {0x21, 0x27, 0x28, 0x29, 0x7E}
    return {k: (v if k == "none" else v | pct) for k, v in S.items()}


HEX = np.array([ord(c) for c in "0123456789ABCDEF"], dtype=np.int64)


def set_value(prog, name):
    """the enumerator's value, from the source"""
    for (k, v) in getattr(prog, "_enumvals", {}).items():
        if k == name:
            return v
    return SETS[name]


class Run:
    def __init__(self, prog, ctx, reports, analysed):
        self.I = Interp(prog, ctx)
        self.I.reports = reports
        self.I.analysed = analysed
        self.prog, self.ctx = prog, ctx

    def text(self, spec, signed=True):
        """spec: list of None (symbolic byte) or int"""
        cells, byts = [], []
        for i, s in enumerate(spec):
            if s is None:
                t = self.ctx.axis("b%02d" % i, range(-128, 128) if signed else range(256))
                cells.append(Cell(t))
                byts.append(Tab(t.axes, t.arr & 255, t.vers))
            else:
                cells.append(Cell(s - 256 if signed and s > 127 else s))
                byts.append(s)
        a = Arr(cells, "input")
        return a, byts

    def call(self, name, *args):
        fn = self.prog.one("vtu::" + name)
        return self.I.load_if(self.I.call_fn(fn, None, [a if isinstance(a, Cell) else Cell(a) for a in args], "tu/pct.cpp"))

    def ask(self, v, mask):
        """does byte v lie in the mask (branches when undecided)"""
        if isinstance(v, int):
            return bool(mask[v & 255])
        v.norm()
        return self.ctx.branch_tab(Tab(v.axes, mask[v.arr & 255], v.vers))

    def differs(self, got, exp):
        """None, or one assignment of the input bytes under which the two values differ"""
        def b(v):
            if isinstance(v, Tab):
                v.norm()
                return Tab(v.axes, v.arr & 255, v.vers)
            if isinstance(v, bool) or isinstance(v, int):
                return v & 255
            raise AnalysisBroken("output byte %r" % (v,))
        g, e = b(got), b(exp)
        if isinstance(g, int) and isinstance(e, int):
            return None if g == e else {}
        tabs = [x for x in (g, e) if isinstance(x, Tab)]
        axes, arrs = align(tabs)
        if len(arrs) == 2:
            m = arrs[0] != arrs[1]
        else:
            m = arrs[0] != (e if isinstance(e, int) else g)
        t = Tab(axes, np.broadcast_to(m, [len(a.vals) for a in axes]))
        if self.ctx.feasible(t):
            self.ctx.assume(t)
            return self.ctx.sample()
        return None


def out_vals(I, r):
    if isinstance(r, Vec):
        return [I.load(c) for c in r.arr.cells]
    raise AnalysisBroken("result is %r, not a string of bytes" % (r,))


def pick(v, s):
    if isinstance(v, int):
        return v & 255
    for a in v.axes:
        if a.name in s:
            return s[a.name] & 255
    return 0


def show(byts, s):
    t = ""
    for v in byts:
        b = pick(v, s)
        t += chr(b) if 0x20 < b < 0x7F and b != 0x5C else "\\x%02x" % b
    return '"%s"' % t


def membership(prog, C, fname, sig, reports, analysed):
    """the set of bytes for which the single-byte predicate is true, per set"""
    res = {}
    for nm, val in SETS.items():
        mask = np.zeros(256, dtype=bool)
        seen = np.zeros(256, dtype=bool)

        def run(ctx):
            R = Run(prog, ctx, reports, analysed)
            ctx.R = R
            t = ctx.axis("b00", range(256))
            ctx.t = t
            return R.I.truth(R.call("need1", t, val))
        for ctx, r in explore(run):
            ctx.t.norm()
            for v in ctx.t.axes[0].vals:
                mask[int(v)] = r
                seen[int(v)] = True
            C.stat("abstract paths", 1)
        if not seen.all():
            raise AnalysisBroken("needs_pctencode is undefined for %s" % [i for i in range(256) if not seen[i]][:4])
        res[nm] = mask
    return res


def loc_of(prog, qn, pred=None):
    f = prog.fn_by_qn(qn, pred)
    return f[0]["loc"] if f else qn


def report_ub(C, reports, prefix=""):
    for r in reports:
        C.violation(r.loc, "%s%s: %s" % (prefix, r.kind, r.msg), key=r.kind)


def encode_check(prog, C, nmax):
    reports, analysed = [], set()
    mem = membership(prog, C, "need1", None, reports, analysed)
    spec = whatwg()
    loc = loc_of(prog, "uri::needs_pctencode")
    for nm in SETS:
        bad = 0
        for b in range(256):
            want = b in spec[nm]
            if bool(mem[nm][b]) != want:
                bad += 1
                C.violation(loc, "needs_pctencode(0x%02X, %s) is %s but the byte is %sin that set" % (
                    b, nm, str(bool(mem[nm][b])).lower(), "" if want else "not "), key="set:%s:0x%02X" % (nm, b))
        C.obligation("needs_pctencode agrees with the WHATWG %s set for all 256 bytes" % nm, bad == 0)
    # overloads
    longspec = [ord(c) for c in "abcdefghijklmnopqrst"]
    shapes = [[None] * n for n in range(nmax + 1)] + [longspec[:9] + [None] + longspec[9:20] + [None] + longspec[:3]]
    signed = {"up": False}
    jobs = []

    def seq_job(fn, kind, setname, shape):
        def job(S):
            nd, an = [], set()
            sg = signed.get(kind, True)

            def run(ctx):
                R = Run(prog, ctx, nd, an)
                ctx.R = R
                a, byts = R.text(shape, sg)
                ctx.byts = byts
                args = [SV(Ptr(a, 0), len(shape))] if kind in ("sv", "vec", "ret") else [Ptr(a, 0), Ptr(a, len(shape))]
                r = R.call(fn, *args, SETS[setname])
                if fn.startswith("need"):
                    got = R.I.truth(r)
                    want = False
                    for v in byts:
                        if R.ask(v, mem[setname]):
                            want = True
                    return None if got == want else (ctx.sample(), "is %s" % str(got).lower())
                exp = []
                for v in byts:
                    if R.ask(v, mem[setname]):
                        exp.append(0x25)
                        if isinstance(v, int):
                            exp += [int(HEX[v >> 4]), int(HEX[v & 15])]
                        else:
                            v.norm()
                            exp += [Tab(v.axes, HEX[v.arr >> 4], v.vers), Tab(v.axes, HEX[v.arr & 15], v.vers)]
                    else:
                        exp.append(v)
                if kind == "ret":
                    exp.append(ord("!"))
                got = out_vals(R.I, r)
                if len(got) != len(exp):
                    return ctx.sample(), "writes %d bytes instead of %d" % (len(got), len(exp))
                for i, (g, e) in enumerate(zip(got, exp)):
                    s = R.differs(g, e)
                    if s is not None:
                        s = ctx.sample()
                        return s, "writes 0x%02x at position %d instead of 0x%02x" % (pick(g, s), i, pick(e, s))
                return None
            ok = True
            for ctx, r in explore(run):
                S.stat("abstract paths", 1)
                S.stat("byte strings covered", ctx.count())
                if r is not None:
                    ok = False
                    what = "needs_pctencode" if fn.startswith("need") else "pctencode"
                    S.violation(loc_of(prog, "uri::" + what, lambda f: len(f["params"]) > 1),
                                "%s of %s with set %s (interface %s) %s" % (what, show(ctx.byts, r[0]), setname, kind, r[1]),
                                key="%s:%s:%s" % (what, kind, setname))
            report_ub(S, nd)
            S.obligation("%s, set %s, %s" % (fn, setname, "%d symbolic bytes" % len(shape) if None in shape[:1] or not shape else "long text"), ok)
            S.functions(prog, an)
        return job

    def group(fn, kind, nm):
        def job(S):
            for sh in shapes:
                seq_job(fn, kind, nm, sh)(S)
        return job
    import run
    for fn in ("need_sv", "need_cp", "need_up", "need_sc", "need_fw", "enc_sv", "enc_cp", "enc_up", "enc_sc", "enc_fw", "enc_vec", "enc_ret"):
        for nm in SETS:
            jobs.append(group(fn, fn.split("_")[1], nm))
    run.parallel(C, jobs)
    report_ub(C, reports)
    C.functions(prog, analysed)


DEC = {"dec_sv": "sv", "dec_it": "sv", "dec_multi": "sv", "dec_skip": "sv", "dec_fw": "pp", "dec_decoder": "sv", "dec_decoder2": "pp", "dec_view": "sv",
       "dec_view_multi": "sv", "dec_view_move": "sv", "dec_view_sent": "pp", "dec_view_sent2": "pp", "dec_view_val": "pp", "dec_view_val2": "pp",
       "dec_view_mut": "sv", "dec_view_mut_same": "sv"}
WHO = {"dec_sv": "pctdecode(string_view)", "dec_it": "pctdecode_iterator", "dec_multi": "pctdecode_iterator (copies, post-increment, ->)",
       "dec_skip": "pctdecode_iterator (increments only)", "dec_fw": "pctdecode_iterator over a forward iterator", "dec_decoder": "pctdecoder",
       "dec_decoder2": "pctdecoder(begin, end)", "dec_view": "views::pctdecode", "dec_view_multi": "views::pctdecode (copies, post-increment)",
       "dec_view_move": "iter_move of views::pctdecode", "dec_view_sent": "views::pctdecode over a range with a sentinel",
       "dec_view_sent2": "const views::pctdecode over a range with a sentinel", "dec_view_val": "views::pctdecode over a range of values with a sentinel",
       "dec_view_val2": "views::pctdecode over a range of values", "dec_view_mut": "views::pctdecode over mutable characters",
       "dec_view_mut_same": "views::pctdecode, which leaves its base alone,"}
ISPCT = np.zeros(256, dtype=bool)
ISPCT[0x25] = True
HVAL = np.full(256, -1, dtype=np.int64)
for _i, _c in enumerate("0123456789"):
    HVAL[ord(_c)] = _i
for _i, _c in enumerate("abcdef"):
    HVAL[ord(_c)] = HVAL[ord(_c.upper())] = 10 + _i
ISHEX = HVAL >= 0


def decode_oracle(R, byts):
    exp = []
    i = 0
    n = len(byts)
    while i < n:
        v = byts[i]
        if i + 2 < n and R.ask(v, ISPCT) and R.ask(byts[i + 1], ISHEX) and R.ask(byts[i + 2], ISHEX):
            h, l = byts[i + 1], byts[i + 2]
            if isinstance(h, int) and isinstance(l, int):
                exp.append(int(HVAL[h] * 16 + HVAL[l]))
            else:
                tabs = [Tab(x.axes, HVAL[x.norm().arr], x.vers) if isinstance(x, Tab) else None for x in (h, l)]
                axes, arrs = align([t for t in tabs if t is not None])
                arrs = list(arrs)
                hv = arrs.pop(0) if tabs[0] is not None else int(HVAL[h])
                lv = arrs.pop(0) if tabs[1] is not None else int(HVAL[l])
                exp.append(Tab(axes, np.broadcast_to(hv * 16 + lv, [len(a.vals) for a in axes])))
            i += 3
        else:
            exp.append(v)
            i += 1
    return exp


def decode_job(prog, fn, shape, what):
    def job(S):
        nd, an = [], set()

        def run(ctx):
            R = Run(prog, ctx, nd, an)
            ctx.R = R
            a, byts = R.text(shape)
            ctx.byts = byts
            args = [SV(Ptr(a, 0), len(shape))] if DEC.get(fn) == "sv" else [Ptr(a, 0), Ptr(a, len(shape))]
            r = R.call(fn, *args)
            if fn.startswith("need"):
                got = R.I.truth(r)
                want = False
                for v in byts:
                    if R.ask(v, ISPCT):
                        want = True
                return None if got == want else (ctx.sample(), "is %s" % str(got).lower())
            exp = decode_oracle(R, byts)
            if fn == "dec_skip":
                exp = [ord(".")] * len(exp)
            got = out_vals(R.I, r)
            if len(got) != len(exp):
                return ctx.sample(), "yields %d bytes instead of %d" % (len(got), len(exp))
            for i, (g, e) in enumerate(zip(got, exp)):
                if R.differs(g, e) is not None:
                    s = ctx.sample()
                    return s, "yields 0x%02x at position %d instead of 0x%02x" % (pick(g, s), i, pick(e, s))
            return None
        ok = True
        for ctx, r in explore(run):
            S.stat("abstract paths", 1)
            S.stat("byte strings covered", ctx.count())
            if r is not None:
                ok = False
                S.violation(loc_of(prog, "uri::details::deref") if not fn.startswith("need") else loc_of(prog, "uri::needs_pctdecode"),
                            "%s of %s %s" % ("needs_pctdecode" if fn.startswith("need") else WHO[fn], show(ctx.byts, r[0]), r[1]), key=fn)
        report_ub(S, nd)
        S.obligation("%s, %s" % (fn, what), ok)
        S.functions(prog, an)
    return job


def decode_check(prog, C, nmax):
    import run
    P = 0x25
    mixed = [ord(c) for c in "some text %41%zz%4 %%25"] + [None, None, None] + [ord(c) for c in "then more, up to a length of fifty %"]
    jobs = []
    for n in range(nmax, -1, -1):
        for fn in DEC:
            if n == nmax and n > 4 and fn not in ("dec_sv", "dec_view", "dec_it", "dec_fw"):
                continue
            jobs.append(decode_job(prog, fn, [None] * n, "%d symbolic bytes" % n))
    for fn in DEC:
        jobs.append(decode_job(prog, fn, mixed, "three symbolic bytes inside a long text"))
        jobs.append(decode_job(prog, fn, [P, None, None, P, None, None, P], "chained triples"))
    for fn in ("need_dec", "need_dec_fw"):
        for n in range(4):
            jobs.append(decode_job(prog, fn, [None] * n, "%d symbolic bytes" % n))
        jobs.append(decode_job(prog, fn, [97] * 20 + [None] + [97] * 9, "long text"))
    run.parallel(C, jobs)


def roundtrip_check(prog, C, nmax):
    import run
    jobs = []
    longspec = [ord(c) for c in "abc%41de%fghij klmno"]
    shapes = [[None] * n for n in range(nmax + 1)] + [longspec[:9] + [None] + longspec[9:] + [None]]

    def mk(nm):
        def job(S):
            for shape in shapes:
                nd, an = [], set()

                def run_(ctx):
                    R = Run(prog, ctx, nd, an)
                    a, byts = R.text(shape)
                    ctx.byts = byts
                    got = out_vals(R.I, R.call("round_trip", SV(Ptr(a, 0), len(shape)), SETS[nm]))
                    if len(got) != len(byts):
                        return ctx.sample(), "comes back as %d bytes" % len(got)
                    for i, (g, e) in enumerate(zip(got, byts)):
                        if R.differs(g, e) is not None:
                            s = ctx.sample()
                            return s, "comes back with 0x%02x at position %d" % (pick(g, s), i)
                    enc = out_vals(R.I, R.call("enc_sv", SV(Ptr(a, 0), len(shape)), SETS[nm]))
                    i = 0
                    while i < len(enc):
                        v = enc[i]
                        v = v & 255 if isinstance(v, int) else Tab(v.norm().axes, v.arr & 255, v.vers)
                        if R.ask(v, ISPCT):
                            for j in (1, 2):
                                w = enc[i + j] if i + j < len(enc) else None
                                if w is None or not R.ask(w & 255 if isinstance(w, int) else Tab(w.norm().axes, w.arr & 255, w.vers), ISHEX):
                                    return ctx.sample(), "is encoded with a '%' that does not start a complete triple"
                            i += 3
                        else:
                            i += 1
                    return None
                ok = True
                for ctx, r in explore(run_):
                    S.stat("abstract paths", 1)
                    S.stat("byte strings covered", ctx.count())
                    if r is not None:
                        ok = False
                        S.violation(loc_of(prog, "uri::pctencode"), "%s with set %s %s" % (show(ctx.byts, r[0]), nm, r[1]), key="roundtrip:" + nm)
                report_ub(S, nd)
                S.obligation("decode(encode(s)) == s, set %s, %s" % (nm, "%d symbolic bytes" % len(shape) if len(shape) <= nmax else "long text"), ok)
                S.functions(prog, an)
        return job
    run.parallel(C, [mk(nm) for nm in NAMED])
