"""C05-C08: reference resolution, dot segments, recomposition and equality over parts of unknown content."""
from prog import AnalysisBroken
from run import parallel
from values import *
from interp import Interp, FnRef
import models
from models import Opt, Vec, SV, TemplStr, Stream
from grammar import LookSV
from symparts import SymOpt, flds, sym_parts
from segtext import SegSV, SegTok, text_of


class Bad(Exception):
    def __init__(self, key, msg):
        Exception.__init__(self, msg)
        self.key = key


def interp(prog, ctx, C, **kw):
    I = Interp(prog, ctx, **kw)
    I.reports = C.reports
    I.analysed = C.analysed
    return I


def begin(C):
    C.reports, C.analysed = [], set()


def finish(prog, C):
    for r in C.reports:
        C.violation(r.loc, "%s: %s" % (r.kind, r.msg), key=r.kind)
    C.functions(prog, C.analysed)


def seg(nm):
    return SegSV(SegTok(nm))


def clsname(I, v):
    t = v.lit(I)
    return '"%s"' % t if t is not None else "text"


# ---------------------------------------------------------------- specification (RFC 3986, on abstract parts)
def rds(I, segs):
    """RFC 3986 5.2.4 on the path "/" + segs joined: what remains, as segment texts."""
    out = []
    last_dir = False
    for s in segs:
        t = s.lit(I) if isinstance(s, SegSV) else s
        if t == ".":
            last_dir = True
        elif t == "..":
            last_dir = True
            if out:
                out.pop()
        else:
            last_dir = False
            out.append(s)
    if last_dir:
        out.append("")
    return out


class View:
    """A parts object read by the specification."""
    def __init__(self, I, o):
        self.I, self.o = I, o
        self.f = flds(I, o)

    def auth(self):
        return read_auth(self.I, self.f["authority"].v)

    def has_auth(self):
        return self.I.truth(self.f["authority"].v.has(self.I))

    def path(self):
        return flds(self.I, self.f["path"].v)

    def segs(self):
        return [self.I.load(c) for c in self.path()["segments"].v.arr.cells]

    def absolute(self):
        return self.I.truth(self.path()["absolute"].v)


def texts(I, segs):
    return [("lit", s) if isinstance(s, str) else text_of(I, s) for s in segs]


def same_text(I, a, b):
    if a == b:
        return True
    return False


def describe(I, v, nm):
    """A short account of the decided facts about a parts object."""
    out = []
    f = I.ctx.facts
    for k in ("scheme", "authority", "query", "fragment"):
        x = f.get(("has", nm + "." + k))
        if x is not None:
            out.append(("" if x else "no ") + k)
    x = f.get(("flag", nm + ".absolute"))
    if x is not None:
        out.append("rooted" if x else "rootless")
    sg = v.segs()
    out.append("path segments [%s]" % ", ".join('"%s"' % s.lit(I) if s.lit(I) is not None else "text" for s in sg) if sg else "empty path")
    return nm + ": " + ", ".join(out)


def read_opt(I, v):
    return text_of(I, I.load(v.get(I))) if I.truth(v.has(I)) else None


def read_auth(I, v):
    if not I.truth(v.has(I)):
        return None
    f = flds(I, v.get(I).v)
    r = {k: read_opt(I, f[k].v) for k in ("userinfo", "port")}
    r["host"] = text_of(I, I.load(f["host"]))
    return r


def same_opt(I, g, w):
    """Do two optional texts agree? None when agreed, else what they hold. Undecided facts shared by both stay undecided."""
    if isinstance(g, SymOpt) and isinstance(w, SymOpt) and g.key == w.key and g.key not in I.ctx.facts and \
            text_of(I, g.cell.v) == text_of(I, w.cell.v):
        return None
    a, b = (None if g is None else read_opt(I, g)), (None if w is None else read_opt(I, w))
    return None if a == b else (a, b)


def same_auth(I, g, w):
    if isinstance(g, SymOpt) and isinstance(w, SymOpt) and g.key == w.key:
        if g.key in I.ctx.facts and not I.ctx.facts[g.key]:
            return None
        x, y = flds(I, g.cell.v), flds(I, w.cell.v)
        if all(same_opt(I, x[k].v, y[k].v) is None for k in ("userinfo", "port")) and text_of(I, I.load(x["host"])) == text_of(I, I.load(y["host"])):
            return None
    a, b = read_auth(I, g), read_auth(I, w)
    return None if a == b else (a, b)


def spec_join(I, b, r, strict):
    """(scheme, auth source, absolute, segments, query, fragment) per RFC 3986 5.2.2; strict is a thunk"""
    ro, bo = r.f["scheme"].v, b.f["scheme"].v
    use = I.truth(ro.has(I))
    if use:
        if not strict() and I.truth(bo.has(I)) and I.truth(I.load(bo.get(I)).eq(I, I.load(ro.get(I)))):
            use = False
    t = {"fragment": r.f["fragment"].v}
    if use:
        t["scheme"] = ro
        t["auth"] = r.f["authority"].v
        t["abs"], t["segs"] = r.path()["absolute"].v, rds(I, r.segs())
        t["query"] = r.f["query"].v
        return t
    t["scheme"] = bo
    if r.has_auth():
        t["auth"] = r.f["authority"].v
        t["abs"], t["segs"] = r.path()["absolute"].v, rds(I, r.segs())
        t["query"] = r.f["query"].v
        return t
    t["auth"] = b.f["authority"].v
    if not r.segs():
        t["abs"], t["segs"] = b.path()["absolute"].v, b.segs()
        q = r.f["query"].v
        t["query"] = q if I.truth(q.has(I)) else b.f["query"].v
        return t
    t["query"] = r.f["query"].v
    if r.absolute():
        t["abs"], t["segs"] = True, rds(I, r.segs())
        return t
    if b.has_auth() and not b.segs():
        t["abs"], t["segs"] = True, rds(I, r.segs())
    else:
        t["abs"], t["segs"] = b.path()["absolute"].v, rds(I, b.segs()[:-1] + r.segs())
    return t


def same_flag(I, a, b):
    if isinstance(a, Atom) and isinstance(b, Atom) and (a.key, a.neg) == (b.key, b.neg):
        return True
    return I.truth(a) == I.truth(b)


def compare(I, got, t):
    gs, ts = texts(I, got.segs()), texts(I, t["segs"])
    if gs != ts:
        raise Bad("path", "the target's path segments are %s where RFC 3986 gives %s" % (wholist(gs), wholist(ts)))
    for nm in ("scheme", "query", "fragment"):
        d = same_opt(I, got.f[nm].v, t[nm])
        if d:
            raise Bad(nm, "the target's %s is %s where RFC 3986 5.2.2 gives %s" % (nm, who(d[0]), who(d[1])))
    d = same_auth(I, got.f["authority"].v, t["auth"])
    if d:
        raise Bad("authority", "the target's authority is %s where RFC 3986 5.2.2 gives %s" % (who(d[0]), who(d[1])))
    if gs and not same_flag(I, got.path()["absolute"].v, t["abs"]) and not got.has_auth():
        a = I.truth(got.path()["absolute"].v)
        raise Bad("absolute", "the target's path is %s where RFC 3986 makes it %s" % (("rooted", "rootless") if a else ("rootless", "rooted")))


def who(x):
    if x is None:
        return "absent"
    if isinstance(x, dict):
        return "{userinfo %s, host %s, port %s}" % (who(x["userinfo"]), who(x["host"]), who(x["port"]))
    return '"%s"' % x[1] if x[0] == "lit" else str(x[1])


def wholist(x):
    return "[" + ", ".join(who(y) for y in x) + "]"


def provenance(I, got, copied):
    """C22: every view of the target is one of the views of base and reference, part of one, or empty"""
    n = 0

    def view(v, nm):
        nonlocal n
        n += 1
        if isinstance(v, LookSV):
            for w in ("base", "reference"):
                if v.id.startswith(w + "."):
                    if w in copied:
                        raise Bad("copy:" + w, "join parses a copy of %s: %s of the target refers to the copy" % (w, nm))
                    return
            raise Bad("view:" + nm, "%s of the target does not view base or reference" % nm)
        if isinstance(v, SV):
            if not I.truth(v.empty(I)):
                raise Bad("view:" + nm, "%s of the target views text that belongs neither to base nor to reference" % nm)
            return
        if isinstance(v, TemplStr):
            if not I.truth(v.empty(I)):
                raise Bad("view:" + nm, "%s of the target views a std::string made by the library" % nm)
            return
        raise AnalysisBroken("view %r of the target" % (v,))

    def opt(v, nm, f=view):
        if isinstance(v, SymOpt) or I.truth(v.has(I)):
            if not (isinstance(v, SymOpt) and I.ctx.facts.get(v.key) is False):
                f(I.load(v.get(I)) if not isinstance(v, SymOpt) else v.cell.v, nm)

    def auth(o, nm):
        f = flds(I, o)
        opt(f["userinfo"].v, "userinfo")
        view(I.load(f["host"]), "host")
        opt(f["port"].v, "port")
    for nm in ("scheme", "query", "fragment"):
        opt(got.f[nm].v, nm)
    opt(got.f["authority"].v, "authority", auth)
    for s in got.segs():
        view(s, "a path segment")
    return n


def join_check(prog, C, sizes, ssizes, prov=False):
    begin(C)
    fns = [f for f in prog.fns.values() if f["qn"] == "uri::join" and f.get("body") is not None]
    pj = [f for f in fns if "rec" in ptype(f, 0)]
    pj = [f for f in fns if is_parts(prog, f, 0)]
    sj = [f for f in fns if not is_parts(prog, f, 0)]
    if len(pj) != 1 or len(sj) != 1:
        raise AnalysisBroken("anchor uri::join: found %d + %d overloads" % (len(pj), len(sj)))
    npath = 0

    def one(nb, nr, fn, text):
        nonlocal npath

        def run(ctx):
            I = interp(prog, ctx, C, intercept=dict(ic))
            ob = sym_parts(I, "base", nb, view_for)
            orf = sym_parts(I, "reference", nr, view_for)
            b, r = View(I, ob), View(I, orf)
            fact = {}
            strict = Atom(("flag", "strict"))
            if not text:
                res = I.load_if(I.call_fn(fn, None, [Cell(ob), Cell(orf), Cell(strict)], fn["loc"]))
                if b.segs() != ks(I, ob, nb) or r.segs() != ks(I, orf, nr):
                    raise Bad("modified", "an argument of join is modified")
            else:
                state["base"], state["reference"] = ob, orf
                tb, tr = SegSV(SegTok("text(base)")), SegSV(SegTok("text(reference)"))
                state["tb"], state["tr"] = tb, tr
                state["copied"] = set()
                res = I.load_if(I.call_fn(fn, None, [Cell(tb), Cell(tr), Cell(strict)], fn["loc"]))
                ok = I.truth(res.has(I))
                want = ctx.fact(("split", "base")) and ctx.fact(("split", "reference"))
                if ok != want:
                    raise Bad("refused", "join(text, text) gives %s although %s" % (
                        ("a result", "base is not a URI or reference is not a URI-reference") if ok else
                        ("nothing", "base is a URI and reference is a URI-reference")))
                if not ok:
                    return
                # a successfully split base always has a scheme
                if not ctx.fact(("has", "base.scheme")):
                    return
                res = I.load(res.get(I))
            got = View(I, res)
            if prov:
                provenance(I, got, state.get("copied", ()) if text else ())
                return
            compare(I, got, spec_join(I, b, r, lambda: ctx.fact(("flag", "strict"))))
        ok = True
        try:
            n = 0
            for ctx, _ in explore_bad(run):
                n += 1
        except Bad as e:
            ok = False
            C.violation(fn["loc"], "%s [%s]" % (e, e.where), key=("text:" if text else "") + e.key)
        npath += n
        C.obligation((("join(%s): views of the target for" if prov else "join(%s) equals RFC 3986 5.2.2 for") + " %d base and %d reference segments (%d abstract paths)") % (
            "text" if text else "parts", nb, nr, n), ok)
    state = {}

    def split_as(which, other):
        def f(c):
            a = c.val(0)
            own = isinstance(a, TemplStr) and len(a.pieces) == 1
            if own:
                a = a.pieces[0]
            if prov and isinstance(a, SegSV):       # which part of the text is parsed is C05's matter
                for nm in ("base", "reference"):
                    if a.id.startswith("text(%s)" % nm):
                        a = state["tb" if nm == "base" else "tr"]
            if own and isinstance(a, SegSV):
                state["copied"].update(nm for nm in ("base", "reference") if a.id == "text(%s)" % nm)
            for nm in ("base", "reference"):
                if "tb" in state and isinstance(a, SegSV) and a.id == "text(%s)" % nm:
                    if nm != which:
                        raise AnalysisBroken("join(text) applies uri::%s to %s" % (c.qn.split("::")[-1], nm))
                    et = c.I.flat_targs(c.I.prog.recs[c.fn["T"][c.fn["ret"]]["rec"]])[0]
                    return SymOpt(("split", nm), Cell(c.I.copyval(state[nm])), et)
            return NotImplemented
        return f
    ic = {"uri::split": split_as("base", "reference"), "uri::split_reference": split_as("reference", "base")}
    def job(nb, nr, fn, text):
        def go(sub):
            nonlocal C, npath
            C, npath = sub, 0
            begin(C)
            one(nb, nr, fn, text)
            C.stat("abstract paths", npath)
            finish(prog, C)
        return go
    parallel(C, [job(nb, nr, pj[0], False) for nb, nr in sorted(sizes, key=lambda x: -x[0] - x[1])] + [job(nb, nr, sj[0], True) for nb, nr in ssizes])


def explore_bad(run):
    def go(ctx):
        try:
            return run(ctx)
        except Bad as e:
            e.where = facts_text(ctx)
            raise
    return explore(go, 400000)


def facts_text(ctx):
    out = []
    for k, v in ctx.facts.items():
        if k[0] == "has":
            out.append(("" if v else "no ") + k[1])
        elif k[0] == "flag":
            out.append(k[1] + ("" if v else "=false"))
        elif k[0] == "seg":
            out.append("%s=%s" % (k[1], ['""', '"."', '".."', "text"][v]))
        elif k[0] == "eq":
            out.append("%s%s%s" % (k[1][0], "==" if v else "!=", k[2][0]))
        elif k[0] == "lit":
            out.append("%s%s\"%s\"" % (k[1], "==" if v else "!=", k[2]))
        elif k[0] == "split":
            out.append("%s %s" % (k[1], "parses" if v else "does not parse"))
    return ", ".join(out) or "always"


def view_for(nm):
    return SegSV(SegTok(nm)) if ".seg" in nm else LookSV2(SegTok(nm))


class LookSV2(LookSV):
    """unknown component text: emptiness is one fact, lengths are examined through it"""
    def length(self, I):
        from segtext import LenV
        return self.lim if self.lim is not None else LenV(self)


def plain_view(nm):
    return LookSV2(SegTok(nm))


def ks(I, o, n):
    return [I.load(c) for c in flds(I, flds(I, o)["path"].v)["segments"].v.arr.cells]


def ptype(f, i):
    T = f["T"]
    t = T[f["params"][i]["t"]]
    if t["k"] in ("ref", "rref"):
        t = T[t["to"]]
    return t


def is_parts(prog, f, i):
    return ptype(f, i).get("rec") == "uri::parts"


# ---------------------------------------------------------------- C06
def dots_check(prog, C, sizes, long):
    begin(C)
    fn = prog.one("uri::parts::path::remove_dot_segments")
    rec = prog.recs["uri::parts::path"]
    npath = 0

    def one(n, script, label):
        nonlocal npath
        k = 0

        def run(ctx):
            I = interp(prog, ctx, C)
            o = I.default_obj(rec)
            f = flds(I, o)
            f["absolute"].v = Atom(("flag", "path.absolute"))
            f["segments"].v = Vec(I, f["segments"].v.et, [Cell(seg("seg%d" % i)) for i in range(n)], "segments")
            src = [I.load(c) for c in f["segments"].v.arr.cells]
            if script:
                for i, x in enumerate(script):
                    ctx.facts[("seg", "seg%d" % i)] = x
            I.call_fn(fn, Cell(o), [], fn["loc"])
            want = texts(I, rds(I, src))
            got = texts(I, [I.load(c) for c in flds(I, o)["segments"].v.arr.cells])
            if got != want:
                raise Bad("segments", "leaves %s where RFC 3986 5.2.4 leaves %s" % (wholist(got), wholist(want)))
            a = flds(I, o)["absolute"].v
            if isinstance(a, Atom) and a.key == ("flag", "path.absolute") and not a.neg:
                return
            if I.truth(a) != ctx.fact(("flag", "path.absolute")):
                raise Bad("absolute", "changes whether the path is absolute")
        ok = True
        try:
            for _ in explore_bad(run):
                k += 1
        except Bad as e:
            ok = False
            C.violation(fn["loc"], "remove_dot_segments %s [%s]" % (e, e.where), key=e.key)
        npath += k
        C.obligation("%s: %d abstract paths" % (label, k), ok)
    for n in sizes:
        one(n, None, "every path of %d segments" % n)
    for lab, sc in long:
        one(len(sc), sc, lab)
    C.stat("abstract paths", npath)
    finish(prog, C)


# ---------------------------------------------------------------- C07
def norm_pieces(I, pieces):
    """characters and text identities; texts known to be empty vanish"""
    out = []
    for p in pieces:
        if isinstance(p, int):
            out.append(chr(p & 255))
        elif isinstance(p, Tab):
            c = p.const()
            if c is None:
                raise AnalysisBroken("unknown character written")
            out.append(chr(c & 255))
        elif isinstance(p, str):
            out.append(p)
        elif isinstance(p, SegSV):
            t = p.lit(I)
            if t is not None:
                out.extend(t)
            else:
                out.append(("tok", p.id, p.off, p.lim))
        elif isinstance(p, LookSV):
            if I.ctx.facts.get(("end", p.id, p.off)) is True:
                continue
            out.append(("tok", p.id, p.off, p.lim))
        elif isinstance(p, SV):
            out.extend(norm_pieces(I, p.chars(I)))
        else:
            raise AnalysisBroken("piece %r written" % (p,))
    return out


def show_pieces(ps):
    return "".join(p if isinstance(p, str) else "<%s>" % p[1] for p in ps)


def spec_auth(I, o):
    f = flds(I, o)
    out = []
    if I.truth(f["userinfo"].v.has(I)):
        out += [f["userinfo"].v.get(I).v, "@"]
    out.append(f["host"].v)
    if I.truth(f["port"].v.has(I)):
        out += [":", f["port"].v.get(I).v]
    return out


def spec_path(I, o, force=False):
    f = flds(I, o)
    segs = [c.v for c in f["segments"].v.arr.cells]
    out = []
    if segs and (force or I.truth(f["absolute"].v)):
        out.append("/")
    for i, s in enumerate(segs):
        if i:
            out.append("/")
        out.append(s)
    return out


def spec_compose(I, o):
    f = flds(I, o)
    out = []
    if I.truth(f["scheme"].v.has(I)):
        out += [f["scheme"].v.get(I).v, ":"]
    au = I.truth(f["authority"].v.has(I))
    if au:
        out += ["/", "/"] + spec_auth(I, f["authority"].v.get(I).v)
    out += spec_path(I, f["path"].v, au)
    for k, d in (("query", "?"), ("fragment", "#")):
        if I.truth(f[k].v.has(I)):
            out += [d, f[k].v.get(I).v]
    return out


def compose_check(prog, C, sizes):
    begin(C)
    targets = []
    for f in prog.fns.values():
        if f.get("body") is None:
            continue
        if f["qn"] == "uri::compose":
            targets.append((f, "parts", "compose(ostream, parts)" if len(f["params"]) == 2 else "compose(parts)"))
        elif f["qn"] == "uri::operator<<" and len(f["params"]) == 2:
            k = {"uri::parts": "parts", "uri::parts::path": "path", "uri::parts::authority": "authority"}.get(ptype(f, 1).get("rec"))
            if k:
                targets.append((f, k, "operator<<(ostream, %s)" % k))
        elif f["qn"].startswith("uri::parts::path::") and f.get("rec") == "uri::parts::path" and not f["params"] and \
                "basic_string<" in str(f["T"][f["ret"]].get("rec", "")):
            targets.append((f, "pathconv", "path converted to std::string"))
    kinds = sorted({(k, len(f["params"])) for f, k, _ in targets})
    if len(kinds) != 5 and set(kinds) != {("authority", 2), ("parts", 1), ("parts", 2), ("path", 2), ("pathconv", 0)}:
        raise AnalysisBroken("recomposition functions found: %s" % [t[2] for t in targets])
    npath = 0
    for fn, kind, label in sorted(targets, key=lambda t: t[2]):
        for n in (sizes if kind != "authority" else [0]):
            cnt = 0

            def run(ctx):
                I = interp(prog, ctx, C)
                I.new_string = lambda rec: TemplStr()
                o = sym_parts(I, "p", n, plain_view)
                f = flds(I, o)
                if kind == "authority":
                    ctx.facts[("has", "p.authority")] = True
                    obj = f["authority"].v.get(I).v
                    spec = lambda: spec_auth(I, obj)
                elif kind in ("path", "pathconv"):
                    obj = f["path"].v
                    spec = lambda: spec_path(I, obj)
                else:
                    obj = o
                    spec = lambda: spec_compose(I, o)
                if kind == "pathconv":
                    r = I.load_if(I.call_fn(fn, Cell(obj), [], fn["loc"]))
                    got = text_pieces(r)
                elif len(fn["params"]) == 2:
                    os = Cell(Stream())
                    r = I.call_fn(fn, None, [os, Cell(obj)], fn["loc"])
                    if I.load_if(r) is not os.v:
                        raise Bad("result", "%s does not return its stream" % label)
                    got = os.v.pieces
                else:
                    r = I.load_if(I.call_fn(fn, None, [Cell(obj)], fn["loc"]))
                    got = text_pieces(r)
                want = spec()
                g, w = norm_pieces(I, got), norm_pieces(I, want)
                if g != w:
                    raise Bad("text", "%s writes \"%s\" where RFC 3986 5.3 gives \"%s\"" % (label, show_pieces(g), show_pieces(w)))
            ok = True
            try:
                for _ in explore_bad(run):
                    cnt += 1
            except Bad as e:
                ok = False
                C.violation(fn["loc"], "%s [%s]" % (e, e.where), key=label)
            npath += cnt
            C.obligation("%s with %d segments: %d abstract paths" % (label, n, cnt), ok)
    C.stat("abstract paths", npath)
    finish(prog, C)


def text_pieces(r):
    if isinstance(r, TemplStr):
        return r.pieces
    if isinstance(r, models.Str):
        return [c.v for c in r.arr.cells]
    raise AnalysisBroken("recomposed text %r" % (r,))


# ---------------------------------------------------------------- C08
def spec_eq_auth(I, a, b):
    fa, fb = flds(I, a), flds(I, b)
    return eq_opt(I, fa["userinfo"], fb["userinfo"]) and eq_opt(I, fa["port"], fb["port"]) and \
        I.truth(fa["host"].v.eq(I, fb["host"].v))


def eq_opt(I, a, b):
    ha, hb = I.truth(a.v.has(I)), I.truth(b.v.has(I))
    if ha != hb:
        return False
    return not ha or I.truth(a.v.get(I).v.eq(I, b.v.get(I).v))


def spec_eq_segs(I, a, b):
    sa = [c.v for c in flds(I, a)["segments"].v.arr.cells]
    sb = [c.v for c in flds(I, b)["segments"].v.arr.cells]
    return len(sa) == len(sb) and all(I.truth(x.eq(I, y)) for x, y in zip(sa, sb))


def spec_eq_path(I, a, b):
    return spec_eq_segs(I, a, b) and I.truth(flds(I, a)["absolute"].v) == I.truth(flds(I, b)["absolute"].v)


def spec_eq(I, a, b):
    fa, fb = flds(I, a), flds(I, b)
    for k in ("scheme", "query", "fragment"):
        if not eq_opt(I, fa[k], fb[k]):
            return False
    ha, hb = I.truth(fa["authority"].v.has(I)), I.truth(fb["authority"].v.has(I))
    if ha != hb:
        return False
    if ha:
        return spec_eq_auth(I, fa["authority"].v.get(I).v, fb["authority"].v.get(I).v) and spec_eq_segs(I, fa["path"].v, fb["path"].v)
    return spec_eq_path(I, fa["path"].v, fb["path"].v)


def equality_check(prog, C, sizes):
    begin(C)
    npath = 0
    for cls, spec in (("parts", spec_eq), ("parts::authority", spec_eq_auth), ("parts::path", spec_eq_path)):
        for op in ("==", "!="):
            fn = prog.one("uri::%s::operator%s" % (cls, op)) if prog.fn_by_qn("uri::%s::operator%s" % (cls, op)) else None
            if fn is None:
                # free function or rewritten operator
                cand = [f for f in prog.fns.values() if f["name"] == "operator" + op and f.get("body") is not None and len(f["params"]) == 2
                        and not f.get("rec") and ptype(f, 0).get("rec") == "uri::" + cls and ptype(f, 1).get("rec") == "uri::" + cls]
                if len(cand) != 1:
                    if op == "!=":
                        C.obligation("%s: != is the compiler's rewritten ==" % cls, True)
                        continue
                    raise AnalysisBroken("anchor uri::%s::operator%s" % (cls, op))
                fn = cand[0]
            for na, nb in sizes if cls != "parts::authority" else [(0, 0)]:
                cnt = 0

                def run(ctx):
                    I = interp(prog, ctx, C)
                    oa, ob = sym_parts(I, "lhs", na, plain_view), sym_parts(I, "rhs", nb, plain_view)
                    if cls == "parts::authority":
                        for nm in ("lhs", "rhs"):
                            ctx.facts[("has", nm + ".authority")] = True
                        oa, ob = [flds(I, x)["authority"].v.get(I).v for x in (oa, ob)]
                    elif cls == "parts::path":
                        oa, ob = [flds(I, x)["path"].v for x in (oa, ob)]
                    if fn.get("rec"):
                        r = I.call_fn(fn, Cell(oa), [Cell(ob)], fn["loc"])
                    else:
                        r = I.call_fn(fn, None, [Cell(oa), Cell(ob)], fn["loc"])
                    r = I.truth(I.load_if(r))
                    w = spec(I, oa, ob) == (op == "==")
                    if r != w:
                        raise Bad("eq", "%s %s is %s where comparing every component gives %s" % (cls, op, r, w))
                ok = True
                try:
                    for _ in explore_bad(run):
                        cnt += 1
                except Bad as e:
                    ok = False
                    C.violation(fn["loc"], "%s [%s]" % (e, e.where), key=cls + op)
                npath += cnt
                C.obligation("%s %s with %d and %d segments: %d abstract paths" % (cls, op, na, nb, cnt), ok)
    C.stat("abstract paths", npath)
    finish(prog, C)
