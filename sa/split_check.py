"""C01-C03: the languages of split / split_reference and the component annotation their parses produce."""
from prog import AnalysisBroken
from values import *
import models
from models import Opt, SV, Vec, Tup
from grammar import *
from automata import *
import rfc3986

ENTRY = {"split": ("uri::split", rfc3986.URI), "split_reference": ("uri::split_reference", rfc3986.URI_reference)}


class FinalV:
    """value of a component of the result after a successful parse"""
    def __init__(self, owner, name):
        self.owner, self.name = owner, name

    def copy(self):
        return self


def leaf_cells(I, cell, name=""):
    v = cell.v
    if isinstance(v, Obj):
        rec = I.prog.recs[v.rec]
        for (rk, fi), c in v.f.items():
            f = I.prog.recs[rk]["fields"][fi]["name"]
            yield from leaf_cells(I, c, name + "." + f)
    else:
        yield name.lstrip("."), cell


class Path:
    def __init__(self):
        self.conds = []       # (node, bool) on the text
        self.engaged = False
        self.node = None      # the grammar that matched, when engaged
        self.result = None    # cell of the parts object its accept functions write
        self.init = None      # its contents when matching succeeded
        self.modified = []
        self.unsure = []


def offnode(off, node):
    return ("seq", tuple([("cls", ALL)] * off) + (node,)) if off else node


def caps_of(n, out):
    t = n[0]
    if t == "cap":
        out.add(n[1])
        caps_of(n[2], out)
    elif t in ("seq", "alt"):
        for x in n[1]:
            caps_of(x, out)
    elif t in ("opt", "star"):
        caps_of(n[1], out)
    elif t == "look":
        for conds, res in n[1]:
            caps_of(res, out)
    return out


def captured_parts(v, out, seen):
    """cells of uri::parts objects reachable from an accept function"""
    if isinstance(v, Cell):
        if id(v) in seen:
            return
        seen.add(id(v))
        if isinstance(v.v, Obj) and v.v.rec == "uri::parts":
            if all(v is not o for o in out):
                out.append(v)
            return
        captured_parts(v.v, out, seen)
    elif isinstance(v, Obj):
        for c in v.f.values():
            captured_parts(c, out, seen)
    elif isinstance(v, Ptr):
        for c in v.arr.cells:
            captured_parts(c, out, seen)
    elif isinstance(v, models.Fun):
        captured_parts(v.f, out, seen)


def entry_paths(G, fn):
    """Abstract paths of split/split_reference over an unknown text."""
    paths = []
    tok = Tok("in")

    def run(ctx):
        I = G.interp(ctx)
        p = Path()
        ctx.path = p

        def on_done(c, r):
            cs = []
            for k in sorted(caps_of(r.node(), set())):
                captured_parts(G.acceptors[k][0], cs, set())
            if len(cs) > 1:
                raise AnalysisBroken("accept functions of one parse write to several results")
            p.node = offnode(r.tok.off, r.node())
            p.done_key = ("done", r.tok.id, r.tok.off, r.node())
            if cs:
                p.result = cs[0]
                p.init = snapshot(I, cs[0].v)
                p.owner = object()
                for nm, cell in leaf_cells(I, cs[0]):
                    cell.v = FinalV(p.owner, nm)
        I.hooks["done"] = on_done
        r = I.load_if(I.call_fn(fn, None, [Cell(LookSV(tok))], fn["loc"] if "loc" in fn else fn["qn"]))
        if not isinstance(r, Opt):
            raise AnalysisBroken("result of %s" % fn["qn"])
        p.engaged = r.cell is not None
        if p.engaged:
            p.value = r.cell
            if p.result is not None:
                for nm, cell in leaf_cells(I, r.cell):
                    if not (isinstance(cell.v, FinalV) and cell.v.owner is p.owner and cell.v.name == nm):
                        p.modified.append(nm)
        return p
    for ctx, p in explore(run, 20000):
        conds, cl, end, rest = look_constraint(ctx, tok)
        p.look = tuple(conds)
        for k, v in ctx.facts.items():
            if k[0] == "done":
                p.conds.append((offnode(k[2], k[3]), v, k))
        for k, v in rest:
            p.unsure.append((k, v))
        paths.append(p)
    return paths


# ---------------------------------------------------------------- snapshots of the abstract result
def snapshot(I, v):
    if isinstance(v, Obj):
        return ("obj", v.rec, tuple((k, snapshot(I, c.v)) for k, c in sorted(v.f.items())))
    if isinstance(v, Opt):
        return ("opt", None if v.cell is None else snapshot(I, v.cell.v))
    if isinstance(v, (bool, int)):
        return ("c", v)
    if isinstance(v, FreeCap):
        return ("cap", v.tag, 0, 0)
    if isinstance(v, CapSV):
        ne = v.nonempty()
        return ("cap", v.tag, v.off, v.trim) if ne is None else ("cap", v.tag, v.off, v.trim, ne)
    if isinstance(v, SV):
        if v.len == 0:
            return ("empty",)
        return ("lit",)
    if isinstance(v, models.TemplStr):      # a view of a std::string
        return ("lit",) if not v.pieces or not all(isinstance(x, CapSV) and x.nonempty() is False for x in v.pieces) else ("empty",)
    if isinstance(v, SegVec):
        return v.snap(I)
    if isinstance(v, Vec):
        return ("segs", 0, None) if v.n() == 0 else ("segs", 9, None)
    raise AnalysisBroken("result component %r" % (v,))


class CapSV:
    """The text matched by the matcher an accept function is attached to."""
    is_view = True
    __slots__ = ("tag", "off", "trim", "info", "stored")

    def __init__(self, tag, off=0, trim=0, info=((), False, 0, None), stored=None):
        self.tag, self.off, self.trim, self.info, self.stored = tag, off, trim, info, stored

    def nonempty(self):
        """True/False when tracked (only once some accept function asks about an earlier match)"""
        if self.info[3] is None or self.off or self.trim:
            return None
        return self.info[3]

    def copy(self):
        return self

    def need(self, d):
        seen, exact, D, ne = self.info
        if not exact and len(seen) < d:
            if self.stored is not None:
                if ne is None:
                    raise NeedStored(self.stored)
                raise AnalysisBroken("accept functions depend on the contents of earlier matches")
            raise NeedDepth(d)

    def length(self, I):
        seen, exact, D, ne = self.info
        if exact:
            n = len(seen) - self.off - self.trim
            return n
        if ne is not None and not self.off and not self.trim:
            return Lin({"caplen": 1}, 1) if ne else 0
        self.need(1)
        # at least len(seen) characters
        k = len(seen) - self.off - self.trim
        if k < 0:
            raise NeedDepth(self.off + self.trim)
        return Lin({"caplen": 1}, k)

    def empty(self, I):
        ne = self.nonempty()
        if ne is not None:
            return not ne
        self.need(self.off + self.trim + 1)
        n = self.length(I)
        return I.rel("==", n, 0)

    def at(self, I, i):
        if not isinstance(i, int):
            raise AnalysisBroken("position in matched text at " + I.loc)
        seen, exact, D, ne = self.info
        p = self.off + i
        self.need(p + 1)
        if p >= len(seen):
            I.ub("out-of-bounds", I.loc, "read past the end of the matched text")
        cls = I.cap_classes[seen[p]]
        vals = sorted(b - 256 if b > 127 else b for b in cls)
        nm = "cap[%d]" % p
        a = I.ctx.axes.get(nm)
        return Cell(Tab.of(a) if a is not None else I.ctx.axis(nm, vals))

    def sub(self, I, pos, n):
        if not isinstance(pos, int):
            raise AnalysisBroken("substring of matched text at " + I.loc)
        rest = Lin.of(self.length(I)).add(Lin.of(pos), -1).add(Lin.of(n), -1).simp()
        if isinstance(rest, int) and rest >= 0:
            return CapSV(self.tag, self.off + pos, self.trim + rest, self.info)
        if isinstance(n, int) and n == 0:
            return SV(NULL, 0)
        raise AnalysisBroken("substring of matched text at " + I.loc)

    def eq(self, I, o):
        if isinstance(o, CapSV):
            raise AnalysisBroken("comparison of matched texts at " + I.loc)
        ch = o.chars(I)
        self.need(self.off + self.trim + len(ch) + 1)
        n = self.length(I)
        if not I.truth(I.rel("==", n, len(ch))):
            return False
        for i, c in enumerate(ch):
            if not I.truth(I.rel("==", I.load(self.at(I, i)), c)):
                return False
        return True

    def chars(self, I):
        raise AnalysisBroken("matched text copied at " + I.loc)

    def data(self, I):
        raise AnalysisBroken("matched text iterated at " + I.loc)

    starts_with = None


del CapSV.starts_with


class FreeCap(CapSV):
    """Matched text about which nothing is assumed: what an accept function asks of it is answered both ways (provenance)."""
    __slots__ = ()

    def k(self):
        return (self.tag, self.off, self.trim)

    def length(self, I):
        return Lin({"caplen%r" % (self.k(),): 1}, 0)

    def empty(self, I):
        return Atom(("capempty",) + self.k())

    def at(self, I, i):
        nm = "cap%r[%s]" % (self.k(), i)
        a = I.ctx.axes.get(nm)
        return Cell(Tab.of(a) if a is not None else I.ctx.axis(nm, list(range(-128, 128))))

    def sub(self, I, pos, n):
        return FreeCap(self.tag, (self.off, str(pos), str(n)), self.trim)

    def eq(self, I, o):
        if isinstance(o, CapSV):
            return (o.k() if isinstance(o, FreeCap) else None) == self.k() or Atom(("capsame", self.k(), repr(o)))
        ch = o.chars(I) if hasattr(o, "chars") else [repr(o)]
        return Atom(("capeq",) + self.k() + (tuple(x if isinstance(x, int) else str(x) for x in ch),))

    def starts_with(self, I, o):
        return Atom(("capstarts",) + self.k() + (tuple(str(x) for x in o.chars(I)),))

    def find_first(self, c, match):
        key = ("capfound", c.qn) + self.k() + tuple(str(c.I.load(a)) for a in c.args)
        return Lin({repr(key): 1}, 0) if c.I.ctx.fact(key) else models.NPOS


class NeedStored(Exception):
    def __init__(self, path):
        Exception.__init__(self, path)
        self.path = path


class NeedDepth(Exception):
    def __init__(self, d):
        Exception.__init__(self, d)
        self.d = d


class SegVec:
    """path.segments: the element count (saturating at 2), the last element and what this accept call did."""
    def __init__(self, et, cnt, last):
        self.et = et
        self.cnt = cnt
        self.cells = []
        self.old = None
        if cnt:
            self.old = Cell(last)
        self.cleared = False

    def copy_value(self, I):
        raise AnalysisBroken("segments copied by an accept function at " + I.loc)

    copy = None

    def length(self, I):
        n = self.cnt + len(self.cells)
        if self.cnt >= 2:
            raise AnalysisBroken("number of segments used by an accept function at " + I.loc)
        return n

    def empty(self, I):
        return self.cnt + len(self.cells) == 0

    def push_abs(self, I, v):
        c = Cell(v)
        self.cells.append(c)
        return c

    def back_cell(self, I):
        if self.cells:
            return self.cells[-1]
        if self.cnt == 0:
            I.ub("front-of-empty", I.loc, "back() of an empty segment list")
        return self.old

    def clear_abs(self, I):
        self.cleared = True
        self.cnt = 0
        self.old = None
        self.cells = []

    def reserve_sym(self, I, n):
        return None

    def snap(self, I):
        n = min(2, self.cnt + len(self.cells))
        last = None
        if n:
            last = snapshot(I, self.back_cell(I).v)
        return ("segs", n, last)


del SegVec.copy


def restore(I, cell, s, et, path=()):
    k = s[0]
    if k == "obj":
        if not isinstance(cell.v, Obj) or cell.v.rec != s[1]:
            cell.v = Obj(s[1])
        for fk, fs in s[2]:
            c = cell.v.f.get(fk)
            if c is None:
                c = cell.v.f[fk] = Cell()
            rec = I.prog.recs[fk[0]]
            ty = rec["T"][rec["fields"][fk[1]]["t"]]
            restore(I, c, fs, (rec["T"], ty), path + (rec["fields"][fk[1]]["name"],))
    elif k == "opt":
        if s[1] is None:
            cell.v = Opt(None, opt_et(I, et))
        else:
            c = Cell()
            e = opt_et(I, et)
            restore(I, c, s[1], e, path)
            cell.v = Opt(c, e)
    elif k == "c":
        cell.v = s[1]
    elif k == "cap":
        ne = s[4] if len(s) > 4 else None
        cell.v = FreeCap(s[1]) if I.hooks.get("free") else CapSV(s[1], s[2], s[3], ((), ne is False, 0, ne), path)
    elif k == "empty":
        cell.v = SV(NULL, 0)
    elif k == "lit":
        cell.v = CapSV("L", 0, 0, ((), False, 0, None), path)
    elif k == "segs":
        c = Cell()
        if s[2] is not None:
            restore(I, c, s[2], None)
        rec = I.prog.recs[et[1]["rec"]]
        cell.v = SegVec(models.targ(I, rec), s[1], c.v)
    else:
        raise AnalysisBroken("restore " + k)


def opt_et(I, et):
    rec = I.prog.recs[et[1]["rec"]]
    return models.targ(I, rec)


FIELDS = {"scheme": ("scheme",), "userinfo": ("authority", "userinfo"), "host": ("authority", "host"),
          "port": ("authority", "port"), "query": ("query",), "fragment": ("fragment",)}
FLAGS = ["scheme", "authority", "userinfo", "port", "query", "fragment", "absolute"]


class Annot:
    """Product of the annotated grammar automaton with the abstract result object."""
    def __init__(self, G, classes, paths, reports):
        self.G, self.classes, self.paths = G, classes, paths
        self.letters = list(range(len(classes)))
        self.reports = reports
        self.memo = {}
        self.D = 0
        self.E = frozenset()
        self.autos = []
        self.starts = []
        for p in paths:
            marks = [(a, k) for k in sorted(caps_of(p.node, set())) for a in "oc"]
            d = Peg(classes).dfa(p.node, self.letters + marks, False).minimize()
            others = []
            for node, val, key in p.conds:
                if key == p.done_key:
                    continue
                o = Peg(classes).dfa(node, self.letters, True).minimize()
                others.append((o, val))
            if p.look != (("prefix", (), False),):
                n = ("look", ((p.look, ("star", ("cls", ALL), 0, None)),))
                others.append((Peg(classes).dfa(n, self.letters, True).minimize(), True))
            self.autos.append((d, others))
        self.acc_calls = 0
        self.free = False

    # accept function k applied to result state s with matched text info -> list of result states
    def accept(self, pi, k, s, tag, info):
        key = (pi, k, s, tag, info)
        r = self.memo.get(key)
        if r is not None:
            return r
        f, loc = self.G.acceptors[k]
        p = self.paths[pi]
        out = []

        def run(ctx):
            I = self.G.interp(ctx)
            I.cap_classes = self.classes
            I.hooks["free"] = self.free
            restore(I, p.result, s, None)
            self.acc_calls += 1
            I.invoke(f if isinstance(f, Cell) else Cell(f), [FreeCap(tag) if self.free else CapSV(tag, 0, 0, info)], loc)
            segs = [c for nm, c in leaf_cells(I, p.result) if nm == "path.segments"]
            if len(segs) != 1 or not isinstance(segs[0].v, SegVec):
                raise AnalysisBroken("path.segments of the result is replaced by an accept function")
            sv = segs[0].v
            ev = (sv.cleared, None if sv.old is None else snapshot(I, sv.old.v), tuple(snapshot(I, c.v) for c in sv.cells))
            return snapshot(I, p.result.v), ev
        for ctx, res in explore(run, 5000):
            out.append(res)
        self.memo[key] = out
        return out

    def get(self, s, name):
        """component of a snapshot by member name"""
        for (rk, fi), x in s[2]:
            if self.G.prog.recs[rk]["fields"][fi]["name"] == name:
                return x
        raise AnalysisBroken("no member %s in the result" % name)

    def field(self, s, path):
        """value snapshot of a component: None absent"""
        x = s
        for n in path:
            x = self.get(x, n)
            if x[0] == "opt":
                x = x[1]
                if x is None:
                    return None
        return x

    def flag(self, s, name):
        if name == "absolute":
            return bool(self.get(self.get(s, "path"), "absolute")[1])
        if name == "authority":
            return self.get(s, "authority")[1] is not None
        if name in ("userinfo", "port"):
            return self.field(s, ("authority", name)) is not None
        return self.field(s, (name,)) is not None

    def normal(self, s, keep):
        """Forget which matched text the components other than `keep` hold."""
        def go(x, path):
            if x[0] == "obj":
                out = []
                for k, y in x[2]:
                    nm = self.G.prog.recs[k[0]]["fields"][k[1]]["name"]
                    out.append((k, go(y, path + (nm,))))
                return ("obj", x[1], tuple(out))
            if x[0] == "opt":
                return ("opt", None if x[1] is None else go(x[1], path))
            if x[0] == "cap" and path != keep:
                return ("cap", "N", 0, 0) + (x[4:] if path in self.E else ())
            if x[0] == "cap" and path not in self.E:
                return x[:4]
            if x[0] == "segs" and x[2] is not None and x[2][0] == "cap":
                t = "F" if keep == ("path", "segments") and x[2][1] in ("G", "F") and x[2][2:4] == (0, 0) else "N"
                return ("segs", x[1], ("cap", t, 0, 0))
            return x
        return go(s, ())

    # states: (pi, q, otherstates, result, opens, guess, seg)
    #   opens: tuple of (k, info) for open captures; guess: None|("in",k,kind,letters)|"done"
    def build(self, field):
        """NFA of the projection onto one component (None: presence flags only)."""
        kind = "seg" if field == "segments" else ("field" if field else "flags")
        fpath = ("path", "segments") if kind == "seg" else (FIELDS[field] if kind == "field" else None)

        starts = []
        for pi, p in enumerate(self.paths):
            d, others = self.autos[pi]
            seg0 = ("none",)
            starts.append((pi, d.start, tuple(o.start for o, _ in others), self.normal(p.init, fpath), (), None, seg0))

        def succ(st):
            """[(label or None, state)]"""
            pi, q, oq, s, opens, guess, seg = st
            d, others = self.autos[pi]
            out = []
            for x, q2 in d.trans[q].items():
                if not isinstance(x, tuple):
                    if guess is not None and guess[0] == "emit":
                        continue      # an emission is due before the next letter
                    if guess is not None and guess[0] == "in" and guess[2] == "E":
                        continue      # claimed to be empty
                    oq2 = tuple(None if z is None else o.trans[z].get(x) for z, (o, _) in zip(oq, others))
                    if any(z is None and v for z, (_, v) in zip(oq2, others)):
                        continue
                    g2 = guess
                    if guess is not None and guess[0] == "in" and not guess[3]:
                        g2 = ("in", guess[1], guess[2], True)
                    op2 = opens
                    if opens and (self.D or self.E):
                        op2 = tuple((k, self.grow(i, x)) for k, i in opens)
                    out.append((x, (pi, q2, oq2, s, op2, g2, seg)))
                elif x[0] == "o":
                    k = x[1]
                    op2 = opens + ((k, ((), self.D > 0, self.D, False if self.E else None)),)
                    out.append((None, (pi, q2, oq, s, op2, guess, seg)))
                    if kind == "flags":
                        continue
                    if guess is None:
                        if kind == "seg":
                            out.append(("[", (pi, q2, oq, s, op2, ("in", k, "G", True), seg)))
                        else:
                            out.append(("[", (pi, q2, oq, s, op2, ("in", k, "G", False), seg)))
                            out.append((None, (pi, q2, oq, s, op2, ("in", k, "E", False), seg)))
                else:
                    k = x[1]
                    if not opens or opens[-1][0] != k:
                        raise AnalysisBroken("captures not properly nested")
                    info = opens[-1][1]
                    op2 = opens[:-1]
                    tag = "N"
                    g2 = guess
                    lab = None
                    if guess is not None and guess[0] == "in" and guess[1] == k:
                        if guess[2] == "G":
                            if not guess[3]:
                                continue       # claimed to be non-empty
                            tag = "G"
                            lab = "]"
                            g2 = None if kind == "seg" else ("done",)
                        else:
                            tag = "E"
                            g2 = None
                    for s2, ev in self.accept(pi, k, s, tag, info):
                        if kind == "seg":
                            for seg2, em in self.seg_step(seg, ev, tag):
                                n = (pi, q2, oq, self.normal(s2, fpath), op2, g2, seg2)
                                labs = ([lab] if lab else []) + em
                                out.append((tuple(labs) if len(labs) > 1 else (labs[0] if labs else None), n))
                        else:
                            if guess == ("done",) or (tag == "G"):
                                v = self.field(s2, fpath) if kind == "field" else None
                                if kind == "field" and (v is None or v[:4] != ("cap", "G", 0, 0)):
                                    continue
                            s3 = self.normal(s2, fpath)
                            out.append((lab, (pi, q2, oq, s3, op2, g2, seg)))
            return out

        def final(st):
            pi, q, oq, s, opens, guess, seg = st
            d, others = self.autos[pi]
            if q not in d.acc:
                return False
            for z, (o, v) in zip(oq, others):
                if (z is not None and z in o.acc) != v:
                    return False
            if kind == "flags":
                return True
            if kind == "seg":
                return guess is None and seg[0] in ("none", "P", "G")
            if guess is not None and guess[0] == "in":
                return False
            v = self.field(s, fpath)
            if guess == ("done",):
                return v is not None and v[:4] == ("cap", "G", 0, 0)
            return v is None or v == ("empty",) or v[:4] == ("cap", "E", 0, 0)
        return starts, succ, final

    def grow(self, info, x):
        seen, exact, D, ne = info
        if ne is not None:
            ne = True
        if len(seen) < D:
            return (seen + (x,), True, D, ne)
        return (seen, False, D, ne)

    def seg_step(self, seg, ev, tag):
        """Effect of one accept call on the segment list -> [(state, emissions)]. States of the last
        element: none, P (default empty, final), U (to be assigned later), G (final)."""
        cleared, old, new = ev
        if old is not None:
            old = old[:4]
        new = [x[:4] for x in new]
        if cleared:
            if seg[0] != "none":
                return []
            old = None
        st = seg[0]
        took = False
        if st != "none" and not cleared:
            if st == "P" and old != ("empty",):
                return []
            if st == "G" and old != ("cap", "F", 0, 0):
                return []
            if st == "U":
                if old == ("cap", "G", 0, 0):
                    st = "G"
                    took = True
                elif new:
                    return []
        if tag == "G" and not took and ("cap", "G", 0, 0) not in new:
            return []                  # the text promised to be a segment did not become one
        if not new:
            return [((st,), [])]
        # all new elements but the last are final now
        em = []
        for x in new[:-1]:
            if x == ("empty",):
                em += ["[", "]"]
            else:
                return []
        x = new[-1]
        if x == ("empty",):
            return [(("P",), em + ["[", "]"]), (("U",), em)]
        if x == ("cap", "G", 0, 0):
            return [(("G",), em)]
        if x[0] == "cap":
            return [(("U",), em)]
        return []

    def dfa(self, field, accept=None):
        starts, succ, final = self.build(field)
        cache = {}
        extra = {}

        def S(st):
            r = cache.get(st)
            if r is None:
                r = cache[st] = succ(st)
            return r

        def edges(st):
            if isinstance(st, tuple) and st and st[0] == "chain":
                return [(st[1][0], ("chain", st[1][1:], st[2]) if len(st[1]) > 1 else st[2])]
            out = []
            for l, n in S(st):
                if isinstance(l, tuple):
                    out.append((l[0], ("chain", l[1:], n)))
                else:
                    out.append((l, n))
            return out

        def closure(states):
            seen = set(states)
            todo = list(seen)
            while todo:
                q = todo.pop()
                for l, n in edges(q):
                    if l is None and n not in seen:
                        seen.add(n)
                        todo.append(n)
            return seen
        ec = {}

        def step(st, x):
            m = ec.get(st)
            if m is None:
                m = {}
                for l, n in edges(st):
                    if l is not None:
                        m.setdefault(l, []).append(n)
                ec[st] = m
            return m.get(x, ())

        def acc(st):
            if st and st[0] == "chain":
                return False
            return final(st) and (accept is None or accept(st[3]))
        d = determinize(starts, step, acc, self.letters + ["[", "]"], closure)
        self.states = getattr(self, "states", 0) + len(cache)
        return d.minimize()

    def project(self, field, accept=None):
        while True:
            try:
                return self.dfa(field, accept)
            except NeedStored as e:
                if e.path in self.E:
                    raise AnalysisBroken("accept functions depend on the contents of earlier matches")
                self.E = self.E | {e.path}
                self.memo = {}
            except NeedDepth as e:
                if e.d > 4 or e.d <= self.D:
                    raise AnalysisBroken("accept functions depend on the contents of the matched text")
                self.D = e.d
                self.memo = {}


# ---------------------------------------------------------------- specification side
def spec_project(spec, name, classes, letters):
    """DFA over letters + brackets of the words of the specification with the text of one component
    bracketed (empty brackets erased unless the component is the segment list)."""
    B, E = ("[", name), ("]", name)
    d = regex_dfa(rfc3986.keep(spec, {name}), classes, letters + [B, E]).minimize()
    if name == "seg":
        ren = {B: "[", E: "]"}
        return DFA([{ren.get(x, x): t for x, t in row.items()} for row in d.trans], d.acc, d.start)

    def eps(st):
        s, ne = st
        if ne:
            return
        t = d.trans[s].get(B)
        if t is not None:
            u = d.trans[t].get(E)
            if u is not None:
                yield (u, False)

    def closure(states):
        seen = set(states)
        todo = list(seen)
        while todo:
            q = todo.pop()
            for n in eps(q):
                if n not in seen:
                    seen.add(n)
                    todo.append(n)
        return seen

    def step(st, x):
        s, ne = st
        if x == "[":
            t = None if ne else d.trans[s].get(B)
            if t is not None:
                yield (t, True)
        elif x == "]":
            t = None if ne else d.trans[s].get(E)
            if t is not None:
                yield (t, False)
        else:
            t = d.trans[s].get(x)
            if t is not None:
                yield (t, False)
    return determinize([(d.start, False)], step, lambda q: q[0] in d.acc and not q[1], letters + ["[", "]"], closure).minimize()


def spec_with(spec, name, classes, letters):
    """DFA of the texts whose parse contains the marker `name`."""
    names = {"absolute": "P", "authority": "A"}
    nm = names.get(name)
    ms = [(nm,)] if nm else [("[", name), ("]", name)]
    e = rfc3986.keep(spec, {nm or name})
    d = regex_dfa(e, classes, letters + ms).minimize()

    def closure(states):
        seen = set(states)
        todo = list(seen)
        while todo:
            s, f = todo.pop()
            for m in ms:
                t = d.trans[s].get(m)
                if t is not None and (t, True) not in seen:
                    seen.add((t, True))
                    todo.append((t, True))
        return seen

    def step(st, x):
        t = d.trans[st[0]].get(x)
        if t is not None:
            yield (t, st[1])
    return determinize([(d.start, False)], step, lambda q: q[1] and q[0] in d.acc, letters, closure).minimize()


def show_marks(word, classes):
    out = ""
    for l in word:
        out += l if isinstance(l, str) else show([l], classes)
    return out


# ---------------------------------------------------------------- the checks
def length_dfa(c, letters, neg):
    """texts of length <= c (or > c)"""
    if c < 0:
        d = DFA([{}], set(), 0)
        n = -1
    row = []
    n = max(c, -1)
    for i in range(n + 2):
        row.append({l: min(i + 1, n + 1) for l in letters})
    acc = {i for i in range(n + 2) if (i <= n) != neg}
    return DFA(row, acc, 0)


def path_dfa(p, classes, letters, cache):
    ds, pol = [], []
    for node, val, key in p.conds:
        if node not in cache:
            cache[node] = Peg(classes).dfa(node, letters, True).minimize()
        ds.append(cache[node])
        pol.append(val)
    if p.look != (("prefix", (), False),):
        n = ("look", ((p.look, ("star", ("cls", ALL), 0, None)),))
        ds.append(Peg(classes).dfa(n, letters, True).minimize())
        pol.append(True)
    for k, val in p.unsure:
        if k[0] == "lin<=0" and len(k[1]) == 1 and k[1][0][0] == "len(in)" and abs(k[1][0][1]) == 1 and abs(k[2]) <= 3000:
            co, c = k[1][0][1], k[2]
            # co*n + c <= 0
            if co == 1:
                d = length_dfa(-c, letters, not val)
            else:
                d = length_dfa(c - 1, letters, val)
            ds.append(d)
            pol.append(True)
        else:
            raise GrammarViolation("", "whether the text is accepted depends on %r, which is not part of the grammar" % (k,))
    if not ds:
        return DFA([{l: 0 for l in letters}], {0}, 0)
    return boolean(ds, lambda m: all(a == b for a, b in zip(m, pol)), letters).minimize()


def union(ds, letters):
    if not ds:
        return DFA([{}], set(), 0)
    if len(ds) == 1:
        return ds[0]
    return boolean(ds, lambda m: any(m), letters).minimize()


def language_check(prog, which, C):
    qn, spec = ENTRY[which]
    G = Grammar(prog)
    fn = prog.one(qn)
    loc = fn.get("loc", qn)
    try:
        paths = entry_paths(G, fn)
        sets = set(regex_sets(spec, set()))
        for p in paths:
            for node, _, _ in p.conds:
                peg_sets(node, sets)
            for c in p.look:
                if c[0] == "prefix":
                    sets.update(c[1])
                else:
                    peg_sets(c[1], sets)
        classes = byte_classes(sets)
        letters = list(range(len(classes)))
        cache = {}
        acc = union([path_dfa(p, classes, letters, cache) for p in paths if p.engaged], letters)
    except GrammarError as e:
        C.violation(loc, "%s (in the grammar built by %s)" % (e, qn), key="grammar")
        return None
    except GrammarViolation as e:
        C.violation(e.loc or loc, e.msg, key="grammar")
        return None
    s = regex_dfa(rfc3986.strip(spec), classes, letters).minimize()
    r = difference(acc, s, letters)
    C.obligation("L(%s) = L(RFC 3986 %s)" % (qn, "URI" if which == "split" else "URI-reference"), r is None)
    if r is not None:
        w, code = r
        C.violation(loc, "%s %s \"%s\", which RFC 3986 says is %s" % (
            qn, "accepts" if code else "rejects", show(w, classes), "not in the grammar" if code else "in the grammar"),
            key="language:" + show(w, classes))
    C.stat("matcher functions summarised", G.matchers)
    C.stat("byte classes", len(classes))
    C.stat("automaton states (code)", len(acc.trans))
    C.stat("automaton states (RFC)", len(s.trans))
    C.functions(prog, G.analysed)
    for r in G.reports:
        C.violation(r.loc, "%s: %s" % (r.kind, r.msg), key=r.kind)
    return G, paths, classes, letters


def annotation_jobs(prog, which):
    """jobs (for run.parallel) that compare the annotated parse of one entry point with RFC 3986, a component each"""
    qn, spec = ENTRY[which]
    fn = prog.one(qn)
    loc = fn.get("loc", qn)
    G = Grammar(prog)

    def fail(msg, key, at=None):
        return [lambda C: C.violation(at or loc, msg, key=key)]
    try:
        paths = entry_paths(G, fn)
        sets = set(regex_sets(spec, set()))
        for p in paths:
            for node, _, _ in p.conds:
                peg_sets(node, sets)
        classes = byte_classes(sets)
        letters = list(range(len(classes)))
        eng = [p for p in paths if p.engaged]
        for p in eng:
            if p.modified:
                return fail("%s changes %s of the result after parsing" % (qn, ", ".join(p.modified)), "modified")
            if p.result is None:
                return fail("%s returns a result no accept function writes to" % qn, "detached")
        A = Annot(G, classes, eng, G.reports)
    except GrammarError as e:
        return fail(str(e), "grammar")
    except GrammarViolation as e:
        return fail(e.msg, "grammar", e.loc)
    rl = letters + ["[", "]"]

    def text(f, C):
        code = A.project(f)
        s = spec_project(spec, "seg" if f == "segments" else f, classes, letters)
        r = difference(code, s, rl)
        C.obligation("%s: the text of %s" % (qn, f), r is None)
        if r is not None:
            w, in_code = r
            C.violation(loc, "%s assigns %s differently from RFC 3986: %s %s" % (
                qn, f, show_marks(w, classes), "is produced but is not the RFC decomposition" if in_code
                else "is the RFC decomposition but is not produced"), key="text:" + f)

    def flag(f, C):
        code = A.project(None, lambda s, f=f: A.flag(s, f))
        no = A.project(None, lambda s, f=f: not A.flag(s, f))
        s = spec_with(spec, f, classes, letters)
        whole = regex_dfa(rfc3986.strip(spec), classes, letters).minimize()
        r = difference(code, s, letters)
        r2 = difference(no, boolean([whole, s], lambda m: m[0] and not m[1], letters).minimize(), letters)
        C.obligation("%s: when %s is %s" % (qn, f, "set" if f == "absolute" else "present"), r is None and r2 is None)
        if r is not None or r2 is not None:
            w, in_code = r or r2
            C.violation(loc, "%s: %s is %s for \"%s\"" % (
                qn, f, "set or present when RFC 3986 says it is not (or the reverse)", show(w, classes)), key="flag:" + f)

    def job(fun, f):
        def run(C):
            try:
                fun(f, C)
            except GrammarError as e:
                C.violation(loc, str(e), key="grammar")
                return
            except GrammarViolation as e:
                C.violation(e.loc or loc, e.msg, key="grammar")
                return
            C.stat("accept calls interpreted", A.acc_calls)
            C.stat("annotation states", A.states)
            C.functions(prog, G.analysed)
            for r in G.reports:
                C.violation(r.loc, "%s: %s" % (r.kind, r.msg), key=r.kind)
        return run

    def common(C):
        C.stat("accept functions", len(G.acceptors))
        C.functions(prog, G.analysed)
    return [common] + [job(text, f) for f in list(FIELDS) + ["segments"]] + [job(flag, f) for f in FLAGS]


def provenance_jobs(prog):
    """C22: every view that an accept function leaves in the result is the text it was given, part of it, an earlier one, or empty"""
    def job(which):
        qn, spec = ENTRY[which]
        fn = prog.one(qn)
        loc = fn.get("loc", qn)

        def run(C):
            G = Grammar(prog)
            try:
                paths = entry_paths(G, fn)
                sets = set()
                for p in paths:
                    for node, _, _ in p.conds:
                        peg_sets(node, sets)
                    for c in p.look:
                        if c[0] == "prefix":
                            sets.update(c[1])
                        else:
                            peg_sets(c[1], sets)
                classes = byte_classes(sets)
                eng = [p for p in paths if p.engaged]
                if G.copied:
                    C.violation(G.copied, "%s parses a copy of the text it is given: the views in its result refer to the copy, not to the "
                                "caller's text" % qn, key="copy:" + which)
                bad = [(p, nm) for p in eng for nm in p.modified]
                seen = set()
                for p, nm in bad:
                    cells = dict(leaf_cells(None_interp(G), p.value))
                    v = cells.get(nm).v if cells.get(nm) is not None else None
                    if isinstance(v, (SV, models.TemplStr, models.Str)) and not (isinstance(v, SV) and v.len == 0) and nm not in seen:
                        seen.add(nm)
                        C.violation(loc, "%s leaves in %s a view of something other than the caller's text" % (qn, nm), key="view:%s:%s" % (which, nm))
                A = Annot(G, classes, [p for p in eng if p.result is not None], G.reports)
                A.free = True
                A.project(None, lambda s: True)
            except (GrammarError, GrammarViolation) as e:
                C.violation(getattr(e, "loc", None) or loc, str(e) or getattr(e, "msg", ""), key="grammar")
                return
            ncalls = nviews = 0
            for (pi, k, s, tag, info), outs in A.memo.items():
                ncalls += 1
                at = G.acceptors[k][1]
                for snap, ev in outs:
                    for path, x in leaves(G, snap):
                        nviews += 1
                        if x[0] == "lit" and (path, at) not in seen:
                            seen.add((path, at))
                            C.violation(at, "the accept function given here leaves in %s a view of text that is not the caller's" % path,
                                        key="view:%s:%s" % (which, path))
                    for x in ev[2]:
                        nviews += 1
                        if x[0] == "lit" and ("seg", at) not in seen:
                            seen.add(("seg", at))
                            C.violation(at, "the accept function given here appends a path segment that is not part of the caller's text",
                                        key="view:%s:segment" % which)
            C.obligation("%s: views of the result after each of %d accept calls (%d views)" % (qn, ncalls, nviews), not seen and not G.copied)
            C.stat("accept functions", len(G.acceptors))
            C.functions(prog, G.analysed)
        return run
    return [job("split"), job("split_reference")]


def None_interp(G):
    class X:
        prog = G.prog
    return X


def leaves(G, x, path=""):
    if x[0] == "obj":
        for k, y in x[2]:
            yield from leaves(G, y, (path + "." if path else "") + G.prog.recs[k[0]]["fields"][k[1]]["name"])
    elif x[0] == "opt":
        if x[1] is not None:
            yield from leaves(G, x[1], path)
    elif x[0] == "segs":
        if x[2] is not None:
            yield path, x[2]
    elif x[0] in ("cap", "lit", "empty"):
        yield path, x
