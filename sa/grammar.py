"""Extraction of the grammar that the rule combinators build (C01-C04).

The functions that construct rules are interpreted abstractly: a `rule` becomes the list of grammar nodes
applied to an unknown start position, a matcher function is summarised by the node its body builds, and an
accept function becomes a capture. The resulting ordered-choice grammar is compared with RFC 3986 by
automata inclusion. The contract of the combinators themselves is established separately (rules.py)."""
import numpy as np
from prog import AnalysisBroken
from values import *
from interp import Interp, FnRef, Call
import models
from models import Opt, Tup, Vec, SV, V, as_view, I64, U64, TemplStr
from automata import *

ALL = frozenset(range(256))
SCHAR = np.arange(-128, 128)


class GrammarViolation(Exception):
    """A construct that breaks the grammar contract wherever it is reached."""
    def __init__(self, loc, msg):
        Exception.__init__(self, msg)
        self.loc, self.msg = loc, msg


class RuleV:
    """A rule positioned after `nodes` have matched from the start of view `tok`."""
    __slots__ = ("tok", "nodes")

    def __init__(self, tok, nodes=()):
        self.tok, self.nodes = tok, tuple(nodes)

    def copy(self):
        return self

    def node(self):
        return self.nodes[0] if len(self.nodes) == 1 else ("seq", self.nodes)


class PegMatch:
    """optional<tuple<string_view, acceptors>> returned by rule::matched."""
    def __init__(self, tok, node):
        self.tok, self.node = tok, node

    def copy(self):
        return self

    def has(self, I):
        return I.ctx.fact(("peg", self.tok.id, self.tok.off, self.node))

    def to_bool(self, I):
        return self.has(I)

    def get(self, I):
        return Cell(Tup([Cell(HeadV(self)), Cell(AccV(self))], None))


class HeadV:
    """the text consumed by a successful match"""
    is_view = True

    def __init__(self, m):
        self.m = m

    def copy(self):
        return self


class AccV:
    def __init__(self, m):
        self.m = m

    def copy(self):
        return self


class Tok:
    """An input of unknown contents and length. Positions are examined lazily."""
    n = 0

    def __init__(self, name):
        self.id = name
        self.name = name


class LookSV:
    """A view of an unknown text, starting `off` characters in and reaching to its end (or `lim` long)."""
    is_view = True
    __slots__ = ("tok", "off", "lim", "ext")

    def __init__(self, tok, off=0, lim=None):
        self.tok, self.off, self.lim = tok, off, lim

    @property
    def id(self):
        return self.tok.id

    def copy(self):
        return self

    def ended(self, I, i):
        """is position off+i at or past the end of the text?"""
        p = self.off + i
        for q in range(p + 1):
            k = ("end", self.tok.id, q)
            if I.ctx.facts.get(k) is True:
                return True
        k = ("end", self.tok.id, p)
        for q in range(p):
            if not I.ctx.facts.get(("end", self.tok.id, q), False) is False or \
               ("end", self.tok.id, q) not in I.ctx.facts:
                # decide earlier positions first so that the facts form a prefix
                if I.ctx.fact(("end", self.tok.id, q)):
                    return True
        return I.ctx.fact(k)

    def empty(self, I):
        if self.lim is not None:
            return self.lim == 0
        return self.ended(I, 0)

    def at(self, I, i):
        if not isinstance(i, int):
            raise AnalysisBroken("position in unknown text at " + I.loc)
        if (self.lim is not None and i >= self.lim) or (self.lim is None and self.ended(I, i)):
            I.ub("out-of-bounds", I.loc, "read past the end of the text")
        p = self.off + i
        nm = "%s[%d]" % (self.tok.id, p)
        a = I.ctx.axes.get(nm)
        if a is None:
            t = I.ctx.axis(nm, SCHAR)
        else:
            t = Tab.of(a)
        return Cell(t)

    def length(self, I):
        if self.lim is not None:
            return self.lim
        for p in range(self.off, self.off + 9):
            if I.ctx.facts.get(("end", self.tok.id, p)) is True:
                return p - self.off
        return Lin({"len(%s)" % self.tok.id: 1}, -self.off)

    def sub(self, I, pos, n):
        if not isinstance(pos, int):
            raise AnalysisBroken("substring of unknown text at " + I.loc)
        if isinstance(n, int):
            return LookSV(self.tok, self.off + pos, n)
        if not isinstance(n, Lin):                    # the length, examined through "has it ended"
            if getattr(getattr(n, "v", None), "tok", None) is self.tok and n.v.off == self.off and n.v.lim is None and n.c == -pos:
                return type(self)(self.tok, self.off + pos, None)
            raise AnalysisBroken("substring of unknown text at " + I.loc)
        ln = Lin.of(self.length(I)).add(Lin.of(pos), -1)
        if Lin.of(n) == ln:
            return LookSV(self.tok, self.off + pos, None)
        raise AnalysisBroken("substring of unknown text at " + I.loc)

    def data(self, I):
        return LookPtr(self, 0)

    def end_ptr(self, I):
        return LookEnd(self)

    def chars(self, I):
        raise AnalysisBroken("unknown text used as a whole at " + I.loc)

    def starts_with(self, I, o):
        if hasattr(o, "is_view"):
            raise AnalysisBroken("prefix test of two unknown texts at " + I.loc)
        for i, c in enumerate(o.chars(I)):
            if (self.ended(I, i) if self.lim is None else i >= self.lim) or not I.truth(I.rel("==", I.load(self.at(I, i)), c)):
                return False
        return True

    def eq(self, I, o):
        if isinstance(o, LookSV):
            if (o.tok, o.off, o.lim) == (self.tok, self.off, self.lim):
                return True
            return Atom(("eq",) + tuple(sorted([(self.id, self.off), (o.id, o.off)])))
        if hasattr(o, "is_view"):
            return Atom(("eq", (self.id, self.off), id(o)))
        ch = o.chars(I)
        for i, c in enumerate(ch):
            if (self.ended(I, i) if self.lim is None else i >= self.lim):
                return False
            if not I.truth(I.rel("==", I.load(self.at(I, i)), c)):
                return False
        return self.ended(I, len(ch)) if self.lim is None else self.lim == len(ch)

    def starts_with(self, I, o):
        for i, c in enumerate(o.chars(I)):
            if (self.ended(I, i) if self.lim is None else i >= self.lim):
                return False
            if not I.truth(I.rel("==", I.load(self.at(I, i)), c)):
                return False
        return True


class LookPtr:
    def __init__(self, v, i):
        self.v, self.i = v, i

    def copy(self):
        return self

    def ptr_add(self, I, n):
        n = I.concretize(n)
        if isinstance(n, Lin):
            raise AnalysisBroken("pointer into unknown text at " + I.loc)
        return LookPtr(self.v, self.i + n)

    def deref(self, I):
        return self.v.at(I, self.i)

    def to_view(self, I, n):
        if isinstance(n, LookEnd) and n.v.tok is self.v.tok and n.v.lim is None and self.v.lim is None:
            return LookSV(self.v.tok, self.v.off + self.i)
        if isinstance(n, LookPtr) and n.v.tok is self.v.tok:
            n = n.v.off + n.i - self.v.off - self.i
        return self.v.sub(I, self.i, n)

    def rel(self, I, op, o):
        if isinstance(o, LookPtr) and o.v.tok is self.v.tok:
            a, b = self.v.off + self.i, o.v.off + o.i
            return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
        if isinstance(o, LookEnd) and o.v.tok is self.v.tok and op in ("==", "!="):
            e = self.v.ended(I, self.i) if self.v.lim is None else self.i >= self.v.lim
            return e == (op == "==")
        if isinstance(o, NullPtr) and op in ("==", "!="):
            return op == "!="
        raise AnalysisBroken("pointer comparison into unknown text at " + I.loc)


class LookEnd:
    def __init__(self, v):
        self.v = v

    def copy(self):
        return self

    def rel(self, I, op, o):
        return o.rel(I, op, self)


def look_constraint(ctx, tok):
    """The part of a path's decisions about text `tok` as a look-ahead: (classes, end) plus peg conditions,
    plus length bounds."""
    tid = tok.id
    n = 0
    end = False
    while True:
        f = ctx.facts.get(("end", tid, n))
        if f is None:
            break
        if f:
            end = True
            break
        n += 1
    for g in ctx.groups:
        if any(a.name.startswith(tid + "[") for a in g.axes) and len(g.axes) > 1:
            raise AnalysisBroken("characters of the text are related to each other")
    cl = []
    for i in range(n):
        a = ctx.axes.get("%s[%d]" % (tid, i))
        cl.append(frozenset(int(v) & 255 for v in a.vals) if a is not None else ALL)
    conds = [("prefix", tuple(cl), end)]
    rest = []
    for k, val in ctx.facts.items():
        if k[0] == "peg" and k[1] == tid:
            node = k[3]
            if k[2]:
                node = ("seq", tuple([("cls", ALL)] * k[2]) + (node,))
            conds.append(("peg", node, val))
        elif k[0] == "end":
            continue
        elif k[0] == "done":
            continue
        else:
            rest.append((k, val))
    return conds, cl, end, rest


class Grammar:
    """Interception of the rule class and the cache of matcher summaries."""
    def __init__(self, prog):
        self.prog = prog
        self.acceptors = []
        self.copied = None          # index -> (callable value, loc)
        self.cache = {}
        self.sets = {}
        self.progress = []
        self.keep = []
        self.analysed = set()
        self.matchers = 0
        self.reports = []
        self.ntok = 0
        R = "uri::rule::"
        self.intercept = {R + "<ctor>": self.i_ctor, R + "concat": self.i_concat, R + "optional": self.i_optional,
                          R + "star": self.i_star, R + "alternative": self.i_alternative, R + "matched": self.i_matched,
                          R + "tail": self.i_tail, R + "done": self.i_done, R + "single_char": self.i_single,
                          R + "operator=": self.i_assign,
                          "std::optional::has_value": self.o_has, "std::optional::<conv>": self.o_has}

    def tok(self, name=None):
        self.ntok += 1
        return Tok(name or "t%d" % self.ntok)

    def interp(self, ctx):
        I = Interp(self.prog, ctx, intercept=self.intercept)
        I.analysed = self.analysed
        I.reports = self.reports
        return I

    # -- intercepted operations
    def o_has(self, c):
        return NotImplemented

    def i_ctor(self, c):
        if len(c.args) != 1:
            raise AnalysisBroken("rule constructor at " + c.loc)
        a = c.val(0)
        if isinstance(a, RuleV):
            c.this.v = a
        elif isinstance(a, LookSV):
            if a.lim is not None:
                raise AnalysisBroken("rule over a bounded view at " + c.loc)
            c.this.v = RuleV(a)
        elif isinstance(a, HeadV):
            raise AnalysisBroken("rule over matched text at " + c.loc)
        elif isinstance(a, TemplStr) and len(a.pieces) == 1 and isinstance(a.pieces[0], LookSV) and a.pieces[0].lim is None:
            # the text of a std::string copied from it: views of the parse refer to the copy
            self.copied = self.copied or c.loc
            c.this.v = RuleV(a.pieces[0])
        else:
            return NotImplemented

    def i_assign(self, c):
        v = c.val(0)
        if not isinstance(v, RuleV):
            return NotImplemented
        c.this.v = v
        return c.this

    def me(self, c):
        v = c.this.v
        return v if isinstance(v, RuleV) else None

    def accept_nop(self, f):
        return isinstance(f, FnRef) and self.prog.fns[f.key]["qn"] == "uri::rule::accept_nop"

    def applied(self, c, off=0):
        """node for (matcher[, acceptor]) arguments"""
        n = self.summary(c.I, c.args[0], c.loc)
        if len(c.args) > 1:
            f = c.val(1)
            if not self.accept_nop(f):
                self.acceptors.append((f, c.loc))
                return ("cap", len(self.acceptors) - 1, n)
        return n

    def i_concat(self, c):
        r = self.me(c)
        if r is None:
            return NotImplemented
        return RuleV(r.tok, r.nodes + (self.applied(c),))

    def i_optional(self, c):
        r = self.me(c)
        if r is None:
            return NotImplemented
        return RuleV(r.tok, r.nodes + (("opt", self.applied(c)),))

    def i_star(self, c):
        r = self.me(c)
        if r is None:
            return NotImplemented
        mn, mx = c.I.concretize(c.val(1)), c.I.concretize(c.val(2))
        if not isinstance(mn, int) or not isinstance(mx, int):
            raise AnalysisBroken("repetition bounds at " + c.loc)
        return RuleV(r.tok, r.nodes + (("star", self.summary(c.I, c.args[0], c.loc), mn,
                                        None if mx >= (1 << 32) - 1 else mx),))

    def i_alternative(self, c):
        if c.this is None:
            return RuleV(LookSV(self.tok()), (FAIL,))
        r = self.me(c)
        if r is None:
            return NotImplemented
        if not c.args:
            return RuleV(r.tok, r.nodes + (FAIL,))
        return RuleV(r.tok, r.nodes + (("alt", tuple(self.summary(c.I, a, c.loc) for a in c.args)),))

    def i_matched(self, c):
        r = self.me(c)
        if r is None:
            return NotImplemented
        start = c.val(1)
        if not isinstance(start, RuleV) or start.tok.tok is not r.tok.tok or start.tok.off != r.tok.off or start.nodes:
            raise GrammarViolation(c.loc, "matched() is given a rule other than the one the match started from, so the "
                                          "text reported as matched is not the text that was consumed")
        return PegMatch(r.tok, r.node())

    def i_tail(self, c):
        r = self.me(c)
        if r is None:
            return NotImplemented
        if r.nodes:
            raise AnalysisBroken("tail() of a partly matched rule at " + c.loc)
        return Opt(Cell(LookSV(r.tok.tok, r.tok.off)), None)

    def i_done(self, c):
        r = self.me(c)
        if r is None:
            return NotImplemented
        key = ("done", r.tok.id, r.tok.off, r.node())
        v = c.I.ctx.fact(key)
        if v:
            h = c.I.hooks.get("done")
            if h:
                h(c, r)
        return v

    def i_single(self, c):
        r = self.me(c)
        if r is None:
            return NotImplemented
        pt = c.fn["T"][c.fn["params"][0]["t"]]
        if pt["k"] == "int":
            return NotImplemented
        s = self.pred_set(c.args[0], c.loc)
        if r.nodes:
            raise AnalysisBroken("single_char on a partly matched rule at " + c.loc)
        return PegMatch(r.tok, ("cls", s))

    def pred_set(self, f, loc):
        """bytes for which a character predicate is true"""
        k = self.key_of(f)
        if k is not None and k in self.sets:
            return self.sets[k]
        out = set()

        def run(ctx):
            I = self.interp(ctx)
            t = ctx.axis("c", SCHAR)
            return I.truth(I.load_if(I.invoke(f, [Cell(t)], loc)))
        for ctx, res in explore(run):
            if res:
                vals = ctx.axes["c"].vals
                out.update(int(v) & 255 for v in vals)
        s = frozenset(out)
        if k is not None:
            self.sets[k] = s
        return s

    # -- matcher summaries
    def key_of(self, f):
        v = f.v if isinstance(f, Cell) else f
        return self.val_key(v)

    def val_key(self, v):
        if isinstance(v, bool) or isinstance(v, int):
            return ("i", int(v))
        if isinstance(v, FnRef):
            return ("fn", v.key)
        if isinstance(v, Ptr):
            if v.i == 0 and len(v.arr.cells) == 1:
                self.keep.append(v.arr)
                return ("p", id(v.arr.cells[0]))
            return None
        if isinstance(v, Obj):
            out = [v.rec]
            byref = (v.extra or {}).get("byref", ())
            for k, c in sorted(v.f.items()):
                if k in byref:
                    inner = c.v
                    # a reference to a callable or constant is identified by what it refers to
                    kk = self.val_key(inner) if isinstance(inner, (FnRef, int)) else None
                    if kk is None:
                        self.keep.append(c)
                        kk = ("r", id(c))
                else:
                    kk = self.val_key(c.v)
                    if kk is None:
                        return None
                out.append((k, kk))
            return tuple(out)
        return None

    def summary(self, I, f, loc):
        """The grammar node a matcher function stands for."""
        v = f.v if isinstance(f, Cell) else f
        if isinstance(v, models.Fun):
            f = v.cell
        key = self.key_of(f)
        if key is not None and key in self.cache:
            return self.cache[key]
        if key is not None and key in self.progress:
            raise AnalysisBroken("recursive grammar at " + loc)
        self.progress.append(key)
        if len(self.progress) > 200:
            raise AnalysisBroken("grammar nesting")
        self.matchers += 1
        n = self._summary(f, loc)
        self.progress.pop()
        if key is not None:
            self.cache[key] = n
        return n

    def _summary(self, f, loc):
        tok = self.tok()
        rows = []

        def run(ctx):
            I = self.interp(ctx)
            r = I.invoke(f, [Cell(RuleV(LookSV(tok)))], loc)
            return I.load(r) if isinstance(r, Cell) else r
        for ctx, res in explore(run, 5000):
            node = self.result_node(ctx, res, tok, loc)
            conds, cl, end, rest = look_constraint(ctx, tok)
            if rest:
                raise AnalysisBroken("matcher at %s depends on %r" % (loc, rest[0][0]))
            rows.append((conds, node))
        if len(rows) == 1:
            conds, node = rows[0]
            if conds == [("prefix", (), False)]:
                return node
        return ("look", tuple((tuple(c), n) for c, n in rows))

    def result_node(self, ctx, res, tok, loc):
        if isinstance(res, PegMatch):
            if res.tok.tok is not tok or res.tok.off:
                raise AnalysisBroken("match of some other text returned at " + loc)
            return res.node
        if isinstance(res, Opt):
            if res.cell is None:
                return FAIL
            t = res.cell.v
            if isinstance(t, Tup) and len(t.cells) == 2:
                h, a = t.cells[0].v, t.cells[1].v
                if isinstance(h, LookSV) and isinstance(a, Vec) and a.n() == 0 and h.tok is tok and h.off == 0:
                    if h.lim is None:
                        raise AnalysisBroken("matcher consumes all the remaining text at " + loc)
                    return ("seq", tuple([("cls", ALL)] * h.lim))
                if isinstance(h, HeadV) and isinstance(a, AccV) and h.m is a.m:
                    return h.m.node
                if isinstance(h, SV) and isinstance(h.len, int) and h.len == 0 and isinstance(a, Vec) and a.n() == 0:
                    return EPS
        raise AnalysisBroken("matcher result %r at %s" % (res, loc))


def _load_if(self, v):
    return self.load(v) if isinstance(v, Cell) else v


Interp.load_if = _load_if
