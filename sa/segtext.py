"""Path segments of unknown text, split on demand into the classes RFC 3986 distinguishes: "", ".", ".." and anything else."""
from prog import AnalysisBroken
from values import *
from models import SV, NPOS
from grammar import LookSV, Tok, SCHAR

LIT = ["", ".", "..", None]
DOT = ord(".")


class SegTok(Tok):
    seg = True


class LenV:
    """The length of an unknown text, examined through its `ended` predicate."""
    def __init__(self, v, c=0):
        self.v, self.c = v, c

    def copy(self):
        return self

    def _le(self, I, k):                    # length <= k
        k -= self.c
        if k < 0:
            return False
        if k > 6:
            return Atom(("len<=", self.v.id, k))
        return self.v.ended(I, k)

    def rel(self, I, op, o):
        if isinstance(o, LenV) and o.v.tok is self.v.tok and o.c == self.c:
            return op in ("==", "<=", ">=")
        if isinstance(o, bool) or not isinstance(o, int):
            raise AnalysisBroken("length of unknown text compared with %r at %s" % (o, I.loc))
        if o >= 1 << 40:
            return {"<": True, "<=": True, "!=": True}.get(op, False)
        if op == "<=":
            return self._le(I, o)
        if op == "<":
            return self._le(I, o - 1)
        if op == ">":
            return not I.truth(self._le(I, o))
        if op == ">=":
            return not I.truth(self._le(I, o - 1))
        eq = I.truth(self._le(I, o)) and not I.truth(self._le(I, o - 1))
        return eq == (op == "==")

    def to_bool(self, I):
        return self.rel(I, "!=", 0)

    def conv(self, I, ty):
        return self

    def arith(self, I, op, o, ty, swapped):
        if isinstance(o, int) and op in "+-" and not (swapped and op == "-"):
            return LenV(self.v, self.c + (o if op == "+" else -o))
        raise AnalysisBroken("arithmetic on the length of unknown text at " + I.loc)


class FoundIdx:
    """Where something was found in an unknown text."""
    is_found = True

    def __init__(self, key, c=0):
        self.key, self.c = key, c

    def copy(self):
        return self

    def conv(self, I, ty):
        return self

    def to_bool(self, I):
        return self.rel(I, "!=", 0)

    def arith(self, I, op, o, ty, swapped):
        if isinstance(o, int) and op in "+-" and not (swapped and op == "-"):
            return FoundIdx(self.key, self.c + (o if op == "+" else -o))
        raise AnalysisBroken("arithmetic on a position in unknown text at " + I.loc)

    def rel(self, I, op, o):
        if isinstance(o, LenV):                 # a position (plus one at most) lies within the text
            if self.c <= (0 if op in ("<", ">=") else 1):
                return op in ("<", "<=", "!=")
        if isinstance(o, FoundIdx) and o.key == self.key:
            return {"<": self.c < o.c, "<=": self.c <= o.c, ">": self.c > o.c, ">=": self.c >= o.c, "==": self.c == o.c, "!=": self.c != o.c}[op]
        if isinstance(o, int) and not isinstance(o, bool) and o >= 1 << 40:
            return op in ("<", "<=", "!=")
        if isinstance(o, int) and o == 0 and self.c == 0:
            z = Atom(("at0",) + self.key)
            return {"<": False, ">=": True}.get(op, None) if op in ("<", ">=") else (I.truth(z) == (op in ("==", "<=")))
        raise AnalysisBroken("position in unknown text compared with %r at %s" % (o, I.loc))


class SegSV(LookSV):
    """Unknown text of one segment."""
    def find_first(self, c, match):
        """only where the text as a whole is unknown: found at some position, or nowhere"""
        I = c.I
        if not self.tok.id.startswith("text(") or not self.whole():
            return LookSV.chars(self, I) and None
        args = []
        for x in c.args:
            v = I.load(x) if isinstance(x, Cell) else x
            args.append((v.key, v.c) if isinstance(v, FoundIdx) else str(v))
        key = ("found", c.qn.split("::")[-1], self.tok.id, tuple(args))
        return FoundIdx(key) if I.ctx.fact(key) else NPOS

    def cls(self, I):
        f = I.ctx.facts
        k = ("seg", self.tok.id)
        if k not in f:
            f[k] = I.ctx.choose(4, k)
        return f[k]

    def whole(self):
        return self.off == 0 and self.lim is None

    def lit(self, I):
        t = LIT[self.cls(I)]
        if t is None:
            return None
        t = t[self.off:]
        return t if self.lim is None else t[:self.lim]

    def copy(self):
        return self

    def ended(self, I, i):
        t = LIT[self.cls(I)]
        p = self.off + i
        if t is not None:
            return p >= len(t)
        if p == 0:
            return False
        k = ("end", self.tok.id, p)
        f = I.ctx.facts
        if k in f:
            return f[k]
        r = LookSV.ended(self, I, i)
        if f.get(k) is True and p in (1, 2) and not any(f.get(("end", self.tok.id, q)) for q in range(p)):
            dots = None
            ax = []
            for q in range(p):
                nm = "%s[%d]" % (self.tok.id, q)
                a = I.ctx.axes.get(nm)
                ax.append(Tab.of(a) if a is not None else I.ctx.axis(nm, SCHAR))
            axes, arrs = align(ax)
            for x in arrs:
                dots = (x == DOT) if dots is None else dots & (x == DOT)
            bad = Tab(axes, ~dots)
            if not I.ctx.feasible(bad):
                raise PathEnd()
            I.ctx.assume(bad)
        return r

    def at(self, I, i):
        t = LIT[self.cls(I)]
        if t is None:
            return LookSV.at(self, I, i)
        p = self.off + i
        if p >= len(t) or (self.lim is not None and i >= self.lim):
            I.ub("out-of-bounds", I.loc, "read past the end of a segment")
        return Cell(ord(t[p]))

    def empty(self, I):
        if self.lim is not None:
            return self.lim == 0
        return self.ended(I, 0)

    def length(self, I):
        if self.lim is not None:
            return self.lim
        t = self.lit(I)
        if t is not None:
            return len(t)
        return LenV(self)

    def sub(self, I, pos, n):
        if isinstance(pos, FoundIdx) or isinstance(n, FoundIdx):
            return SegSV(SegTok("%s[%s,%s]" % (self.tok.id, *[(x.key[1:], x.c) if isinstance(x, FoundIdx) else x for x in (pos, n)])))
        if not isinstance(pos, int):
            raise AnalysisBroken("substring of unknown text at " + I.loc)
        if isinstance(n, int):
            return SegSV(self.tok, self.off + pos, n)
        return SegSV(self.tok, self.off + pos, None)

    def eq(self, I, o):
        if isinstance(o, SegSV):
            if (o.tok, o.off, o.lim) == (self.tok, self.off, self.lim):
                return True
            a, b = self.lit(I), o.lit(I)
            if a is not None and b is not None:
                return a == b
            if (a is None) != (b is None) and self.whole() and o.whole():
                return False
            return Atom(("eq",) + tuple(sorted([(self.id, self.off, self.lim or -1), (o.id, o.off, o.lim or -1)])))
        if hasattr(o, "is_view"):
            return LookSV.eq(self, I, o)
        ch = o.chars(I)
        if all(isinstance(c, int) for c in ch):
            t = "".join(map(chr, ch))
            me = self.lit(I)
            if me is not None:
                return me == t
            if self.whole():
                if t in LIT:
                    return False
                return Atom(("lit", self.id, t))
        return LookSV.eq(self, I, o)

    def starts_with(self, I, o):
        return LookSV.starts_with(self, I, o)


def text_of(I, v):
    """Canonical identity of a view's text: ("lit", s) or ("tok", id, off, lim)."""
    if isinstance(v, SegSV):
        t = v.lit(I)
        return ("lit", t) if t is not None else ("tok", v.id, v.off, v.lim)
    if isinstance(v, LookSV):
        n = v.length(I)
        if isinstance(n, int) and n == 0:
            return ("lit", "")
        return ("tok", v.id, v.off, v.lim)
    if isinstance(v, SV):
        ch = v.chars(I)
        if all(isinstance(c, int) for c in ch):
            return ("lit", "".join(chr(c & 255) for c in ch))
    raise AnalysisBroken("text of %r" % (v,))
