"""Abstract values and the path context of the abstract interpreter.

Scalars are either constants (Python ints), finite tables over symbolic axes (Tab: one entry for every
combination of values the axes may still take on this path), linear terms over length symbols (Lin) or
opaque truth values (Atom)."""
import itertools
import numpy as np
from prog import AnalysisBroken


class PathEnd(Exception):
    """This abstract path ends here (assumption failed, or undefined behaviour already reported)."""


class Diverged(Exception):
    pass


class AbsThrow(Exception):
    def __init__(self, value, loc):
        self.value = value
        self.loc = loc


class Uninit:
    def __repr__(self):
        return "UNINIT"


UNINIT = Uninit()


class Axis:
    """A symbolic input with a finite domain; `vals` holds the values still possible on this path."""
    def __init__(self, name, vals):
        self.name = name
        self.hist = [np.asarray(vals, dtype=np.int64)]

    @property
    def vals(self):
        return self.hist[-1]

    @property
    def ver(self):
        return len(self.hist) - 1

    def refine(self, mask):
        if not mask.all():
            self.hist.append(self.vals[mask])

    def realign(self, ver):
        """Positions, in version `ver`, of the currently possible values (None when unchanged)."""
        if ver == self.ver:
            return None
        return np.searchsorted(self.hist[ver], self.vals)


class Tab:
    __slots__ = ("axes", "arr", "vers")

    def __init__(self, axes, arr, vers=None):
        self.axes = axes            # tuple of Axis ordered by id()
        self.arr = arr
        self.vers = vers if vers is not None else tuple(a.ver for a in axes)

    @staticmethod
    def of(axis):
        return Tab((axis,), axis.vals.copy())

    def norm(self):
        for d, a in enumerate(self.axes):
            if self.vers[d] != a.ver:
                arr = self.arr
                for d2, a2 in enumerate(self.axes):
                    idx = a2.realign(self.vers[d2])
                    if idx is not None:
                        arr = np.take(arr, idx, axis=d2)
                self.arr = arr
                self.vers = tuple(a2.ver for a2 in self.axes)
                break
        return self

    def const(self):
        """The single value of the table, or None."""
        self.norm()
        if self.arr.size and (self.arr == self.arr.flat[0]).all():
            return int(self.arr.flat[0])
        return None

    def __repr__(self):
        return "Tab(%s)" % ",".join(a.name for a in self.axes)


MAXTAB = 1 << 25


def align(tabs):
    """Broadcast several Tabs onto the union of their axes."""
    axes = []
    for t in tabs:
        t.norm()
        for a in t.axes:
            if a not in axes:
                axes.append(a)
    axes.sort(key=lambda a: a.name)
    size = 1
    for a in axes:
        size *= len(a.vals)
    if size > MAXTAB:
        raise TooLarge("value table too large (%s)" % ",".join(a.name for a in axes))
    out = []
    for t in tabs:
        shape = [len(a.vals) if a in t.axes else 1 for a in axes]
        order = sorted(range(len(t.axes)), key=lambda i: t.axes[i].name)
        out.append(np.transpose(t.arr, order).reshape(shape))
    return tuple(axes), out


class TooLarge(AnalysisBroken):
    pass


class Atom:
    """An opaque truth value named by `key`; `neg` when negated."""
    __slots__ = ("key", "neg")

    def __init__(self, key, neg=False):
        self.key = key
        self.neg = neg

    def __repr__(self):
        return ("!" if self.neg else "") + str(self.key)


class Lin:
    """const + sum(coef * symbol); every symbol is a length (>= 0)."""
    __slots__ = ("terms", "c")

    def __init__(self, terms, c=0):
        self.terms = tuple(sorted((s, k) for s, k in dict(terms).items() if k))
        self.c = c

    @staticmethod
    def sym(name):
        return Lin({name: 1}, 0)

    @staticmethod
    def of(v):
        return v if isinstance(v, Lin) else Lin({}, int(v))

    def add(self, o, sign=1):
        d = dict(self.terms)
        for s, k in o.terms:
            d[s] = d.get(s, 0) + sign * k
        return Lin(d, self.c + sign * o.c)

    def scale(self, k):
        return Lin({s: c * k for s, c in self.terms}, self.c * k)

    def simp(self):
        return self.c if not self.terms else self

    def key(self):
        return (self.terms, self.c)

    def __eq__(self, o):
        return isinstance(o, Lin) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return "+".join(["%s%s" % ("" if k == 1 else str(k) + "*", s) for s, k in self.terms] + ([str(self.c)] if self.c or not self.terms else []))


class Report:
    def __init__(self, kind, loc, msg, sample=None):
        self.kind, self.loc, self.msg, self.sample = kind, loc, msg, sample

    def key(self):
        return (self.kind, self.loc, self.msg)


class Ctx:
    """One abstract path: a script of decisions, the facts learnt, the axes and their joint constraints."""
    def __init__(self, script=()):
        self.script = list(script)
        self.trace = []          # (choice, alternatives)
        self.facts = {}
        self.groups = []         # list of (axes tuple, Tab bool)
        self.axes = {}
        self.steps = 0
        self.log = []
        self.linfacts = {}
        self.interp = None

    def axis(self, name, vals):
        a = Axis(name, vals)
        self.axes[name] = a
        return Tab.of(a)

    def choose(self, n, what=""):
        i = len(self.trace)
        c = self.script[i] if i < len(self.script) else 0
        self.trace.append((c, n))
        return c

    # -- opaque facts
    def fact(self, key):
        if key not in self.facts:
            self.facts[key] = self.choose(2, key) == 0
        return self.facts[key]

    # -- tables
    def _group_for(self, axes):
        hit = [g for g in self.groups if any(a in g.axes for a in axes)]
        return hit

    def feasible(self, tab):
        """tab: boolean Tab. Is there a combination (under the joint constraints) where it is true?"""
        tab.norm()
        gs = self._group_for(tab.axes)
        if not gs:
            return bool(tab.arr.any())
        axes, arrs = align([tab] + gs)
        r = arrs[0].astype(bool)
        for x in arrs[1:]:
            r = r & x.astype(bool)
        return bool(r.any())

    def values(self, tab):
        """The values of the table for the combinations still possible, in increasing order."""
        tab.norm()
        gs = self._group_for(tab.axes)
        if not gs:
            return np.unique(tab.arr)
        axes, arrs = align([tab] + gs)
        shape = [len(a.vals) for a in axes]
        ok = arrs[1].astype(bool)
        for x in arrs[2:]:
            ok = ok & x.astype(bool)
        return np.unique(np.broadcast_to(arrs[0], shape)[np.broadcast_to(ok, shape)])

    def assume(self, tab):
        tab.norm()
        gs = self._group_for(tab.axes)
        if not gs and len(tab.axes) == 1:
            tab.axes[0].refine(tab.arr.astype(bool))
            return
        axes, arrs = align([tab] + gs)
        shape = [len(a.vals) for a in axes]
        r = arrs[0].astype(bool)
        for x in arrs[1:]:
            r = r & x.astype(bool)
        r = np.broadcast_to(r, shape)
        for g in gs:
            self.groups.remove(g)
        t = Tab(axes, r)
        for d, a in enumerate(axes):
            m = r.any(axis=tuple(i for i in range(len(axes)) if i != d))
            a.refine(m)
        t.norm()
        if not t.arr.all():
            self.groups.append(t)

    def branch_tab(self, tab):
        c = tab.const()
        if c is not None:
            return bool(c)
        b = Tab(tab.axes, tab.arr != 0, tab.vers)
        nb = Tab(tab.axes, tab.arr == 0, tab.vers)
        ft, ff = self.feasible(b), self.feasible(nb)
        if not ft and not ff:
            raise PathEnd()
        if ft and ff:
            r = self.choose(2, "tab") == 0
        else:
            r = ft
        self.assume(b if r else nb)
        return r

    def sample(self):
        """One concrete value for every axis that satisfies all constraints of this path."""
        out = {}
        for g in self.groups:
            g.norm()
            pos = np.argwhere(g.arr)
            if len(pos):
                for d, a in enumerate(g.axes):
                    out[a.name] = int(a.vals[pos[0][d]])
        for n, a in self.axes.items():
            if n not in out and len(a.vals):
                v = a.vals
                pr = v[(v >= 97) & (v <= 122)]
                out[n] = int(pr[0] if len(pr) else v[0])
        return out

    def count(self):
        """Number of concrete axis combinations this path stands for."""
        n = 1
        seen = set()
        for g in self.groups:
            g.norm()
            n *= int(g.arr.sum())
            seen.update(a.name for a in g.axes)
        for nm, a in self.axes.items():
            if nm not in seen:
                n *= len(a.vals)
        return n


def explore(run, limit=200000):
    """Enumerates every abstract path of run(ctx); yields (ctx, result)."""
    stack = [[]]
    n = endless = 0
    while stack:
        script = stack.pop()
        ctx = Ctx(script)
        try:
            res = run(ctx)
            dead = False
        except PathEnd:
            res, dead = None, True
        except AbsThrow as e:
            # no call of the library may end in an exception (other than for want of memory, which is not modelled)
            I = ctx.interp
            if I is None:
                raise
            I.note("uncaught-exception", e.loc, "%s is thrown to the caller" % I.thrown(e))
            res, dead = None, True
        except Diverged:
            # reported by whoever raised it; a few such paths are enough
            res, dead = None, True
            endless += 1
            if endless > 1:
                return
        n += 1
        if n > limit:
            raise AnalysisBroken("too many abstract paths")
        for i in range(len(script), len(ctx.trace)):
            c, k = ctx.trace[i]
            pre = [x for x, _ in ctx.trace[:i]]
            for alt in range(k - 1, c, -1):
                stack.append(pre + [alt])
        if not dead:
            yield ctx, res


# ---- memory ---------------------------------------------------------------
class Cell:
    __slots__ = ("v", "own", "const", "tag", "bits")

    def __init__(self, v=UNINIT):
        self.v = v
        self.own = None
        self.const = False
        self.tag = None
        self.bits = None

    def __repr__(self):
        return "Cell(%r)" % (self.v,)


class Arr:
    """A contiguous sequence of cells."""
    def __init__(self, cells, name=""):
        self.cells = cells
        self.name = name
        self.dead = False
        for i, c in enumerate(cells):
            c.own = (self, i)

    def push(self, cell):
        cell.own = (self, len(self.cells))
        self.cells.append(cell)

    def renum(self):
        for i, c in enumerate(self.cells):
            c.own = (self, i)


class Ptr:
    __slots__ = ("arr", "i")

    def __init__(self, arr, i):
        self.arr, self.i = arr, i

    def __eq__(self, o):
        return isinstance(o, Ptr) and o.arr is self.arr and o.i == self.i

    def __hash__(self):
        return hash((id(self.arr), self.i))

    def __repr__(self):
        return "Ptr(%s+%s)" % (self.arr.name, self.i)


class NullPtr:
    def __repr__(self):
        return "NULL"


NULL = NullPtr()


def addr_of(cell):
    if cell.own is None:
        Arr([cell])
    return Ptr(*cell.own)


class Obj:
    __slots__ = ("rec", "f", "extra")

    def __init__(self, rec):
        self.rec = rec
        self.f = {}
        self.extra = None

    def __repr__(self):
        return "Obj(%s)" % self.rec


class FnRef:
    __slots__ = ("key",)

    def __init__(self, key):
        self.key = key

    def __eq__(self, o):
        return isinstance(o, FnRef) and o.key == self.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return "FnRef(%s)" % self.key


class MemFnRef(FnRef):
    pass


class FieldRef:
    def __init__(self, name, fi):
        self.name, self.fi = name, fi


class NativeFn:
    """A callable supplied by an analysis (oracle matchers, recorders)."""
    def __init__(self, f, name=""):
        self.f = f
        self.name = name

    def copy(self):
        return self


class Bound:
    """result of evaluating a member function designator"""
    def __init__(self, this, key):
        self.this, self.key = this, key
