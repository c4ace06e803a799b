"""Abstract interpreter over the dumped, fully resolved AST. It never executes the analysed program: the
statements are transfer functions on the abstract values of values.py; branches on abstract conditions
split the path (trace partitioning)."""
import sys, threading
import numpy as np
from prog import AnalysisBroken
from values import *

BRK, CNT, RET = 1, 2, 3
STEP_LIMIT = 400000
PEAK = {}           # recursive function -> most activations at one time


class Ambiguous(AnalysisBroken):
    """which instance of a call operator is meant is known only to the (instantiated) caller"""


class Frame:
    __slots__ = ("L", "this", "fn", "ret", "opaque")

    def __init__(self, fn, this):
        self.L = {}
        self.this = this
        self.fn = fn
        self.ret = None
        self.opaque = {}


class Call:
    """What a native model sees of a call."""
    __slots__ = ("I", "fn", "qn", "this", "args", "loc", "t", "T")

    def __init__(self, I, fn, qn, this, args, loc, t, T):
        self.I, self.fn, self.qn, self.this, self.args, self.loc, self.t, self.T = I, fn, qn, this, args, loc, t, T

    def val(self, i):
        return self.I.load(self.args[i])

    def cell(self, i):
        a = self.args[i]
        return a if isinstance(a, Cell) else Cell(a)

    def targ_type(self, i=0):
        """type record of the i-th template argument of the callee's class."""
        r = self.I.prog.recs[self.fn["rec"]]
        return self.I.flat_targs(r)[i]


NATIVES = {}
NATIVE_RECS = {}


def nat(*qns):
    def deco(f):
        for q in qns:
            NATIVES[q] = f
        return f
    return deco


def wrap_int(v, w, s):
    if w >= 128:
        return v
    v &= (1 << w) - 1
    if s and v >> (w - 1):
        v -= 1 << w
    return v


class Interp:
    def __init__(self, prog, ctx=None, natives=None, intercept=None):
        self.prog = prog
        self.ctx = ctx or Ctx()
        self.ctx.interp = self
        self.natives = NATIVES if natives is None else natives
        self.intercept = intercept or {}
        self.globals = {}
        self.reports = []
        self.depth = 0
        self.frame = None
        self.analysed = set()
        self.calls = 0
        self.ev_tab = {n[3:]: getattr(self, n) for n in dir(self) if n.startswith("ev_")}
        self.st_tab = {n[3:]: getattr(self, n) for n in dir(self) if n.startswith("st_")}
        self.hooks = {}
        self.caught = []
        self.active = {}             # function -> activations at this moment

    # ---- reports
    def ub(self, kind, loc, msg):
        self.reports.append(Report(kind, loc, msg, self.ctx.sample()))
        raise PathEnd()

    def note(self, kind, loc, msg):
        self.reports.append(Report(kind, loc, msg, self.ctx.sample()))

    def diverge(self, loc, msg):
        self.reports.append(Report("non-termination", loc, msg, self.ctx.sample()))
        raise Diverged(msg)

    # ---- types
    def ty(self, T, t):
        return T[t]

    def flat_targs(self, r):
        T = r["T"]
        out = []
        for a in r.get("targs", []):
            if "pack" in a:
                for b in a["pack"]:
                    out.append((T, T[b["t"]]) if "t" in b and "v" not in b else (T, b))
            elif "t" in a and "v" not in a:
                out.append((T, T[a["t"]]))
            else:
                out.append((T, a))
        return out

    def fn_targs(self, fn):
        T = fn["T"]
        out = []
        for a in fn.get("targs", []):
            if "pack" in a:
                for b in a["pack"]:
                    out.append((T, T[b["t"]]) if "t" in b and "v" not in b else (T, b))
            elif "t" in a and "v" not in a:
                out.append((T, T[a["t"]]))
            else:
                out.append((T, a))
        return out

    def is_ref(self, ty):
        return ty["k"] in ("ref", "rref")

    # ---- loads
    def load(self, x):
        if isinstance(x, Cell):
            v = x.v
            if v is UNINIT:
                self.ub("uninitialised-read", self.loc, "read of an indeterminate value")
            return v
        return x

    loc = ""

    def copyval(self, v):
        """A value copy of v."""
        if isinstance(v, Obj):
            rec = self.prog.recs.get(v.rec)
            o = Obj(v.rec)
            o.extra = v.extra
            br = (v.extra or {}).get("byref", ())
            for k, c in v.f.items():
                o.f[k] = c if k in br else Cell(self.copyval(c.v))
            return o
        if isinstance(v, Arr):
            return Arr([Cell(self.copyval(c.v)) for c in v.cells], v.name)
        cp = getattr(v, "copy", None)
        if cp is not None and not isinstance(v, (Tab, np.ndarray)):
            return v.copy_value(self) if hasattr(v, "copy_value") else cp()
        return v

    def moveval(self, cell_or_val):
        v = cell_or_val.v if isinstance(cell_or_val, Cell) else cell_or_val
        mv = getattr(v, "move_value", None)
        if mv is not None:
            return mv(self)
        if isinstance(v, Obj):
            o = Obj(v.rec)
            o.extra = v.extra
            br = (v.extra or {}).get("byref", ())
            for k, c in v.f.items():
                o.f[k] = c if k in br else Cell(self.moveval(c))
            return o
        return self.copyval(v)

    # ---- conversions
    def conv(self, v, ty):
        """integral conversion of v to type ty"""
        k = ty["k"]
        if k == "bool":
            return self.to_bool_value(v)
        if k not in ("int", "enum"):
            return v
        w, s = ty.get("w", 32), ty.get("s", True)
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            return wrap_int(v, w, s)
        if isinstance(v, Tab):
            v.norm()
            a = v.arr
            if a.dtype == np.bool_:
                a = a.astype(np.int64)
            if w >= 64:
                if s:
                    return Tab(v.axes, a.astype(np.int64), v.vers)
                return Tab(v.axes, a.astype(np.uint64), v.vers)
            a = a.astype(np.int64) & ((1 << w) - 1)
            if s:
                a = np.where(a >= (1 << (w - 1)), a - (1 << w), a)
            return Tab(v.axes, a, v.vers)
        if isinstance(v, Lin):
            return v
        if isinstance(v, Atom):
            return 1 if self.truth(v) else 0
        if isinstance(v, float):
            return wrap_int(int(v), w, s)
        if hasattr(v, "conv"):
            return v.conv(self, ty)
        if isinstance(v, Ptr) or v is NULL:
            return v
        raise AnalysisBroken("integral conversion of %r" % (v,))

    def to_bool_value(self, v):
        if isinstance(v, (bool, int)):
            return bool(v)
        if isinstance(v, Tab):
            v.norm()
            return Tab(v.axes, v.arr != 0, v.vers)
        if isinstance(v, Atom):
            return v
        if v is NULL:
            return False
        if isinstance(v, (Ptr, FnRef, NativeFn)):
            return True
        if isinstance(v, Lin):
            return self.rel("!=", v, 0)
        if isinstance(v, float):
            return bool(v)
        if hasattr(v, "to_bool"):
            return v.to_bool(self)
        if isinstance(v, Obj):
            return True
        raise AnalysisBroken("boolean conversion of %r at %s" % (v, self.loc))

    def truth(self, v):
        """Decide a condition, splitting the path when it is abstract."""
        v = self.to_bool_value(v)
        if isinstance(v, bool):
            return v
        if isinstance(v, Tab):
            return self.ctx.branch_tab(v)
        if isinstance(v, Atom):
            r = self.decide(v.key)
            return (not r) if v.neg else r
        raise AnalysisBroken("condition %r" % (v,))

    def decide(self, key):
        return self.ctx.fact(key)

    def is_true_maybe(self, v):
        """for asserts: (can be true, can be false)"""
        v = self.to_bool_value(v)
        if isinstance(v, bool):
            return v, not v
        if isinstance(v, Tab):
            c = v.const()
            if c is not None:
                return bool(c), not c
            return (self.ctx.feasible(Tab(v.axes, v.arr != 0, v.vers)),
                    self.ctx.feasible(Tab(v.axes, v.arr == 0, v.vers)))
        return True, True

    def concretize(self, v):
        """Splits the path over every value a table may have; returns an int."""
        if isinstance(v, Tab):
            c = v.const()
            while c is None:
                vals = self.ctx.values(v)
                if len(vals) > 4096:
                    raise AnalysisBroken("too many values to split on at %s" % self.loc)
                if not len(vals):
                    raise PathEnd()
                x = int(vals[0])
                if len(vals) == 1 or self.ctx.branch_tab(Tab(v.axes, v.arr == x, v.vers)):
                    return x
                v.norm()
                c = v.const()
            return c
        if isinstance(v, Atom):
            return 1 if self.truth(v) else 0
        return v

    # ---- arithmetic
    def rel(self, op, a, b):
        if isinstance(a, Atom):
            a = self.truth(a)
        if isinstance(b, Atom):
            b = self.truth(b)
        if isinstance(a, Lin) or isinstance(b, Lin):
            return self.rel_lin(op, a, b)
        if isinstance(a, (int, bool, float)) and isinstance(b, (int, bool, float)):
            return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
        if isinstance(a, Tab) or isinstance(b, Tab):
            if isinstance(a, (Tab, int, bool)) and isinstance(b, (Tab, int, bool)):
                axes, (x, y) = self._tabs(a, b)
                f = {"<": np.less, ">": np.greater, "<=": np.less_equal, ">=": np.greater_equal, "==": np.equal,
                     "!=": np.not_equal}[op]
                return Tab(axes, f(x, y))
        if hasattr(a, "rel"):
            return a.rel(self, op, b)
        if hasattr(b, "rel"):
            sw = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}[op]
            return b.rel(self, sw, a)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.arr is not b.arr:
                if op in ("==", "!="):
                    return op == "!="
                self.ub("pointer-compare", self.loc, "relational comparison of pointers into different objects")
            return self.rel(op, a.i, b.i)
        if (a is NULL or b is NULL) and op in ("==", "!="):
            return (a is b) == (op == "==")
        if isinstance(a, (FnRef, NativeFn)) or isinstance(b, (FnRef, NativeFn)):
            return (a == b) == (op == "==")
        raise AnalysisBroken("comparison %s of %r and %r at %s" % (op, a, b, self.loc))

    def rel_lin(self, op, a, b):
        d = Lin.of(a).add(Lin.of(b), -1)
        lo, hi = None, None
        if all(k > 0 for _, k in d.terms):
            lo = d.c
        if all(k < 0 for _, k in d.terms):
            hi = d.c
        if lo is not None and hi is not None:
            return {"<": d.c < 0, ">": d.c > 0, "<=": d.c <= 0, ">=": d.c >= 0, "==": d.c == 0, "!=": d.c != 0}[op]
        if op == "<":
            if lo is not None and lo >= 0: return False
            if hi is not None and hi < 0: return True
        if op == ">=":
            if lo is not None and lo >= 0: return True
            if hi is not None and hi < 0: return False
        if op == ">":
            if lo is not None and lo > 0: return True
            if hi is not None and hi <= 0: return False
        if op == "<=":
            if lo is not None and lo > 0: return False
            if hi is not None and hi <= 0: return True
        if op in ("==", "!="):
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return op == "!="
        # canonical atoms: (d == 0), (d <= 0)
        if op in ("==", "!="):
            k = d if d.terms and d.terms[0][1] > 0 else d.scale(-1)
            return Atom(("lin==0", k.terms, k.c), op == "!=")
        if op in ("<=", ">"):
            return self.lin_le0(d, op == ">")
        return self.lin_le0(d.scale(-1), op == "<")          # d >= 0  <=>  -d <= 0

    @staticmethod
    def lin_le0(d, neg):
        """d <= 0, where every symbol is >= 0: X <= 0 is X == 0 and X >= 1 is its negation (one canonical fact)."""
        if d.c == 0 and all(k > 0 for _, k in d.terms):
            return Atom(("lin==0", d.terms, 0), neg)
        if d.c == 1 and all(k < 0 for _, k in d.terms):
            return Atom(("lin==0", tuple((n, -k) for n, k in d.terms), 0), not neg)
        return Atom(("lin<=0", d.terms, d.c), neg)

    def _tabs(self, a, b):
        ts = [t for t in (a, b) if isinstance(t, Tab)]
        axes, arrs = align(ts)
        it = iter(arrs)
        x = next(it) if isinstance(a, Tab) else self._c(a, b)
        y = next(it) if isinstance(b, Tab) else self._c(b, a)
        if x.dtype == np.bool_:
            x = x.astype(np.int64)
        if y.dtype == np.bool_:
            y = y.astype(np.int64)
        if x.dtype != y.dtype:
            # mixed 64-bit: values are already converted to a common type by the program
            if x.dtype == np.uint64 and (y >= 0).all():
                y = y.astype(np.uint64)
            elif y.dtype == np.uint64 and (x >= 0).all():
                x = x.astype(np.uint64)
        return axes, (x, y)

    def _c(self, v, other):
        v = int(v)
        if other.arr.dtype == np.uint64 or v >= 1 << 63:
            return np.array(v & ((1 << 64) - 1), dtype=np.uint64)
        return np.array(v, dtype=np.int64)

    def arith(self, op, a, b, ty, loc=None, checked=False):
        k = ty["k"]
        if k == "bool":
            w, s = 32, True
        elif k in ("int", "enum"):
            w, s = ty["w"], ty["s"]
        elif k == "float":
            if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                return {"+": a + b, "-": a - b, "*": a * b}[op] if op != "/" else (a / b if b else 0.0)
            raise AnalysisBroken("floating arithmetic on %r at %s" % (a, self.loc))
        else:
            w, s = 64, True
        if isinstance(a, Atom):
            a = int(self.truth(a))
        if isinstance(b, Atom):
            b = int(self.truth(b))
        if hasattr(a, "arith"):
            return a.arith(self, op, b, ty, False)
        if hasattr(b, "arith"):
            return b.arith(self, op, a, ty, True)
        if isinstance(a, Lin) or isinstance(b, Lin):
            if op == "+":
                return Lin.of(a).add(Lin.of(b)).simp()
            if op == "-":
                return Lin.of(a).add(Lin.of(b), -1).simp()
            if op == "*" and isinstance(b, int):
                return Lin.of(a).scale(b).simp()
            if op == "*" and isinstance(a, int):
                return Lin.of(b).scale(a).simp()
            raise AnalysisBroken("length arithmetic %s at %s" % (op, self.loc))
        if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
            a, b = int(a), int(b)
            if op in ("/", "%"):
                if b == 0:
                    self.ub("division-by-zero", self.loc, "division by zero")
                q = abs(a) // abs(b)
                if (a < 0) != (b < 0):
                    q = -q
                r = q if op == "/" else a - q * b
            elif op in ("<<", ">>"):
                if b < 0 or b >= w:
                    self.ub("shift", self.loc, "shift by %d of a %d-bit value" % (b, w))
                r = a << b if op == "<<" else a >> b
                return wrap_int(r, w, s)
            else:
                r = {"+": a + b, "-": a - b, "*": a * b, "&": a & b, "|": a | b, "^": a ^ b}[op] if op in "+-*&|^" else None
            if s and not (-(1 << (w - 1)) <= r < (1 << (w - 1))):
                self.ub("signed-overflow", self.loc, "signed overflow in %s" % op)
            return wrap_int(r, w, s)
        if isinstance(a, (Tab, int)) and isinstance(b, (Tab, int)):
            axes, (x, y) = self._tabs(a, b)
            if w == 64 and not s:
                x, y = x.astype(np.uint64), y.astype(np.uint64)
            if op in ("/", "%"):
                bad = np.broadcast_to(y == 0, np.broadcast_shapes(x.shape, y.shape))
                if bad.any():
                    if not checked:
                        if self.ctx.branch_tab(Tab(axes, bad)):
                            self.ub("division-by-zero", self.loc, "division by zero")
                        return self.arith(op, a, b, ty, loc, True)
                    y = np.where(y == 0, y.dtype.type(1), y)        # in combinations that are not of this path
                if x.dtype == np.uint64 or y.dtype == np.uint64 or ((x >= 0).all() and (y > 0).all()):
                    r = x // y if op == "/" else x % y
                else:
                    q = (np.abs(x) // np.abs(y)) * np.sign(x) * np.sign(y)
                    r = q if op == "/" else x - q * y
            elif op in ("<<", ">>"):
                bad = np.broadcast_to((y < 0) | (y >= w), np.broadcast_shapes(x.shape, y.shape))
                if bad.any():
                    if not checked:
                        if self.ctx.branch_tab(Tab(axes, bad)):
                            self.ub("shift", self.loc, "shift amount out of range")
                        return self.arith(op, a, b, ty, loc, True)
                    y = np.where((y < 0) | (y >= w), y.dtype.type(0), y)
                if x.dtype == np.uint64:
                    y = y.astype(np.uint64)
                r = np.left_shift(x, y) if op == "<<" else np.right_shift(x, y)
            else:
                with np.errstate(over="ignore"):
                    r = {"+": np.add, "-": np.subtract, "*": np.multiply, "&": np.bitwise_and, "|": np.bitwise_or,
                         "^": np.bitwise_xor}[op](x, y)
            if w < 64:
                if r.dtype == np.uint64:
                    r = r.astype(np.int64)
                if s and op not in ("<<", ">>"):
                    bad = (r < -(1 << (w - 1))) | (r >= (1 << (w - 1)))
                    if bad.any() and not checked:
                        t = Tab(axes, np.broadcast_to(bad, r.shape))
                        if self.ctx.branch_tab(t):
                            self.ub("signed-overflow", self.loc, "signed overflow in %s" % op)
                        return self.arith(op, a, b, ty, loc, True)
                r = r & ((1 << w) - 1)
                if s:
                    r = np.where(r >= (1 << (w - 1)), r - (1 << w), r)
            return Tab(axes, r)
        raise AnalysisBroken("arithmetic %r %s %r at %s" % (a, op, b, self.loc))

    # ---- pointers
    def ptr_add(self, p, n):
        if hasattr(p, "ptr_add"):
            return p.ptr_add(self, n)
        n = self.concretize(n)
        if p is NULL:
            if n == 0:
                return NULL
            self.ub("null-arith", self.loc, "arithmetic on a null pointer")
        if isinstance(n, Lin) or isinstance(p.i, Lin):
            return Ptr(p.arr, self.arith("+", p.i, n, {"k": "int", "w": 64, "s": True}))
        if not isinstance(n, int):
            raise AnalysisBroken("pointer arithmetic with %r" % (n,))
        i = p.i + n
        ln = self.arr_len(p.arr)
        if ln is not None and isinstance(ln, int) and not (0 <= i <= ln):
            self.ub("out-of-bounds", self.loc, "iterator/pointer moved outside its range")
        return Ptr(p.arr, i)

    def arr_len(self, arr):
        if hasattr(arr, "length"):
            return arr.length(self)
        return len(arr.cells)

    def deref(self, p, loc=None):
        if p is NULL or p is None:
            self.ub("null-deref", self.loc, "null pointer dereference")
        if hasattr(p, "deref"):
            return p.deref(self)
        if not isinstance(p, Ptr):
            raise AnalysisBroken("dereference of %r at %s" % (p, self.loc))
        if p.arr.dead:
            self.ub("dangling", self.loc, "dereference of an invalidated iterator or pointer")
        if hasattr(p.arr, "at"):
            return p.arr.at(self, p.i)
        if not isinstance(p.i, int):
            raise AnalysisBroken("dereference at symbolic offset")
        if not (0 <= p.i < len(p.arr.cells)):
            self.ub("out-of-bounds", self.loc, "dereference outside the sequence (index %d of %d)" % (p.i, len(p.arr.cells)))
        return p.arr.cells[p.i]

    # ---- objects
    def native_rec(self, rec):
        return NATIVE_RECS.get(rec["qn"])

    def default_value(self, T, ty, zero=False):
        k = ty["k"]
        if k == "rec":
            rec = self.prog.recs.get(ty["rec"])
            if rec is None:
                raise AnalysisBroken("unknown record " + ty["rec"])
            n = self.native_rec(rec)
            if n is not None:
                return n(self, rec, T)
            return self.default_obj(rec, zero)
        if k == "arr":
            et = T[ty["of"]]
            return Arr([Cell(self.default_value(T, et, zero)) for _ in range(ty["len"])])
        if zero:
            if k == "ptr" or k == "nullptr":
                return NULL
            if k == "bool":
                return False
            if k == "float":
                return 0.0
            return 0
        return UNINIT

    def user_default_ctor(self, rec):
        c = self.prog.__dict__.setdefault("_udc", {})
        if rec["key"] not in c:
            r = [f for f in self.prog.fns.values() if f.get("rec") == rec["key"] and f.get("ctor") and
                 f.get("spec") == "default" and f.get("body") is not None and not f.get("defaulted") and not f.get("implicit")]
            c[rec["key"]] = r[0] if r else None
        return c[rec["key"]]

    def default_obj(self, rec, zero=False, run_ctor=True):
        if rec.get("incomplete"):
            raise AnalysisBroken("incomplete record " + rec["qn"])
        if run_ctor:
            c = self.user_default_ctor(rec)
            if c is not None:
                o = Obj(rec["key"])
                cell = Cell(o)
                self.call_fn(c, cell, [], self.loc)
                return cell.v
        o = Obj(rec["key"])
        self.init_fields(o, rec, zero)
        return o

    def init_fields(self, o, rec, zero=False):
        T = rec["T"]
        for b in rec["bases"]:
            bt = T[b]
            br = self.prog.recs[bt["rec"]]
            if self.native_rec(br) is not None or br.get("incomplete"):
                raise AnalysisBroken("record %s derives from a modelled class" % rec["qn"])
            sub = self.default_obj(br, zero)
            o.f.update(sub.f)
        for f in rec["fields"]:
            if "init" in f:
                cell = Cell()
                o.f[(rec["key"], f["fi"])] = cell
                fr = Frame(None, Cell(o))
                cell.v = self.init_value(fr, f["init"], T, T[f["t"]])
                bt = self.bits_of(rec["key"], f["fi"])
                if bt:
                    cell.v = self.conv(cell.v, bt)
            else:
                o.f[(rec["key"], f["fi"])] = Cell(self.default_value(T, T[f["t"]], zero))

    def fld(self, v, recqn, name):
        """Cell of the named field of an object value."""
        for (rk, fi), c in v.f.items():
            rec = self.prog.recs[rk]
            if rec["qn"] == recqn and rec["fields"][fi]["name"] == name:
                return c
        raise AnalysisBroken("no field %s::%s" % (recqn, name))

    # ---- calls
    def call_key(self, key, this, args, loc, t=None, T=None):
        fn = self.prog.fns.get(key)
        if fn is None:
            raise AnalysisBroken("call to unknown function " + key)
        return self.call_fn(fn, this, args, loc, t, T)

    def call_fn(self, fn, this, args, loc, t=None, T=None):
        qn = fn["qn"]
        self.calls += 1
        h = self.intercept.get(qn) or self.intercept.get(fn["key"])
        if h is not None:
            r = h(Call(self, fn, qn, this, args, loc, t, T))
            if r is not NotImplemented:
                return r
        h = self.natives.get(qn)
        if h is not None:
            try:
                r = h(Call(self, fn, qn, this, args, loc, t, T))
            except Ambiguous:
                if fn.get("body") is None:
                    raise
                r = NotImplemented          # interpret the definition, where overload resolution has chosen
            if r is not NotImplemented:
                return r
        if fn.get("body") is None and not fn.get("inits"):
            sp = fn.get("spec")
            if fn.get("dtor"):
                return None
            if sp and (fn.get("defaulted") or fn.get("implicit") or fn.get("trivial")):
                return self.special(fn, sp, this, args)
            h = self.natives.get(("extern", qn))
            if h is not None:
                return h(Call(self, fn, qn, this, args, loc, t, T))
            raise AnalysisBroken("no body and no model for %s (called at %s)" % (qn, loc))
        if fn.get("dtor"):
            return None
        if fn.get("spec") in ("copy", "move", "copyassign", "moveassign") and (fn.get("implicit") or fn.get("defaulted")):
            return self.special(fn, fn["spec"], this, args)
        return self.run_body(fn, this, args, loc)

    def special(self, fn, sp, this, args):
        if sp == "default":
            rec = self.prog.recs[fn["rec"]]
            this.v = self.default_obj(rec, run_ctor=False) if not isinstance(this.v, Obj) or not this.v.f else this.v
            return None
        src = args[0]
        v = self.moveval(src) if sp in ("move", "moveassign") else self.copyval(self.load(src))
        if sp in ("copy", "move"):
            if isinstance(this.v, Obj) and isinstance(v, Obj) and this.v.rec != v.rec:
                for k, c in v.f.items():
                    if k[0] == fn["rec"] or k in this.v.f:
                        this.v.f[k] = c
                return None
            this.v = v
            return None
        self.assign_obj(this, v, fn["rec"])
        return this

    def assign_obj(self, cell, v, rec=None):
        """Memberwise assignment keeping the identity of the member cells."""
        if isinstance(cell.v, Obj) and isinstance(v, Obj):
            if cell.v.extra and "byref" in cell.v.extra:
                raise AnalysisBroken("assignment to an object holding references")
            for k, c in v.f.items():
                if k in cell.v.f:
                    self.assign_obj(cell.v.f[k], c.v)
                else:
                    cell.v.f[k] = c
        elif hasattr(cell.v, "assign_from"):
            cell.v.assign_from(self, v)
        else:
            cell.v = v

    def bind_param(self, T, pty, a):
        if self.is_ref(pty):
            return a if isinstance(a, Cell) else Cell(a)
        if isinstance(a, Cell):
            return Cell(self.copyval(self.load(a)))
        return Cell(a)

    def run_body(self, fn, this, args, loc):
        key = fn["key"]
        self.analysed.add(key)
        self.depth += 1
        n = self.active.get(key, 0) + 1
        self.active[key] = n
        if n > 1 and n > PEAK.get(key, 1):
            PEAK[key] = n
        if self.depth > 600:
            self.depth = 0
            self.diverge(fn.get("loc", loc), "recursion deeper than 600 calls")
        T = fn["T"]
        fr = Frame(fn, this)
        ps = fn["params"]
        if len(args) < len(ps) or (len(args) > len(ps) and not fn.get("variadic")):
            raise AnalysisBroken("argument count mismatch calling %s" % fn["qn"])
        for p, a in zip(ps, args):
            fr.L[p["id"]] = self.bind_param(T, T[p["t"]], a)
        rec = self.prog.recs.get(fn["rec"]) if fn.get("rec") else None
        if rec is not None and rec.get("lambda") and this is not None and fn["name"] == "operator()":
            o = self.load(this)
            if isinstance(o, Obj):
                for c in rec["captures"]:
                    if c["kind"] in ("this", "starthis"):
                        tc = o.f[(rec["key"], c["fi"])]
                        fr.this = self.deref(tc.v) if c["kind"] == "this" else tc
                    else:
                        fr.L[c["var"]] = o.f[(rec["key"], c["fi"])]
        saved = self.frame
        self.frame = fr
        try:
            if fn.get("ctor"):
                self.run_inits(fn, fr, rec)
            try:
                if fn.get("body") is not None:
                    self.exec(fn["body"], fr, T)
            finally:
                pass
            if fn.get("ctor"):
                return None
            r = fr.ret
            rty = T[fn["ret"]]
            if r is None and rty["k"] != "void":
                if fn.get("noreturn"):
                    raise PathEnd()
                self.ub("missing-return", loc, "flowing off the end of %s" % fn["qn"])
            return r
        except AbsThrow as e:
            if fn.get("nothrow"):
                self.ub("terminate", e.loc, "%s leaves the noexcept function %s" % (self.thrown(e), fn["qn"]))
            raise
        finally:
            self.frame = saved
            self.depth -= 1
            self.active[key] = n - 1

    def run_inits(self, fn, fr, rec):
        T = fn["T"]
        this = fr.this
        if not isinstance(this.v, Obj):
            this.v = Obj(rec["key"])
        o = this.v
        done = set()
        for i in fn.get("inits", []):
            if i.get("delegating"):
                e = i["e"]
                while e["k"] in ("Mat", "Cast"):
                    e = e["e"]
                self.construct_into(fr, e, T, this)
                return
            if "base" in i:
                bt = T[i["base"]]
                e = i["e"]
                if e["k"] == "InheritedCtor":
                    raise AnalysisBroken("inherited constructor")
                if e["k"] == "Construct":
                    br = self.prog.recs[bt["rec"]]
                    if not br["fields"] and not br["bases"] and not e["args"]:
                        continue
                    self.construct_into(fr, e, T, this)
                else:
                    v = self.ev(e, fr, T)
                    if isinstance(v, Obj):
                        o.f.update(v.f)
                continue
            if i.get("indirect"):
                raise AnalysisBroken("indirect member initialiser")
            f = rec["fields"][i["fi"]]
            fty = rec["T"][f["t"]]
            if self.is_ref(fty):
                c = self.ev(i["e"], fr, T)
                o.f[(rec["key"], i["fi"])] = c if isinstance(c, Cell) else Cell(c)
                o.extra = dict(o.extra or {})
                o.extra.setdefault("byref", set()).add((rec["key"], i["fi"]))
            else:
                cell = Cell()
                o.f[(rec["key"], i["fi"])] = cell
                cell.v = self.init_value(fr, i["e"], T, fty)
                bt = self.bits_of(rec["key"], i["fi"])
                if bt:
                    cell.v = self.conv(cell.v, bt)
            done.add(i["fi"])
        for f in rec["fields"]:
            if f["fi"] not in done and (rec["key"], f["fi"]) not in o.f:
                o.f[(rec["key"], f["fi"])] = Cell(self.default_value(rec["T"], rec["T"][f["t"]]))

    def init_value(self, fr, e, T, ty):
        """Value of an initialiser for a non-reference variable/member."""
        saved = self.frame
        self.frame = fr
        try:
            v = self.ev(e, fr, T)
        finally:
            self.frame = saved
        if isinstance(v, Cell):
            v = self.copyval(self.load(v))
        return v

    def construct_into(self, fr, e, T, cell):
        fn = self.prog.fns[e["fn"]]
        args = [self.ev(a, fr, T) for a in e["args"]]
        self.loc = e["l"]
        self.call_fn(fn, cell, args, e["l"], e["t"], T)

    def invoke(self, f, args, loc=None):
        """std::invoke on an abstract callable."""
        loc = loc or self.loc
        if isinstance(f, Cell):
            cell = f
            f = self.load(f)
        else:
            cell = None
        if isinstance(f, NativeFn):
            return f.f(self, args)
        if isinstance(f, MemFnRef):
            obj = args[0]
            if isinstance(self.load(obj), Ptr):
                obj = self.deref(self.load(obj))
            return self.call_key(f.key, obj if isinstance(obj, Cell) else Cell(obj), args[1:], loc)
        if isinstance(f, FnRef):
            return self.call_key(f.key, None, args, loc)
        if isinstance(f, FieldRef):
            obj = args[0]
            v = self.load(obj)
            if isinstance(v, Ptr):
                v = self.deref(v).v
            for (rk, fi), c in v.f.items():
                if fi == f.fi and self.prog.recs[rk]["fields"][fi]["name"] == f.name:
                    return c
            raise AnalysisBroken("member pointer")
        if isinstance(f, Ptr):
            return self.invoke(self.deref(f), args, loc)
        if hasattr(f, "invoke_value"):
            return f.invoke_value(self, args, loc)
        if isinstance(f, Obj):
            rec = self.prog.recs[f.rec]
            if rec.get("callop"):
                return self.call_key(rec["callop"], cell or Cell(f), args, loc)
            ops = [g for g in self.prog.named("operator()") if g.get("rec") == f.rec]
            if len(ops) == 1:
                return self.call_fn(ops[0], cell or Cell(f), args, loc)
            # lambdas with a generic call operator: choose the instance by arity
            ops = [g for g in ops if len(g["params"]) == len(args) and g.get("body") is not None]
            if len(ops) == 1:
                return self.call_fn(ops[0], cell or Cell(f), args, loc)
            if rec["qn"] == "std::identity" and len(args) == 1:
                return args[0]
            raise Ambiguous("call operator of %s not unique" % rec["qn"])
        raise AnalysisBroken("call of %r at %s" % (f, loc))

    # ---- statements
    def exec(self, s, fr, T):
        self.ctx.steps += 1
        if self.ctx.steps > STEP_LIMIT:
            self.diverge(self.here(s), "no end reached within %d abstract steps" % STEP_LIMIT)
        return self.st_tab[s["k"]](s, fr, T)

    def here(self, s):
        """the nearest repository location of the statement being interpreted"""
        return s.get("l") or self.loc

    def st_Block(self, s, fr, T):
        for c in s["s"]:
            r = self.exec(c, fr, T)
            if r:
                return r
        return 0

    def st_Null(self, s, fr, T):
        return 0

    def st_Expr(self, s, fr, T):
        self.ev(s["e"], fr, T)
        return 0

    def declare(self, v, fr, T):
        if "static" in v:
            fr.L[v["id"]] = self.global_cell(v["static"])
            return fr.L[v["id"]]
        ty = T[v["t"]]
        if "init" in v and v["init"] is not None:
            if self.is_ref(ty):
                x = self.ev(v["init"], fr, T)
                cell = x if isinstance(x, Cell) else Cell(x)
            else:
                cell = Cell(self.init_value(fr, v["init"], T, ty))
        else:
            cell = Cell(self.default_value(T, ty))
        fr.L[v["id"]] = cell
        for b in v.get("bindings", ()):
            if "hold" in b:
                self.declare(b["hold"], fr, T)
            elif "e" in b:
                c = self.ev(b["e"], fr, T)
                fr.L[("b", b["id"])] = c if isinstance(c, Cell) else Cell(c)
        return cell

    def st_Decl(self, s, fr, T):
        for v in s["vars"]:
            self.declare(v, fr, T)
        return 0

    def cond(self, e, fr, T):
        v = self.ev(e, fr, T)
        if isinstance(v, Cell):
            v = self.load(v)
        self.loc = e.get("l", self.loc)
        return self.truth(v)

    def st_If(self, s, fr, T):
        if "init" in s:
            self.exec(s["init"], fr, T)
        if "cv" in s:
            self.declare(s["cv"], fr, T)
        if self.cond(s["c"], fr, T):
            return self.exec(s["t"], fr, T)
        if "f" in s:
            return self.exec(s["f"], fr, T)
        return 0

    def loop(self, s, fr, T, inc=None, first=True):
        h = self.hooks.get("loop")
        while True:
            self.ctx.steps += 1
            if self.ctx.steps > STEP_LIMIT:
                self.diverge(self.here(s), "loop does not end within %d abstract steps" % STEP_LIMIT)
            if h:
                h(self, s, fr)
            if first:
                if "cv" in s:
                    self.declare(s["cv"], fr, T)
                if s.get("c") is not None and not self.cond(s["c"], fr, T):
                    return 0
            if s["k"] == "RangeFor":
                self.exec(s["var"], fr, T)
            r = self.exec(s["b"], fr, T)
            if r == BRK:
                return 0
            if r == RET:
                return r
            if not first:
                if not self.cond(s["c"], fr, T):
                    return 0
            if inc is not None:
                self.ev(inc, fr, T)

    def st_While(self, s, fr, T):
        return self.loop(s, fr, T)

    def st_Do(self, s, fr, T):
        return self.loop(s, fr, T, first=False)

    def st_For(self, s, fr, T):
        if "init" in s:
            self.exec(s["init"], fr, T)
        return self.loop(s, fr, T, s.get("inc"))

    def st_RangeFor(self, s, fr, T):
        if "init" in s:
            self.exec(s["init"], fr, T)
        self.exec(s["range"], fr, T)
        self.exec(s["begin"], fr, T)
        self.exec(s["end"], fr, T)
        return self.loop(s, fr, T, s["inc"])

    def st_Return(self, s, fr, T):
        if "e" in s and s["e"] is not None:
            r = self.ev(s["e"], fr, T)
            if fr.fn is not None:
                rty = fr.fn["T"][fr.fn["ret"]]
                if rty["k"] == "void":
                    r = None
                elif not self.is_ref(rty) and isinstance(r, Cell):
                    r = self.copyval(self.load(r))
                elif self.is_ref(rty) and not isinstance(r, Cell):
                    r = Cell(r)
            fr.ret = r
        return RET

    def st_Break(self, s, fr, T):
        return BRK

    def st_Continue(self, s, fr, T):
        return CNT

    def st_Switch(self, s, fr, T):
        if "init" in s:
            self.exec(s["init"], fr, T)
        if "cv" in s:
            self.declare(s["cv"], fr, T)
        v = self.load(self.ev(s["c"], fr, T))
        self.loc = s["l"]
        body = s["b"]
        stmts = body["s"] if body["k"] == "Block" else [body]
        start = None
        default = None
        # find the matching label (possibly nested directly)
        flat = []
        for i, st in enumerate(stmts):
            x = st
            while x["k"] in ("Case", "Default"):
                flat.append((i, x))
                x = x["s"]
        for i, x in flat:
            if x["k"] == "Default":
                default = i
                continue
            cv = int(x["v"]["v"]) if x["v"]["k"] == "Int" else self.load(self.ev(x["v"], fr, T))
            if "v2" in x:
                hi = int(x["v2"]["v"])
                c = self.truth(self.rel(">=", v, cv)) and self.truth(self.rel("<=", v, hi))
            else:
                c = self.truth(self.rel("==", v, cv))
            if c:
                start = i
                break
        if start is None:
            start = default
        if start is None:
            return 0
        for st in stmts[start:]:
            x = st
            while x["k"] in ("Case", "Default"):
                x = x["s"]
            r = self.exec(x, fr, T)
            if r == BRK:
                return 0
            if r:
                return r
        return 0

    def st_Case(self, s, fr, T):
        return self.exec(s["s"], fr, T)

    st_Default = st_Case
    st_Label = st_Case

    def st_Try(self, s, fr, T):
        try:
            return self.exec(s["b"], fr, T)
        except AbsThrow as e:
            for h in s["h"]:
                if "var" in h and not self.catches(h["var"], T, e.value):
                    continue
                if "var" in h:
                    fr.L[h["var"]["id"]] = e.value if isinstance(e.value, Cell) else Cell(e.value)
                self.caught.append(e)
                try:
                    return self.exec(h["b"], fr, T)
                finally:
                    self.caught.pop()
            raise

    def thrown(self, e):
        v = self.load(e.value) if isinstance(e.value, Cell) else e.value
        if isinstance(v, Obj):
            v = self.prog.recs[v.rec]["qn"]
        return "an exception (%s)" % v if isinstance(v, str) else "an exception"

    def catches(self, var, T, v):
        """Does a handler of this type take the exception v (an object, or the name of a standard exception or throw helper)?"""
        ty = T[var["t"]]
        if ty["k"] in ("ref", "rref"):
            ty = T[ty["to"]]
        want = self.prog.recs[ty["rec"]]["qn"] if ty.get("k") == "rec" else None
        v = self.load(v) if isinstance(v, Cell) else v
        if isinstance(v, Obj):
            todo = [v.rec]
            while todo:
                r = self.prog.recs[todo.pop()]
                if r["qn"] == want:
                    return True
                todo += [r["T"][b]["rec"] for b in r["bases"]]
            return False
        if isinstance(v, str):
            n = v.split("::")[-1].replace("__throw_", "").replace("_fmt", "")
            logic = ("logic_error", "out_of_range", "length_error", "invalid_argument", "domain_error")
            fam = ["std::exception", "std::" + n]
            if n in logic:
                fam.append("std::logic_error")
            elif n.startswith("bad_"):
                pass
            else:
                fam.append("std::runtime_error")
            return want in fam
        return False

    def st_Goto(self, s, fr, T):
        raise AnalysisBroken("goto at " + s["l"])

    def st_Unsupported(self, s, fr, T):
        raise AnalysisBroken("statement %s at %s" % (s["cls"], s.get("l")))

    # ---- expressions
    def ev(self, e, fr, T):
        l = e.get("l")
        if l:
            self.loc = l
        return self.ev_tab[e["k"]](e, fr, T)

    def rv(self, e, fr, T):
        v = self.ev(e, fr, T)
        return self.load(v) if isinstance(v, Cell) else v

    def ev_Int(self, e, fr, T):
        ty = T[e["t"]]
        v = int(e["v"])
        if ty["k"] == "bool":
            return bool(v)
        return v

    def ev_Float(self, e, fr, T):
        return e["v"]

    def ev_Null(self, e, fr, T):
        return NULL

    def ev_Str(self, e, fr, T):
        # one array object per literal occurrence
        key = ("str", id(e))
        c = self.globals.get(key)
        if c is None:
            c = Cell(Arr([Cell(x) for x in e["v"]] + [Cell(0)], "literal"))
            c.tag = "literal"
            self.globals[key] = c
        return c

    def ev_Local(self, e, fr, T):
        c = fr.L.get(e["v"])
        if c is None:
            if "const" in e:
                return Cell(int(e["const"]))
            raise AnalysisBroken("local %s unknown at %s" % (e.get("n"), e["l"]))
        return c

    def ev_Binding(self, e, fr, T):
        return fr.L[("b", e["v"])]

    def global_cell(self, key):
        c = self.globals.get(key)
        if c is None:
            v = self.prog.vars.get(key)
            if v is None:
                raise AnalysisBroken("unknown variable " + key)
            h = self.natives.get(("var", v["qn"]))
            if h is not None:
                c = h(self, v)
                self.globals[key] = c
                return c
            if "init" in v:
                c = Cell()
                self.globals[key] = c
                fr = Frame(None, None)
                ty = v["T"][v["t"]]
                x = self.ev(v["init"], fr, v["T"])
                if self.is_ref(ty):
                    c = x if isinstance(x, Cell) else Cell(x)
                    self.globals[key] = c
                else:
                    c.v = self.copyval(self.load(x)) if isinstance(x, Cell) else x
            else:
                c = Cell(self.default_value(v["T"], v["T"][v["t"]], True))
                self.globals[key] = c
        return c

    def ev_Global(self, e, fr, T):
        return self.global_cell(e["v"])

    def ev_Fn(self, e, fr, T):
        return FnRef(e["fn"])

    def ev_MemPtr(self, e, fr, T):
        return MemFnRef(e["fn"])

    def ev_MemPtrField(self, e, fr, T):
        return FieldRef(e["f"], e["fi"])

    def ev_This(self, e, fr, T):
        return addr_of(fr.this)

    def ev_Member(self, e, fr, T):
        b = self.ev(e["b"], fr, T)
        if e.get("arrow"):
            b = self.deref(self.load(b))
        v = b.v if isinstance(b, Cell) else b
        if hasattr(v, "member"):
            return v.member(self, e)
        if not isinstance(v, Obj):
            raise AnalysisBroken("member %s of %r at %s" % (e["f"], v, e["l"]))
        k = (e["frec"], e["fi"])
        c = v.f.get(k)
        if c is None:
            rec = self.prog.recs[e["frec"]]
            f = rec["fields"][e["fi"]]
            c = Cell(self.default_value(rec["T"], rec["T"][f["t"]]))
            v.f[k] = c
        if c.bits is None:
            c.bits = self.bits_of(e["frec"], e["fi"]) or ()
        return c

    def bits_of(self, rk, fi):
        """(width, signed) of a bit-field that is not a bool, else None"""
        rec = self.prog.recs[rk]
        f = rec["fields"][fi]
        if "bits" not in f:
            return None
        t = rec["T"][f["t"]]
        return {"k": "int", "w": f["bits"], "s": t.get("s", False)} if t["k"] in ("int", "enum") else None

    def ev_MCall(self, e, fr, T):
        obj = self.ev(e["obj"], fr, T)
        if e.get("arrow"):
            obj = self.deref(self.load(obj))
        elif not isinstance(obj, Cell):
            if isinstance(obj, (Ptr,)) or hasattr(obj, "deref"):
                ot = T[e["obj"]["t"]]
                obj = self.deref(obj) if ot["k"] == "ptr" else Cell(obj)
            else:
                obj = Cell(obj)
        key = e["fn"]
        if e.get("virtual"):
            key = self.resolve_virtual(key, obj)
        fn = self.prog.fns.get(key)
        if fn is None:
            raise AnalysisBroken("method " + key)
        args = [self.ev(a, fr, T) for a in e["args"]]
        self.loc = e["l"]
        return self.fix_lv(self.call_fn(fn, obj, args, e["l"], e["t"], T), e)

    def resolve_virtual(self, key, obj):
        v = obj.v
        if not isinstance(v, Obj):
            return key
        name = self.prog.fns[key]["name"]
        rec = self.prog.recs[v.rec]
        for m in rec.get("vmethods", ()):
            if m["name"] == name:
                return m["key"]
        return key

    def fix_lv(self, r, e):
        if e.get("lv"):
            return r if isinstance(r, Cell) else Cell(r)
        if isinstance(r, Cell):
            # a native returned a reference where a value is expected
            return self.copyval(self.load(r))
        return r

    def ev_Call(self, e, fr, T):
        args = [self.ev(a, fr, T) for a in e["args"]]
        self.loc = e["l"]
        fn = self.prog.fns.get(e["fn"])
        if fn is None:
            raise AnalysisBroken("function " + e["fn"])
        return self.fix_lv(self.call_fn(fn, None, args, e["l"], e["t"], T), e)

    def ev_CallE(self, e, fr, T):
        f = self.ev(e["callee"], fr, T)
        args = [self.ev(a, fr, T) for a in e["args"]]
        self.loc = e["l"]
        v = self.load(f)
        if isinstance(v, Bound):
            return self.fix_lv(self.call_key(v.key, v.this, args, e["l"]), e)
        return self.fix_lv(self.invoke(f, args, e["l"]), e)

    def ev_CallPtrMem(self, e, fr, T):
        c = e["callee"]
        if c["k"] != "Bin" or c["op"] not in (".*", "->*"):
            raise AnalysisBroken("call through member pointer at " + e["l"])
        obj = self.ev(c["a"], fr, T)
        if c["op"] == "->*":
            obj = self.deref(self.load(obj))
        f = self.rv(c["b"], fr, T)
        args = [self.ev(a, fr, T) for a in e["args"]]
        return self.fix_lv(self.call_key(f.key, obj if isinstance(obj, Cell) else Cell(obj), args, e["l"]), e)

    def ev_MemFn(self, e, fr, T):
        b = self.ev(e["b"], fr, T)
        if e.get("arrow"):
            b = self.deref(self.load(b))
        return Bound(b, e["fn"])

    def ev_Construct(self, e, fr, T):
        ty = T[e["t"]]
        fn = self.prog.fns[e["fn"]]
        if ty["k"] == "arr":
            n = ty["len"]
            cells = []
            for _ in range(n):
                c = Cell()
                self.call_fn(fn, c, [self.ev(a, fr, T) for a in e["args"]], e["l"], e["t"], T)
                cells.append(c)
            return Arr(cells)
        args = [self.ev(a, fr, T) for a in e["args"]]
        self.loc = e["l"]
        rec = self.prog.recs[fn["rec"]]
        cell = Cell()
        if self.native_rec(rec) is None:
            cell.v = Obj(fn["rec"])
            if e.get("zero"):
                self.init_fields(cell.v, rec, True)
                if fn.get("defaulted") or fn.get("implicit") or fn.get("trivial"):
                    return cell.v
        self.call_fn(fn, cell, args, e["l"], e["t"], T)
        return cell.v

    def ev_Mat(self, e, fr, T):
        v = self.ev(e["e"], fr, T)
        return v if isinstance(v, Cell) else Cell(v)

    def ev_Cast(self, e, fr, T):
        ck = e["ck"]
        ty = T[e["t"]]
        v = self.ev(e["e"], fr, T)
        if ck == "LValueToRValue":
            v = self.load(v)
            if isinstance(v, (int, bool)) and ty["k"] in ("int", "enum"):
                w, s = ty["w"], ty["s"]
                iv = int(v)
                if not ((-(1 << (w - 1)) <= iv < (1 << (w - 1))) if s else (0 <= iv < (1 << w))):
                    return wrap_int(iv, w, s)
            elif isinstance(v, Tab) and ty["k"] in ("int", "enum") and ty["w"] == 8:
                return self.conv(v, ty)
            return v
        if ck in ("NoOp", "ConstructorConversion", "UserDefinedConversion", "FunctionToPointerDecay",
                  "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "BuiltinFnToFnPtr", "Dependent",
                  "AtomicToNonAtomic", "NonAtomicToAtomic", "LValueBitCast", "BitCast", "Dynamic"):
            if ck == "NoOp" and not e.get("lv") and isinstance(v, Cell):
                return self.load(v)
            if ck == "FunctionToPointerDecay" and isinstance(v, Cell):
                return self.load(v)
            return v
        if ck == "IntegralCast":
            return self.conv(self.load(v), ty)
        if ck in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean", "MemberPointerToBoolean"):
            return self.to_bool_value(self.load(v))
        if ck == "BooleanToSignedIntegral":
            return -1 if self.truth(v) else 0
        if ck == "ArrayToPointerDecay":
            a = v.v if isinstance(v, Cell) else v
            if not isinstance(a, Arr):
                raise AnalysisBroken("array decay of %r at %s" % (a, e["l"]))
            return Ptr(a, 0)
        if ck in ("NullToPointer", "NullToMemberPointer"):
            return NULL
        if ck == "ToVoid":
            return None
        if ck in ("IntegralToFloating", "FloatingCast"):
            v = self.load(v)
            return float(v) if isinstance(v, (int, float)) else v
        if ck == "FloatingToIntegral":
            return self.conv(int(self.load(v)), ty)
        if ck == "IntegralToPointer":
            raise AnalysisBroken("integer to pointer cast at " + e["l"])
        if ck == "PointerToIntegral":
            raise AnalysisBroken("pointer to integer cast at " + e["l"])
        raise AnalysisBroken("cast %s at %s" % (ck, e["l"]))

    def ev_Un(self, e, fr, T):
        op = e["op"]
        ty = T[e["t"]]
        if op == "&":
            c = self.ev(e["e"], fr, T)
            if isinstance(c, FnRef):
                return c
            return addr_of(c)
        if op == "*":
            return self.deref(self.rv(e["e"], fr, T))
        if op in ("++", "--"):
            c = self.ev(e["e"], fr, T)
            old = self.load(c)
            one = 1 if op == "++" else -1
            ety = T[e["e"]["t"]]
            if ety["k"] == "ptr":
                new = self.ptr_add(old, one)
            elif ety["k"] == "int" and ety["w"] < 32:
                new = self.conv(self.arith("+", old, one, {"k": "int", "w": 32, "s": True}), ety)
            else:
                new = self.arith("+", old, one, ety)
            if c.bits:
                new = self.conv(new, c.bits)
            c.v = new
            return old if e.get("post") else c
        v = self.rv(e["e"], fr, T)
        if op == "!":
            v = self.to_bool_value(v)
            if isinstance(v, bool):
                return not v
            if isinstance(v, Tab):
                return Tab(v.axes, ~(v.arr.astype(bool)), v.vers)
            if isinstance(v, Atom):
                return Atom(v.key, not v.neg)
        if op == "-":
            return self.arith("-", 0, v, ty)
        if op == "+":
            return v
        if op == "~":
            if isinstance(v, bool):
                v = int(v)
            if isinstance(v, int):
                return wrap_int(~v, ty["w"], ty["s"])
            if isinstance(v, Tab):
                return self.conv(Tab(v.axes, ~v.arr, v.vers), ty)
        raise AnalysisBroken("unary %s of %r at %s" % (op, v, e["l"]))

    def ev_Bin(self, e, fr, T):
        op = e["op"]
        if op == "&&" or op == "||":
            a = self.to_bool_value(self.rv(e["a"], fr, T))
            if isinstance(a, bool):
                if a == (op == "||"):
                    return a
                return self.to_bool_value(self.rv(e["b"], fr, T))
            if isinstance(a, Tab) and self.pure_tab(e["b"]):
                b = self.to_bool_value(self.rv(e["b"], fr, T))
                if isinstance(b, (Tab, bool)):
                    axes, (x, y) = self._tabs(a, b)
                    r = (x.astype(bool) & y.astype(bool)) if op == "&&" else (x.astype(bool) | y.astype(bool))
                    return Tab(axes, r)
                return self.truth(a) and b if op == "&&" else self.truth(a) or b
            t = self.truth(a)
            if t == (op == "||"):
                return t
            return self.to_bool_value(self.rv(e["b"], fr, T))
        if op == ",":
            self.ev(e["a"], fr, T)
            return self.ev(e["b"], fr, T)
        if op == "=":
            # right operand is sequenced before the left one
            v = self.rv(e["b"], fr, T)
            c = self.ev(e["a"], fr, T)
            self.store(c, v, e["l"])
            return c
        if op in (".*", "->*"):
            obj = self.ev(e["a"], fr, T)
            if op == "->*":
                obj = self.deref(self.load(obj))
            f = self.rv(e["b"], fr, T)
            return self.invoke(f, [obj], e["l"])
        a = self.rv(e["a"], fr, T)
        b = self.rv(e["b"], fr, T)
        self.loc = e["l"]
        ta, tb = T[e["a"]["t"]], T[e["b"]["t"]]
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return self.rel(op, a, b)
        if op == "<=>":
            raise AnalysisBroken("built-in <=> at " + e["l"])
        pa, pb = ta["k"] == "ptr", tb["k"] == "ptr"
        if pa and pb and op == "-":
            return self.ptr_diff(a, b)
        if pa and op in "+-":
            return self.ptr_add(a, b if op == "+" else self.arith("-", 0, b, {"k": "int", "w": 64, "s": True}))
        if pb and op == "+":
            return self.ptr_add(b, a)
        return self.arith(op, a, b, T[e["t"]])

    def ptr_diff(self, a, b):
        if hasattr(a, "ptr_diff"):
            return a.ptr_diff(self, b)
        if a is NULL and b is NULL:
            return 0
        if a is NULL or b is NULL or a.arr is not b.arr:
            self.ub("pointer-difference", self.loc, "difference of pointers into different objects")
        return self.arith("-", a.i, b.i, {"k": "int", "w": 64, "s": True})

    PURE = {"Int", "Local", "Cast", "Bin", "Un", "Member", "This", "Global", "Mat", "Binding"}
    PURE_FN = {"std::basic_string_view::front"}

    def pure_tab(self, e):
        """No side effects and no undefined behaviour that a guard might be protecting from."""
        k = e["k"]
        if k in ("Int", "Local", "This", "Global", "Binding"):
            return True
        if k == "Cast" or k == "Mat":
            return self.pure_tab(e["e"])
        if k == "Member":
            return not e.get("arrow") or e["b"]["k"] in ("This", "Cast")
        if k == "Un":
            return e["op"] in ("!", "-", "+", "~") and self.pure_tab(e["e"])
        if k == "Bin":
            return e["op"] in ("==", "!=", "<", ">", "<=", ">=", "&", "|", "^", "&&", "||", "+", "-") and \
                self.pure_tab(e["a"]) and self.pure_tab(e["b"])
        if k == "Call":
            return e["qn"] in self.PURE_FN and all(self.pure_tab(a) for a in e["args"])
        return False

    def store(self, c, v, loc):
        if not isinstance(c, Cell):
            raise AnalysisBroken("assignment to a value at " + loc)
        h = self.hooks.get("store")
        if h:
            h(self, c, v, loc)
        if c.tag == "literal":
            self.ub("write-const", loc, "write to a string literal")
        if c.bits:
            v = self.conv(v, c.bits)
        c.v = v

    def ev_CAsg(self, e, fr, T):
        op = e["op"][:-1]
        b = self.rv(e["b"], fr, T)
        c = self.ev(e["a"], fr, T)
        a = self.load(c)
        ta = T[e["a"]["t"]]
        self.loc = e["l"]
        if ta["k"] == "ptr":
            v = self.ptr_add(a, b if op == "+" else self.arith("-", 0, b, {"k": "int", "w": 64, "s": True}))
        else:
            ct = T[e["ct"]]
            v = self.conv(self.arith(op, self.conv(a, ct) if ct["k"] in ("int", "bool", "enum") else a, b, ct), ta)
        self.store(c, v, e["l"])
        return c

    def ev_Cond(self, e, fr, T):
        if e.get("assert"):
            v = self.to_bool_value(self.rv(e["c"], fr, T))
            self.loc = e["l"]
            ct, cf = self.is_true_maybe(v)
            if isinstance(v, Atom):
                # unknown fact: a claim of the code itself; recorded, then assumed
                if v.key in self.ctx.facts:
                    val = self.truth(v)
                    if not val:
                        self.ub("assert", e["l"], "assertion can fail")
                    return None
                h = self.hooks.get("assert")
                if h:
                    h(self, e, v)
                self.ctx.facts[v.key] = not v.neg
                return None
            if cf:
                if not ct or not self.truth(v):
                    self.ub("assert", e["l"], "assertion can fail")
            return None
        return self.ev(e["a"] if self.cond(e["c"], fr, T) else e["b"], fr, T)

    def ev_Elvis(self, e, fr, T):
        v = self.ev(e["a"], fr, T)
        fr.opaque[e["opq"]] = v
        if self.cond(e["c"], fr, T):
            return self.ev(e["tv"], fr, T)
        return self.ev(e["b"], fr, T)

    def ev_Opaque(self, e, fr, T):
        if e["id"] in fr.opaque:
            return fr.opaque[e["id"]]
        return self.ev(e["e"], fr, T)

    def ev_Sub(self, e, fr, T):
        a = self.rv(e["a"], fr, T)
        i = self.rv(e["b"], fr, T)
        self.loc = e["l"]
        if isinstance(a, int) or isinstance(i, Ptr):
            a, i = i, a
        return self.index(a, i)

    def index(self, p, i):
        if isinstance(i, Tab):
            i.norm()
            c = i.const()
            if c is not None:
                i = c
            else:
                return self.gather(p, i)
        if isinstance(i, int) and isinstance(p, Ptr) and not hasattr(p.arr, "at") and isinstance(p.i, int):
            j = p.i + i
            if p.arr.dead:
                self.ub("dangling", self.loc, "access through an invalidated pointer")
            if not (0 <= j < len(p.arr.cells)):
                self.ub("out-of-bounds", self.loc, "index %d outside a sequence of %d elements" % (j, len(p.arr.cells)))
            return p.arr.cells[j]
        return self.deref(self.ptr_add(p, i))

    def gather(self, p, i):
        if not isinstance(p, Ptr) or hasattr(p.arr, "at"):
            return self.deref(self.ptr_add(p, self.concretize(i)))
        n = len(p.arr.cells)
        bad = (i.arr + p.i < 0) | (i.arr + p.i >= n)
        if bad.any():
            if self.ctx.branch_tab(Tab(i.axes, bad, i.vers)):
                self.ub("out-of-bounds", self.loc, "index can lie outside a table of %d elements" % n)
            i.norm()
        vals = [c.v for c in p.arr.cells]
        if not all(isinstance(x, (int, bool)) for x in vals):
            return self.deref(self.ptr_add(p, self.concretize(i)))
        tbl = np.array([int(x) for x in vals], dtype=np.int64)
        return Cell(Tab(i.axes, tbl[np.clip((i.arr + p.i).astype(np.int64), 0, n - 1)], i.vers))

    def ev_InitList(self, e, fr, T):
        ty = T[e["t"]]
        if ty["k"] == "arr":
            et = T[ty["of"]]
            cells = [Cell(self.init_value(fr, x, T, et)) for x in e["e"]]
            while len(cells) < ty["len"]:
                if "filler" in e and e["filler"] is not None:
                    cells.append(Cell(self.init_value(fr, e["filler"], T, et)))
                else:
                    cells.append(Cell(self.default_value(T, et, True)))
            return Arr(cells)
        if ty["k"] == "rec":
            rec = self.prog.recs[ty["rec"]]
            o = Obj(rec["key"])
            i = 0
            exprs = e["e"]
            for b in rec["bases"]:
                if i < len(exprs):
                    v = self.ev(exprs[i], fr, T)
                    if isinstance(v, Cell):
                        v = self.copyval(v.v)
                    o.f.update(v.f)
                    i += 1
            for f in rec["fields"]:
                if rec.get("union"):
                    if f["fi"] != e.get("ufi"):
                        continue
                fty = rec["T"][f["t"]]
                if i < len(exprs):
                    if self.is_ref(fty):
                        c = self.ev(exprs[i], fr, T)
                        o.f[(rec["key"], f["fi"])] = c if isinstance(c, Cell) else Cell(c)
                        o.extra = dict(o.extra or {})
                        o.extra.setdefault("byref", set()).add((rec["key"], f["fi"]))
                    else:
                        o.f[(rec["key"], f["fi"])] = Cell(self.init_value(fr, exprs[i], T, fty))
                    i += 1
                else:
                    o.f[(rec["key"], f["fi"])] = Cell(self.default_value(rec["T"], fty, True))
            return o
        if not e["e"]:
            return self.default_value(T, ty, True)
        return self.ev(e["e"][0], fr, T)

    def ev_StdInitList(self, e, fr, T):
        a = self.ev(e["e"], fr, T)
        arr = a.v if isinstance(a, Cell) else a
        return InitListV(arr)

    def ev_Zero(self, e, fr, T):
        return self.default_value(T, T[e["t"]], True)

    def ev_Lambda(self, e, fr, T):
        rec = self.prog.recs[e["rec"]]
        o = Obj(rec["key"])
        byref = set()
        for c, x in zip(rec["captures"], e["caps"]):
            k = (rec["key"], c["fi"])
            if c["kind"] == "ref":
                v = self.ev(x, fr, T)
                o.f[k] = v if isinstance(v, Cell) else Cell(v)
                byref.add(k)
            elif c["kind"] == "this":
                o.f[k] = Cell(addr_of(fr.this))
            else:
                o.f[k] = Cell(self.init_value(fr, x, T, None))
        o.extra = {"byref": byref} if byref else None
        return o

    def ev_New(self, e, fr, T):
        ty = T[e["nt"]]
        if e["place"]:
            p = self.rv(e["place"][0], fr, T)
            c = self.deref(p)
            c.v = self.init_value(fr, e["init"], T, ty) if e.get("init") else self.default_value(T, ty)
            return p
        raise AnalysisBroken("operator new at " + e["l"])

    def ev_Delete(self, e, fr, T):
        raise AnalysisBroken("operator delete at " + e["l"])

    def ev_Throw(self, e, fr, T):
        if "e" not in e and self.caught:
            raise self.caught[-1]
        v = self.ev(e["e"], fr, T) if "e" in e else None
        raise AbsThrow(v, e["l"])

    def ev_Pseudo(self, e, fr, T):
        return Bound(None, None)

    def ev_StmtExpr(self, e, fr, T):
        raise AnalysisBroken("statement expression at " + e["l"])

    def ev_ArrayCopy(self, e, fr, T):
        v = self.ev(e["e"], fr, T)
        return self.copyval(v.v if isinstance(v, Cell) else v)

    def ev_Typeid(self, e, fr, T):
        raise AnalysisBroken("typeid at " + e["l"])

    def ev_InheritedCtor(self, e, fr, T):
        raise AnalysisBroken("inherited constructor at " + e["l"])

    def ev_Unsupported(self, e, fr, T):
        raise AnalysisBroken("expression %s at %s" % (e["cls"], e.get("l")))


class InitListV:
    def __init__(self, arr):
        self.arr = arr

    def copy(self):
        return self


def big_stack(f):
    """Run f on a thread with a deep stack (the interpreter recurses over the AST)."""
    out = {}

    def go():
        try:
            out["r"] = f()
        except BaseException as e:   # re-raised in the caller's thread
            out["e"] = e
            import traceback
            out["tb"] = traceback.format_exc()
    sys.setrecursionlimit(200000)
    threading.stack_size(900 * 1024 * 1024)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    if "e" in out:
        out["e"].tb = out["tb"]
        raise out["e"]
    return out["r"]
