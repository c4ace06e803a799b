"""Transfer functions for the parts of the standard library the analysed code uses. Anything not modelled
here is interpreted from its own (libstdc++) definition; anything with neither is refused (AnalysisBroken)."""
import numpy as np
from prog import AnalysisBroken
from values import *
from interp import Ambiguous, nat, NATIVES, NATIVE_RECS, Call, InitListV

I64 = {"k": "int", "w": 64, "s": True}
U64 = {"k": "int", "w": 64, "s": False}
NPOS = (1 << 64) - 1


# ---------------------------------------------------------------- string_view
class SV:
    """std::basic_string_view over an Arr: pointer + length."""
    __slots__ = ("ptr", "len", "tag")

    def __init__(self, ptr, length, tag=None):
        self.ptr, self.len, self.tag = ptr, length, tag

    def copy(self):
        return self

    def __repr__(self):
        return "SV(%r,%r)" % (self.ptr, self.len)

    # interface shared with the other abstract views
    def length(self, I):
        return self.len

    def chars(self, I):
        if isinstance(self.len, int) and self.len == 0:
            return []
        if not isinstance(self.len, int):
            raise AnalysisBroken("view of symbolic length used as text at %s" % I.loc)
        if self.ptr is NULL:
            I.ub("null-deref", I.loc, "view over a null pointer with non-zero length")
        return [I.load(self.at(I, i)) for i in range(self.len)]

    def at(self, I, i):
        return I.deref(I.ptr_add(self.ptr, i))

    def sub(self, I, pos, n):
        return SV(I.ptr_add(self.ptr, pos) if not (isinstance(pos, int) and pos == 0) else self.ptr, n, self.tag)

    def data(self, I):
        return self.ptr

    def empty(self, I):
        return I.rel("==", self.len, 0)

    def eq(self, I, o):
        if not isinstance(o, SV):
            return o.eq(I, self)
        if self.ptr == o.ptr and self.len == o.len:
            return True
        if not I.truth(I.rel("==", self.len, o.len)):
            return False
        for a, b in zip(self.chars(I), o.chars(I)):
            if not I.truth(I.rel("==", a, b)):
                return False
        return True


def make_str(I, text, name="lit"):
    arr = Arr([Cell(c if isinstance(c, (int, Tab)) else ord(c)) for c in text], name)
    return SV(Ptr(arr, 0), len(arr.cells))


@nat("std::basic_string_view::<ctor>")
def _(c):
    if not c.args:
        c.this.v = SV(NULL, 0)
        return
    a = c.val(0)
    if hasattr(a, "is_view") or isinstance(a, TemplStr):
        c.this.v = a
        return
    if isinstance(a, SV):
        c.this.v = a
    elif len(c.args) == 1:
        if isinstance(a, Str):
            c.this.v = a.view(c.I)
        elif isinstance(a, Vec):
            c.this.v = SV(Ptr(a.arr, 0), len(a.arr.cells))
        elif isinstance(a, Ptr):
            c.this.v = SV(a, cstrlen(c.I, a))
        else:
            raise AnalysisBroken("string_view from %r at %s" % (a, c.loc))
    else:
        b = c.val(1)
        if hasattr(a, "to_view"):
            c.this.v = a.to_view(c.I, b)
            return
        if isinstance(b, Ptr):
            b = c.I.ptr_diff(b, a)
        c.this.v = SV(a, c.I.concretize(b) if not isinstance(b, Lin) else b)


def cstrlen(I, p):
    n = 0
    while True:
        if not I.truth(I.rel("!=", I.load(I.deref(I.ptr_add(p, n))), 0)):
            return n
        n += 1


@nat("std::basic_string_view::operator=")
def _(c):
    c.this.v = c.val(0)
    return c.this


def V(c):
    return c.I.load(c.this)


@nat("std::basic_string_view::size", "std::basic_string_view::length")
def _(c):
    return V(c).length(c.I)


@nat("std::basic_string_view::empty")
def _(c):
    return V(c).empty(c.I)


@nat("std::basic_string_view::data")
def _(c):
    return V(c).data(c.I)


@nat("std::basic_string_view::begin", "std::basic_string_view::cbegin")
def _(c):
    return V(c).data(c.I)


@nat("std::basic_string_view::end", "std::basic_string_view::cend")
def _(c):
    v = V(c)
    if hasattr(v, "end_ptr"):
        return v.end_ptr(c.I)
    n = v.length(c.I)
    if isinstance(n, int) and n == 0:
        return v.data(c.I)
    return c.I.ptr_add(v.data(c.I), n)


@nat("std::basic_string_view::front")
def _(c):
    v = V(c)
    if c.I.truth(v.empty(c.I)):
        c.I.ub("front-of-empty", c.loc, "front() of an empty string_view")
    return v.at(c.I, 0)


@nat("std::basic_string_view::back")
def _(c):
    v = V(c)
    if c.I.truth(v.empty(c.I)):
        c.I.ub("front-of-empty", c.loc, "back() of an empty string_view")
    return v.at(c.I, c.I.arith("-", v.length(c.I), 1, U64))


@nat("std::basic_string_view::operator[]", "std::basic_string_view::at")
def _(c):
    v = V(c)
    i = c.val(0)
    if c.qn.endswith("::at"):
        if not c.I.truth(c.I.rel("<", i, v.length(c.I))):
            raise AbsThrow("std::out_of_range", c.loc)
    elif not c.I.truth(c.I.rel("<", i, v.length(c.I))):
        c.I.ub("out-of-bounds", c.loc, "string_view index out of range")
    return v.at(c.I, c.I.concretize(i))


def amin(I, a, b):
    """min(a,b) with a decided comparison"""
    if a == b:
        return a
    return a if I.truth(I.rel("<=", a, b)) else b


@nat("std::basic_string_view::substr")
def _(c):
    I, v = c.I, V(c)
    pos = I.concretize(c.val(0)) if len(c.args) > 0 else 0
    n = I.concretize(c.val(1)) if len(c.args) > 1 else NPOS
    if hasattr(pos, "is_found") or hasattr(n, "is_found"):        # positions found in unknown text
        return v.sub(I, pos, n)
    ln = v.length(I)
    if not (isinstance(pos, int) and pos == 0):
        if not I.truth(I.rel("<=", pos, ln)):
            raise AbsThrow("std::out_of_range", c.loc)
    rest = I.arith("-", ln, pos, U64)
    if not (isinstance(n, int) and n == NPOS):
        rest = amin(I, n, rest)
    return v.sub(I, pos, rest)


@nat("std::basic_string_view::remove_prefix")
def _(c):
    I, v = c.I, V(c)
    n = I.concretize(c.val(0))
    if not I.truth(I.rel("<=", n, v.length(I))):
        I.ub("out-of-bounds", c.loc, "remove_prefix beyond the end of the view")
    c.this.v = v.sub(I, n, I.arith("-", v.length(I), n, U64))


@nat("std::basic_string_view::remove_suffix")
def _(c):
    I, v = c.I, V(c)
    n = I.concretize(c.val(0))
    if not I.truth(I.rel("<=", n, v.length(I))):
        I.ub("out-of-bounds", c.loc, "remove_suffix beyond the start of the view")
    c.this.v = v.sub(I, 0, I.arith("-", v.length(I), n, U64))


@nat("std::basic_string_view::swap")
def _(c):
    o = c.cell(0)
    c.this.v, o.v = o.v, c.this.v


@nat("std::basic_string_view::max_size", "std::basic_string::max_size", "std::vector::max_size")
def _(c):
    return (1 << 62)


def as_view(I, a):
    a = I.load(a)
    if isinstance(a, Str):
        return a.view(I)
    if isinstance(a, Ptr):
        return SV(a, cstrlen(I, a))
    if isinstance(a, Arr):
        return SV(Ptr(a, 0), cstrlen(I, Ptr(a, 0)))
    return a


@nat("std::basic_string_view::compare")
def _(c):
    I = c.I
    if len(c.args) != 1:
        raise AnalysisBroken("string_view::compare overload at " + c.loc)
    return compare_views(I, V(c), as_view(I, c.args[0]))


def compare_views(I, a, b):
    if not isinstance(a, SV) or not isinstance(b, SV):
        if I.truth(a.eq(I, b)):
            return 0
        raise AnalysisBroken("ordering of opaque text at " + I.loc)
    x, y = a.chars(I), b.chars(I)
    for p, q in zip(x, y):
        if not I.truth(I.rel("==", p, q)):
            p, q = I.conv(p, {"k": "int", "w": 8, "s": False}), I.conv(q, {"k": "int", "w": 8, "s": False})
            return -1 if I.truth(I.rel("<", p, q)) else 1
    return (len(x) > len(y)) - (len(x) < len(y))


@nat("std::basic_string_view::starts_with", "std::basic_string::starts_with")
def _(c):
    I = c.I
    v = as_view(I, c.this)
    a = c.val(0)
    if isinstance(a, (int, Tab)):
        if I.truth(v.empty(I)):
            return False
        return I.rel("==", I.load(v.at(I, 0)), a)
    a = as_view(I, a)
    if hasattr(v, "starts_with"):
        return v.starts_with(I, a)
    if not I.truth(I.rel(">=", v.length(I), a.length(I))):
        return False
    return v.sub(I, 0, a.length(I)).eq(I, a)


@nat("std::basic_string_view::ends_with", "std::basic_string::ends_with")
def _(c):
    I = c.I
    v = as_view(I, c.this)
    a = c.val(0)
    n = v.length(I)
    if isinstance(a, (int, Tab)):
        if I.truth(v.empty(I)):
            return False
        return I.rel("==", I.load(v.at(I, I.arith("-", n, 1, U64))), a)
    a = as_view(I, a)
    if not I.truth(I.rel(">=", n, a.length(I))):
        return False
    return v.sub(I, I.arith("-", n, a.length(I), U64), a.length(I)).eq(I, a)


def _find(c, match, reverse=False, off=1):
    I = c.I
    v = as_view(I, c.this)
    if hasattr(v, "find_first"):
        return v.find_first(c, match)
    if not hasattr(v, "chars"):
        # somewhere in an unknown text, or nowhere
        key = ("found", c.qn.split("::")[-1], getattr(v, "id", repr(v)), tuple(str(I.load(a)) for a in c.args))
        return Lin.sym("pos%r" % (key,)) if I.ctx.fact(key) else NPOS
    ch = v.chars(I)
    pos = I.concretize(c.val(off)) if len(c.args) > off else (NPOS if reverse else 0)
    rng = range(min(pos, len(ch) - 1), -1, -1) if reverse else range(pos, len(ch))
    for i in rng:
        if match(ch, i):
            return i
    return NPOS


@nat("std::basic_string_view::find", "std::basic_string::find", "std::basic_string_view::rfind", "std::basic_string::rfind")
def _(c):
    I = c.I
    a = c.val(0)
    rev = c.qn.endswith("rfind")
    if isinstance(a, (int, Tab)):
        return _find(c, lambda ch, i: I.truth(I.rel("==", ch[i], a)), rev)
    pat = as_view(I, a).chars(I)

    def m(ch, i):
        return i + len(pat) <= len(ch) and all(I.truth(I.rel("==", x, y)) for x, y in zip(ch[i:], pat))
    if not pat:
        return 0
    return _find(c, m, rev)


def _first_of(c, want, reverse):
    I = c.I
    a = c.val(0)
    pat = [a] if isinstance(a, (int, Tab)) else as_view(I, a).chars(I)

    def m(ch, i):
        hit = False
        for y in pat:
            if I.truth(I.rel("==", ch[i], y)):
                hit = True
                break
        return hit == want
    return _find(c, m, reverse)


for _cls in ("std::basic_string_view::", "std::basic_string::"):
    NATIVES[_cls + "find_first_of"] = lambda c: _first_of(c, True, False)
    NATIVES[_cls + "find_first_not_of"] = lambda c: _first_of(c, False, False)
    NATIVES[_cls + "find_last_of"] = lambda c: _first_of(c, True, True)
    NATIVES[_cls + "find_last_not_of"] = lambda c: _first_of(c, False, True)


NATIVES["std::basic_string_view::contains"] = lambda c: NotImplemented


# ---------------------------------------------------------------- std::string / vector
class Vec:
    """std::vector: owns an Arr; growing past the capacity moves the elements to a new Arr."""
    def __init__(self, I, et, cells=None, name="vector"):
        self.et = et            # (T, type) of the elements
        self.arr = Arr(cells or [], name)
        self.cap = len(self.arr.cells)

    def copy_value(self, I):
        v = type(self)(I, self.et, [Cell(I.copyval(c.v)) for c in self.arr.cells], self.arr.name)
        return v

    def copy(self):
        raise AnalysisBroken("container copied without a context")

    def move_value(self, I):
        v = type(self)(I, self.et, None, self.arr.name)
        v.arr, v.cap = self.arr, self.cap
        self.arr = Arr([], v.arr.name)
        self.cap = 0
        return v

    def assign_from(self, I, o):
        if len(o.arr.cells) > self.cap:
            self.arr.dead = True
            self.arr = o.arr
            self.cap = len(o.arr.cells)
        else:
            vals = o.arr.cells
            self.arr.cells[:] = vals
            self.arr.renum()

    def n(self):
        return len(self.arr.cells)

    def reserve(self, I, n):
        if n > self.cap:
            self.regrow(I, n)

    def regrow(self, I, n):
        h = I.hooks.get("realloc")
        if h:
            h(I, self)
        new = Arr([], self.arr.name)
        for c in self.arr.cells:
            x = Cell(c.v)
            new.push(x)
        self.arr.dead = True
        self.arr = new
        self.cap = n

    def push(self, I, v):
        if self.n() + 1 > self.cap:
            self.regrow(I, max(1, self.cap * 2))
        c = Cell(v)
        self.arr.push(c)
        h = I.hooks.get("push")
        if h:
            h(I, self, c)
        return c

    def insert(self, I, pos, vals):
        if self.n() + len(vals) > self.cap:
            self.regrow(I, max(self.n() + len(vals), self.cap * 2))
        self.arr.cells[pos:pos] = [Cell(v) for v in vals]
        self.arr.renum()

    def resize(self, I, n, v):
        if n < self.n():
            del self.arr.cells[n:]
        else:
            while self.n() < n:
                self.push(I, I.copyval(v) if v is not None else I.default_value(self.et[0], self.et[1], True))

    def clear(self, I):
        del self.arr.cells[:]


class Str(Vec):
    """std::string (terminating NUL not stored)."""
    def __init__(self, I, et, cells=None, name="string"):
        Vec.__init__(self, I, et, cells, name)
        self.cap = max(15, len(self.arr.cells))

    def view(self, I):
        return SV(Ptr(self.arr, 0), len(self.arr.cells))

    def chars(self, I):
        return [I.load(c) for c in self.arr.cells]


class TemplStr:
    """A std::string built from opaque pieces (recomposition analyses)."""
    def __init__(self, pieces=()):
        self.pieces = list(pieces)

    def copy(self):
        return TemplStr(self.pieces)

    def move_value(self, I):
        return TemplStr(self.pieces)

    def empty(self, I):
        if any(isinstance(p, (int, Tab)) for p in self.pieces):
            return False
        return all(I.truth(p.empty(I)) for p in self.pieces)

    def length(self, I):
        if any(not isinstance(p, (int, Tab)) for p in self.pieces):
            return TemplLen(self)
        return len(self.pieces)

    def exact_length(self, I):
        t = Lin({}, 0)
        for p in self.pieces:
            n = 1 if isinstance(p, (int, Tab)) else 0 if I.truth(p.empty(I)) else p.length(I)
            t = t.add(Lin.of(n) if isinstance(n, (int, Lin)) else Lin.sym("len(%s)" % (p.id,)))
        return t.simp()

    def _end(self, I, k):
        """the character piece at the front (k=0) or back (k=-1), skipping pieces known to be empty"""
        ps = self.pieces[:]
        while ps:
            p = ps[k]
            if isinstance(p, (int, Tab)):
                return p, ps
            if not I.truth(p.empty(I)):
                raise AnalysisBroken("one character of an opaque string at " + I.loc)
            ps.pop(k)
        I.ub("front-of-empty", I.loc, "first or last character of an empty string")

    def front_cell(self, I):
        return Cell(self._end(I, 0)[0])

    def back_cell(self, I):
        return Cell(self._end(I, -1)[0])

    def pop_abs(self, I):
        self.pieces = self._end(I, -1)[1][:-1]

    def begin_it(self, I):
        return TemplPos(self, False)

    def end_it(self, I):
        return TemplPos(self, True)

    def insert_front(self, I, a):
        ps = []
        add_piece(I, ps, a)
        self.pieces[:0] = ps


class TemplLen:
    """the length of a string of opaque pieces, added up only when the sum is needed"""
    def __init__(self, s):
        self.s = TemplStr(s.pieces)

    def copy(self):
        return self

    def same(self, o):
        return isinstance(o, TemplLen) and len(o.s.pieces) == len(self.s.pieces) and all(a is b for a, b in zip(self.s.pieces, o.s.pieces))

    def rel(self, I, op, o):
        if self.same(o):
            return op in ("==", "<=", ">=")
        if isinstance(o, int) and (o, op) in ((0, "=="), (0, "<="), (1, "<")):
            return self.s.empty(I)
        if isinstance(o, int) and (o, op) in ((0, "!="), (0, ">"), (1, ">=")):
            return not I.truth(self.s.empty(I))
        return I.rel(op, self.s.exact_length(I), o.s.exact_length(I) if isinstance(o, TemplLen) else o)

    def to_bool(self, I):
        return self.rel(I, "!=", 0)

    def conv(self, I, ty):
        return self

    def arith(self, I, op, o, ty, swapped):
        a, b = self.s.exact_length(I), o.s.exact_length(I) if isinstance(o, TemplLen) else o
        return I.arith(op, b, a, ty) if swapped else I.arith(op, a, b, ty)


class TemplPos:
    """the start or the end of a string of opaque pieces"""
    def __init__(self, owner, end):
        self.owner, self.end = owner, end

    def copy(self):
        return self

    def to_view(self, I, n):
        o = self.owner
        if isinstance(n, TemplPos) and n.owner is o:
            return TemplStr(o.pieces) if n.end and not self.end else TemplStr()
        if not self.end and isinstance(n, int) and n == 0:
            return TemplStr()
        if not self.end and isinstance(n, TemplLen) and n.same(TemplLen(o)):
            return TemplStr(o.pieces)
        if not self.end and isinstance(n, (int, Lin)) and n == o.exact_length(I):
            return TemplStr(o.pieces)
        raise AnalysisBroken("part of an opaque string at " + I.loc)


def targ(I, rec, i=0):
    return I.flat_targs(rec)[i]


NATIVE_RECS["std::basic_string_view"] = lambda I, rec, T: SV(NULL, 0)
NATIVE_RECS["std::basic_string"] = lambda I, rec, T: I.new_string(rec) if hasattr(I, "new_string") else Str(I, targ(I, rec))
NATIVE_RECS["std::vector"] = lambda I, rec, T: Vec(I, targ(I, rec))
NATIVE_RECS["__gnu_cxx::__normal_iterator"] = lambda I, rec, T: UNINIT


def range_vals(I, first, last):
    """the elements of an iterator range, copied"""
    out = []
    n = 0
    p = first
    while not it_eq(I, p, last):
        out.append(I.copyval(I.load(it_deref(I, p))))
        p = it_next(I, p)
        n += 1
        if n > 100000:
            I.diverge(I.loc, "iterator range does not end")
    return out


def it_kind(v):
    return isinstance(v, Ptr) or v is NULL or hasattr(v, "deref")


def it_deref(I, p):
    if it_kind(p):
        return I.deref(p)
    r = I.call_op(p, "operator*", [])
    return r


def it_eq(I, a, b):
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.arr is b.arr:
        return I.truth(I.rel("==", a.i, b.i))
    if it_kind(a) and it_kind(b):
        return I.truth(I.rel("==", a, b))
    return I.truth(I.call_eq(a, b))


def it_next(I, p):
    if it_kind(p):
        return I.ptr_add(p, 1)
    c = Cell(I.copyval(p))
    I.call_op(c, "operator++", [])
    return c.v


def find_ops(I, v, name, nargs):
    rec = v.rec
    return [f for f in I.prog.named(name) if f.get("rec") == rec and len(f["params"]) == nargs
            and (f.get("body") is not None)]


def _call_op(self, p, name, args):
    cell = p if isinstance(p, Cell) else Cell(p)
    v = self.load(cell)
    if not isinstance(v, Obj):
        raise AnalysisBroken("%s on %r at %s" % (name, v, self.loc))
    ops = find_ops(self, v, name, len(args))
    if len(ops) != 1:
        raise AnalysisBroken("%s of %s: %d candidates at %s" % (name, v.rec, len(ops), self.loc))
    return self.call_fn(ops[0], cell, args, self.loc)


def _call_eq(self, a, b):
    av, bv = self.load(a), self.load(b)
    if isinstance(av, Obj):
        ops = find_ops(self, av, "operator==", 1)
        if len(ops) == 1:
            return self.call_fn(ops[0], a if isinstance(a, Cell) else Cell(a), [b], self.loc)
        fr = [f for f in self.prog.named("operator==") if len(f["params"]) == 2 and f.get("body")
              and not f.get("rec") and all(self.param_rec(f, i) == (av.rec, getattr(bv, "rec", None))[i] for i in (0, 1))]
        if len(fr) == 1:
            return self.call_fn(fr[0], None, [a, b], self.loc)
    raise AnalysisBroken("== of %r and %r at %s" % (av, bv, self.loc))


def _param_rec(self, f, i):
    T = f["T"]
    t = T[f["params"][i]["t"]]
    if t["k"] in ("ref", "rref"):
        t = T[t["to"]]
    return t.get("rec")


from interp import Interp
Interp.call_op = _call_op
Interp.call_eq = _call_eq
Interp.param_rec = _param_rec


@nat("std::vector::<ctor>")
def _(c):
    I = c.I
    rec = I.prog.recs[c.fn["rec"]]
    args = [a for a in c.args if not _is_alloc(I, a)]
    v = Vec(I, targ(I, rec))
    sp = c.fn.get("spec")
    if sp == "copy":
        v = I.copyval(I.load(args[0]))
    elif sp == "move":
        v = I.moveval(args[0])
    elif args:
        a = I.load(args[0])
        if isinstance(a, InitListV):
            for x in a.arr.cells:
                v.push(I, I.copyval(x.v))
        elif len(args) == 2 and it_kind(a):
            for x in range_vals(I, a, I.load(args[1])):
                v.push(I, x)
        elif isinstance(a, Vec):
            v = I.copyval(a)
        else:
            n = I.concretize(a)
            x = I.load(args[1]) if len(args) > 1 else None
            v.resize(I, n, x)
    c.this.v = v


def _is_alloc(I, a):
    v = a.v if isinstance(a, Cell) else a
    return isinstance(v, Obj) and "allocator" in v.rec


@nat("std::vector::operator=", "std::basic_string::operator=")
def _(c):
    I = c.I
    a = c.val(0)
    if isinstance(c.this.v, TemplStr) and not isinstance(a, TemplStr):
        new = TemplStr()
        add_piece(I, new.pieces, a)
    elif isinstance(a, InitListV):
        new = Vec(I, c.this.v.et, [Cell(I.copyval(x.v)) for x in a.arr.cells])
    elif isinstance(c.this.v, (Str,)) and not isinstance(a, Str):
        if isinstance(a, (int, Tab)):
            new = Str(I, c.this.v.et, [Cell(a)])
        else:
            a = as_view(I, a)
            new = TemplStr([a]) if hasattr(a, "is_view") else Str(I, c.this.v.et, [Cell(x) for x in a.chars(I)])
    elif c.fn.get("spec") == "moveassign":
        if c.args[0] is c.this:
            return c.this
        new = I.moveval(c.args[0])
        if isinstance(c.this.v, Vec):
            c.this.v.arr.dead = True
        c.this.v = new
        return c.this
    else:
        new = I.copyval(a)
    if isinstance(c.this.v, Vec) and not isinstance(new, TemplStr):
        c.this.v.assign_from(I, new)
    else:
        c.this.v = new
    return c.this


@nat("std::vector::size", "std::basic_string::size", "std::basic_string::length")
def _(c):
    v = V(c)
    return v.length(c.I) if hasattr(v, "length") else v.n()


@nat("std::vector::empty", "std::basic_string::empty")
def _(c):
    v = V(c)
    return v.empty(c.I) if hasattr(v, "empty") else v.n() == 0


@nat("std::vector::capacity", "std::basic_string::capacity")
def _(c):
    return V(c).cap


@nat("std::vector::reserve", "std::basic_string::reserve")
def _(c):
    n = c.val(0) if c.args else 0
    v = V(c)
    if hasattr(v, "reserve_sym"):
        return v.reserve_sym(c.I, n)
    if isinstance(v, TemplStr):
        return None
    if isinstance(n, Tab):
        n = c.I.concretize(n)
    v.reserve(c.I, n)


@nat("std::vector::begin", "std::vector::cbegin", "std::basic_string::begin", "std::basic_string::cbegin", "std::vector::data",
     "std::basic_string::data", "std::basic_string::c_str")
def _(c):
    v = V(c)
    if isinstance(v, InitListV):
        return Ptr(v.arr, 0)
    if hasattr(v, "begin_it"):
        return v.begin_it(c.I)
    return Ptr(v.arr, 0)


@nat("std::vector::end", "std::vector::cend", "std::basic_string::end", "std::basic_string::cend")
def _(c):
    v = V(c)
    if hasattr(v, "end_it"):
        return v.end_it(c.I)
    return Ptr(v.arr, len(v.arr.cells))


@nat("std::vector::front", "std::basic_string::front")
def _(c):
    v = V(c)
    if hasattr(v, "front_cell"):
        return v.front_cell(c.I)
    if v.n() == 0:
        c.I.ub("front-of-empty", c.loc, "front() of an empty container")
    return v.arr.cells[0]


@nat("std::vector::back", "std::basic_string::back")
def _(c):
    v = V(c)
    if hasattr(v, "back_cell"):
        return v.back_cell(c.I)
    if v.n() == 0:
        c.I.ub("front-of-empty", c.loc, "back() of an empty container")
    return v.arr.cells[-1]


@nat("std::vector::operator[]", "std::basic_string::operator[]", "std::vector::at", "std::basic_string::at")
def _(c):
    v = V(c)
    i = c.I.concretize(c.val(0))
    if not isinstance(i, int):
        raise AnalysisBroken("container index at " + c.loc)
    if i >= v.n():
        if c.qn.endswith("::at"):
            raise AbsThrow("std::out_of_range", c.loc)
        c.I.ub("out-of-bounds", c.loc, "index outside the container")
    return v.arr.cells[i]


@nat("std::vector::push_back", "std::basic_string::push_back")
def _(c):
    v = V(c)
    if isinstance(v, TemplStr):
        v.pieces.append(c.val(0))
        return None
    x = c.args[0]
    pt = c.fn["T"][c.fn["params"][0]["t"]]
    val = c.I.moveval(x) if pt["k"] == "rref" and isinstance(x, Cell) else c.I.copyval(c.I.load(x))
    if hasattr(v, "push_abs"):
        return v.push_abs(c.I, val)
    v.push(c.I, val)


@nat("std::vector::emplace_back")
def _(c):
    v = V(c)
    val = emplace_value(c.I, v.et, c.args, c.loc)
    if hasattr(v, "push_abs"):
        return v.push_abs(c.I, val)
    return v.push(c.I, val)


def emplace_value(I, et, args, loc):
    """value of type et constructed from args"""
    T, ty = et
    if not args:
        return I.default_value(T, ty, True)
    k = ty["k"]
    if k in ("int", "bool", "enum"):
        return I.conv(I.load(args[0]), ty)
    if k == "rec":
        rec = I.prog.recs[ty["rec"]]
        if rec["qn"] == "std::basic_string_view":
            cell = Cell()
            NATIVES["std::basic_string_view::<ctor>"](Call(I, {"T": T}, "", cell, args, loc, None, T))
            return cell.v
        if rec["qn"] == "std::tuple":
            tys = I.flat_targs(rec)
            if len(args) == 1 and isinstance(I.load(args[0]), Tup):
                return I.copyval(I.load(args[0]))
            return Tup([Cell(conv_into(I, t, a, loc)) for t, a in zip(tys, args)], tys)
        if rec["qn"] == "std::basic_string":
            return new_str(I, rec, [I.load(a) for a in args])
        if len(args) == 1:
            v = I.load(args[0])
            if isinstance(v, Obj) and v.rec == ty["rec"]:
                return I.copyval(v)
            if not isinstance(v, Obj):
                n = I.native_rec(rec)
                if n is not None and not isinstance(v, (int, Tab)):
                    return I.copyval(v)
        if rec["qn"] == "std::pair" and len(args) == 2:
            o = Obj(rec["key"])
            tys = I.flat_targs(rec)
            for i, (t, a) in enumerate(zip(tys, args)):
                o.f[(rec["key"], i)] = Cell(conv_into(I, t, a, loc))
            return o
        # find a user constructor by arity
        cs = [f for f in I.prog.fns.values() if f.get("rec") == rec["key"] and f.get("ctor") and f.get("body") is not None
              and len(f["params"]) == len(args) and not f.get("spec")]
        if len(cs) == 1:
            cell = Cell(Obj(rec["key"]))
            I.call_fn(cs[0], cell, list(args), loc)
            return cell.v
        if rec.get("aggregate") and len(args) <= len(rec["fields"]):
            o = I.default_obj(rec)
            for f, a in zip(rec["fields"], args):
                o.f[(rec["key"], f["fi"])] = Cell(conv_into(I, (rec["T"], rec["T"][f["t"]]), a, loc))
            return o
        raise AnalysisBroken("construction of %s at %s" % (rec["qn"], loc))
    return I.copyval(I.load(args[0]))


def conv_into(I, et, a, loc):
    """implicit conversion of argument a to type et, as a value"""
    T, ty = et
    if "k" not in ty:
        return I.copyval(I.load(a))
    if ty["k"] in ("ref", "rref"):
        return a
    v = I.load(a)
    if ty["k"] == "rec":
        rec = I.prog.recs.get(ty["rec"])
        if rec is not None:
            q = rec["qn"]
            if q == "std::function":
                return v if isinstance(v, Fun) else Fun(I.copyval(v))
            if q == "std::optional":
                if isinstance(v, Opt):
                    return I.copyval(v)
                if isinstance(v, Obj) and "nullopt" in v.rec:
                    return Opt(None, I.flat_targs(rec)[0])
                return Opt(Cell(conv_into(I, I.flat_targs(rec)[0], a, loc)), I.flat_targs(rec)[0])
            if q == "std::basic_string_view":
                return as_view(I, v)
            if q == "std::basic_string" and not isinstance(v, (Str, TemplStr)):
                return new_str(I, rec, [v])
            if q == "std::variant" and not isinstance(v, Var):
                return make_variant(I, rec, a, loc)
    if ty["k"] in ("int", "bool", "enum"):
        return I.conv(v, ty)
    return I.copyval(v)


@nat("std::vector::pop_back", "std::basic_string::pop_back")
def _(c):
    v = V(c)
    if hasattr(v, "pop_abs"):
        return v.pop_abs(c.I)
    if v.n() == 0:
        c.I.ub("front-of-empty", c.loc, "pop_back() of an empty container")
    del v.arr.cells[-1]


@nat("std::vector::clear", "std::basic_string::clear")
def _(c):
    v = V(c)
    if isinstance(v, TemplStr):
        v.pieces = []
        return
    if hasattr(v, "clear_abs"):
        return v.clear_abs(c.I)
    v.clear(c.I)


def _pos(I, v, p, loc):
    if not isinstance(p, Ptr) or p.arr is not v.arr:
        I.ub("bad-iterator", loc, "iterator does not belong to the container")
    if not (0 <= p.i <= v.n()):
        I.ub("bad-iterator", loc, "iterator outside the container")
    return p.i


@nat("std::vector::erase", "std::basic_string::erase")
def _(c):
    I, v = c.I, V(c)
    a = c.val(0) if c.args else 0
    if isinstance(a, Ptr):
        i = _pos(I, v, a, c.loc)
        if len(c.args) > 1:
            j = _pos(I, v, c.val(1), c.loc)
            if j < i:
                I.ub("bad-range", c.loc, "erase of a reversed range")
        else:
            j = i + 1
            if i >= v.n():
                I.ub("bad-iterator", c.loc, "erase at end()")
        del v.arr.cells[i:j]
        v.arr.renum()
        return Ptr(v.arr, i)
    i = I.concretize(a)
    n = I.concretize(c.val(1)) if len(c.args) > 1 else NPOS
    if i > v.n():
        raise AbsThrow("std::out_of_range", c.loc)
    del v.arr.cells[i:min(v.n(), i + n)]
    v.arr.renum()
    return c.this


@nat("std::vector::insert", "std::basic_string::insert")
def _(c):
    I, v = c.I, V(c)
    a = c.val(0)
    if isinstance(v, TemplStr) and isinstance(a, TemplPos):
        x = c.val(1)
        if a.owner is not v or len(c.args) != 2 or not (isinstance(x, (int, Tab)) or hasattr(x, "is_view")):
            raise AnalysisBroken("insertion into an opaque string at " + c.loc)
        v.pieces[len(v.pieces) if a.end else 0:0] = [x]
        return TemplPos(v, a.end)
    if isinstance(v, TemplStr):
        if isinstance(a, bool) or a != 0:
            raise AnalysisBroken("insertion inside an opaque string at " + c.loc)
        if len(c.args) == 3 and isinstance(c.val(1), int):
            v.pieces[:0] = [c.val(2)] * c.val(1)
        else:
            v.insert_front(I, c.val(1))
        return c.this
    if isinstance(v, Str) and not isinstance(a, Ptr) and hasattr(c.val(1), "is_view"):
        if a != 0:
            raise AnalysisBroken("insertion inside an opaque string at " + c.loc)
        t = TemplStr([c.val(1)] + v.chars(I))
        c.this.v = t
        return c.this
    if isinstance(v, Str) and not isinstance(a, Ptr):
        i = I.concretize(a)
        if i > v.n():
            raise AbsThrow("std::out_of_range", c.loc)
        if len(c.args) == 3 and isinstance(c.val(1), (int, Tab)):
            txt = [I.copyval(c.val(2)) for _ in range(I.concretize(c.val(1)))]
        else:
            txt = as_view(I, c.args[1]).chars(I)
            if len(c.args) == 3:
                txt = txt[:I.concretize(c.val(2))]
        v.insert(I, i, txt)
        return c.this
    if hasattr(v, "insert_abs"):
        return v.insert_abs(c)
    i = _pos(I, v, a, c.loc)
    if len(c.args) == 3:
        x, y = c.val(1), c.val(2)
        if it_kind(x):
            vals = range_vals(I, x, y)
        else:
            vals = [I.copyval(y) for _ in range(I.concretize(x))]
    else:
        x = c.val(1)
        vals = [I.copyval(e.v) for e in x.arr.cells] if isinstance(x, InitListV) else [I.copyval(x)]
    v.insert(I, i, vals)
    return Ptr(v.arr, i)


@nat("std::vector::resize", "std::basic_string::resize")
def _(c):
    V(c).resize(c.I, c.I.concretize(c.val(0)), c.val(1) if len(c.args) > 1 else None)


@nat("std::vector::assign", "std::basic_string::assign")
def _(c):
    I, v = c.I, V(c)
    x = c.val(0)
    if len(c.args) == 2 and it_kind(x) and it_kind(c.val(1)):
        vals = range_vals(I, x, c.val(1))
    elif isinstance(x, InitListV):
        vals = [I.copyval(e.v) for e in x.arr.cells]
    elif len(c.args) == 2 and isinstance(x, int):
        vals = [I.copyval(c.val(1)) for _ in range(x)]
    else:
        vals = as_view(I, x).chars(I)
    v.assign_from(I, type(v)(I, v.et, [Cell(y) for y in vals]))
    return c.this


@nat("std::vector::swap", "std::basic_string::swap")
def _(c):
    o = c.cell(0)
    c.this.v, o.v = o.v, c.this.v


@nat("std::vector::shrink_to_fit", "std::basic_string::shrink_to_fit", "std::vector::get_allocator")
def _(c):
    return None


def new_str(I, rec, vals):
    s = Str(I, targ(I, rec))
    if not vals:
        return s
    a = vals[0]
    if isinstance(a, TemplStr):
        return TemplStr(a.pieces)
    if hasattr(a, "is_view") or isinstance(a, OpaqueText):
        return TemplStr([a])
    if isinstance(a, InitListV):
        txt = [I.load(x) for x in a.arr.cells]
    elif len(vals) >= 2 and isinstance(a, Ptr) and isinstance(vals[1], Ptr):
        txt = range_vals(I, a, vals[1])
    elif len(vals) >= 2 and isinstance(a, Ptr) and isinstance(vals[1], int):
        txt = SV(a, vals[1]).chars(I)
    elif len(vals) >= 2 and isinstance(a, int):
        txt = [vals[1]] * a
    elif isinstance(a, (Str, SV, Ptr)):
        v = as_view(I, a)
        if len(vals) >= 2:
            raise AnalysisBroken("string constructor overload at " + I.loc)
        txt = v.chars(I)
    elif it_kind(a) or isinstance(a, Obj):
        txt = range_vals(I, a, vals[1])
    else:
        raise AnalysisBroken("string from %r at %s" % (a, I.loc))
    for x in txt:
        s.push(I, x)
    return s


class OpaqueText:
    pass


@nat("std::basic_string::<ctor>")
def _(c):
    I = c.I
    rec = I.prog.recs[c.fn["rec"]]
    if c.fn.get("spec") == "move":
        c.this.v = I.moveval(c.args[0])
        return
    if c.fn.get("spec") == "copy":
        c.this.v = I.copyval(I.load(c.args[0]))
        return
    vals = [I.load(a) for a in c.args if not _is_alloc(I, a)]
    if hasattr(I, "new_string"):
        t = I.new_string(rec)
        if len(vals) == 2 and all(isinstance(x, int) for x in vals):
            t.pieces += [vals[1]] * vals[0]
        elif len(vals) == 2 and isinstance(vals[0], Ptr) and isinstance(vals[1], int):
            t.pieces += SV(*vals).chars(I)
        elif len(vals) == 2 and hasattr(vals[0], "to_view"):
            add_piece(I, t.pieces, vals[0].to_view(I, vals[1]))
        elif len(vals) == 1:
            add_piece(I, t.pieces, vals[0])
        elif vals:
            t = new_str(I, rec, vals)
        c.this.v = t
        return
    c.this.v = new_str(I, rec, vals)


@nat("std::basic_string::operator+=", "std::basic_string::append")
def _(c):
    I, v = c.I, V(c)
    a = c.val(0)
    if isinstance(v, TemplStr):
        if len(c.args) == 2 and isinstance(a, int):
            v.pieces += [c.val(1)] * a
        elif len(c.args) == 2 and hasattr(a, "to_view"):
            add_piece(I, v.pieces, a.to_view(I, c.val(1)))
        elif len(c.args) == 2 and isinstance(a, Ptr):
            b = c.val(1)
            v.pieces += range_vals(I, a, b) if isinstance(b, Ptr) else SV(a, I.concretize(b)).chars(I)
        elif len(c.args) > 1 and not isinstance(a, (SV, Str)):
            raise AnalysisBroken("append of a part of %r at %s" % (a, c.loc))
        elif len(c.args) > 1:
            at = I.concretize(c.val(1))
            v.pieces += as_view(I, a).chars(I)[at:at + (I.concretize(c.val(2)) if len(c.args) > 2 else NPOS)]
        else:
            add_piece(I, v.pieces, a)
        return c.this
    if hasattr(a, "is_view"):
        # an opaque piece turns the whole string opaque
        t = TemplStr([x for x in v.chars(I)])
        add_piece(I, t.pieces, a)
        c.this.v = t
        return c.this
    if len(c.args) == 2 and isinstance(a, Ptr) and isinstance(c.val(1), Ptr):
        vals = range_vals(I, a, c.val(1))
    elif len(c.args) == 2 and isinstance(a, Ptr):
        vals = SV(a, I.concretize(c.val(1))).chars(I)
    elif len(c.args) == 2 and isinstance(a, int):
        vals = [c.val(1)] * a
    elif isinstance(a, (int, Tab)):
        vals = [a]
    elif isinstance(a, InitListV):
        vals = [I.load(x) for x in a.arr.cells]
    elif isinstance(a, (Str, SV, Ptr)):
        vals = as_view(I, a).chars(I)
    elif len(c.args) == 2:
        vals = range_vals(I, a, c.val(1))
    else:
        raise AnalysisBroken("append of %r at %s" % (a, c.loc))
    for x in vals:
        v.push(I, x)
    return c.this


def add_piece(I, pieces, a):
    if isinstance(a, TemplStr):
        pieces.extend(a.pieces)
    elif isinstance(a, (Str, SV)):
        pieces.extend(as_view(I, a).chars(I))
    elif isinstance(a, Ptr):
        pieces.extend(SV(a, cstrlen(I, a)).chars(I))
    else:
        pieces.append(a)


@nat("std::basic_string::operator basic_string_view", "std::basic_string::<conv>")
def _(c):
    v = V(c)
    if isinstance(v, TemplStr):
        return v
    return v.view(c.I)


@nat("std::basic_string::substr")
def _(c):
    I, v = c.I, V(c)
    pos = I.concretize(c.val(0)) if c.args else 0
    n = I.concretize(c.val(1)) if len(c.args) > 1 else NPOS
    if pos > v.n():
        raise AbsThrow("std::out_of_range", c.loc)
    return Str(I, v.et, [Cell(x.v) for x in v.arr.cells[pos:min(v.n(), pos + n)]])


@nat("std::basic_string::compare")
def _(c):
    return compare_views(c.I, as_view(c.I, c.this), as_view(c.I, c.args[0]))


@nat("std::operator+")
def _(c):
    I = c.I
    a, b = c.val(0), c.val(1)
    if not (isinstance(a, (Str, TemplStr)) or isinstance(b, (Str, TemplStr))):
        return NotImplemented
    if any(isinstance(x, TemplStr) or hasattr(x, "is_view") for x in (a, b)):
        t = TemplStr()
        add_piece(I, t.pieces, a)
        add_piece(I, t.pieces, b)
        return t
    s = Str(I, (a if isinstance(a, Str) else b).et)
    for x in (a, b):
        for ch in ([x] if isinstance(x, (int, Tab)) else as_view(I, x).chars(I)):
            s.push(I, ch)
    return s


def is_text(x):
    return isinstance(x, (SV, Str)) or hasattr(x, "is_view")


@nat("std::operator==", "std::operator!=")
def _(c):
    I = c.I
    a, b = c.val(0), c.val(1)
    neg = c.qn.endswith("!=")
    r = NotImplemented
    if neg and isinstance(a, Opt) and isinstance(b, Opt) and isinstance(a.et[1], dict) and a.et[1].get("k") == "rec" and \
            isinstance(getattr(a, "cell", None), Cell) and isinstance(a.cell.v, Obj):
        # optional's != compares the values with their own !=
        ha, hb = I.truth(a.has(I)), I.truth(b.has(I))
        if ha != hb or not ha:
            return ha != hb
        ops = find_ops(I, a.get(I).v, "operator!=", 1)
        if len(ops) == 1:
            return I.call_fn(ops[0], a.get(I), [b.get(I)], I.loc)
    if isinstance(a, Opt) or isinstance(b, Opt):
        r = opt_eq(I, a, b, c)
    elif isinstance(a, Vec) and isinstance(b, Vec) and not isinstance(a, Str):
        r = vec_eq(I, a, b)
    elif hasattr(a, "eq_abs"):
        r = a.eq_abs(I, b)
    elif is_text(a) or is_text(b):
        r = as_view(I, a).eq(I, as_view(I, b))
    elif isinstance(a, Tup) and isinstance(b, Tup):
        r = all_eq(I, a.cells, b.cells)
    elif isinstance(a, ErrC) or isinstance(b, ErrC):
        r = a == b
    if r is NotImplemented:
        return r
    if neg:
        r = I.to_bool_value(r)
        if isinstance(r, bool):
            return not r
        if isinstance(r, Atom):
            return Atom(r.key, not r.neg)
        return Tab(r.axes, ~r.arr, r.vers)
    return r


def value_eq(I, x, y):
    xv, yv = I.load(x), I.load(y)
    if isinstance(xv, (int, bool, Tab, Lin, Atom)) and isinstance(yv, (int, bool, Tab, Lin, Atom)):
        return I.rel("==", xv, yv)
    if is_text(xv):
        return xv.eq(I, yv) if not isinstance(xv, Str) else xv.view(I).eq(I, as_view(I, yv))
    if isinstance(xv, Opt) or isinstance(yv, Opt):
        return opt_eq(I, xv, yv, None)
    if isinstance(xv, Vec) and isinstance(yv, Vec):
        return vec_eq(I, xv, yv)
    if isinstance(xv, Ptr) or isinstance(yv, Ptr):
        return I.rel("==", xv, yv)
    return I.call_eq(x, y)


def opt_eq(I, a, b, c):
    def nul(x):
        return isinstance(x, Obj) and "nullopt" in x.rec
    if nul(b):
        return a.has(I) is False if isinstance(a.has(I), bool) else Atom(a.has(I).key, not a.has(I).neg)
    if nul(a):
        return opt_eq(I, b, a, c)
    if not isinstance(a, Opt):
        return opt_eq(I, b, a, c)
    ha = I.truth(a.has(I))
    if not isinstance(b, Opt):
        return value_eq(I, a.cell, b) if ha else False
    hb = I.truth(b.has(I))
    if ha != hb:
        return False
    if not ha:
        return True
    return value_eq(I, a.get(I), b.get(I))


def vec_eq(I, a, b):
    if a.n() != b.n():
        return False
    return all_eq(I, a.arr.cells, b.arr.cells)


def all_eq(I, xs, ys):
    for x, y in zip(xs, ys):
        if not I.truth(value_eq(I, x, y)):
            return False
    return True


# ---------------------------------------------------------------- optional
class Opt:
    def __init__(self, cell, et):
        self.cell = cell
        self.et = et

    def has(self, I):
        return self.cell is not None

    def get(self, I):
        return self.cell

    def copy_value(self, I):
        return type(self)(Cell(I.copyval(self.cell.v)) if self.cell is not None else None, self.et)

    def copy(self):
        raise AnalysisBroken("optional copied without a context")

    def move_value(self, I):
        return Opt(Cell(I.moveval(self.cell)) if self.cell is not None else None, self.et)

    def assign_from(self, I, o):
        h = o.has(I)
        if not (h if isinstance(h, bool) else I.truth(h)):
            self.cell = None
        elif self.cell is None:
            self.cell = Cell(o.get(I).v)
        else:
            I.assign_obj(self.cell, o.get(I).v)

    def to_bool(self, I):
        return self.has(I)

    def __repr__(self):
        return "Opt(%r)" % (self.cell,)


NATIVE_RECS["std::optional"] = lambda I, rec, T: Opt(None, targ(I, rec))


def is_nullopt(v):
    return isinstance(v, Obj) and "nullopt" in v.rec


@nat("std::optional::<ctor>")
def _(c):
    I = c.I
    rec = I.prog.recs[c.fn["rec"]]
    et = targ(I, rec)
    sp = c.fn.get("spec")
    if not c.args:
        c.this.v = Opt(None, et)
        return
    v = c.val(0)
    if is_nullopt(v):
        c.this.v = Opt(None, et)
    elif isinstance(v, Obj) and v.rec.startswith("std::in_place_t"):
        c.this.v = Opt(Cell(emplace_value(I, et, c.args[1:], c.loc)), et)
    elif isinstance(v, Opt):
        c.this.v = I.moveval(c.args[0]) if sp == "move" else I.copyval(v)
        if isinstance(c.this.v, Opt) and type(c.this.v) is Opt:
            c.this.v.et = et
    else:
        c.this.v = Opt(Cell(conv_into(I, et, c.args[0], c.loc)), et)


@nat("std::optional::operator=")
def _(c):
    I = c.I
    v = c.val(0)
    o = c.this.v
    if is_nullopt(v):
        if type(o) is Opt:
            o.cell = None
        else:
            c.this.v = Opt(None, o.et)
    elif isinstance(v, Opt):
        if v is o:
            return c.this
        if type(o) is Opt and type(v) is not Opt and o.cell is None:
            c.this.v = I.copyval(v)
        elif type(o) is Opt:
            o.assign_from(I, I.copyval(v))
        else:
            c.this.v = I.copyval(v)
    elif type(o) is not Opt:
        c.this.v = Opt(Cell(conv_into(I, o.et, c.args[0], c.loc)), o.et)
    else:
        x = conv_into(I, o.et, c.args[0], c.loc)
        if o.cell is None:
            o.cell = Cell(x)
        else:
            I.assign_obj(o.cell, x)
    return c.this


@nat("std::optional::has_value", "std::optional::<conv>", "std::optional::_M_is_engaged")
def _(c):
    return V(c).has(c.I)


@nat("std::optional::operator*", "std::optional::_M_get")
def _(c):
    o = V(c)
    if not c.I.truth(o.has(c.I)):
        c.I.ub("empty-optional", c.loc, "dereference of an empty optional")
    return o.get(c.I)


@nat("std::optional::operator->")
def _(c):
    o = V(c)
    if not c.I.truth(o.has(c.I)):
        c.I.ub("empty-optional", c.loc, "-> on an empty optional")
    return addr_of(o.get(c.I))


@nat("std::optional::value")
def _(c):
    o = V(c)
    if not c.I.truth(o.has(c.I)):
        raise AbsThrow("std::bad_optional_access", c.loc)
    return o.get(c.I)


@nat("std::optional::value_or")
def _(c):
    o = V(c)
    if c.I.truth(o.has(c.I)):
        return c.I.copyval(o.get(c.I).v)
    return conv_into(c.I, o.et, c.args[0], c.loc)


@nat("std::optional::emplace")
def _(c):
    o = c.this.v
    if type(o) is not Opt:
        o = c.this.v = Opt(None, o.et)
    o.cell = Cell(emplace_value(c.I, o.et, c.args, c.loc))
    return o.cell


@nat("std::optional::reset")
def _(c):
    o = c.this.v
    c.this.v = Opt(None, o.et)


@nat("std::optional::swap")
def _(c):
    o = c.cell(0)
    c.this.v, o.v = o.v, c.this.v


@nat("std::make_optional")
def _(c):
    rec = c.I.prog.recs[c.fn["T"][c.fn["ret"]]["rec"]]
    et = targ(c.I, rec)
    return Opt(Cell(emplace_value(c.I, et, c.args, c.loc)), et)


# ---------------------------------------------------------------- tuple / function / variant
class Tup:
    def __init__(self, cells, tys):
        self.cells, self.tys = cells, tys

    def copy_value(self, I):
        return Tup([c if self.isref(i) else Cell(I.copyval(c.v)) for i, c in enumerate(self.cells)], self.tys)

    def isref(self, i):
        return self.tys is not None and i < len(self.tys) and self.tys[i][1].get("k") in ("ref", "rref")

    def copy(self):
        raise AnalysisBroken("tuple copied without a context")

    def move_value(self, I):
        return Tup([c if self.isref(i) else Cell(I.moveval(c)) for i, c in enumerate(self.cells)], self.tys)

    def __repr__(self):
        return "Tup%r" % (self.cells,)


NATIVE_RECS["std::tuple"] = lambda I, rec, T: Tup([Cell(I.default_value(t[0], t[1], True)) for t in I.flat_targs(rec)], I.flat_targs(rec))


@nat("std::tuple::<ctor>")
def _(c):
    I = c.I
    rec = I.prog.recs[c.fn["rec"]]
    tys = I.flat_targs(rec)
    sp = c.fn.get("spec")
    args = c.args
    if sp == "move":
        c.this.v = I.moveval(args[0])
    elif sp == "copy":
        c.this.v = I.copyval(I.load(args[0]))
    elif not args:
        c.this.v = NATIVE_RECS["std::tuple"](I, rec, None)
    elif len(args) == 1 and len(tys) != 1 and isinstance(I.load(args[0]), Tup):
        src = I.load(args[0])
        rv = c.fn["T"][c.fn["params"][0]["t"]]["k"] == "rref"
        vals = [(I.moveval(x) if rv and not src.isref(i) else I.copyval(x.v)) for i, x in enumerate(src.cells)]
        c.this.v = Tup([Cell(conv_into(I, t, x, c.loc)) for t, x in zip(tys, vals)], tys)
    else:
        cells = []
        for i, t in enumerate(tys):
            a = args[i]
            if t[1]["k"] in ("ref", "rref"):
                cells.append(a if isinstance(a, Cell) else Cell(a))
            else:
                cells.append(Cell(conv_into(I, t, a, c.loc)))
        c.this.v = Tup(cells, tys)


@nat("std::make_tuple", "std::forward_as_tuple", "std::tie")
def _(c):
    rec = c.I.prog.recs[c.fn["T"][c.fn["ret"]]["rec"]]
    tys = c.I.flat_targs(rec)
    cells = []
    for t, a in zip(tys, c.args):
        if t[1]["k"] in ("ref", "rref"):
            cells.append(a if isinstance(a, Cell) else Cell(a))
        else:
            pass
            cells.append(Cell(conv_into(c.I, t, a, c.loc)))
    return Tup(cells, tys)


@nat("std::tuple::operator=")
def _(c):
    v = c.val(0)
    for d, s in zip(c.this.v.cells, v.cells):
        d.v = c.I.copyval(s.v)
    return c.this


@nat("std::get", "std::__get_helper")
def _(c):
    I = c.I
    v = I.load(c.args[0])
    ta = I.fn_targs(c.fn)[0][1]
    if isinstance(v, Tup):
        if "v" in ta:
            return v.cells[int(ta["v"])]
        for i, (T, t) in enumerate(v.tys):
            if t["n"] == ta["n"]:
                return v.cells[i]
        raise AnalysisBroken("std::get<T>")
    if isinstance(v, Var):
        if "v" in ta:
            idx = int(ta["v"])
        else:
            idx = [i for i, (T, t) in enumerate(v.alts) if t["n"] == ta["n"]][0]
        if v.idx != idx:
            raise AbsThrow("std::bad_variant_access", c.loc)
        return v.cell
    return NotImplemented


class Fun:
    """std::function"""
    def __init__(self, f):
        self.f = f
        self.cell = Cell(f)

    def copy_value(self, I):
        return Fun(I.copyval(self.f))

    def copy(self):
        return self

    def move_value(self, I):
        return Fun(self.f)

    def to_bool(self, I):
        return self.f is not None

    def invoke_value(self, I, args, loc):
        if self.f is None:
            raise AbsThrow("std::bad_function_call", loc)
        return I.invoke(self.cell, args, loc)


NATIVE_RECS["std::function"] = lambda I, rec, T: Fun(None)


@nat("std::function::<ctor>")
def _(c):
    if not c.args:
        c.this.v = Fun(None)
        return
    v = c.val(0)
    if isinstance(v, Fun):
        c.this.v = v
    elif v is NULL:
        c.this.v = Fun(None)
    else:
        c.this.v = Fun(c.I.copyval(v))


@nat("std::function::operator=")
def _(c):
    v = c.val(0)
    c.this.v = v if isinstance(v, Fun) else Fun(None if v is NULL else c.I.copyval(v))
    return c.this


@nat("std::function::operator()")
def _(c):
    return V(c).invoke_value(c.I, c.args, c.loc)


@nat("std::function::<conv>")
def _(c):
    return V(c).f is not None


class Var:
    def __init__(self, idx, cell, alts):
        self.idx, self.cell, self.alts = idx, cell, alts

    def copy_value(self, I):
        return Var(self.idx, Cell(I.copyval(self.cell.v)), self.alts)

    def copy(self):
        raise AnalysisBroken("variant copied without a context")

    def move_value(self, I):
        return Var(self.idx, Cell(I.moveval(self.cell)), self.alts)

    def __repr__(self):
        return "Var(%d,%r)" % (self.idx, self.cell)


def type_matches(I, v, T, ty):
    k = ty["k"]
    if k == "rec":
        rec = I.prog.recs[ty["rec"]]
        if isinstance(v, Obj):
            return v.rec == rec["key"]
        if isinstance(v, ErrC):
            return rec["qn"] == "std::error_code"
        q = rec["qn"]
        if isinstance(v, Ptr) and q == "__gnu_cxx::__normal_iterator":
            return True
        return {SV: "std::basic_string_view", Str: "std::basic_string", Vec: "std::vector", Opt: "std::optional",
                Tup: "std::tuple", Var: "std::variant", Fun: "std::function"}.get(type(v)) == q
    if k in ("int", "bool", "enum"):
        return isinstance(v, (int, Tab, Lin, Atom, bool))
    if k == "ptr":
        return isinstance(v, Ptr) or v is NULL
    return False


def bare(T, ty):
    """name of a type without reference and top-level const"""
    while ty["k"] in ("ref", "rref"):
        ty = T[ty["to"]]
    n = ty["n"]
    return n[6:] if n.startswith("const ") and ty["k"] != "ptr" else n


def make_variant(I, rec, a, loc, fn=None):
    alts = I.flat_targs(rec)
    v = I.load(a)
    if fn is not None and fn.get("params"):
        n = bare(fn["T"], fn["T"][fn["params"][0]["t"]])
        m = [i for i, (T, t) in enumerate(alts) if bare(T, t) == n]
        if len(m) == 1:
            return Var(m[0], Cell(conv_into(I, alts[m[0]], a, loc)), alts)
    m = [i for i, (T, t) in enumerate(alts) if type_matches(I, v, T, t)]
    if len(m) == 0 and isinstance(v, (SV, Ptr)):
        m = [i for i, (T, t) in enumerate(alts) if t["k"] == "rec" and "basic_string" in I.prog.recs[t["rec"]]["qn"]]
    if len(m) != 1:
        raise AnalysisBroken("variant alternative for %r at %s" % (v, loc))
    return Var(m[0], Cell(conv_into(I, alts[m[0]], a, loc)), alts)


NATIVE_RECS["std::variant"] = lambda I, rec, T: Var(0, Cell(I.default_value(I.flat_targs(rec)[0][0], I.flat_targs(rec)[0][1], True)), I.flat_targs(rec))


@nat("std::variant::<ctor>")
def _(c):
    I = c.I
    rec = I.prog.recs[c.fn["rec"]]
    alts = I.flat_targs(rec)
    if not c.args:
        c.this.v = NATIVE_RECS["std::variant"](I, rec, None)
        return
    v = c.val(0)
    if isinstance(v, Var):
        c.this.v = I.moveval(c.args[0]) if c.fn.get("spec") == "move" else I.copyval(v)
        return
    if isinstance(v, Obj) and v.rec.startswith("std::in_place_type_t") or isinstance(v, Obj) and v.rec.startswith("std::in_place_index_t"):
        if "index" in v.rec:
            idx = int(I.prog.recs[v.rec]["targs"][0]["v"])
        else:
            n = I.flat_targs(I.prog.recs[v.rec])[0][1]["n"]
            idx = [i for i, (T, t) in enumerate(alts) if t["n"] == n][0]
        c.this.v = Var(idx, Cell(emplace_value(I, alts[idx], c.args[1:], c.loc)), alts)
        return
    c.this.v = make_variant(I, rec, c.args[0], c.loc, c.fn)


@nat("std::variant::operator=")
def _(c):
    v = c.val(0)
    if isinstance(v, Var):
        n = c.I.copyval(v)
    else:
        rec = c.I.prog.recs[c.fn["rec"]]
        n = make_variant(c.I, rec, c.args[0], c.loc, c.fn)
    o = c.this.v
    if o.idx == n.idx and isinstance(o, Var):
        c.I.assign_obj(o.cell, n.cell.v)
    else:
        o.idx, o.cell = n.idx, n.cell
    return c.this


@nat("std::variant::index")
def _(c):
    return V(c).idx


def _alt_index(I, fn, v):
    ta = I.fn_targs(fn)[0][1]
    if "v" in ta:
        return int(ta["v"])
    m = [i for i, (T, t) in enumerate(v.alts) if t["n"] == ta["n"]]
    if len(m) != 1:
        raise AnalysisBroken("variant alternative " + ta["n"])
    return m[0]


@nat("std::get_if")
def _(c):
    p = c.val(0)
    if p is NULL:
        return NULL
    cell = c.I.deref(p)
    v = c.I.load(cell)
    return addr_of(v.cell) if v.idx == _alt_index(c.I, c.fn, v) else NULL


@nat("std::holds_alternative")
def _(c):
    v = c.val(0)
    return v.idx == _alt_index(c.I, c.fn, v)


@nat("std::variant::emplace")
def _(c):
    v = c.this.v
    idx = _alt_index(c.I, c.fn, v)
    v.idx = idx
    v.cell = Cell(emplace_value(c.I, v.alts[idx], c.args, c.loc))
    return v.cell


@nat("std::visit")
def _(c):
    I = c.I
    vs = [I.load(a) for a in c.args[1:]]
    try:
        return I.invoke(c.args[0], [v.cell for v in vs], c.loc)
    except Ambiguous:
        f = I.load(c.args[0])
        names = [bare(*v.alts[v.idx]) for v in vs]
        ops = [g for g in I.prog.named("operator()") if g.get("rec") == f.rec and g.get("body") is not None and
               [bare(g["T"], g["T"][p["t"]]) for p in g["params"]] == names]
        # a templated operator instantiated for several value categories of the same type does the same
        if not ops:
            raise AnalysisBroken("std::visit: no call operator for %s at %s" % (names, c.loc))
        return I.call_fn(ops[0], c.args[0] if isinstance(c.args[0], Cell) else Cell(f), [v.cell for v in vs], c.loc)


# ---------------------------------------------------------------- error codes
class ErrC:
    def __init__(self, val, cat):
        self.val, self.cat = val, cat

    def copy(self):
        return self

    def to_bool(self, I):
        return I.rel("!=", self.val, 0)

    def __eq__(self, o):
        return isinstance(o, ErrC) and o.val == self.val and o.cat == self.cat

    def __hash__(self):
        return hash(self.val)

    def __repr__(self):
        return "ErrC(%r,%s)" % (self.val, self.cat)


NATIVE_RECS["std::error_code"] = lambda I, rec, T: ErrC(0, "system")


@nat("std::error_code::<ctor>")
def _(c):
    if not c.args:
        c.this.v = ErrC(0, "system")
        return
    v = c.val(0)
    if isinstance(v, ErrC):
        c.this.v = v
    elif len(c.args) == 2:
        cat = c.val(1)
        c.this.v = ErrC(v, cat.rec if isinstance(cat, Obj) else str(cat))
    else:
        # from an error code enumeration: through make_error_code found by ADL
        T = c.fn["T"]
        t = T[c.fn["params"][0]["t"]]
        ms = [f for f in c.I.prog.named("make_error_code") if f.get("body") is not None and
              f["T"][f["params"][0]["t"]]["n"] == t["n"]]
        if len(ms) != 1:
            c.this.v = ErrC(v, t["n"])
        else:
            c.this.v = c.I.call_fn(ms[0], None, [v], c.loc)


@nat("std::make_error_code")
def _(c):
    return ErrC(c.val(0), "generic")


@nat("std::error_code::operator=")
def _(c):
    v = c.val(0)
    c.this.v = v if isinstance(v, ErrC) else ErrC(v, "enum")
    return c.this


@nat("std::error_code::<conv>", "std::error_code::operator bool")
def _(c):
    return V(c).to_bool(c.I)


@nat("std::error_code::value")
def _(c):
    return V(c).val


@nat("std::error_code::clear")
def _(c):
    c.this.v = ErrC(0, "system")


@nat("std::error_category::<ctor>")
def _(c):
    return None


# ---------------------------------------------------------------- utilities
@nat("std::move", "std::forward", "std::as_const", "std::move_if_noexcept", "std::__niter_base", "std::ranges::__cust_access::__as_const")
def _(c):
    if c.qn == "std::move" and len(c.args) > 1:
        return _copy_alg(c, True)
    return c.args[0] if isinstance(c.args[0], Cell) else Cell(c.args[0])


@nat("std::addressof", "std::__addressof")
def _(c):
    return addr_of(c.cell(0))


@nat("std::to_address", "std::__to_address")
def _(c):
    v = c.val(0)
    if isinstance(v, Ptr) or v is NULL:
        return v
    return NotImplemented


@nat("std::invoke", "std::__invoke", "std::__invoke_impl")
def _(c):
    args = c.args
    if c.qn.endswith("_impl"):
        args = args[1:]
    return c.I.invoke(args[0], list(args[1:]), c.loc)


@nat("std::swap")
def _(c):
    a, b = c.cell(0), c.cell(1)
    if isinstance(a.v, Arr):
        return NotImplemented
    a.v, b.v = b.v, a.v


@nat("std::exchange")
def _(c):
    a = c.cell(0)
    old = c.I.load(a)
    old = c.I.moveval(a)
    a.v = conv_like(c.I, c.fn, c.args[1])
    return old


def conv_like(I, fn, a):
    T = fn["T"]
    ty = T[fn["ret"]]
    return conv_into(I, (T, ty), a, I.loc)


@nat("std::__is_constant_evaluated", "std::is_constant_evaluated", "__builtin_is_constant_evaluated")
def _(c):
    return False


@nat("__builtin_expect", "__builtin_expect_with_probability")
def _(c):
    return c.val(0)


@nat("__builtin_unreachable", "std::unreachable")
def _(c):
    c.I.ub("unreachable", c.loc, "code marked unreachable can be reached")


@nat("__assert_fail", "abort", "std::abort", "std::terminate", "std::__glibcxx_assert_fail", "__glibcxx_assert_fail")
def _(c):
    c.I.ub("assert", c.loc, "assertion or abort reached")


@nat("std::__throw_out_of_range_fmt", "std::__throw_out_of_range", "std::__throw_length_error", "std::__throw_logic_error",
     "std::__throw_bad_optional_access", "std::__throw_bad_variant_access", "std::__throw_bad_function_call")
def _(c):
    raise AbsThrow(c.qn, c.loc)


# -- <cctype> in the "C" locale; a negative argument other than EOF is undefined behaviour
def ctype(pred, fn=False):
    def f(c):
        I = c.I
        v = c.val(0)
        I.ctype_used = True
        if isinstance(v, Tab):
            bad = Tab(v.axes, (v.norm().arr < 0) | (v.arr > 255), v.vers)
            if bad.arr.any():
                if I.hooks.get("ctype_neg"):
                    I.hooks["ctype_neg"](I, c)
                elif I.ctx.branch_tab(bad):
                    I.ub("ctype-negative", c.loc, "%s called with a negative character value" % c.qn)
                v.norm()
            a = v.arr
            tbl = np.array([pred(x) if x >= 0 else (x if fn else 0) for x in range(-128, 256)], dtype=np.int64)
            return Tab(v.axes, tbl[np.clip(a, -128, 255) + 128], v.vers)
        if isinstance(v, int):
            if v < -1 or v > 255:
                if I.hooks.get("ctype_neg"):
                    I.hooks["ctype_neg"](I, c)
                    return v if fn else 0
                I.ub("ctype-negative", c.loc, "%s called with a negative character value" % c.qn)
            return pred(v) if v >= 0 else (v if fn else 0)
        raise AnalysisBroken("ctype of %r" % (v,))
    return f


def _asc(f):
    return lambda x: int(x < 128 and f(chr(x)))


for _n, _p in {"isalpha": _asc(str.isalpha), "isdigit": _asc(lambda s: s in "0123456789"), "isalnum": _asc(str.isalnum),
               "isxdigit": _asc(lambda s: s in "0123456789abcdefABCDEF"), "isupper": _asc(str.isupper), "islower": _asc(str.islower),
               "isspace": _asc(lambda s: s in " \t\n\v\f\r"), "ispunct": _asc(lambda s: s.isprintable() and not s.isalnum() and s != " "),
               "isprint": _asc(lambda s: " " <= s <= "~"), "isgraph": _asc(lambda s: "!" <= s <= "~"),
               "iscntrl": _asc(lambda s: s < " " or s == "\x7f"), "isblank": _asc(lambda s: s in " \t")}.items():
    NATIVES[_n] = NATIVES["std::" + _n] = ctype(_p)
NATIVES["tolower"] = NATIVES["std::tolower"] = ctype(lambda x: ord(chr(x).lower()) if x < 128 else x, True)
NATIVES["toupper"] = NATIVES["std::toupper"] = ctype(lambda x: ord(chr(x).upper()) if x < 128 else x, True)


# -- char_traits and memory functions
@nat("std::char_traits::length", "strlen", "std::strlen", "__builtin_strlen")
def _(c):
    return cstrlen(c.I, c.val(0))


@nat("std::char_traits::eq")
def _(c):
    return c.I.rel("==", c.val(0), c.val(1))


@nat("std::char_traits::lt")
def _(c):
    u8 = {"k": "int", "w": 8, "s": False}
    return c.I.rel("<", c.I.conv(c.val(0), u8), c.I.conv(c.val(1), u8))


@nat("std::char_traits::compare", "memcmp", "std::memcmp", "__builtin_memcmp")
def _(c):
    n = c.I.concretize(c.val(2))
    return compare_views(c.I, SV(c.val(0), n), SV(c.val(1), n))


@nat("memmove", "memcpy", "std::memcpy", "std::memmove", "__builtin_memmove", "__builtin_memcpy", "std::char_traits::copy", "std::char_traits::move")
def _(c):
    I = c.I
    n = I.concretize(c.val(2))
    d, s = c.val(0), c.val(1)
    vals = [I.load(I.deref(I.ptr_add(s, i))) for i in range(n)]
    for i, v in enumerate(vals):
        I.store(I.deref(I.ptr_add(d, i)), v, c.loc)
    return d


# ---------------------------------------------------------------- iterators & algorithms
N = "__gnu_cxx::__normal_iterator::"


@nat(N + "<ctor>")
def _(c):
    c.this.v = c.val(0) if c.args else NULL


@nat(N + "operator=")
def _(c):
    c.this.v = c.val(0)
    return c.this


@nat(N + "operator*")
def _(c):
    return c.I.deref(V(c))


@nat(N + "operator->")
def _(c):
    return V(c)


@nat(N + "base")
def _(c):
    return c.this


@nat(N + "operator++", N + "operator--")
def _(c):
    old = V(c)
    c.this.v = c.I.ptr_add(old, 1 if c.qn.endswith("++") else -1)
    return old if c.args else c.this


@nat(N + "operator+=", N + "operator-=", N + "operator+", N + "operator-")
def _(c):
    n = c.val(0)
    if "operator-" in c.qn:
        n = c.I.arith("-", 0, n, I64)
    r = c.I.ptr_add(V(c), n)
    if c.qn.endswith("="):
        c.this.v = r
        return c.this
    return r


@nat(N + "operator[]")
def _(c):
    return c.I.deref(c.I.ptr_add(V(c), c.val(0)))


@nat("__gnu_cxx::operator==", "__gnu_cxx::operator!=", "__gnu_cxx::operator<", "__gnu_cxx::operator>", "__gnu_cxx::operator<=", "__gnu_cxx::operator>=")
def _(c):
    return c.I.rel(c.qn.split("operator")[1], c.val(0), c.val(1))


@nat("__gnu_cxx::operator<=>")
def _(c):
    return c.I.ptr_diff(c.val(0), c.val(1))


@nat("__gnu_cxx::operator-")
def _(c):
    return c.I.ptr_diff(c.val(0), c.val(1))


@nat("__gnu_cxx::operator+")
def _(c):
    return c.I.ptr_add(c.val(1), c.val(0))


@nat("std::begin", "std::cbegin", "std::end", "std::cend", "std::size", "std::empty", "std::data", "std::ssize")
def _(c):
    v = c.val(0)
    nm = c.qn.split("::")[1].lstrip("c")
    if isinstance(v, Arr):
        return {"begin": Ptr(v, 0), "end": Ptr(v, len(v.cells)), "size": len(v.cells), "ssize": len(v.cells), "empty": False, "data": Ptr(v, 0)}[nm]
    if isinstance(v, InitListV):
        a = v.arr
        return {"begin": Ptr(a, 0), "end": Ptr(a, len(a.cells)), "size": len(a.cells), "empty": not a.cells, "data": Ptr(a, 0)}[nm]
    if isinstance(v, (Str, Vec)):
        return NATIVES["std::vector::" + ("size" if nm == "ssize" else nm)](Call(c.I, c.fn, c.qn, c.cell(0), [], c.loc, c.t, c.T))
    if isinstance(v, SV) or hasattr(v, "is_view"):
        return NATIVES["std::basic_string_view::" + ("size" if nm == "ssize" else nm)](Call(c.I, c.fn, c.qn, c.cell(0), [], c.loc, c.t, c.T))
    return NotImplemented


@nat("std::initializer_list::begin", "std::initializer_list::end", "std::initializer_list::size")
def _(c):
    a = V(c).arr
    return {"begin": Ptr(a, 0), "end": Ptr(a, len(a.cells)), "size": len(a.cells)}[c.qn.rsplit("::", 1)[1]]


@nat("std::advance")
def _(c):
    p = c.cell(0)
    if it_kind(p.v):
        p.v = c.I.ptr_add(p.v, c.val(1))
        return None
    return NotImplemented


@nat("std::next", "std::prev")
def _(c):
    v = c.val(0)
    if it_kind(v):
        n = c.val(1) if len(c.args) > 1 else 1
        if c.qn.endswith("prev"):
            n = c.I.arith("-", 0, n, I64)
        return c.I.ptr_add(v, n)
    return NotImplemented


@nat("std::distance")
def _(c):
    a, b = c.val(0), c.val(1)
    if it_kind(a) and it_kind(b):
        r = c.I.ptr_diff(b, a)
        return r
    return NotImplemented


def out_write(I, out, v):
    """*out++ = v for the output iterator in cell `out`"""
    o = I.load(out)
    if it_kind(o):
        I.store(I.deref(o), v, I.loc)
        out.v = I.ptr_add(o, 1)
        return
    if isinstance(o, Obj) and "back_insert_iterator" in o.rec:
        p = [c.v for c in o.f.values()][0]
        cont = I.deref(p)
        cv = I.load(cont)
        if isinstance(cv, TemplStr):
            cv.pieces.append(v)
        elif hasattr(cv, "push_abs"):
            cv.push_abs(I, v)
        elif isinstance(cv, Vec):
            cv.push(I, conv_into(I, cv.et, v, I.loc))
        else:
            pb = [f for f in I.prog.named("push_back") if f.get("rec") == cv.rec and f.get("body")]
            I.call_fn(pb[0], cont, [v], I.loc)
        return
    raise AnalysisBroken("output iterator %r at %s" % (o, I.loc))


def _copy_alg(c, move=False):
    I = c.I
    a, b = c.val(0), c.val(1)
    if not it_kind(a):
        return NotImplemented
    out = Cell(I.copyval(I.load(c.args[2])))
    p = a
    while not it_eq(I, p, b):
        src = I.deref(p)
        out_write(I, out, I.moveval(src) if move else I.copyval(I.load(src)))
        p = I.ptr_add(p, 1)
    return out.v


@nat("std::copy")
def _(c):
    return _copy_alg(c)


@nat("std::copy_n")
def _(c):
    I = c.I
    out = Cell(I.copyval(I.load(c.args[2])))
    p = c.val(0)
    for _i in range(I.concretize(c.val(1))):
        out_write(I, out, I.copyval(I.load(it_deref(I, p))))
        p = it_next(I, p)
    return out.v


@nat("std::for_each")
def _(c):
    I = c.I
    p, e = c.val(0), c.val(1)
    if not it_kind(p):
        return NotImplemented
    f = Cell(I.copyval(c.val(2)))
    while not it_eq(I, p, e):
        I.invoke(f, [I.deref(p)], c.loc)
        p = I.ptr_add(p, 1)
    return f.v


def _scan(c, stop_on):
    """first iterator whose predicate value equals stop_on, or last"""
    I = c.I
    p, e = c.val(0), c.val(1)
    f = c.args[2]
    while not it_eq(I, p, e):
        if I.truth(I.load(I.invoke(f, [it_deref(I, p)], c.loc))) == stop_on:
            return p, True
        p = it_next(I, p)
    return p, False


@nat("std::find_if")
def _(c):
    return _scan(c, True)[0]


@nat("std::find_if_not")
def _(c):
    return _scan(c, False)[0]


@nat("std::any_of")
def _(c):
    return _scan(c, True)[1]


@nat("std::all_of")
def _(c):
    return not _scan(c, False)[1]


@nat("std::none_of")
def _(c):
    return not _scan(c, True)[1]


@nat("std::find")
def _(c):
    I = c.I
    p, e = c.val(0), c.val(1)
    while not it_eq(I, p, e):
        if I.truth(value_eq(I, it_deref(I, p), c.args[2])):
            return p
        p = it_next(I, p)
    return p


@nat("std::min", "std::max")
def _(c):
    if len(c.args) != 2:
        return NotImplemented
    I = c.I
    a, b = c.args[0], c.args[1]
    if c.qn.endswith("min"):
        return b if I.truth(I.rel("<", I.load(b), I.load(a))) else a
    return b if I.truth(I.rel("<", I.load(a), I.load(b))) else a


@nat("std::transform")
def _(c):
    I = c.I
    if len(c.args) != 4:
        return NotImplemented
    p, e = c.val(0), c.val(1)
    out = Cell(I.copyval(I.load(c.args[2])))
    while not it_eq(I, p, e):
        out_write(I, out, I.load(I.invoke(c.args[3], [it_deref(I, p)], c.loc)))
        p = it_next(I, p)
    return out.v


@nat("std::equal")
def _(c):
    I = c.I
    p, e, q = c.val(0), c.val(1), c.val(2)
    if len(c.args) >= 4 and it_kind(c.val(3)):
        n1, n2 = len(range_vals(I, p, e)), len(range_vals(I, q, c.val(3)))
        if n1 != n2:
            return False
        pred = c.args[4] if len(c.args) > 4 else None
    else:
        pred = c.args[3] if len(c.args) > 3 else None
    while not it_eq(I, p, e):
        x, y = it_deref(I, p), it_deref(I, q)
        if not I.truth(value_eq(I, x, y) if pred is None else I.load(I.invoke(pred, [x, y], c.loc))):
            return False
        p, q = it_next(I, p), it_next(I, q)
    return True


@nat("std::back_inserter")
def _(c):
    rec = c.I.prog.recs[c.fn["T"][c.fn["ret"]]["rec"]]
    o = Obj(rec["key"])
    f = [f for f in rec["fields"]]
    o.f[(rec["key"], f[0]["fi"])] = Cell(addr_of(c.cell(0)))
    return o


B = "std::back_insert_iterator::"


@nat(B + "<ctor>")
def _(c):
    rec = c.I.prog.recs[c.fn["rec"]]
    if c.fn.get("spec") in ("copy", "move"):
        c.this.v = c.I.copyval(c.val(0))
        return
    o = Obj(rec["key"])
    o.f[(rec["key"], rec["fields"][0]["fi"])] = Cell(addr_of(c.cell(0)))
    c.this.v = o


@nat(B + "operator*", B + "operator++")
def _(c):
    if c.args:
        return c.I.copyval(V(c))
    return c.this


@nat(B + "operator=")
def _(c):
    v = c.val(0)
    if isinstance(v, Obj) and v.rec == c.fn["rec"]:
        c.this.v = c.I.copyval(v)
        return c.this
    out_write(c.I, c.this, c.I.copyval(v))
    return c.this


# ---------------------------------------------------------------- bitset
class Bits:
    def __init__(self, n):
        self.n = n
        self.b = {}

    def copy_value(self, I):
        o = Bits(self.n)
        o.b = dict(self.b)
        return o

    def copy(self):
        return self.copy_value(None)


NATIVE_RECS["std::bitset"] = lambda I, rec, T: Bits(int(rec["targs"][0]["v"]))


@nat("std::bitset::<ctor>")
def _(c):
    if c.args:
        v = c.val(0)
        if isinstance(v, Bits):
            c.this.v = v.copy()
            return
        raise AnalysisBroken("bitset constructor at " + c.loc)
    c.this.v = Bits(int(c.I.prog.recs[c.fn["rec"]]["targs"][0]["v"]))


def _bitpos(c, i):
    b = V(c)
    p = c.I.concretize(i)
    if not isinstance(p, int):
        raise AnalysisBroken("bitset position at " + c.loc)
    return b, p


@nat("std::bitset::test", "std::bitset::operator[]")
def _(c):
    b, p = _bitpos(c, c.val(0))
    if p >= b.n:
        if c.qn.endswith("test"):
            raise AbsThrow("std::out_of_range", c.loc)
        c.I.ub("out-of-bounds", c.loc, "bitset index out of range")
    if c.qn.endswith("operator[]") and c.fn["T"][c.fn["ret"]]["k"] == "rec":
        return BitRef(b, p)
    return b.b.get(p, False)


class BitRef:
    """std::bitset::reference"""
    def __init__(self, b, p):
        self.b, self.p = b, p

    def copy(self):
        return self

    def get(self):
        return self.b.b.get(self.p, False)

    def to_bool(self, I):
        return I.truth(self.get())

    def move_value(self, I):
        return self


@nat("std::bitset::reference::operator=")
def _(c):
    r, x = V(c), c.val(0)
    r.b.b[r.p] = x.get() if isinstance(x, BitRef) else c.I.to_bool_value(x)
    return c.this


@nat("std::bitset::reference::operator bool", "std::bitset::reference::<conv>")
def _(c):
    return V(c).get()


@nat("std::bitset::reference::operator~", "std::bitset::reference::flip")
def _(c):
    r = V(c)
    v = 0 if c.I.truth(r.get()) else 1
    if c.qn.endswith("~"):
        return v
    r.b.b[r.p] = bool(v)
    return c.this


@nat("std::bitset::set")
def _(c):
    b = V(c)
    if not c.args:
        for i in range(b.n):
            b.b[i] = True
        return c.this
    b, p = _bitpos(c, c.val(0))
    if p >= b.n:
        raise AbsThrow("std::out_of_range", c.loc)
    b.b[p] = c.I.to_bool_value(c.val(1)) if len(c.args) > 1 else True
    return c.this


@nat("std::bitset::reset")
def _(c):
    b = V(c)
    if not c.args:
        b.b = {}
    else:
        b, p = _bitpos(c, c.val(0))
        if p >= b.n:
            raise AbsThrow("std::out_of_range", c.loc)
        b.b[p] = False
    return c.this


@nat("std::bitset::size")
def _(c):
    return V(c).n


@nat("std::bitset::any", "std::bitset::none", "std::bitset::all", "std::bitset::count")
def _(c):
    b = V(c)
    n = sum(1 for i in range(b.n) if c.I.truth(b.b.get(i, False)))
    return {"any": n > 0, "none": n == 0, "all": n == b.n, "count": n}[c.qn.rsplit("::", 1)[1]]


# ---------------------------------------------------------------- streams (text sinks)
class Stream:
    def __init__(self):
        self.pieces = []
        self.good = True

    def copy(self):
        return self


for _r in ("std::basic_ostream", "std::basic_stringstream", "std::basic_ostringstream", "std::basic_iostream", "std::basic_ios", "std::ios_base"):
    NATIVE_RECS[_r] = lambda I, rec, T: Stream()


@nat("std::basic_stringstream::<ctor>", "std::basic_ostringstream::<ctor>")
def _(c):
    c.this.v = Stream()
    if c.args:
        a = c.val(0)
        if isinstance(a, (Str, TemplStr, SV)):
            add_piece(c.I, c.this.v.pieces, a)


@nat("std::basic_stringstream::str", "std::basic_ostringstream::str", "std::basic_stringstream::view", "std::basic_ostringstream::view")
def _(c):
    return TemplStr(c.I.load(c.this).pieces)


def _shift(c):
    I = c.I
    if not c.args:
        return NotImplemented
    if c.this is not None:
        s, a = c.this, c.args[0]
    else:
        s, a = c.args[0], c.args[1]
    st = I.load(s)
    if not isinstance(st, Stream):
        return NotImplemented
    v = I.load(a)
    if isinstance(v, (FnRef, MemFnRef)):
        nm = I.prog.fns[v.key]["qn"]
        if nm in ("std::endl",):
            st.pieces.append(10)
        elif nm in ("std::flush", "std::ends"):
            pass
        else:
            raise AnalysisBroken("stream manipulator %s at %s" % (nm, c.loc))
        return s
    if isinstance(v, Ptr) or isinstance(v, (SV, Str, TemplStr)):
        add_piece(I, st.pieces, v)
    elif isinstance(v, (int, Tab)) and not isinstance(v, bool):
        pt = c.fn["params"][-1]
        t = c.fn["T"][pt["t"]]
        if t["k"] == "int" and t["w"] == 8:
            st.pieces.append(v)
        elif isinstance(v, int):
            st.pieces.extend(ord(x) for x in str(v))
        else:
            raise AnalysisBroken("number streamed at " + c.loc)
    elif isinstance(v, bool):
        st.pieces.append(ord("1") if v else ord("0"))
    elif hasattr(v, "is_view") or isinstance(v, OpaqueText):
        st.pieces.append(v)
    else:
        return NotImplemented
    return s


NATIVES["std::operator<<"] = _shift
NATIVES["std::basic_ostream::operator<<"] = _shift


@nat("std::basic_ostream::put")
def _(c):
    c.I.load(c.this).pieces.append(c.val(0))
    return c.this


@nat("std::basic_ostream::write")
def _(c):
    p = c.val(0)
    add_piece(c.I, c.I.load(c.this).pieces, p.to_view(c.I, c.val(1)) if hasattr(p, "to_view") else SV(p, c.I.concretize(c.val(1))))
    return c.this


@nat("std::basic_ostream::flush")
def _(c):
    return c.this


@nat("std::reverse_iterator::base")
def _(c):
    return NotImplemented


@nat("std::allocator::<ctor>", "std::allocator::allocator")
def _(c):
    c.this.v = Obj(c.fn["rec"])


@nat("std::numeric_limits::max", "std::numeric_limits::min", "std::numeric_limits::lowest")
def _(c):
    return NotImplemented


@nat("std::accumulate")
def _(c):
    return NotImplemented


@nat("__builtin_clz", "__builtin_clzl", "__builtin_clzll")
def _(c):
    v = c.I.concretize(c.val(0))
    if v == 0:
        c.I.ub("builtin", c.loc, "count of leading zeros of zero")
    return (32 if c.qn.endswith("clz") else 64) - v.bit_length()


@nat("__builtin_ctz", "__builtin_ctzl", "__builtin_ctzll")
def _(c):
    v = c.I.concretize(c.val(0))
    if v == 0:
        c.I.ub("builtin", c.loc, "count of trailing zeros of zero")
    return (v & -v).bit_length() - 1


@nat("__builtin_popcount", "__builtin_popcountl", "__builtin_popcountll")
def _(c):
    return bin(c.I.concretize(c.val(0)) & ((1 << 64) - 1)).count("1")


@nat("std::sort", "std::stable_sort")
def _(c):
    """any sorting permutation, decided by pairwise comparisons (insertion sort)"""
    I = c.I
    p, e = c.val(0), c.val(1)
    if not isinstance(p, Ptr) or not isinstance(e, Ptr):
        return NotImplemented
    cells = p.arr.cells[p.i:e.i]
    vals = [x.v for x in cells]
    out = []
    for v in vals:
        i = len(out)
        while i > 0:
            if len(c.args) > 2:
                less = I.truth(I.load(I.invoke(c.args[2], [Cell(v), Cell(out[i - 1])], c.loc)))
            elif isinstance(v, (int, Tab, Lin)):
                less = I.truth(I.rel("<", v, out[i - 1]))
            else:
                return NotImplemented
            if not less:
                break
            i -= 1
        out.insert(i, v)
    for x, v in zip(cells, out):
        x.v = v
    return None
