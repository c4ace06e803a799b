"""C27: the contract of the rule combinators, for a text of symbolic length and opaque matchers.

The text has length L0+L1+...+Lm+REST; the i-th successful match of an oracle matcher consumes Li characters.
Every combinator is interpreted with oracle matchers that succeed or fail independently, and its result is
observed through the public interface only (tail, matched, done)."""
from prog import AnalysisBroken
from values import *
from interp import Interp
import models
from models import Opt, Tup, Vec, Fun, SV

MAXM = 7


class SymView:
    is_view = True

    def __init__(self, off, ln):
        self.off, self.len = off, ln

    def copy(self):
        return self

    def length(self, I):
        return self.len.simp()

    def empty(self, I):
        return I.rel("==", self.len.simp(), 0)

    def sub(self, I, pos, n):
        return SymView(self.off.add(Lin.of(pos)), Lin.of(n))

    def at(self, I, i):
        if not I.truth(I.rel("<", i, self.len.simp())):
            I.ub("out-of-bounds", I.loc, "read past the end of the text")
        nm = "ch@%r" % (self.off.add(Lin.of(i)),)
        a = I.ctx.axes.get(nm)
        return Cell(Tab.of(a) if a is not None else I.ctx.axis(nm, range(-128, 128)))

    def data(self, I):
        return SymPtr(self.off, self.off.add(self.len))

    def end_ptr(self, I):
        return SymPtr(self.off.add(self.len), self.off.add(self.len))

    def eq(self, I, o):
        if isinstance(o, SymView) and o.off == self.off and o.len == self.len:
            return True
        raise AnalysisBroken("comparison of texts at " + I.loc)

    def __repr__(self):
        return "[%r,+%r)" % (self.off, self.len)


class SymPtr:
    """a place in the text, and where the view it came from ends"""
    def __init__(self, pos, end):
        self.pos, self.end = pos, end

    def copy(self):
        return self

    def ptr_add(self, I, n):
        return SymPtr(self.pos.add(Lin.of(n)), self.end)

    def deref(self, I):
        return SymView(self.pos, self.end.add(self.pos, -1)).at(I, 0)

    def rel(self, I, op, o):
        if isinstance(o, SymPtr):
            return I.rel(op, self.pos.add(o.pos, -1).simp(), 0)
        raise AnalysisBroken("comparison with a pointer into the text at " + I.loc)

    def to_view(self, I, n):
        n = n.pos.add(self.pos, -1) if isinstance(n, SymPtr) else Lin.of(n)
        if I.truth(I.rel(">", n.simp(), self.end.add(self.pos, -1).simp())):
            I.ub("out-of-bounds", I.loc, "a view that reaches past the end of the text")
        return SymView(self.pos, n)


def same(a, b):
    return a.off == b.off and a.len == b.len


class Bad(Exception):
    pass


class Skip(Exception):
    """What follows on this path depends on a deviation that the caller of contract() did not ask about."""


ALL = frozenset(["lang", "accept", "own", "engine", "ub"])


class T:
    """One scenario on one abstract path."""
    def __init__(self, prog, ctx, reports, analysed, aspects=ALL):
        self.aspects = aspects
        self.I = Interp(prog, ctx)
        self.I.reports = reports
        self.I.analysed = analysed
        self.prog = prog
        self.ctx = ctx
        self.used = 0
        self.accepts = []
        self.total = Lin({"L%d" % i: 1 for i in range(MAXM)} | {"REST": 1})

    def bad(self, aspect, msg):
        """A deviation counts only if the caller of contract() asked about this aspect of the engine: "lang" (what is
        matched), "accept" (which accept functions run, in which order, with which text), "own" (whose text they get),
        "engine" (the rest of the contract)."""
        if aspect in self.aspects:
            raise Bad(msg)
        if aspect == "lang":
            raise Skip()

    def call(self, name, *args):
        fn = self.prog.one("vtu::" + name)
        cells = [a if isinstance(a, Cell) else Cell(a) for a in args]
        r = self.I.call_fn(fn, None, cells, "tu/rules.cpp")
        return r

    def text(self):
        return SymView(Lin.of(0), self.total)

    def acceptor(self, name):
        def f(I, args):
            self.accepts.append((name, I.load(args[0])))
            return None
        n = NativeFn(f, name)
        return n

    def oracle(self, name, behave, log, inner=True):
        """matcher: behave() -> success?  On success consumes the next Li and carries one accept function."""
        def f(I, args):
            r = args[0]
            t = I.load_if(self.call("tail", r))
            if not t.has(I):
                raise Bad("a matcher is invoked on a rule that has already failed")
            v = t.get(I).v
            m = I.load_if(self.call("matched", r, r))
            if not m.has(I):
                raise Bad("matched() yields nothing for a rule that has not failed")
            tup = m.get(I).v
            vec = tup.cells[1].v
            if vec.n() != 0:
                raise Bad("a matcher is given a rule that already carries accept functions, which would run twice")
            ok = behave()
            ln = None
            if ok:
                if self.used >= MAXM:
                    raise PathEnd()
                ln = Lin.sym("L%d" % self.used)
                self.used += 1
            log.append((name, v, ok, ln))
            if not ok:
                return Opt(None, m.et)
            head = SymView(v.off, ln)
            if inner:
                tt = vec.et
                tys = I.flat_targs(I.prog.recs[tt[1]["rec"]])
                vec.push(I, Tup([Cell(Fun(self.acceptor("i:" + name + str(len(log) - 1)))), Cell(SymView(v.off, Lin.of(0)))], tys))
            tup.cells[0].v = head
            return m
        return NativeFn(f, name)

    def observe(self, r, start):
        """(tail view or None, head, [(acceptor name, text)])"""
        I = self.I
        t = I.load_if(self.call("tail", r))
        tv = t.get(I).v if t.has(I) else None
        m = I.load_if(self.call("matched", r, start))
        if (tv is not None) != bool(m.has(I)):
            raise Bad("matched() %s although the rule %s" % (("succeeds", "has failed") if tv is None else ("fails", "has matched")))
        if tv is None:
            return None, None, None
        tup = m.get(I).v
        acc = []
        for c in tup.cells[1].v.arr.cells:
            f = c.v.cells[0].v
            acc.append((self.fname(f), c.v.cells[1].v))
        return tv, tup.cells[0].v, acc

    def fname(self, f):
        while isinstance(f, Fun):
            f = f.f
        return f.name if isinstance(f, NativeFn) else repr(f)


def loc_of(prog, name):
    r = [f for f in prog.fns.values() if f["qn"] == "uri::rule::" + name and f.get("body") is not None]
    return r[0]["loc"] if r else "include/uri/rule.hpp"


def expect(t, r, start, ok, consumed, accs, what, origin):
    tv, head, acc = t.observe(r, start)
    for n, a in acc or []:
        if not isinstance(a, SymView):
            t.bad("own", "%s: accept function %s gets %r, which is no part of the text" % (what, n, a))
    if ok != (tv is not None):
        t.bad("lang", "%s: the result %s where it should have %s" % (what, "has failed" if tv is None else "has matched", "matched" if ok else "failed"))
        return
    if not ok:
        if t.I.load_if(t.call("done", r)) is not False:
            t.bad("lang", "%s: done() of a failed rule is not false" % what)
        if t.accepts:
            t.bad("accept", "%s: an accept function of a failed rule runs" % what)
        return
    off = origin.add(consumed)
    want = SymView(off, t.total.add(off, -1))
    if not same(tv, want):
        t.bad("lang", "%s: %r remains where %r should" % (what, tv, want))
    if not same(head, SymView(origin, consumed)):
        t.bad("accept", "%s: reports %r as matched instead of %r" % (what, head, SymView(origin, consumed)))
    if [n for n, _ in acc] != [n for n, _ in accs]:
        t.bad("accept", "%s: carries the accept functions %s instead of %s" % (what, [n for n, _ in acc], [n for n, _ in accs]))
    for (n, a), (_, b) in zip(acc, accs):
        if not same(a, b):
            t.bad("accept", "%s: accept function %s gets the text %r instead of %r" % (what, n, a, b))
    # done()
    d = t.I.truth(t.I.load_if(t.call("done", r)))
    empty = t.I.truth(t.I.rel("==", want.len.simp(), 0))
    if d != empty:
        t.bad("lang", "%s: done() is %s although %s" % (what, d, "nothing remains" if empty else "text remains"))
    if not d and t.accepts:
        t.bad("accept", "%s: an accept function runs although text remains" % what)
    if d:
        for n, a in t.accepts:
            if not isinstance(a, SymView):
                t.bad("own", "%s: done() gives accept function %s %r, which is no part of the text" % (what, n, a))
        if [n for n, _ in t.accepts] != [n for n, _ in accs]:
            t.bad("accept", "%s: done() runs %s instead of %s" % (what, [n for n, _ in t.accepts], [n for n, _ in accs]))
        for (n, a), (_, b) in zip(t.accepts, accs):
            if not same(a, b):
                t.bad("accept", "%s: done() gives accept function %s the text %r instead of %r" % (what, n, a, b))


def scenario(prog, op, variant, args, C, reports, analysed, aspects=ALL):
    """Runs one combinator in every oracle behaviour from both start states; returns the number of paths."""
    n = 0

    def run(ctx):
        t = T(prog, ctx, reports, analysed, aspects)
        I = t.I
        s0 = Cell(I.load_if(t.call("make", t.text())))
        log0 = []
        start_ok = ctx.choose(2, "start") == 0
        pre = t.oracle("pre", lambda: start_ok, log0)
        accs = []
        consumed = Lin.of(0)
        r1 = Cell(I.load_if(t.call("concat", s0, pre, t.acceptor("a:pre"))))
        if start_ok:
            h = SymView(Lin.of(0), Lin.sym("L0"))
            accs += [("i:pre0", SymView(Lin.of(0), Lin.of(0))), ("a:pre", h)]
            consumed = Lin.sym("L0")
        log = []
        limit = args.get("limit", 99)

        def behave():
            if len(log) >= limit:
                return False
            return ctx.choose(2, "m") == 0
        what = "%s %s" % (op, args.get("label", variant))
        m = [t.oracle("m%d" % i, behave, log) for i in range(4)]
        acc = t.acceptor("acc")
        if op in ("concat", "optional"):
            if variant == "0":
                r = t.call(op + "0", r1, m[0])
            else:
                r = t.call(op + variant, r1, m[0], acc)
        elif op == "star":
            if "min" in args:
                r = t.call("star", r1, m[0], args["min"], args["max"])
            else:
                r = t.call("star_default", r1, m[0])
        else:
            r = t.call("alt" + variant, r1, *m[:int(variant)])
        r = Cell(I.load_if(r))
        r = Cell(I.load_if(t.call("copy", r)))
        if not start_ok:
            if log:
                t.bad("engine", "%s: a matcher runs although matching has already failed" % what)
            expect(t, r, s0, False, None, None, what + " after a failure", Lin.of(0))
            return
        # every oracle invocation must be at the current position
        pos = consumed
        ok = True
        if op in ("concat", "optional"):
            if len(log) != 1:
                t.bad("lang", "%s: the matcher runs %d times" % (what, len(log)))
            _, v, s, ln = log[0]
            if not same(v, SymView(pos, t.total.add(pos, -1))):
                t.bad("lang", "%s: the matcher starts at %r" % (what, v))
            if s:
                accs.append(("i:m00", SymView(pos, Lin.of(0))))
                if variant != "0":
                    accs.append(("acc", SymView(pos, ln)))
                pos = pos.add(ln)
            elif op == "concat":
                ok = False
        elif op == "star":
            mx = args.get("max", 1 << 32)
            count = 0
            for i, (_, v, s, ln) in enumerate(log):
                if i and (not log[i - 1][2]):
                    t.bad("lang", "%s: matching goes on after the repetition ended" % what)
                if count == mx:
                    continue
                if not same(v, SymView(pos, t.total.add(pos, -1))):
                    t.bad("lang", "%s: repetition %d starts at %r instead of %r" % (what, i + 1, v, pos))
                if s:
                    accs.append(("i:m0%d" % i, SymView(pos, Lin.of(0))))
                    pos = pos.add(ln)
                    count += 1
            if log and log[-1][2] and count < mx:
                t.bad("lang", "%s: stops repeating before the matcher fails or the maximum is reached" % what)
            if not log and mx > 0:
                t.bad("lang", "%s: the matcher is never tried" % what)
            ok = count >= args.get("min", 0)
        else:
            for i, (nm, v, s, ln) in enumerate(log):
                if nm != "m%d" % i:
                    t.bad("lang", "%s: alternatives are tried in the wrong order" % what)
                if not same(v, SymView(pos, t.total.add(pos, -1))):
                    t.bad("lang", "%s: alternative %d starts at %r" % (what, i + 1, v))
                if s:
                    accs.append(("i:m%d%d" % (i, i), SymView(pos, Lin.of(0))))
                    pos = pos.add(ln)
                    if i != len(log) - 1:
                        t.bad("lang", "%s: another alternative is tried after one matched" % what)
            ok = bool(log) and log[-1][2]
            if not ok and len(log) != int(variant):
                t.bad("lang", "%s: gives up before trying every alternative" % what)
        if op == "concat" and not ok:
            pass
        expect(t, r, s0, ok, pos, accs, what, Lin.of(0))
    if "limit" not in args:
        args["limit"] = MAXM - 1
    def guarded(ctx):
        try:
            return run(ctx)
        except Skip:
            return None
    try:
        for ctx, _ in explore(guarded, 20000):
            n += 1
    except Bad as e:
        C.violation(loc_of(prog, op), str(e), key=op)
        C.obligation("%s %s" % (op, args.get("label", variant)), False)
        return n
    C.obligation("%s %s: %d behaviours" % (op, args.get("label", variant), n), True)
    return n


def single(prog, C, reports, analysed, aspects=ALL):
    def run(ctx):
        t = T(prog, ctx, reports, analysed, aspects)
        I = t.I
        s0 = Cell(I.load_if(t.call("make", t.text())))
        start_ok = ctx.choose(2, "start") == 0
        r1 = s0
        if not start_ok:
            r1 = Cell(I.load_if(t.call("concat0", s0, t.oracle("pre", lambda: False, []))))
        seen = []

        def pred(I2, args):
            seen.append(I2.load(args[0]))
            return ctx.choose(2, "pred") == 0
        m = I.load_if(t.call("single", r1, NativeFn(pred, "pred")))
        if not start_ok:
            if m.has(I) or seen:
                t.bad("lang", "single_char on a failed rule matches")
            return
        empty = I.truth(I.rel("==", t.total, 0))
        if empty:
            if m.has(I) or seen:
                t.bad("lang", "single_char matches at the end of the text")
            return
        if len(seen) != 1:
            t.bad("lang", "single_char consults its predicate %d times" % len(seen))
        a = seen[0]
        if not isinstance(a, Tab) or len(a.axes) != 1 or a.axes[0].name != "ch@0" or list(a.norm().arr) != list(a.axes[0].vals):
            t.bad("lang", "single_char does not test the first character")
        ok = ctx.trace[-1][0] == 0
        # the last choice made is the predicate's unless a later one was needed
        if m.has(I) != bool(ctx.pred):
            t.bad("lang", "single_char %s although its predicate says %s" % ("matches" if m.has(I) else "fails", ctx.pred))
        if m.has(I):
            tup = m.get(I).v
            h = tup.cells[0].v
            if not same(h, SymView(Lin.of(0), Lin.of(1))):
                t.bad("lang", "single_char consumes %r" % (h,))
            if tup.cells[1].v.n():
                t.bad("lang", "single_char carries accept functions")

    def run2(ctx):
        ctx.pred = None
        orig = ctx.choose

        def choose(n, what=""):
            r = orig(n, what)
            if what == "pred":
                ctx.pred = r == 0
            return r
        ctx.choose = choose
        try:
            return run(ctx)
        except Skip:
            return None
    n = 0
    try:
        for _ in explore(run2, 1000):
            n += 1
    except Bad as e:
        C.violation(loc_of(prog, "single_char"), str(e), key="single_char")
        C.obligation("single_char", False)
        return
    C.obligation("single_char: %d behaviours" % n, True)


def contract(prog, C, thorough=True, aspects=ALL):
    reports, analysed = [], set()
    paths = 0
    for v in ("", "_f", "0"):
        paths += scenario(prog, "concat", v, {"label": {"": "with an accept function", "_f": "with an accept object", "0": "plain"}[v]}, C, reports, analysed, aspects)
        paths += scenario(prog, "optional", v, {"label": {"": "with an accept function", "_f": "with an accept object", "0": "plain"}[v]}, C, reports, analysed, aspects)
    for v in ("1", "2", "3", "4"):
        paths += scenario(prog, "alternative", v, {"label": "of %s" % v}, C, reports, analysed, aspects)
    paths += scenario(prog, "star", "", {"label": "unbounded", "limit": 5}, C, reports, analysed, aspects)
    top = 6 if thorough else 4
    for mn in range(0, top):
        for mx in list(range(max(mn, 0), top)) + [(1 << 32) - 1]:
            paths += scenario(prog, "star", "", {"min": mn, "max": mx, "limit": min(6, top), "label": "%d..%s" % (mn, mx if mx < 1 << 31 else "")},
                              C, reports, analysed, aspects)
    single(prog, C, reports, analysed, aspects)
    for r in [r for r in reports if "ub" in aspects or r.kind in ("terminate", "uncaught-exception")]:
        C.violation(r.loc, "%s: %s" % (r.kind, r.msg), key=r.kind)
    C.stat("oracle behaviours interpreted", paths)
    C.functions(prog, analysed)
