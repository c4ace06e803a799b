"""Finite automata over small letter alphabets, and the alternating-automaton semantics of ordered-choice
(PEG-style) grammars with look-ahead and capture markers."""
from prog import AnalysisBroken


class GrammarError(Exception):
    """The grammar itself is defective (a repetition that can loop without consuming input, ...)."""


# ------------------------------------------------------------------ BDD
class BDD:
    def __init__(self):
        self.nodes = [None, None]      # 0 = False, 1 = True
        self.uniq = {}
        self.cache = {}

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        n = self.uniq.get(k)
        if n is None:
            n = len(self.nodes)
            self.nodes.append(k)
            self.uniq[k] = n
        return n

    def var(self, v):
        return self.mk(v, 0, 1)

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = self.cache.get(k)
        if r is not None:
            return r
        v = self.nodes[f][0]
        if g > 1:
            v = min(v, self.nodes[g][0])
        if h > 1:
            v = min(v, self.nodes[h][0])

        def cof(x):
            if x > 1 and self.nodes[x][0] == v:
                return self.nodes[x][1], self.nodes[x][2]
            return x, x
        f0, f1 = cof(f)
        g0, g1 = cof(g)
        h0, h1 = cof(h)
        r = self.mk(v, self.ite(f0, g0, h0), self.ite(f1, g1, h1))
        self.cache[k] = r
        return r

    def conj(self, a, b):
        return self.ite(a, b, 0)

    def disj(self, a, b):
        return self.ite(a, 1, b)

    def neg(self, a):
        return self.ite(a, 0, 1)


# ------------------------------------------------------------------ PEG nodes (tuples)
# ("cls", frozenset) ("seq", (nodes...)) ("alt", (nodes...)) ("opt", n) ("star", n, min, max|None)
# ("cap", k, n) ("fail",) ("look", ((constraint, node), ...))
# constraint: (tuple of (frozenset or None) per position, end)   end: None = unknown, else input ends there
# or ("peg", node, bool) entries in a list of further conditions

EPS = ("seq", ())
FAIL = ("fail",)


class Peg:
    """F(continuation) formulas and derivatives."""
    def __init__(self, classes):
        self.bdd = BDD()
        self.vars = []
        self.varid = {}
        self.fcache = {}
        self.progress = set()
        self.classes = classes        # list of frozenset of bytes (partition)
        self.dcache = {}
        self.rep = [min(c) for c in classes]

    def v(self, key):
        i = self.varid.get(key)
        if i is None:
            i = len(self.vars)
            self.vars.append(key)
            self.varid[key] = i
        return self.bdd.var(i)

    # cont: None = end of input required, True = anything may follow, (node, cont)
    def F(self, cont, plain):
        if cont is None:
            return self.v(("end",))
        if cont is True:
            return 1
        k = (id(cont[0]), cont[0], cont[1], plain)
        k = (cont, plain)
        r = self.fcache.get(k)
        if r is not None:
            return r
        if k in self.progress:
            raise GrammarError("a repetition can succeed without consuming any input")
        self.progress.add(k)
        r = self._F(cont[0], cont[1], plain)
        self.progress.discard(k)
        self.fcache[k] = r
        return r

    def _F(self, n, rest, plain):
        t = n[0]
        b = self.bdd
        if t == "cls":
            return self.v(("cls", n[1], rest, plain))
        if t == "seq":
            c = rest
            for x in reversed(n[1]):
                c = (x, c)
            return self.F(c, plain)
        if t == "fail":
            return 0
        if t == "alt":
            r, guard = 0, 1
            for x in n[1]:
                r = b.disj(r, b.conj(guard, self.F((x, rest), plain)))
                guard = b.conj(guard, b.neg(self.F((x, True), True)))
            return r
        if t == "opt":
            x = n[1]
            return b.disj(self.F((x, rest), plain), b.conj(b.neg(self.F((x, True), True)), self.F(rest, plain)))
        if t == "star":
            x, mn, mx = n[1], n[2], n[3]
            if mx is not None and mx < mn:
                # matches at most mx+1 repetitions are counted before the minimum is tested
                pass
            if mn > 0:
                nx = None if mx is None else mx - 1
                if mx is not None and mx <= 0:
                    # maximum reached with the minimum outstanding: one further successful match makes the
                    # count maximum+1, which satisfies a minimum of maximum+1
                    if mn == 1:
                        return b.conj(self.F((x, True), True), self.F(rest, plain))
                    return 0
                return self.F((x, (("star", x, mn - 1, nx), rest)), plain)
            if mx == 0:
                return self.F(rest, plain)
            again = ("star", x, 0, None if mx is None else mx - 1)
            return b.disj(self.F((x, (again, rest)), plain),
                          b.conj(b.neg(self.F((x, True), True)), self.F(rest, plain)))
        if t == "cap":
            if plain:
                return self.F((n[2], rest), plain)
            return self.v(("open", n[1], n[2], rest))
        if t == "close":
            if plain:
                return self.F(rest, plain)
            return self.v(("close", n[1], rest))
        if t == "look":
            r = 0
            for conds, res in n[1]:
                g = 1
                for c in conds:
                    g = b.conj(g, self.cond(c))
                if g != 0:
                    r = b.disj(r, b.conj(g, self.F((res, rest), plain)))
            return r
        raise AnalysisBroken("grammar node " + t)

    def cond(self, c):
        if c[0] == "prefix":
            # classes at successive positions, then ("end") or anything
            cont = None if c[2] else True
            for s in reversed(c[1]):
                cont = (("cls", s), cont)
            return self.F(cont, True)
        if c[0] == "peg":
            f = self.F((c[1], True), True)
            return f if c[2] else self.bdd.neg(f)
        raise AnalysisBroken("look-ahead " + str(c[0]))

    def delta(self, var, letter):
        key = self.vars[var]
        t = key[0]
        if isinstance(letter, tuple):             # capture marker
            if t == "cls":
                return self.bdd.var(var) if key[3] else 0
            if t == "open":
                if letter == ("o", key[1]):
                    return self.F((key[2], (("close", key[1]), key[3])), False)
                return 0
            if t == "close":
                return self.F(key[2], False) if letter == ("c", key[1]) else 0
            return 0                               # ("end",)
        if t == "cls":
            return self.F(key[2], key[3]) if self.rep[letter] in key[1] else 0
        return 0

    def derive(self, f, letter):
        if f < 2:
            return f
        k = (f, letter)
        r = self.dcache.get(k)
        if r is not None:
            return r
        v, lo, hi = self.bdd.nodes[f]
        r = self.bdd.ite(self.delta(v, letter), self.derive(hi, letter), self.derive(lo, letter))
        self.dcache[k] = r
        return r

    def accepts(self, f):
        while f > 1:
            v, lo, hi = self.bdd.nodes[f]
            f = hi if self.vars[v] == ("end",) else lo
        return f == 1

    def dfa(self, node, letters, plain, limit=200000):
        start = self.F((node, None), plain)
        ids = {start: 0}
        order = [start]
        trans = []
        acc = set()
        i = 0
        while i < len(order):
            f = order[i]
            row = {}
            for x in letters:
                g = self.derive(f, x)
                if g == 0:
                    continue
                if g == 1:
                    # anything may follow: only possible for unanchored formulas
                    pass
                if g not in ids:
                    ids[g] = len(order)
                    order.append(g)
                    if len(order) > limit:
                        raise AnalysisBroken("grammar automaton too large")
                row[x] = ids[g]
            trans.append(row)
            if self.accepts(f):
                acc.add(i)
            i += 1
        return DFA(trans, acc, 0)


class DFA:
    """Partial DFA: missing transitions reject."""
    def __init__(self, trans, acc, start):
        self.trans, self.acc, self.start = trans, acc, start

    def trim(self):
        """Drop states from which nothing is accepted."""
        n = len(self.trans)
        rev = [[] for _ in range(n)]
        for s, row in enumerate(self.trans):
            for x, t in row.items():
                rev[t].append(s)
        live = set(self.acc)
        todo = list(live)
        while todo:
            s = todo.pop()
            for p in rev[s]:
                if p not in live:
                    live.add(p)
                    todo.append(p)
        self.live = live
        for s in range(n):
            self.trans[s] = {x: t for x, t in self.trans[s].items() if t in live} if s in live else {}
        return self

    def minimize(self):
        self.trim()
        n = len(self.trans)
        # partition refinement (Moore)
        part = [1 if s in self.acc else 0 for s in range(n)]
        k = len(set(part))
        while True:
            sig = {}
            new = [0] * n
            for s in range(n):
                key = (part[s], tuple(sorted(((repr(x), part[t]) for x, t in self.trans[s].items()))))
                if key not in sig:
                    sig[key] = len(sig)
                new[s] = sig[key]
            if len(sig) == k:
                break
            part, k = new, len(sig)
        trans = [{} for _ in range(k)]
        acc = set()
        for s in range(n):
            for x, t in self.trans[s].items():
                trans[new[s]][x] = new[t]
            if s in self.acc:
                acc.add(new[s])
        return DFA(trans, acc, new[self.start]).reach()

    def reach(self):
        ids = {self.start: 0}
        order = [self.start]
        trans = []
        for s in order:
            row = {}
            for x, t in self.trans[s].items():
                if t not in ids:
                    ids[t] = len(order)
                    order.append(t)
                row[x] = ids[t]
            trans.append(row)
        return DFA(trans, {ids[s] for s in self.acc if s in ids}, 0)


def determinize(starts, step, accept, letters, closure, limit=400000):
    """Subset construction. step(state, letter) -> iterable of states; closure(set) -> set."""
    s0 = frozenset(closure(starts))
    ids = {s0: 0}
    order = [s0]
    trans = []
    acc = set()
    for cur in order:
        row = {}
        if any(accept(q) for q in cur):
            acc.add(ids[cur])
        for x in letters:
            nxt = set()
            for q in cur:
                nxt.update(step(q, x))
            if not nxt:
                continue
            f = frozenset(closure(nxt))
            if f not in ids:
                ids[f] = len(order)
                order.append(f)
                if len(order) > limit:
                    raise AnalysisBroken("subset construction too large")
            row[x] = ids[f]
        trans.append(row)
    return DFA(trans, acc, 0)


def difference(a, b, letters, want=None):
    """Shortest word accepted by exactly one of the DFAs (or by a and not b when want='a-b',
    by both when want='a&b'). None when there is none."""
    start = (a.start, b.start)
    seen = {start: None}
    todo = [start]
    for cur in todo:
        s, t = cur
        x = s is not None and s in a.acc
        y = t is not None and t in b.acc
        hit = (x != y) if want is None else (x and not y) if want == "a-b" else (x and y)
        if hit:
            w = []
            c = cur
            while seen[c] is not None:
                c, l = seen[c]
                w.append(l)
            return list(reversed(w)), x
        for l in letters:
            s2 = a.trans[s].get(l) if s is not None else None
            t2 = b.trans[t].get(l) if t is not None else None
            if s2 is None and t2 is None:
                continue
            if want == "a-b" and s2 is None:
                continue
            if want == "a&b" and (s2 is None or t2 is None):
                continue
            n = (s2, t2)
            if n not in seen:
                seen[n] = (cur, l)
                todo.append(n)
    return None


def boolean(dfas, fn, letters, limit=400000):
    """DFA for a boolean combination fn(tuple of memberships) of DFAs (complete product)."""
    start = tuple(d.start for d in dfas)
    ids = {start: 0}
    order = [start]
    trans = []
    acc = set()
    for cur in order:
        if fn(tuple(s is not None and s in d.acc for s, d in zip(cur, dfas))):
            acc.add(ids[cur])
        row = {}
        for l in letters:
            n = tuple(d.trans[s].get(l) if s is not None else None for s, d in zip(cur, dfas))
            if n not in ids:
                ids[n] = len(order)
                order.append(n)
                if len(order) > limit:
                    raise AnalysisBroken("product automaton too large")
            row[l] = ids[n]
        trans.append(row)
    return DFA(trans, acc, 0)


# ------------------------------------------------------------------ regular expressions -> DFA
# ("cls", set) ("seq", (..)) ("alt", (..)) ("star", e) ("rep", e, min, max) ("mark", letter)
def nfa(regex):
    """Thompson construction; returns (start, accept, edges, eps)."""
    edges, eps = [], []

    def new():
        edges.append([])
        eps.append([])
        return len(edges) - 1

    def go(e, s):
        t = e[0]
        if t in ("cls", "mark"):
            n = new()
            edges[s].append((e, n))
            return n
        if t == "seq":
            for x in e[1]:
                s = go(x, s)
            return s
        if t == "alt":
            end = new()
            for x in e[1]:
                a = new()
                eps[s].append(a)
                eps[go(x, a)].append(end)
            return end
        if t == "star":
            a = new()
            eps[s].append(a)
            z = go(e[1], a)
            eps[z].append(a)
            end = new()
            eps[a].append(end)
            return end
        if t == "rep":
            mn, mx = e[2], e[3]
            for _ in range(mn):
                s = go(e[1], s)
            if mx is None:
                return go(("star", e[1]), s)
            end = new()
            eps[s].append(end)
            for _ in range(mx - mn):
                s = go(e[1], s)
                eps[s].append(end)
            return end
        raise AnalysisBroken("regex " + t)
    s = new()
    z = go(regex, s)
    return s, z, edges, eps


def regex_dfa(regex, classes, letters):
    s, z, edges, eps = nfa(regex)
    rep = [min(c) for c in classes]

    def closure(states):
        seen = set(states)
        todo = list(seen)
        while todo:
            q = todo.pop()
            for r in eps[q]:
                if r not in seen:
                    seen.add(r)
                    todo.append(r)
        return seen

    def step(q, l):
        for e, n in edges[q]:
            if e[0] == "mark":
                if l == e[1]:
                    yield n
            elif not isinstance(l, tuple) and rep[l] in e[1]:
                yield n
    return determinize([s], step, lambda q: q == z, letters, closure)


def byte_classes(sets):
    """Coarsest partition of 0..255 such that every given set is a union of classes."""
    sig = {}
    for b in range(256):
        k = tuple(b in s for s in sets)
        sig.setdefault(k, set()).add(b)
    return [frozenset(v) for v in sig.values()]


def peg_sets(n, out):
    t = n[0]
    if t == "cls":
        out.add(n[1])
    elif t in ("seq", "alt"):
        for x in n[1]:
            peg_sets(x, out)
    elif t in ("opt", "star"):
        peg_sets(n[1], out)
    elif t == "cap":
        peg_sets(n[2], out)
    elif t == "look":
        for conds, res in n[1]:
            peg_sets(res, out)
            for c in conds:
                if c[0] == "prefix":
                    out.update(c[1])
                else:
                    peg_sets(c[1], out)
    return out


def regex_sets(e, out):
    if e[0] == "cls":
        out.add(frozenset(e[1]))
    elif e[0] in ("seq", "alt"):
        for x in e[1]:
            regex_sets(x, out)
    elif e[0] in ("star", "rep"):
        regex_sets(e[1], out)
    return out


def show(word, classes, marks=False):
    """A readable string for a word of class letters."""
    out = []
    for l in word:
        if isinstance(l, tuple):
            if marks:
                out.append("<%s>" % (l[0] + (str(l[1]) if len(l) > 1 else "")))
            continue
        c = classes[l]
        pick = sorted(c, key=lambda b: (not (97 <= b <= 122), not (48 <= b <= 57), not (33 <= b <= 126), b))[0]
        out.append(chr(pick) if 33 <= pick <= 126 else "\\x%02x" % pick)
    return "".join(out)
