"""C29: how the work of split and split_reference grows with the text.

The extracted grammar has no recursion (C21), so the work of a matcher is a polynomial whose degree follows from its structure: for every
node a bound on its work when it matches - (1+consumed)^e + n^d - and when it fails - n^f - is computed bottom-up, n being the length of what
remains.  To that come the loops of the accept functions, of the functions of class rule and of the entry points."""
import run, split_check
from prog import AnalysisBroken, REPO
from grammar import Grammar, GrammarError, GrammarViolation
from term_check import nullable, refs

LIMIT = 2
LINEAR = {"find", "find_if", "find_if_not", "find_last", "rfind", "find_first_of", "find_last_of", "find_first_not_of", "find_last_not_of", "count", "count_if", "copy", "copy_if",
          "copy_n", "move_backward", "copy_backward", "transform", "for_each", "accumulate", "reduce", "all_of", "any_of", "none_of", "equal", "mismatch", "search", "sort", "stable_sort",
          "unique", "remove", "remove_if", "replace", "reverse", "rotate", "insert", "erase", "append", "substr_copy", "distance", "lexicographical_compare", "fill", "generate"}


def bounded(n):
    """is there a bound on the length of what the node can match?"""
    k = n[0]
    if k in ("cls", "fail"):
        return True
    if k in ("seq", "alt"):
        return all(bounded(x) for x in n[1])
    if k == "opt":
        return bounded(n[1])
    if k == "star":
        return n[3] is not None and bounded(n[1])
    if k == "cap":
        return bounded(n[2])
    if k == "look":
        return all(bounded(r) for _, r in n[1])
    raise AnalysisBroken("grammar node %s" % k)


def work(n, memo):
    """(e, d, f, fails): success costs (1+consumed)^e + n^d, failure n^f; fails: can it fail?"""
    if n in memo:
        return memo[n]
    k = n[0]
    if k == "cls":
        r = (0, 0, 0, True)
    elif k == "fail":
        r = (0, 0, 0, True)
    elif k == "cap":
        r = work(n[2], memo)
    elif k == "opt":
        e, d, f, c = work(n[1], memo)
        r = (e, max(d, f if c else 0), 0, False)
    elif k == "seq":
        e = d = f = 0
        fails = False
        for x in n[1]:
            xe, xd, xf, xc = work(x, memo)
            if xc:
                f = max(f, e, d, xf)
                fails = True
            e, d = max(e, 0 if bounded(x) else xe), max(d, xd)
        r = (e, d, f, fails)
    elif k == "alt":
        e = d = f = 0
        fails = True
        for x in n[1]:
            xe, xd, xf, xc = work(x, memo)
            e, d = max(e, xe), max(d, xd, f)
            f = max(f, xf)
            if not xc:
                fails = False
                break
        r = (e, d, f, fails)
    elif k == "star":
        xe, xd, xf, xc = work(n[1], memo)
        if n[3] is not None and n[3] < 1 << 16:
            r = (xe, max(xd, xf), max(xe if not bounded(n[1]) else 0, xd, xf) if n[2] else 0, n[2] > 0 and xc)
        else:
            if nullable(n[1]):
                raise AnalysisBroken("repetition of something that can match nothing (C21)")
            r = (max(xe, 1), max(xd + 1 if xd else 0, xf), max(xe if not bounded(n[1]) else 0, xd, xf) if n[2] else 0, n[2] > 0 and xc)
    elif k == "look":
        e = d = f = 0
        fails = True
        for conds, res in n[1]:
            for c in conds:
                if c[0] != "prefix":
                    ce, cd, cf, _ = work(c[1], memo)
                    d, f = max(d, cd, cf, 0 if bounded(c[1]) else ce), max(f, cd, cf, 0 if bounded(c[1]) else ce)
            xe, xd, xf, xc = work(res, memo)
            e, d, f = max(e, xe), max(d, xd), max(f, xf)
        r = (e, d, f, fails)
    else:
        raise AnalysisBroken("grammar node %s" % k)
    memo[n] = r
    return r


def degree(n, memo):
    e, d, f, c = work(n, memo)
    return max(e if not bounded(n) else 0, d, f if c else 0)


# ---- evaluation of the extracted grammar on texts built by repetition (to confirm that a bound above the limit is real)
class Budget(Exception):
    pass


def visits(n, txt, limit):
    count = [0]

    def go(n, p):
        count[0] += 1
        if count[0] > limit:
            raise Budget()
        k = n[0]
        if k == "cls":
            return p + 1 if p < len(txt) and txt[p] in n[1] else None
        if k == "fail":
            return None
        if k == "cap":
            return go(n[2], p)
        if k == "opt":
            q = go(n[1], p)
            return p if q is None else q
        if k == "seq":
            for x in n[1]:
                p = go(x, p)
                if p is None:
                    return None
            return p
        if k == "alt":
            for x in n[1]:
                q = go(x, p)
                if q is not None:
                    return q
            return None
        if k == "star":
            c = 0
            while n[3] is None or c < n[3]:
                q = go(n[1], p)
                if q is None:
                    break
                p, c = q, c + 1
            return p if c >= n[2] else None
        raise Budget()
    try:
        go(n, 0)
    except Budget:
        pass
    return count[0]


def witness(nodes):
    """A text family u x^k v on which some node's visits grow faster than the square of k: (text, exponent) or None."""
    import math
    heads = [b"", b"a:", b"a://", b"a:/", b"//", b"/", b"a://x@", b"a:?", b"a:#", b"a://["]
    tails = [b"", b"\x00", b"@", b"%", b"]", b":"]
    for n in nodes:
        for pump in (b"a", b"1", b"%41", b"a.", b"a/", b"/", b":", b"1:", b"a-", b"!", b"a:", b"..", b"a@", b"?", b"_", b"a=", b"&"):
            for h in heads:
                for t in tails:
                    a, b = visits(n, h + pump * 24 + t, 400000), visits(n, h + pump * 48 + t, 3200000)
                    if a > 2000 and b > a and math.log2(b / a) > 2.4:
                        c = visits(n, h + pump * 96 + t, 30000000)
                        if math.log2(c / b) > 2.4:
                            return "%s(%s)^k%s" % (h.decode(), pump.decode(), t.decode().replace("\x00", "\\0")), math.log2(c / b)
    return None


# ---- loops of ordinary code
def loop_depth(prog, key, memo, skip=frozenset()):
    """The deepest nesting of loops that run when the function does, into the library's own functions."""
    if key in memo:
        return memo[key]
    memo[key] = 0
    f = prog.fns.get(key)
    if f is None or f.get("body") is None:
        return 0

    def deps(x):
        out = set()
        refs(x, out)
        return out

    def node(x):
        if isinstance(x, list):
            return max([node(y) for y in x], default=0)
        if not isinstance(x, dict):
            return 0
        sub = max([node(v) for v in x.values()], default=0)
        own = 0
        for kk in ("fn", "op", "ctor"):
            t = x.get(kk)
            if isinstance(t, str) and t in prog.fns:
                g = prog.fns[t]
                qn = g["qn"]
                if str(g.get("loc", "")).startswith(REPO):
                    if qn not in skip:
                        own = max(own, loop_depth(prog, t, memo, skip))
                elif qn.startswith("std::") and qn.rsplit("::", 1)[-1] in LINEAR:
                    own = max(own, 1)
        if x.get("k") in ("For", "While", "Do", "DoWhile", "RangeFor", "ForRange"):
            return sub + 1
        return max(sub, own)
    memo[key] = node(f["body"])
    return memo[key]


def check(prog, C):
    for which in ("split", "split_reference"):
        qn = split_check.ENTRY[which][0]
        fn = prog.one(qn)
        G = Grammar(prog)
        try:
            paths = split_check.entry_paths(G, fn)
        except (GrammarError, GrammarViolation) as e:
            raise AnalysisBroken(str(e))
        memo = {}
        nodes = []
        for p in paths:
            for node, _, _ in p.conds:
                if node not in nodes:
                    nodes.append(node)
        top = max([degree(n, memo) for n in nodes], default=0)
        C.stat("grammar nodes bounded", len(memo))
        if top > LIMIT:
            w = witness(nodes)
            if w is None:
                raise AnalysisBroken("the work of %s is bounded by degree %d only" % (qn, top))
            C.violation(fn["loc"], "matching %s grows like n^%.1f (k repetitions; degree %d from the grammar's structure)" % (w[0], w[1], top), key="degree:" + which)
            C.obligation("%s: degree of the grammar" % qn, False)
        else:
            C.obligation("%s: the matchers' work is bounded by degree %d (%d nodes of the extracted grammar)" % (qn, top, len(memo)), True)
        # accept functions: each runs at most once per match, of which there are at most n
        lm = {}
        deep = 0
        for f, loc in G.acceptors:
            for k in calls_of(prog, f):
                deep = max(deep, loop_depth(prog, k, lm))
        if 1 + deep > LIMIT:
            raise AnalysisBroken("loops nested %d deep in an accept function of %s" % (deep, qn))
        C.obligation("%s: loops in %d accept functions are nested %d deep" % (qn, len(G.acceptors), deep), True)
        C.functions(prog, G.analysed)
    engine = [k for k, f in prog.fns.items() if f["qn"].startswith("uri::rule::") and f.get("body") is not None]
    worst = 0
    lm = {}
    for k in engine:
        d = loop_depth(prog, k, lm, frozenset(f["qn"] for f in prog.fns.values() if not f["qn"].startswith("uri::rule::")))
        worst = max(worst, d)
        if d > LIMIT:
            raise AnalysisBroken("loops nested %d deep in %s" % (d, prog.fns[k]["qn"]))
    C.obligation("loops of the %d functions of class rule, their calls of matchers aside, are nested at most %d deep" % (len(engine), worst), True)
    C.functions(prog, engine)


def calls_of(prog, f):
    """keys of the functions that calling the callable f can run"""
    from values import FnRef
    if isinstance(f, FnRef):
        return [f.key]
    rec = getattr(f, "rec", None)
    r = [k for k, g in prog.fns.items() if g.get("rec") == rec and g["qn"].endswith("operator()")] if rec is not None else []
    if not r:
        raise AnalysisBroken("accept function %r" % (f,))
    return r
