"""C04: parts::valid() against the RFC 3986 production of every component."""
from values import *
from grammar import *
from automata import *
from symparts import sym_parts
import rfc3986

PROD = {"scheme": rfc3986.scheme, "userinfo": rfc3986.userinfo, "host": rfc3986.host, "port": rfc3986.port,
        "query": rfc3986.query, "fragment": rfc3986.fragment}


class ViewLang:
    pass


def check(prog, sizes, C):
    fn = [f for f in prog.fn_by_qn("uri::parts::valid")]
    if len(fn) != 1:
        raise AnalysisBroken("anchor uri::parts::valid")
    fn = fn[0]
    G = Grammar(prog)
    results = []
    loc = fn["loc"]
    try:
        for n in sizes:
            def run(ctx):
                I = G.interp(ctx)
                ctx.I = I
                o = sym_parts(I, "p", n)
                this = Cell(o)
                I.store_guard = None
                r = I.truth(I.load_if(I.call_fn(fn, this, [], loc)))
                return r
            for ctx, r in explore(run, 200000):
                results.append((n, ctx, r))
    except GrammarViolation as e:
        C.violation(e.loc or loc, e.msg, key="grammar")
        return
    # byte classes
    sets = set()
    for e in list(PROD.values()) + [rfc3986.segment]:
        regex_sets(rfc3986.strip(e), sets)
    for n, ctx, r in results:
        for k in ctx.facts:
            if k[0] in ("done", "peg"):
                peg_sets(k[3], sets)
        for a in ctx.axes.values():
            sets.add(frozenset(int(v) & 255 for v in a.vals))
    classes = byte_classes(sets)
    letters = list(range(len(classes)))
    spec = {k: regex_dfa(rfc3986.strip(v), classes, letters).minimize() for k, v in PROD.items()}
    spec["seg"] = regex_dfa(rfc3986.strip(rfc3986.segment), classes, letters).minimize()
    dcache = {}
    lcache = {}

    def dfa(node):
        if node not in dcache:
            dcache[node] = Peg(classes).dfa(node, letters, True).minimize()
        return dcache[node]
    anyd = DFA([{l: 0 for l in letters}], {0}, 0)

    def lang(ctx, nm):
        """texts of component nm this path stands for"""
        tok = Tok(nm)
        conds, cl, end, rest = look_constraint(ctx, tok)
        items = []
        for k, v in ctx.facts.items():
            if k[0] == "done" and k[1] == nm:
                node = k[3]
                if k[2]:
                    node = ("seq", tuple([("cls", ALL)] * k[2]) + (node,))
                items.append((node, v))
        key = (tuple(items), tuple(conds))
        if key not in lcache:
            ds, pol = [], []
            for node, v in items:
                ds.append(dfa(node))
                pol.append(v)
            if tuple(conds) != (("prefix", (), False),):
                ds.append(dfa(("look", ((tuple(conds), ("star", ("cls", ALL), 0, None)),))))
                pol.append(True)
            lcache[key] = boolean(ds, lambda m: all(a == b for a, b in zip(m, pol)), letters).minimize() if ds else anyd
        return lcache[key]

    def empty(d):
        return not d.acc
    icache = {}

    def inter(a, b):
        k = (id(a), id(b))
        if k not in icache:
            icache[k] = boolean([a, b], all, letters).minimize()
        return icache[k]

    def eps(d):
        return d.start in d.acc

    def nonempty_word(d):
        return any(True for _ in d.trans[d.start]) if d.acc else False
    sub = {}

    def subset(a, b):
        k = (id(a), id(b))
        if k not in sub:
            sub[k] = difference(a, b, letters, "a-b")
        return sub[k]
    npath = 0
    for n, ctx, r in results:
        npath += 1
        has = {k[1][2:]: v for k, v in ctx.facts.items() if k[0] == "has"}
        absolute = {k[1]: v for k, v in ctx.facts.items() if k[0] == "flag"}.get("p.absolute")
        bad = [k for k in ctx.facts if k[0] not in ("has", "flag", "done", "end", "peg")]
        if bad:
            C.violation(loc, "valid() depends on %r, which RFC 3986 does not mention" % (bad[0],), key="dep")
            continue
        views = []     # (name, spec, presence) presence True/None(undecided)
        for c in ("scheme", "query", "fragment"):
            views.append((c, spec[c], has.get(c)))
        au = has.get("authority")
        for c in ("userinfo", "port"):
            views.append((c, spec[c], None if au is None else (au and has.get(c)) if has.get(c) is not None else (None if au else False)))
        views.append(("host", spec["host"], au))
        for i in range(n):
            views.append(("seg%d" % i, spec["seg"], True))
        L = {c: lang(ctx, "p." + c) for c, _, _ in views}
        if any(empty(L[c]) for c, _, pres in views if pres):
            continue                     # no parts object takes this path

        def slashes(a, segs):
            """can the path begin with // / must it, given the segment languages"""
            if a:
                return n >= 2 and eps(segs[0]), n >= 2 and not nonempty_word(segs[0])
            return (n >= 3 and eps(segs[0]) and eps(segs[1])), \
                (n >= 3 and not nonempty_word(segs[0]) and not nonempty_word(segs[1]))
        if r:
            if has.get("scheme") is not True:
                C.violation(loc, "valid() can be true for parts without a scheme", key="scheme")
                continue
            for c, s, pres in views:
                if pres is False:
                    continue
                if pres is None or pres is True:
                    d = subset(L[c], s)
                    if d is not None:
                        C.violation(loc, "valid() is true although %s is \"%s\", which its RFC 3986 production does not match" % (
                            c, show(d[0], classes)), key="accepts:" + c.rstrip("0123456789"))
            if au is not True:
                segs = [L["seg%d" % i] for i in range(n)]
                for a in ([absolute] if absolute is not None else [True, False]):
                    if slashes(a, segs)[0]:
                        C.violation(loc, "valid() is true although there is no authority and the path text begins with \"//\" "
                                         "(%s path, %d segments)" % ("absolute" if a else "relative", n), key="slashes")
        else:
            if has.get("scheme") is False:
                continue
            ok = True
            for c, s, pres in views:
                if pres and empty(inter(L[c], s)):
                    ok = False
            if ok and au is False:
                segs = [inter(L["seg%d" % i], spec["seg"]) for i in range(n)]
                if all(slashes(a, segs)[1] for a in ([absolute] if absolute is not None else [True, False])):
                    ok = False
            if ok:
                w = []
                for c, s, pres in views:
                    if pres:
                        x = difference(inter(L[c], s), DFA([{}], set(), 0), letters)
                        w.append("%s=\"%s\"" % (c, show(x[0], classes) if x else ""))
                C.violation(loc, "valid() is false for valid parts: %s%s" % (" ".join(w), "" if au else " (no authority)"), key="rejects")
    for n in sizes:
        C.obligation("valid() is exact for parts with %d path segments (%d paths)" % (n, sum(1 for m, _, _ in results if m == n)),
                     not C.violations)
    C.stat("abstract paths", npath)
    C.stat("component languages compared", len(lcache))
    C.functions(prog, G.analysed)
    for r in G.reports:
        C.violation(r.loc, "%s: %s" % (r.kind, r.msg), key=r.kind)
