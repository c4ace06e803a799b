"""C21: no recursion, no repetition over something that can match nothing, and no abstract path without an end."""
import networkx as nx
import interp, run, split_check, whole
from prog import AnalysisBroken, REPO, repo_program
from grammar import Grammar, GrammarError, GrammarViolation


def refs(n, out):
    stack = [n]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            for k in ("fn", "op", "ctor", "dtor"):
                if isinstance(x.get(k), str):
                    out.add(x[k])
            stack.extend(x.values())
        elif isinstance(x, list):
            stack.extend(x)


def call_graph(prog):
    g = nx.DiGraph()
    for k, f in prog.fns.items():
        if f.get("body") is None:
            continue
        out = set()
        refs(f["body"], out)
        refs(f.get("inits", []), out)
        for t in out:
            if t in prog.fns:
                g.add_edge(k, t)
    return g


def recursion(prog, C, seen):
    g = call_graph(prog)
    mine = [k for k in g if str(prog.fns[k].get("loc", "")).startswith(REPO)]
    C.stat("functions in the call graph", len(g))
    C.stat("call and reference edges", g.number_of_edges())
    cyc = 0
    for comp in nx.strongly_connected_components(g):
        if len(comp) == 1:
            k = next(iter(comp))
            if not g.has_edge(k, k):
                continue
        own = sorted(prog.fns[k]["qn"] + " (" + str(prog.fns[k]["loc"]) + ")" for k in comp if k in set(mine))
        if not own or tuple(own) in seen:
            continue
        seen.add(tuple(own))
        peaks = {k: C.peak.get(k, 1 if prog.fns[k]["qn"] in C.entered else 0) for k in comp if k in set(mine)}
        if all(0 < n <= 2 for n in peaks.values()):
            # entered while active, but never more than once however long the input
            C.obligation("recursion of %s is one level deep on every analysed path" % own[0].split(" (")[0])
            continue
        cyc += 1
        C.violation(own[0].split("(")[-1][:-1], "recursive: %s" % " -> ".join(o.split(" (")[0] for o in own), key="recursion:" + own[0].split(" (")[0])
    C.obligation("no recursion among %d functions of the library" % len(mine), cyc == 0)
    C.functions(prog, mine)


def nullable(n):
    k = n[0]
    if k == "cls":
        return False
    if k == "seq":
        return all(nullable(x) for x in n[1])
    if k == "alt":
        return any(nullable(x) for x in n[1])
    if k == "opt":
        return True
    if k == "star":
        return n[2] == 0 or nullable(n[1])
    subs = [x for x in n[1:] if isinstance(x, tuple) and x and isinstance(x[0], str)]
    return all(nullable(x) for x in subs)


def stars(n, out):
    if isinstance(n, tuple):
        if n and n[0] == "star" and len(n) == 4:
            out.append(n)
        for x in n:
            stars(x, out)


def repetitions(prog, C):
    for which in ("split", "split_reference"):
        qn = split_check.ENTRY[which][0]
        fn = prog.one(qn)
        G = Grammar(prog)
        try:
            paths = split_check.entry_paths(G, fn)
        except (GrammarError, GrammarViolation) as e:
            C.violation(getattr(e, "loc", None) or fn["loc"], str(e), key="grammar")
            continue
        found = set()
        for p in paths:
            for node, _, _ in p.conds:
                out = []
                stars(node, out)
                found |= set(out)
        bad = [s for s in found if nullable(s[1]) and (s[3] is None or s[3] > 1 << 16)]
        for s in bad:
            C.violation(fn["loc"], "the grammar of %s repeats without limit something that can match nothing" % qn, key="nullable:" + qn)
        C.obligation("%s: every one of %d repetitions consumes something each time" % (qn, len(found)), not bad)


def check(C):
    C.only = None
    S = repo_program(["rules.cpp", "parts.cpp", "pct.cpp"])
    repetitions(S, C)
    # every function's peak of simultaneous activations over all the abstract paths
    programs = whole.everything(C, whole.END, S, light=C.tier != "thorough")
    C.only = None
    seen = set()
    for k, n in interp.PEAK.items():        # of what this process interpreted itself
        C.peak[k] = max(C.peak.get(k, 0), n)
    C.entered = {q for _, q in C.fns}
    for p in programs:
        recursion(p, C, seen)
