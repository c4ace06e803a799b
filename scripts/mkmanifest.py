"""Writes MANIFEST.json from the registry in sa/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "sa"))
import checks

NA = {
}
TECHNIQUE = {
    "C01": "abstract interpretation extracts the grammar; automaton equality with the RFC grammar decides",
    "C02": "abstract interpretation extracts the grammar; automaton equality with the RFC grammar decides",
    "C03": "abstract interpretation extracts the annotated grammar and accept effects; automaton equality per component decides",
    "C04": "abstract interpretation with component languages; automata inclusion decides each path",
    "C15": "typestate: fixpoint over the abstract states of each transcoder, in product with a reference decoder",
    "C17": "typestate: fixpoint over the abstract states of each transcoder, in product with a reference decoder",
    "C18": "typestate: fixpoint over the abstract states of the transcoder, in product with a reference decoder",
    "C20": "effect analysis over the transitive call graph (custom query over the type-checked program)",
    "C21": "call-graph cycle rule, nullability analysis of the extracted grammar, and step-bounded abstract interpretation",
    "C22": "provenance (points-to) analysis of every result view on every abstract path",
    "C23": "abstract interpretation with an undefined-behaviour obligation at every operation",
    "C14": "ownership and provenance analysis of every result view on every abstract path",
    "C29": "structural cost analysis (polynomial degree per node) of the extracted grammar, and loop-nesting rule over the call graph",
    "C25": "type-level: compile-time concept witnesses that fail to build on a violating program",
    "C31": "type-level: compile witnesses for every header, and a linkage rule over the compilers' intermediate representation",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
out = {"version": 1, "setup_cmd": "tool/build.sh", "checks": [], "not_applicable": [],
       "notes": "Every check parses /repo's working tree afresh with clang (tool/astdump) and decides from the syntax tree; nothing of /repo is run. "
                "Exit 2 means the analysis met a construct it cannot interpret (no verdict)."}
for i in ids:
    if i in checks.CHECKS:
        m = checks.META[i]
        out["checks"].append({"property": i, "quick_cmd": "./check %s" % i, "thorough_cmd": "./check %s --tier thorough" % i,
                              "technique": TECHNIQUE.get(i, "abstract interpretation of the type-checked syntax tree, exact per abstract path, compared with a written reference"),
                              "level": m["level"], "level_note": m.get("note") or ("Rule: %s. Assumes: %s. Trusted: clang 18 front end and the transfer functions in sa/." % (
                                  m["rule"], "; ".join(m.get("assumptions", [])) or "nothing beyond the trusted base"))})
    else:
        out["not_applicable"].append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(out["checks"]), "claimed;", [x["property"] for x in out["not_applicable"]], "not claimed")
