"""C21, C23: the analyses of the other properties over every entry point, read for one kind of report only."""
import run
from prog import repo_program
import algo_check, coding_check, icu_check, paths_check, pct_check, puny_check, rules, split_check, valid_check

END = {"non-termination", "diverges"}
UB = {"assert", "bad-iterator", "bad-range", "builtin", "ctype-negative", "dangling", "division-by-zero", "empty-optional", "front-of-empty", "missing-return",
      "null-arith", "null-deref", "out-of-bounds", "pointer-compare", "pointer-difference", "shift", "signed-overflow", "terminate", "uncaught-exception", "uninitialised-read", "unreachable",
      "write-const"}


def everything(C, only, prog=None, light=False):
    """runs every analysis with C recording only the given kinds of report"""
    deep = C.tier == "thorough"
    C.only = only
    P = prog or repo_program(["rules.cpp", "parts.cpp", "pct.cpp"])
    A = repo_program(["algo.cpp"])
    I, Q = icu_check.program(), puny_check.program()
    C.pool = []
    jobs = C.pool
    jobs += split_check.annotation_jobs(P, "split") + split_check.annotation_jobs(P, "split_reference")
    jobs.append(lambda S: rules.contract(P, S))
    jobs += [(lambda S, n=n: valid_check.check(P, n, S)) for n in ([0, 1, 2], [3], [40])]
    paths_check.join_check(P, C, [(0, 0), (1, 0), (0, 1), (1, 1), (2, 1), (1, 2), (2, 2)] + ([(3, 2), (2, 3), (4, 1)] if deep else []), [(0, 0), (1, 1)])
    paths_check.dots_check(P, C, list(range(7 if deep else 6)), [("mixed", [3, 1, 0, 3, 2, 0, 3, 2, 2, 3] * 7), ("only ..", [2] * 40), ("empty segments and ..", [0, 0, 2] * 20)])
    paths_check.compose_check(P, C, [0, 1, 2, 3])
    paths_check.equality_check(P, C, [(0, 0), (0, 1), (1, 0), (1, 1), (2, 2), (2, 3)])
    if not light:
        pct_check.encode_check(P, C, 2 if deep else 1)
        pct_check.decode_check(P, C, 5 if deep else 4)
    else:
        pct_check.roundtrip_check(P, C, 1)
        pct_check.decode_check(P, C, 2)
    C.sparse = 1 if deep else 25 if light else 7
    coding_check.coding_check(P, C, ["encode", "decode"], "value")
    jobs += algo_check.jobs(A, "quick")
    jobs += puny_check.jobs(Q, "thorough" if deep else "quick", True)[::1 if deep else 12 if light else 4]
    big = []
    for n in ("8_32", "8_16", "8_8"):
        big.append(icu_check.machine_job(I, n, ("consume", "again"), **({} if deep or n == "8_32" and not light else {"unit_vals": icu_check.COARSE["8"]})))
    for n in ("x_32", "x_16", "x_8") if deep else () if light else ("x_16",):
        big += icu_check.byte_jobs(I, n, [(0, 3)] if deep else [], icu_check.BYTES8)
    jobs += [icu_check.machine_job(I, n) for n in ("16_32", "16_16", "16_8")]
    jobs += icu_check.wide_jobs(I, False)
    jobs += icu_check.view_jobs(I, deep) + icu_check.count_jobs(I, deep)
    jobs[:0] = big
    C.pool = None
    run.parallel(C, jobs)
    return P, I, A, Q
