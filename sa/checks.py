"""Registry: property -> analysis, and what its evidence says."""
from prog import repo_program
import split_check

CHECKS, META = {}, {}
LANG, MARKS, OWN = frozenset(["lang"]), frozenset(["lang", "accept"]), frozenset(["own", "ub"])


def engine(aspects):
    """The part of the combinators' contract (C27) that reading a grammar off its rules relies on."""
    def job(C):
        import rules
        rules.contract(repo_program(["rules.cpp"]), C, aspects=aspects)
    return job



def check(pid, level, rule, **kw):
    def deco(f):
        CHECKS[pid] = f
        META[pid] = dict(level=level, rule=rule, **kw)
        return f
    return deco


@check("C01", "proof", "grammar built by uri::split, extracted by abstract interpretation of the rule constructors, accepts the same "
       "language as RFC 3986 URI (automaton equality), and the rule combinators it is built from match what their contract says")
def c01(C):
    split_check.language_check(repo_program(), "split", C)
    engine(LANG)(C)


@check("C02", "proof", "grammar built by uri::split_reference accepts the same language as RFC 3986 URI-reference (automaton equality), and the "
       "rule combinators it is built from match what their contract says")
def c02(C):
    split_check.language_check(repo_program(), "split_reference", C)
    engine(LANG)(C)


@check("C03", "proof", "product of the annotated grammar with the accept functions' effect on the result equals the RFC 3986 decomposition "
       "for every component (automaton equality)")
def c03(C):
    import run
    P = repo_program()
    run.parallel(C, split_check.annotation_jobs(P, "split") + split_check.annotation_jobs(P, "split_reference") + [engine(MARKS)])


@check("C04", "other", "every abstract path of parts::valid() (presence facts x component languages) agrees with the RFC 3986 productions, by "
       "automata inclusion in both directions, for 0..4 and 40 path segments",
       assumptions=["the segment loop treats elements uniformly: sizes other than those analysed behave alike"])
def c04(C):
    import valid_check
    valid_check.check(repo_program(), [0, 1, 2, 3, 4, 40] if C.tier == "thorough" else [0, 1, 2, 3, 4, 40], C)
    engine(LANG)(C)


@check("C27", "other", "each rule combinator, interpreted with opaque matchers over a text of symbolic length, consumes, reports and accepts exactly "
       "what its contract says, for every success/failure pattern of the matchers",
       assumptions=["repetition counts above the unrolled bound (6) behave like those below it: the loop body is the same"])
def c27(C):
    import rules
    rules.contract(repo_program(["rules.cpp"]), C)


UNIFORM = "segment counts above the analysed ones behave alike: the loops treat every element alike"


@check("C05", "other", "every abstract path of join (presence facts x segment classes x strictness) yields the target that the RFC 3986 5.2.2 "
       "pseudocode defines for the same facts", assumptions=[UNIFORM, "split and split_reference are as C01-C03 say (text overload)"])
def c05(C):
    import paths_check
    sizes = [(a, b) for a in range(3) for b in range(3)] + [(0, 3), (3, 1), (1, 3), (4, 1)]
    if C.tier == "thorough":
        sizes += [(3, 2), (2, 3), (3, 3), (0, 4), (1, 4), (5, 1), (4, 2)]
    paths_check.join_check(repo_program(), C, sizes, [(0, 0), (1, 1), (2, 1)])


@check("C06", "other", "every abstract path of remove_dot_segments (all classes of every segment) leaves what the RFC 3986 5.2.4 algorithm leaves",
       assumptions=[UNIFORM])
def c06(C):
    import paths_check
    n = 7 if C.tier == "thorough" else 6
    T, D, U, E = 3, 1, 2, 0
    long = [("40 ordinary segments then 20 ..", [T] * 40 + [U] * 20), ("alternating text and ..", [T, U] * 30), ("30 .. then text", [U] * 30 + [T] * 5),
            ("empty segments and ..", [E, E, U] * 20), ("35 . segments", [D] * 35), ("mixed", [T, D, E, T, U, E, T, U, U, T] * 7),
            ("33 empty segments", [E] * 33), ("long text with a final .", [T] * 34 + [D]), ("long text with a final ..", [T] * 34 + [U])]
    paths_check.dots_check(repo_program(), C, list(range(n + 1)), long)


@check("C07", "other", "the sequence of texts and delimiters written on every abstract path equals the RFC 3986 5.3 recomposition of the same facts",
       assumptions=[UNIFORM, "formatting state of the stream (width, fill) is at its default"])
def c07(C):
    import paths_check
    paths_check.compose_check(repo_program(), C, [0, 1, 2, 3, 4, 17] if C.tier == "quick" else [0, 1, 2, 3, 4, 5, 17, 40])


@check("C08", "other", "the truth value on every abstract path equals the component-by-component comparison under the same facts", assumptions=[UNIFORM])
def c08(C):
    import paths_check
    paths_check.equality_check(repo_program(), C, [(0, 0), (0, 1), (1, 0), (1, 1), (2, 2), (3, 3), (2, 3), (17, 17)])


LOCAL = "strings longer than the analysed ones behave alike: the loops keep no state between bytes (triples) but the position"


@check("C09", "other", "the value of needs_pctencode for every byte and set equals the WHATWG tables; on strings of symbolic bytes every abstract path of "
       "every encoder and predicate overload writes exactly the byte or %XX the table demands",
       assumptions=[LOCAL, "U+005E is taken not to be in the path set, as in the edition of the standard the project quotes"])
def c09(C):
    import pct_check
    pct_check.encode_check(repo_program(["pct.cpp"]), C, 3 if C.tier == "thorough" else 2)


@check("C10", "other", "on strings of symbolic bytes every abstract path of every decoding interface yields what a left-to-right scan for %XX yields",
       assumptions=[LOCAL])
def c10(C):
    import pct_check
    pct_check.decode_check(repo_program(["pct.cpp"]), C, 7 if C.tier == "thorough" else 5)


@check("C11", "other", "on strings of symbolic bytes every abstract path of pctdecode after pctencode gives back the input, and the encoded form has '%' only as "
       "the start of a complete triple", assumptions=[LOCAL])
def c11(C):
    import pct_check
    pct_check.roundtrip_check(repo_program(["pct.cpp"]), C, 3 if C.tier == "thorough" else 2)


def _c12(C, kinds, aspect):
    import coding_check
    coding_check.coding_check(repo_program(["parts.cpp", "pct.cpp"]), C, kinds, aspect)


@check("C12", "other", "on every abstract path of encode, every component of the result has the text its own rule demands, for all combinations of two "
       "components' modes (absent, null, empty, plain, needing change) against three settings of the others")
def c12(C):
    _c12(C, ["encode"], "value")


@check("C13", "other", "on every abstract path of decode, every component of the result has the text its own rule demands, or the error is returned exactly "
       "when a label is malformed")
def c13(C):
    _c12(C, ["decode"], "value")


@check("C14", "other", "on every abstract path of encode and decode every view of the result is the input view or lies inside the live storage of the store")
def c14(C):
    _c12(C, ["encode", "decode"], "place")


ICU = "the object is only used through its public members"
PAIRS = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)]


@check("C15", "proof", "abstract state machine of each UTF-8 transcoder, explored to a fixpoint over symbolic bytes, equals the Unicode (Table 3-7) reference decoder")
def c15(C):
    import icu_check, run
    P = icu_check.program()
    run.parallel(C, [icu_check.machine_job(P, n, ("consume", "again")) for n in ("8_32", "8_16", "8_8")])


@check("C16", "proof", "each transcoder from UTF-32, interpreted for all 2^32 input values (finite tables) in every reachable state, emits the reference encoding")
def c16(C):
    import icu_check, run
    P = icu_check.program()
    run.parallel(C, icu_check.wide_jobs(P, C.tier == "thorough"))


@check("C17", "proof", "abstract state machine of each UTF-16 transcoder, explored to a fixpoint over symbolic code units, equals the reference decoder")
def c17(C):
    import icu_check, run
    P = icu_check.program()
    run.parallel(C, [icu_check.machine_job(P, n) for n in ("16_32", "16_16", "16_8")])


@check("C18", "proof", "abstract state machine of the byte transcoder, explored to a fixpoint over symbolic bytes, equals the reference: longest byte order mark, then "
       "the decoder of that encoding",
       assumptions=["32-bit units are assembled from bytes two of which (any two) are unrestricted while the others take six values each",
                    "quick tier: once in UTF-8 mode, thirty bytes stand for the classes of the UTF-8 automaton (C15 takes all of them)"])
def c18(C):
    import icu_check, run
    P = icu_check.program()
    jobs = []
    for n in ("x_32", "x_16", "x_8"):
        jobs += icu_check.byte_jobs(P, n, PAIRS if n == "x_32" or C.tier == "thorough" else [(0, 3), (1, 2)],
                                    None if C.tier == "thorough" else icu_check.BYTES8)
    run.parallel(C, jobs)


@check("C30", "other", "views::transcode and icubaby::length/index, interpreted over symbolic code units, yield what the reference decoders define, within their buffers",
       assumptions=["sequences longer than those analysed behave alike: the iterator keeps one code point's state"])
def c30(C):
    import icu_check, run
    P = icu_check.program()
    run.parallel(C, icu_check.view_jobs(P, C.tier == "thorough") + icu_check.count_jobs(P, C.tier == "thorough"))


@check("C26", "other", "find_last and starts_with, interpreted over ranges of symbolic elements for every iterator category, with sentinels, predicates and projections, "
       "return what their definitions give on every abstract path",
       assumptions=["ranges longer than those analysed behave alike: the loops keep no more than one position", "elements take four values: they are only ever compared"])
def c26(C):
    import algo_check, run
    run.parallel(C, algo_check.jobs(repo_program(["algo.cpp"]), C.tier))


@check("C25", "other", "client programs instantiating every member of the decoding views and iterators over each kind of base range type-check under clang and gcc, "
       "concept by concept", trusted=["clang 18 and gcc 13 (type checking of the witness programs)"],
       assumptions=["other base ranges are combinations of the traits of those instantiated (common or not, reference or value, const or mutable, sized or not)"])
def c25(C):
    import witness
    witness.views(C)


@check("C31", "other", "each public header compiles as the only include (both compilers, C++20 with and without extensions, with and without NDEBUG) with its templates "
       "instantiated, all of them together in either order, and the code generated from it has no strong definition",
       trusted=["clang 18 and gcc 13 (type checking; linkage in the generated intermediate code)"])
def c31(C):
    import witness
    witness.headers(C)


@check("C24", "other", "main of uri-split, interpreted over command lines, files, lines and parse results of unknown content, exits with success exactly when every "
       "file opens and every line parses, and prints each component of each parsed line",
       assumptions=["more files or lines than those analysed behave alike: the loops keep no state between them", "split is as C01-C03 say, a path's text as C07 says"])
def c24(C):
    import cli_check, run
    run.parallel(C, cli_check.jobs(cli_check.program(), C.tier))


ENTRY_POINTS = "every path is followed for the sizes of input the other checks use; longer inputs behave alike (as those checks assume)"


@check("C23", "other", "on every abstract path of every entry point (the analyses of C01-C18, C26, C27 and C30) no operation is undefined: bounds, lifetimes, presence, "
       "initialisation, signed arithmetic, iterator ranges, ctype arguments and assertions are checked at each operation",
       assumptions=[ENTRY_POINTS])
def c23(C):
    import whole
    whole.everything(C, whole.UB)


@check("C21", "other", "the call graph of the library (calls, function references, lambdas, constructors) has no cycle; no repetition in the extracted grammar has an operand "
       "that can match nothing; and no abstract path of any entry point exceeds the step limit",
       assumptions=["a loop whose abstract execution ends for every analysed input size ends for larger ones: each element is handled alike"])
def c21(C):
    import term_check
    term_check.check(C)


@check("C20", "other", "effect analysis over the call graph of the library and every standard template it reaches: each use of static storage is constant, fixed before the "
       "first call and without indirection to anything changeable, and no reached function depends on locale, clock, environment or C library state",
       assumptions=["functions outside the analysed source that the rule does not name keep no state (listed in the evidence)",
                    "output streams are used for text only: their own state belongs to the caller"])
def c20(C):
    import effects
    effects.check(C)


@check("C22", "other", "every view in the result of split, split_reference and join is the view an input supplied, part of it, or empty: accept functions are "
       "interpreted in every reachable state of the annotated grammar, join on every abstract path, and the combinators hand accept functions only "
       "parts of their own text",
       assumptions=[UNIFORM])
def c22(C):
    import paths_check, run
    P = repo_program()
    run.parallel(C, split_check.provenance_jobs(P) + [engine(OWN)])
    paths_check.join_check(P, C, [(0, 0), (1, 1), (2, 1), (1, 2), (2, 2)] + ([(3, 2), (2, 3)] if C.tier == "thorough" else []), [(0, 0), (1, 1), (2, 1)], prov=True)


@check("C19", "other", "punycode::encode and decode, interpreted on texts with symbolic positions, agree with an RFC 3492 reference that computes with unbounded "
       "integers for every value of those positions; errors exactly where the input is malformed or a code point is out of range",
       assumptions=["the texts analysed drive the digit, threshold, adaptation, insertion and guard code through all of its branches (paths and positions are "
                    "counted in the evidence); a text whose only difference is more of the same behaves alike"])
def c19(C):
    import puny_check, run
    run.parallel(C, puny_check.jobs(puny_check.program(), C.tier))


@check("C28", "other", "punycode::encode followed by decode, and decode followed by encode, interpreted on labels and texts with symbolic positions, give back "
       "every value of those positions",
       assumptions=["labels of other shapes than those analysed behave alike (with C19: both sides compute what RFC 3492 defines)"])
def c28(C):
    import puny_check, run
    run.parallel(C, puny_check.inverse_jobs(puny_check.program(), C.tier))


@check("C29", "other", "a bound (1+consumed)^e + n^d on the work of every node of the extracted grammar, computed bottom-up from its structure, has degree at most 2, and "
       "so have the loops of accept functions and of class rule",
       assumptions=["standard containers and algorithms have the complexity the standard demands; appending to a vector is amortised constant",
                    "a matcher runs as often as its combinator's contract (C27) says, up to a constant factor"])
def c29(C):
    import cost_check
    cost_check.check(repo_program(), C)
