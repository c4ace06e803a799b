"""C20: no mutable static storage, no first-call-decides initialisation, no locale- or environment-dependent facility."""
import re
from prog import REPO
import term_check

CTYPE = "alnum alpha blank cntrl digit graph lower print punct space upper xdigit".split()
DENY = {"is" + c for c in CTYPE} | {"isw" + c for c in CTYPE} | set(
    "tolower toupper towlower towupper towctrans iswctype isascii toascii setlocale localeconv newlocale uselocale duplocale nl_langinfo "
    "strcoll strxfrm wcscoll wcsxfrm strcasecmp strncasecmp strtol strtoul strtoll strtoull strtof strtod strtold atoi atol atoll atof "
    "mblen mbtowc wctomb mbstowcs wcstombs mbrtowc wcrtomb mbrtoc8 c8rtomb mbrtoc16 c16rtomb mbrtoc32 c32rtomb btowc wctob mbsrtowcs wcsrtombs mbsinit "
    "printf fprintf sprintf snprintf vprintf vfprintf vsprintf vsnprintf scanf sscanf fscanf vsscanf swprintf strftime wcsftime "
    "getenv secure_getenv setenv putenv unsetenv rand srand rand_r random srandom drand48 lrand48 time clock gettimeofday clock_gettime localtime gmtime ctime asctime mktime difftime "
    "strtok strerror getpid getppid gettid getuid getcwd gethostname __errno_location __ctype_b_loc __ctype_tolower_loc __ctype_toupper_loc "
    "use_facet has_facet stoi stol stoll stoul stoull stof stod stold get_time put_time get_money put_money format format_to vformat vformat_to "
    "getline fopen fgets fread getc getchar read open __isoc99_sscanf __isoc23_strtol __isoc23_strtoul".split())
OK_STD_FORMAT = {"format", "format_to", "vformat", "vformat_to"}
DENY_QN = re.compile(r"^std::(locale::(global|classic|operator\(\)|name)|ctype(::|_byname)|collate|codecvt|num_get|num_put|time_get|wstring_convert|"
                     r"random_device|chrono::.*::now|this_thread::|filesystem::(current_path|temp_directory_path|absolute|exists|status|canonical|weakly_canonical|is_\w+)$|"
                     r"basic_istream::(operator>>|get|read|getline)|basic_ios::(widen|narrow|tolower|toupper))")
STREAM = ("std::basic_ostream", "std::basic_istream", "std::basic_ios", "std::ios_base", "std::basic_stringstream", "std::basic_ostringstream", "std::basic_istringstream",
          "std::basic_stringbuf", "std::basic_streambuf", "std::basic_iostream", "std::__ostream", "std::basic_filebuf")
OWNER = re.compile(r"^(const )?std::(unique_ptr|shared_ptr|weak_ptr|optional<.*\*>|atomic|mutex|reference_wrapper|span)")


def tname(prog, r, t):
    e = r["T"].get(t)
    return e["n"] if e else None


def stateless(prog, rec, seen=()):
    """no data members, own or inherited"""
    if rec is None or rec["key"] in seen or rec.get("fields") or rec.get("incomplete"):
        return False
    return all(stateless(prog, prog.recs.get((rec["T"].get(b) or {}).get("rec")), seen + (rec["key"],)) for b in rec.get("bases", []))


def var_problem(prog, v):
    """why an object of static storage duration can carry information from one call to the next, or None"""
    t = v["T"].get(v["t"]) or {}
    base = t
    while base.get("k") == "arr":
        base = v["T"].get(base["of"]) or {}
    if base.get("k") == "rec" and stateless(prog, prog.recs.get(base.get("rec"))):
        return None
    if v.get("tls"):
        return "keeps a value per thread"
    if v.get("mutable"):
        return "has mutable members"
    if not v.get("constant"):
        return "is not const"
    if v.get("constexpr"):
        return None
    if base.get("k") in ("ptr", "ref", "lref", "rref"):
        to = v["T"].get(base.get("to")) or {}
        if not to.get("c") and to.get("k") not in ("fn", "func", "function") and \
                not (to.get("k") == "rec" and stateless(prog, prog.recs.get(to.get("rec")))):
            return "leads to an object that is not const"
    if OWNER.match(base.get("n", "")):
        return "owns an object that can change"
    loc = [n for n in nodes(v.get("init")) if n.get("k") in ("Local", "Param", "This")]
    if loc and v.get("staticlocal"):
        return "is given its value by the first call that gets there"
    return None


def nodes(n):
    stack = [n]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            yield x
            stack.extend(x.values())
        elif isinstance(x, list):
            stack.extend(x)



def arith_insert(prog, f):
    """os << number: grouped and pointed as the stream's locale says"""
    if f["qn"] != "std::basic_ostream::operator<<":
        return False
    ps = f.get("params", [])
    t = f["T"].get(ps[-1]["t"]) if ps else None
    return bool(t) and t.get("k") in ("int", "float", "double", "enum")


def denied(prog, f):
    if arith_insert(prog, f):
        return "a stream inserts a number as its locale says"
    if DENY_QN.match(f["qn"]):
        return "depends on the locale, the clock or the environment"
    n = f["qn"].split("::")
    if f["name"] in DENY and (len(n) == 1 or n[0] in ("std", "__gnu_cxx") and len(n) == 2 or f.get("externc")):
        if f["name"] in OK_STD_FORMAT:
            return None
        return "depends on the locale, the clock or the environment"
    return None


def library(f):
    return str(f.get("loc", "")).startswith((REPO + "/lib", REPO + "/include"))


def effects(prog, C):
    mine = [k for k, f in prog.fns.items() if library(f) and (f.get("body") is not None or f.get("inits"))]
    C.functions(prog, mine)
    seen_vars, bad_vars = set(), 0
    gv = [k for k, v in prog.vars.items() if library(v)]
    work, via = [], {}
    for k in mine:
        f = prog.fns[k]
        for n in nodes([f.get("body"), f.get("inits")]):
            v = n.get("v") if n.get("k") == "Global" else n.get("static")
            if not isinstance(v, str) or (k, v) in seen_vars:
                continue
            seen_vars.add((k, v))
            d = prog.vars.get(v)
            why = var_problem(prog, d) if d else None
            if why:
                bad_vars += 1
                C.violation(n.get("l") or f["loc"], "%s uses %s, which outlives the call and %s" % (f["qn"], d["qn"], why), key="static:%s:%s" % (f["qn"], d["qn"]))
        via[k] = None
        work.append(k)
    for v in gv:
        out = set()
        term_check.refs(prog.vars[v].get("init"), out)
        for t in out:
            if t in prog.fns and t not in via:
                via[t] = ("initialiser of " + prog.vars[v]["qn"], prog.vars[v]["loc"])
                work.append(t)
    bad, edges, leaves = 0, 0, set()
    while work:
        k = work.pop()
        f = prog.fns[k]
        if f["qn"].startswith(STREAM):
            continue
        out = set()
        term_check.refs(f.get("body"), out)
        term_check.refs(f.get("inits", []), out)
        for t in out:
            g = prog.fns.get(t)
            if g is None:
                continue
            edges += 1
            why = denied(prog, g)
            if why:
                chain, c = [], k
                while c is not None and not isinstance(c, tuple) and not library(prog.fns[c]):
                    chain.append(prog.fns[c]["qn"])
                    c = via[c]
                who = c[0] if isinstance(c, tuple) else prog.fns[c]["qn"] if c else "?"
                loc = c[1] if isinstance(c, tuple) else prog.fns[c]["loc"] if c else f["loc"]
                bad += 1
                C.violation(loc, "%s calls or names %s%s, which %s" % (who, g["qn"], " through " + ", ".join(reversed(chain)) if chain else "", why),
                            key="facility:%s:%s" % (who, g["qn"]))
                continue
            if t not in via:
                via[t] = k
                if g.get("body") is None:
                    leaves.add(g["qn"])
                work.append(t)
    C.stat("functions reached, library and standard", len(via))
    C.stat("call and reference edges followed", edges)
    C.stat("uses of static storage examined", len(seen_vars))
    C.samples += ["static storage: %s (%s)" % (prog.vars[v]["qn"], prog.vars[v]["loc"]) for _, v in sorted(seen_vars) if v in prog.vars and library(prog.vars[v])][:12]
    C.samples += ["outside the analysed source: " + l for l in sorted(leaves) if not l.startswith("uri::")][:40]
    C.obligation("%d uses of static storage in %d library functions: constant, or without state" % (len(seen_vars), len(mine)), not bad_vars)
    C.obligation("%d functions reached from them: none depends on locale, clock, environment or C library state" % len(via), not bad)


def check(C):
    from prog import repo_program
    import icu_check
    for prog in (repo_program(["rules.cpp", "parts.cpp", "pct.cpp"]), repo_program(["algo.cpp"]), icu_check.program()):
        effects(prog, C)
