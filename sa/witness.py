"""C25, C31: client programs that must type-check, and header definitions that must not clash (compiled, never linked or run)."""
import os, re, subprocess, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
import prog
from prog import VERIF, REPO, AnalysisBroken

VIEWS = [
    ("std::string_view", "std::string_view r; all (r);"),
    ("std::string_view by pipe", "std::string_view r; by_pipe (r);"),
    ("const std::string_view", "std::string_view const r; all (r); by_const (r);"),
    ("std::string lvalue", "std::string r; all (r);"),
    ("const std::string lvalue", "std::string const r; all (r); by_const (r); by_pipe (r);"),
    ("std::string rvalue", "all (std::string{}); by_pipe (std::string{});"),
    ("std::vector<char>", "std::vector<char> r; all (r); by_pipe (r); by_const (r);"),
    ("std::list<char>", "std::list<char> r; all (r); by_pipe (r);"),
    ("const std::list<char>", "std::list<char> const r; all (r); by_const (r);"),
    ("std::forward_list<char>", "std::forward_list<char> r; all (r); by_pipe (r); by_const (r);"),
    ("std::span<char>", "std::span<char> r; all (r); by_pipe (r);"),
    ("std::span<char const>", "std::span<char const> r; all (r); by_const (r);"),
    ("char array", 'char const r[] = "a%41"; all (r); by_pipe (r);'),
    ("mutable char array", 'char r[] = "a%41"; all (r);'),
    ("take_while view (sentinel end)", "std::string s; all (s | std::views::take_while (keep)); by_pipe (s | std::views::take_while (keep));"),
    ("take_while view of const characters", "std::string const s; auto r = s | std::views::take_while (keep); all (r); by_pipe (r);"),
    ("filter view", "std::string s; auto r = s | std::views::filter (keep); all (r); by_pipe (r);"),
    ("transform view (prvalue elements)", "std::string s; auto r = s | std::views::transform ([] (char c) { return c; }); all (r); by_pipe (r);"),
    ("transform view to references", "std::string s; auto r = s | std::views::transform ([] (char& c) -> char& { return c; }); all (r); by_pipe (r);"),
    ("subrange with counted iterator and default sentinel",
     "std::string s; auto r = std::ranges::subrange (std::counted_iterator (s.begin (), 0), std::default_sentinel); all (r); by_pipe (r);"),
    ("drop view", "std::string s; auto r = s | std::views::drop (1); all (r); by_pipe (r);"),
    ("join view", "std::vector<std::string> s; auto r = s | std::views::join; all (r); by_pipe (r);"),
    ("iota transform (no underlying storage)", "auto r = std::views::iota (0, 3) | std::views::transform ([] (int i) { return static_cast<char> (i); }); all (r); by_pipe (r);"),
    ("unbounded iota (unreachable sentinel)", "auto r = std::views::iota (0) | std::views::transform ([] (int i) { return static_cast<char> (i); }); "
     "auto v = uri::views::pctdecode (r); models_range<decltype (v)> (); (void)*v.begin (); (void)(v.begin () == v.end ());"),
    ("pctdecode of pctdecode", "std::string s; auto r = s | uri::views::pctdecode; all (r); by_pipe (r);"),
    ("single view", "all (std::views::single ('a')); by_pipe (std::views::single ('a'));"),
    ("pctdecode_view deduction", "std::string s; uri::pctdecode_view v{s}; models_range<decltype (v)> (); uri::pctdecode_view u{std::string_view{}}; models_range<decltype (u)> ();"),
    ("default-initialized view", "uri::pctdecode_view<std::string_view> v; (void)(v.begin () == v.end ());"),
    ("std::ranges algorithms", "std::string s, t; auto v = s | uri::views::pctdecode; std::ranges::copy (v, std::back_inserter (t)); std::ranges::move (v, std::back_inserter (t)); "
     "(void)std::ranges::equal (v, t); (void)std::ranges::find (v, 'x'); (void)std::ranges::search (v, t); (void)std::ranges::lexicographical_compare (v, v); "
     "(void)std::ranges::max_element (v); (void)std::ranges::adjacent_find (v); std::string u (std::ranges::begin (v), std::ranges::end (v));"),
    ("iterator category", "using I = std::ranges::iterator_t<decltype (uri::views::pctdecode (std::string_view{}))>; static_assert (std::forward_iterator<I>); "
     "static_assert (std::derived_from<std::iterator_traits<I>::iterator_category, std::input_iterator_tag>);"),
    ("pctdecode_iterator over string_view", "models_iterator<decltype (uri::pctdecode_begin (std::string_view{}))> ();"),
    ("pctdecode_iterator over pointers", "models_iterator<uri::pctdecode_iterator<char const*>> (); models_iterator<uri::pctdecode_iterator<char*>> ();"),
    ("pctdecode_iterator over list and forward_list", "models_iterator<uri::pctdecode_iterator<std::list<char>::const_iterator>> (); "
     "models_iterator<uri::pctdecode_iterator<std::forward_list<char>::iterator>> ();"),
    ("pctdecode_iterator in std algorithms", "std::string s, t; std::copy (uri::pctdecode_begin (s), uri::pctdecode_end (s), std::back_inserter (t)); "
     "std::string u{uri::pctdecode_begin (s), uri::pctdecode_end (s)}; (void)std::distance (uri::pctdecode_begin (s), uri::pctdecode_end (s)); "
     "std::ranges::subrange q{uri::pctdecode_begin (s), uri::pctdecode_end (s)}; (void)q.empty ();"),
    ("pctdecoder as a range", "std::string s; uri::pctdecoder d{s}; static_assert (std::ranges::forward_range<decltype (d)>); static_assert (std::ranges::forward_range<decltype (d) const>); "
     "uri::pctdecoder<char const*> e{nullptr, nullptr}; static_assert (std::ranges::forward_range<decltype (e)>); uri::pctdecoder g{std::vector<char>{}};"),
]


def compile_(cc, std, flags, text, extra=()):
    d = tempfile.mkdtemp(prefix="uri-wit-")
    try:
        p = os.path.join(d, "w.cpp")
        with open(p, "w") as f:
            f.write(text)
        out = os.path.join(d, "w.out")
        r = subprocess.run([cc, "-std=" + std, "-I" + REPO + "/include", "-I" + os.path.join(VERIF, "tu"), "-w", "-fno-color-diagnostics" if "clang" in cc else "-fdiagnostics-color=never"]
                           + list(flags) + list(extra) + ([] if extra else ["-fsyntax-only"]) + [p] + (["-o", out] if extra else []),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
        ir = open(out).read() if extra and r.returncode == 0 else ""
        return r.returncode, r.stdout, ir
    finally:
        shutil.rmtree(d, ignore_errors=True)


def compilers():
    cs = [c for c in ("/usr/bin/clang++-18", "/usr/bin/g++") if os.path.exists(c)]
    if not cs:
        raise AnalysisBroken("no compiler")
    for c in cs:
        rc, out, _ = compile_(c, "gnu++20", [], "#include <string>\n#include <ranges>\nint x;\n")
        if rc != 0:
            raise AnalysisBroken("%s cannot compile a trivial program: %s" % (c, out[-300:]))
    return cs


def where(out):
    """the location of the first error, in the repository when a note or context line names one"""
    err = re.search(r"(?m)^(\S+?:\d+):\d+: (?:fatal )?error: (.*)$", out)
    msg = err.group(2) if err else "does not compile"
    here = re.search(r"(%s/\S+?:\d+)" % re.escape(REPO), out)
    return (here.group(1) if here else err.group(1) if err else "include/uri"), msg


def views(C):
    cs = compilers()
    jobs = [(nm, body, cc) for nm, body in VIEWS for cc in cs]

    def one(j):
        nm, body, cc = j
        return j, compile_(cc, "gnu++20", [], '#include "witness25.hpp"\n#include <algorithm>\nusing namespace w;\nvoid client () { %s }\n' % body)
    with ThreadPoolExecutor(8) as ex:
        for (nm, body, cc), (rc, out, _) in ex.map(one, jobs):
            if rc:
                loc, msg = where(out)
                C.violation(loc, "a program using the decoding view or iterator over %s does not compile (%s): %s" % (nm, os.path.basename(cc), msg), key="view:" + nm)
            C.obligation("%s, %s" % (nm, os.path.basename(cc)), rc == 0)
            C.stat("witness programs", 1)


USES = {
    "find_last.hpp": "int f (int const* a, int const* b) { return *uri::find_last (a, b, 1).begin (); }",
    "starts_with.hpp": "bool f (int const* a, int const* b) { return uri::starts_with (a, b, a, b); }",
    "pctdecode.hpp": "char f (std::string_view s) { auto v = s | uri::views::pctdecode; return uri::pctdecode (s)[0] + *v.begin (); }",
    "pctencode.hpp": "bool f (std::string_view s) { return uri::needs_pctencode (s, uri::pctencode_set::path) || uri::pctencode (s, uri::pctencode_set::query).empty (); }",
    "punycode.hpp": "auto f (char const* a, char const* b) { return uri::punycode::decode (a, b); }\n"
                    "auto g (std::u32string_view s, char* o) { return uri::punycode::encode (s, true, o); }",
    "uri.hpp": "auto f (std::string_view s) { auto p = uri::split (s); return p ? uri::compose (*p) : std::string{}; }",
    "parts.hpp": "auto f (std::vector<char>& s, uri::parts const& p) { (void)uri::encode (s, p); return uri::decode (s, p); }",
    "rule.hpp": "bool f (std::string_view s) { return uri::rule{s}.star (uri::alpha).done (); }",
    "icubaby.hpp": "bool f (char const* p) { icubaby::t8_32 t; char32_t c[8]; t (icubaby::char8 (*p), c); return t.well_formed (); }",
}
STRONG = re.compile(r"(?m)^define (?!.*\b(?:linkonce_odr|linkonce|weak_odr|weak|internal|private|available_externally)\b)[^@]*@([^(]+)\(")
STRONGV = re.compile(r"(?m)^@(\S+) = (?!.*\b(?:linkonce_odr|linkonce|weak_odr|weak|internal|private|external|available_externally|appending)\b)[^=]*(?:global|constant) ")


def headers(C):
    cs = compilers()
    inc = os.path.join(REPO, "include")
    hs = sorted(os.path.relpath(os.path.join(d, f), inc) for d, _, fs in os.walk(inc) for f in fs if f.endswith((".hpp", ".h")))
    if not hs:
        raise AnalysisBroken("no public headers")
    jobs = []
    for h in hs:
        use = USES.get(os.path.basename(h), "")
        for cc in cs:
            for std in ("c++20", "gnu++20"):
                for fl in ((), ("-DNDEBUG",)):
                    jobs.append(("%s alone, %s %s%s" % (h, os.path.basename(cc), std, " NDEBUG" if fl else ""), cc, std, fl, "#include <%s>\n#include <%s>\n%s\n" % (h, h, use), ()))
    for nm, order in (("all headers", hs), ("all headers in reverse order", hs[::-1])):
        t = "".join("#include <%s>\n" % h for h in order * 2) + "namespace u0 {\n" + "}\nnamespace u1 {\n".join(USES.get(os.path.basename(h), "") for h in hs) + "}\n"
        n = [0]

        def sub(m):
            n[0] += 1
            return "namespace u%d {" % n[0]
        t = re.sub(r"namespace u1 \{", sub, t)
        for cc in cs:
            jobs.append(("%s, %s" % (nm, os.path.basename(cc)), cc, "gnu++20", (), t, ()))
    for h in hs:
        for fl in ((), ("-DNDEBUG",)):
            jobs.append(("definitions emitted by %s%s" % (h, " (NDEBUG)" if fl else ""), cs[0], "gnu++20", fl, "#include <%s>\n" % h, ("-S", "-emit-llvm", "-O0", "-femit-all-decls")))

    def one(j):
        return j, compile_(j[1], j[2], j[3], j[4], j[5])
    with ThreadPoolExecutor(8) as ex:
        for (nm, cc, std, fl, text, extra), (rc, out, ir) in ex.map(one, jobs):
            ok = rc == 0
            C.stat("translation units", 1)
            if rc:
                loc, msg = where(out)
                C.violation(loc, "a program that includes %s does not compile: %s" % (nm, msg), key="include:" + nm.split(",")[0])
            elif extra:
                names = [m for m in STRONG.findall(ir) if not m.startswith("_GLOBAL_") and not m.startswith("__cxx_global")] + STRONGV.findall(ir)
                for m in names:
                    d = subprocess.run(["c++filt", m.strip('"')], stdout=subprocess.PIPE, text=True).stdout.strip() if shutil.which("c++filt") else m
                    C.violation("include/" + nm.split()[3], "defines %s with external linkage and not inline: two translation units including it cannot be linked" % d, key="odr:" + m)
                    ok = False
            C.obligation(nm, ok)
