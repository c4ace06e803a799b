"""C24: the uri-split tool, interpreted over opaque command lines, files and lines of text, against its contract."""
import os
from prog import AnalysisBroken, REPO, load_program, lib_sources
from values import *
from interp import Interp, nat, NATIVES, NATIVE_RECS
from models import Stream, TemplStr, Str, SV, Opt, as_view, add_piece, _shift
from grammar import Tok, LookSV
from symparts import sym_parts, flds
from paths_check import View
from pct_check import report_ub

TOOL = os.path.join(REPO, "tools", "uri-split", "uri-split.cpp")
LABELS = ("scheme", "userinfo", "host", "port", "path", "query", "fragment")


class FsPath:
    def __init__(self, text=""):
        self.text = text

    def copy(self):
        return self


class InStream:
    """An input stream: a number of lines decided as the program asks for them."""
    def __init__(self, name=None, opened=True):
        self.name, self.opened = name, opened
        self.nread = 0
        self.fail = self.eof = False

    def copy(self):
        return self

    move_value = lambda self, I: self

    def good(self):
        return not (self.fail or self.eof)


class World:
    max_lines = 2


def plain(I, v):
    if isinstance(v, FsPath):
        return v.text
    v = as_view(I, v)
    ch = v.chars(I)
    if not all(isinstance(c, int) for c in ch):
        raise AnalysisBroken("a file name of unknown characters at " + I.loc)
    return "".join(chr(c) for c in ch)


for _r in ("std::basic_istream", "std::basic_ifstream", "std::basic_fstream"):
    NATIVE_RECS[_r] = lambda I, rec, T: InStream()
NATIVE_RECS["std::filesystem::path"] = lambda I, rec, T: FsPath()
NATIVES[("var", "std::cin")] = lambda I, v: Cell(InStream("stdin"))
for _n in ("cout", "cerr", "clog"):
    NATIVES[("var", "std::" + _n)] = lambda I, v: Cell(Stream())


@nat("std::filesystem::path::<ctor>")
def _(c):
    a = [c.I.load(x) for x in c.args]
    c.this.v = FsPath(plain(c.I, a[0]) if a else "")


@nat("std::filesystem::path::operator=")
def _(c):
    c.this.v = FsPath(plain(c.I, c.val(0)))
    return c.this


@nat("std::filesystem::path::c_str", "std::filesystem::path::string", "std::filesystem::path::native", "std::filesystem::path::generic_string", "std::filesystem::path::<conv>")
def _(c):
    t = c.I.load(c.this).text
    if c.qn.endswith("c_str"):
        return Ptr(Arr([Cell(ord(x)) for x in t] + [Cell(0)], "path"), 0)
    return TemplStr([ord(x) for x in t])


def do_open(c, st, a):
    I = c.I
    nm = plain(I, a)
    I.world["opens"].append(nm)
    st.name = nm
    st.nread = 0
    st.opened = I.ctx.fact(("opens", nm))
    st.fail, st.eof = not st.opened, False


@nat("std::basic_ifstream::<ctor>", "std::basic_fstream::<ctor>")
def _(c):
    st = InStream(None, False)
    if c.args:
        do_open(c, st, c.val(0))
    c.this.v = st


@nat("std::basic_ifstream::open", "std::basic_fstream::open")
def _(c):
    do_open(c, c.I.load(c.this), c.val(0))


@nat("std::basic_ifstream::close", "std::basic_fstream::close")
def _(c):
    c.I.load(c.this).opened = False


@nat("std::basic_ifstream::is_open", "std::basic_fstream::is_open")
def _(c):
    return c.I.load(c.this).opened


def stream_state(c):
    st = c.I.load(c.this)
    n = c.qn.split("::")[-1]
    if isinstance(st, Stream):
        return {"good": True, "<conv>": True}.get(n, False)
    if not isinstance(st, InStream):
        return NotImplemented
    if n in ("<conv>", "operator bool"):
        return not st.fail
    if n in ("fail", "operator!"):
        return st.fail
    return {"good": st.good(), "eof": st.eof, "bad": False}[n]


for _n in ("<conv>", "operator bool", "operator!", "good", "fail", "eof", "bad"):
    NATIVES["std::basic_ios::" + _n] = stream_state


@nat("std::basic_ios::clear")
def _(c):
    st = c.I.load(c.this)
    st.fail = st.eof = False


@nat("std::ios_base::sync_with_stdio", "std::basic_ios::tie", "std::basic_ios::exceptions")
def _(c):
    return NotImplemented if c.qn.endswith("exceptions") else None


@nat("std::getline")
def _(c):
    I = c.I
    st = I.load(c.args[0])
    if not isinstance(st, InStream):
        return NotImplemented
    if len(c.args) > 2 and c.val(2) != 10:
        raise AnalysisBroken("getline with another delimiter at " + c.loc)
    if not st.good():
        st.fail = True
        return c.args[0]
    k = st.nread
    if k >= I.world["max_lines"] or not I.ctx.fact(("line", st.name, k)):
        c.cell(1).v = TemplStr([])
        st.fail = st.eof = True
        return c.args[0]
    st.nread += 1
    nm = "%s:%d" % (st.name, k + 1)
    I.world["read"].append(nm)
    if I.ctx.fact(("unterminated", st.name, k)):
        # the text ends without a newline: nothing follows
        st.eof = True
        I.ctx.facts[("line", st.name, k + 1)] = False
    c.cell(1).v = TemplStr([LookSV(Tok(nm))])
    return c.args[0]


@nat("std::quoted")
def _(c):
    # what the components of a parsed URI hold has neither '"' nor '\', so quoting adds no escapes
    t = TemplStr([34])
    add_piece(c.I, t.pieces, c.val(0))
    t.pieces.append(34)
    return t


NATIVES["std::__detail::operator<<"] = _shift


@nat("std::filesystem::operator<<")
def _(c):
    st = c.I.load(c.args[0])
    st.pieces += [34] + [ord(x) for x in plain(c.I, c.val(1))] + [34]
    return c.args[0]


@nat("std::literals::string_literals::operator\"\"s", "std::operator\"\"s", "std::literals::operator\"\"s", "std::literals::string_view_literals::operator\"\"sv",
     "std::operator\"\"sv")
def _(c):
    I = c.I
    v = SV(c.val(0), I.concretize(c.val(1)))
    return v if c.qn.endswith("sv") else TemplStr(v.chars(I))


@nat("std::exception::what", "std::runtime_error::what", "std::logic_error::what")
def _(c):
    return Ptr(Arr([Cell(ord(x)) for x in "what"] + [Cell(0)], "what"), 0)


@nat("exit", "std::exit", "_exit", "quick_exit", "std::quick_exit", "std::_Exit", "_Exit")
def _(c):
    raise Exited(c.val(0))


class Exited(Exception):
    def __init__(self, code):
        self.code = code


def one_line(I, v, what):
    """the line a text argument is"""
    if isinstance(v, (Str, SV)) and not v.chars(I):
        return None
    if isinstance(v, TemplStr):
        ps = [p for p in v.pieces if isinstance(p, (int, Tab)) or not known_empty(I, p)]
        if not ps and not v.pieces:
            return None
        if len(v.pieces) == 1:
            v = v.pieces[0]
        elif not ps:
            return None
    if isinstance(v, LookSV) and v.off == 0 and v.lim is None:
        return v
    raise AnalysisBroken("%s of something other than a line that was read, at %s" % (what, I.loc))


def known_empty(I, p):
    return I.ctx.facts.get(("end", p.tok.id, 0)) is True if isinstance(p, LookSV) else False


def parses(I, line):
    if I.ctx.facts.get(("end", line.tok.id, 0)) is True:
        return False
    r = I.ctx.fact(("parses", line.tok.id))
    if r:
        I.ctx.facts[("end", line.tok.id, 0)] = False
    return r


def i_split(c):
    I = c.I
    rec = [r for r in I.prog.recs.values() if r.get("qn") == "std::optional" and parts_opt(I, r)]
    if len(rec) != 1:
        raise AnalysisBroken("the result type of uri::split")
    line = one_line(I, c.val(0), "split")
    et = I.flat_targs(rec[0])[0]
    if line is None:
        return Opt(None, et)
    if c.qn == "uri::split_reference" and not parses(I, line):
        # more texts are references than are URIs
        if not I.ctx.fact(("reference", line.tok.id)):
            return Opt(None, et)
    elif I.ctx.fact(("throws", line.tok.id)):
        raise AbsThrow("std::bad_alloc", c.loc)
    elif not parses(I, line):
        return Opt(None, et)
    p = sym_parts(I, line.tok.id, 0)
    if not I.world["free"]:
        # every component there in odd lines, none of the optional ones in even lines
        for k in ("scheme", "authority", "userinfo", "port", "query", "fragment"):
            I.ctx.facts[("has", "%s.%s" % (line.tok.id, k))] = len(I.world["parts"]) % 2 == 0 or k == "scheme"
    I.world["parts"][line.tok.id] = p
    return Opt(Cell(p), et)


def parts_opt(I, r):
    a = I.flat_targs(r)
    return a and a[0][1].get("k") == "rec" and I.prog.recs[a[0][1]["rec"]]["qn"] == "uri::parts"


def i_path(c):
    I = c.I
    for nm, p in I.world["parts"].items():
        if View(I, p).f["path"].v is I.load(c.this):
            return TemplStr([LookSV(Tok(nm + ".path"))])
    raise AnalysisBroken("the text of a path other than a parsed one, at " + c.loc)


def tokens(I, pieces):
    """whitespace-separated words; each a tuple of characters and opaque texts"""
    out, cur = [], []
    quoted = False
    for p in pieces:
        if isinstance(p, int) and p == 34:
            quoted = not quoted
        if isinstance(p, int) and chr(p & 255) in " \n\t\r" and not quoted:
            if cur:
                out.append(tuple(cur))
            cur = []
        elif isinstance(p, int):
            cur.append(chr(p & 255))
        elif isinstance(p, LookSV):
            if not known_empty(I, p):
                cur.append(("text", p.id, p.off, p.lim))
        else:
            cur.append(("?", repr(p)))
    if cur:
        out.append(tuple(cur))
    return out


def show(tok):
    return "".join(t if isinstance(t, str) else "<%s>" % (t[1],) for t in tok)


def expected(I, nm, o):
    v = View(I, o)
    def opt(c):
        return I.load(c.v.get(I)) if I.truth(c.v.has(I)) else None

    def text(t):
        if t is None:
            return tuple("None")
        if isinstance(t, LookSV):
            return ('"', '"') if known_empty(I, t) else ('"', ("text", t.id, t.off, t.lim), '"')
        raise AnalysisBroken("a component of a parsed URI")
    vals = {k: opt(v.f[k]) for k in ("scheme", "query", "fragment")}
    vals.update(userinfo=None, host=None, port=None)
    if v.has_auth():
        f = flds(I, v.f["authority"].v.get(I).v)
        vals.update(userinfo=opt(f["userinfo"]), host=I.load(f["host"]), port=opt(f["port"]))
    vals["path"] = LookSV(Tok(nm + ".path"))
    return [(k, text(vals[k])) for k in LABELS]


def judge(I, world, status, out, argv):
    """None, or (key, message)"""
    f = I.ctx.facts
    want = True
    shown, used = [], []
    streams = argv or ["stdin"]
    for s in streams:
        if s != "stdin" and not I.ctx.fact(("opens", s)):
            want = False
            used.append("%s cannot be opened" % s)
            break
        k = 0
        while k < world["max_lines"] and I.ctx.fact(("line", s, k)):
            nm = "%s:%d" % (s, k + 1)
            line = LookSV(Tok(nm))
            if f.get(("throws", nm)):
                want = False
                used.append("splitting %s runs out of memory" % nm)
            elif not parses(I, line):
                want = False
                used.append("%s%s does not parse" % (nm, " (empty)" if known_empty(I, line) else ""))
            else:
                used.append(nm + " parses")
                if nm not in world["parts"]:
                    shown.append((nm, None))
                else:
                    shown.append((nm, world["parts"][nm]))
            if not want:
                break
            if I.ctx.fact(("unterminated", s, k)):
                break
            k += 1
        if not want:
            break
    what = "; ".join(used) or "nothing to read"
    if (status == 0) != want:
        return "status", "exit status %s when %s" % ("success" if status == 0 else "failure", what)
    toks = tokens(I, out)
    i = 0
    for nm, p in shown:
        if p is None:
            return "unread", "%s is never split, though %s" % (nm, what)
        while i < len(toks) and toks[i] != tuple("scheme:"):
            i += 1
        exp = expected(I, nm, p)
        for lab, val in exp:
            if i + 1 >= len(toks) or toks[i] != tuple(lab + ":") or toks[i + 1] != val:
                got = " ".join(show(t) for t in toks[i:i + 2]) or "nothing"
                return "print:" + lab, "for %s the output has %s where %s: %s is due" % (nm, got, lab, show(val))
            i += 2
    return None


def scene(prog, nfiles, max_lines, free):
    """free: present the optional components of every parsed line as unknown (else all present)"""
    def job(S):
        rep, an, bad = [], set(), []
        main = [f for f in prog.fns.values() if f["qn"] == "main" and f.get("body") is not None]
        if len(main) != 1:
            raise AnalysisBroken("main of uri-split")

        def run(ctx):
            I = Interp(prog, ctx)
            I.intercept = {"uri::split": i_split, "uri::split_reference": i_split, "uri::parts::path::<conv>": i_path}
            for f in prog.fns.values():
                if f["qn"].startswith("uri::parts::path::operator") and "basic_string" in f["qn"]:
                    I.intercept[f["qn"]] = i_path
            I.reports, I.analysed = rep, an
            I.world = {"opens": [], "read": [], "parts": {}, "max_lines": max_lines, "free": free}
            names = ["file%d" % (i + 1) for i in range(nfiles)]
            argv = [Ptr(Arr([Cell(ord(x)) for x in t] + [Cell(0)], "argv"), 0) for t in ["uri-split"] + names] + [NULL]
            a = Arr([Cell(x) for x in argv], "argv")
            ps = main[0]["params"]
            try:
                r = I.load_if(I.call_fn(main[0], None, [Cell(len(names) + 1), Cell(Ptr(a, 0))][:len(ps)], main[0]["loc"]))
                r = 0 if r is None else I.concretize(r)
            except Exited as e:
                r = I.concretize(e.code)
            except AbsThrow:
                r = 1
            out = []
            for k, c in I.globals.items():
                v = prog.vars.get(k) if isinstance(k, str) else None
                if v is not None and v["qn"] == "std::cout":
                    out = c.v.pieces
            return judge(I, I.world, r & 255, out, names)
        for ctx, r in explore(run):
            S.stat("abstract paths", 1)
            if r is not None:
                bad.append(r)
        seen = set()
        for k, m in bad:
            if k not in seen:
                seen.add(k)
                S.violation(TOOL.replace(REPO + "/", "") + ":main", m, key=k)
        report_ub(S, rep, "uri-split: ")
        S.obligation("uri-split with %s, up to %d line(s) each" % ("%d file(s)" % nfiles if nfiles else "standard input", max_lines), not bad)
        S.functions(prog, an)
    return job


def program():
    if not os.path.exists(TOOL):
        raise AnalysisBroken("no " + TOOL)
    return load_program([("uri-split", TOOL)])


def jobs(prog, tier):
    out = [scene(prog, 0, 1, True), scene(prog, 0, 3, False), scene(prog, 1, 1, True), scene(prog, 2, 2, False), scene(prog, 3, 1, False)]
    if tier == "thorough":
        out += [scene(prog, 0, 2, True), scene(prog, 1, 4, False), scene(prog, 3, 2, False)]
    return out
