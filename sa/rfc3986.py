"""RFC 3986 (appendix A), written independently of the code under analysis, as regular expressions with
markers for the components. Letters are matched case-insensitively where the RFC's ABNF says so."""


def S(chars):
    return ("cls", frozenset(ord(c) for c in chars))


def lit(c):
    return S(c)


def seq(*a):
    return ("seq", a)


def alt(*a):
    return ("alt", a)


def star(a):
    return ("star", a)


def rep(a, mn, mx):
    return ("rep", a, mn, mx)


def opt(a):
    return rep(a, 0, 1)


def u(*cs):
    return ("cls", frozenset().union(*[c[1] for c in cs]))


def mk(name, a):
    return seq(("mark", ("[", name)), a, ("mark", ("]", name)))


UP, LO, DG = "ABCDEFGHIJKLMNOPQRSTUVWXYZ", "abcdefghijklmnopqrstuvwxyz", "0123456789"
ALPHA, DIGIT, HEXDIG = S(UP + LO), S(DG), S(DG + "abcdefABCDEF")
unreserved = S(UP + LO + DG + "-._~")
sub_delims = S("!$&'()*+,;=")
pct_encoded = seq(lit("%"), HEXDIG, HEXDIG)
pchar = alt(u(unreserved, sub_delims, S(":@")), pct_encoded)
scheme = seq(ALPHA, star(u(ALPHA, DIGIT, S("+-."))))
userinfo = star(alt(u(unreserved, sub_delims, S(":")), pct_encoded))
reg_name = star(alt(u(unreserved, sub_delims), pct_encoded))
dec_octet = alt(DIGIT, seq(S("123456789"), DIGIT), seq(S("1"), DIGIT, DIGIT), seq(S("2"), S("01234"), DIGIT),
                seq(S("2"), S("5"), S("012345")))
dot = lit(".")
IPv4 = seq(dec_octet, dot, dec_octet, dot, dec_octet, dot, dec_octet)
h16 = rep(HEXDIG, 1, 4)
co = lit(":")
h16c = seq(h16, co)
ls32 = alt(seq(h16, co, h16), IPv4)
cc = seq(co, co)


def pre(n):
    return opt(seq(rep(h16c, 0, n), h16))


IPv6 = alt(seq(rep(h16c, 6, 6), ls32),
           seq(cc, rep(h16c, 5, 5), ls32),
           seq(pre(0), cc, rep(h16c, 4, 4), ls32),
           seq(pre(1), cc, rep(h16c, 3, 3), ls32),
           seq(pre(2), cc, rep(h16c, 2, 2), ls32),
           seq(pre(3), cc, h16c, ls32),
           seq(pre(4), cc, ls32),
           seq(pre(5), cc, h16),
           seq(pre(6), cc))
IPvFuture = seq(S("vV"), rep(HEXDIG, 1, None), dot, rep(u(unreserved, sub_delims, S(":")), 1, None))
IP_literal = seq(lit("["), alt(IPv6, IPvFuture), lit("]"))
host = alt(IP_literal, IPv4, reg_name)
port = star(DIGIT)
authority = seq(opt(seq(mk("userinfo", userinfo), lit("@"))), mk("host", host), opt(seq(lit(":"), mk("port", port))))
sl = lit("/")
segment = star(pchar)
segment_nz = rep(pchar, 1, None)
segment_nz_nc = rep(alt(u(unreserved, sub_delims, S("@")), pct_encoded), 1, None)


def sg(x):
    return mk("seg", x)


path_abempty = star(seq(sl, sg(segment)))
# "/" alone has one empty segment after the slash
path_absolute = alt(seq(sl, sg(segment_nz), star(seq(sl, sg(segment)))), seq(sl, sg(("seq", ()))))
path_noscheme = seq(sg(segment_nz_nc), star(seq(sl, sg(segment))))
path_rootless = seq(sg(segment_nz), star(seq(sl, sg(segment))))
path_empty = ("seq", ())
query = star(alt(u(unreserved, sub_delims, S(":@/?")), pct_encoded))
fragment = query
tail = seq(opt(seq(lit("?"), mk("query", query))), opt(seq(lit("#"), mk("fragment", fragment))))
auth_part = seq(sl, sl, ("mark", ("A",)), authority)


def absol(x):
    return seq(("mark", ("P",)), x)


hier_part = alt(seq(auth_part, alt(absol(seq(sl, sg(segment), path_abempty)), path_empty)), absol(path_absolute),
                path_rootless, path_empty)
relative_part = alt(seq(auth_part, alt(absol(seq(sl, sg(segment), path_abempty)), path_empty)), absol(path_absolute),
                    path_noscheme, path_empty)
URI = seq(mk("scheme", scheme), co, hier_part, tail)
relative_ref = seq(relative_part, tail)
URI_reference = alt(URI, relative_ref)


def strip(e):
    """The same expression without component markers."""
    t = e[0]
    if t == "mark":
        return ("seq", ())
    if t in ("seq", "alt"):
        return (t, tuple(strip(x) for x in e[1]))
    if t == "star":
        return (t, strip(e[1]))
    if t == "rep":
        return (t, strip(e[1]), e[2], e[3])
    return e


def keep(e, names):
    """Only the markers whose name is in names."""
    t = e[0]
    if t == "mark":
        return e if (e[1][1] if len(e[1]) > 1 else e[1][0]) in names else ("seq", ())
    if t in ("seq", "alt"):
        return (t, tuple(keep(x, names) for x in e[1]))
    if t == "star":
        return (t, keep(e[1], names))
    if t == "rep":
        return (t, keep(e[1], names), e[2], e[3])
    return e
