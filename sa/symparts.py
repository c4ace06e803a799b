"""Symbolic uri::parts objects: presence facts, opaque component texts, segment lists of a given size."""
from prog import AnalysisBroken
from values import *
import models
from models import Opt, Vec, SV
from grammar import Tok, LookSV


class SymOpt(Opt):
    """An optional whose engagement is the opaque fact `key`."""
    def __init__(self, key, cell, et):
        Opt.__init__(self, cell, et)
        self.key = key

    def has(self, I):
        return I.ctx.fact(self.key)

    def copy_value(self, I):
        return SymOpt(self.key, Cell(I.copyval(self.cell.v)), self.et)

    move_value = copy_value

    def assign_from(self, I, o):
        raise AnalysisBroken("assignment to a symbolic optional at " + I.loc)


def flds(I, o):
    out = {}
    for (rk, fi), c in o.f.items():
        out[I.prog.recs[rk]["fields"][fi]["name"]] = c
    return out


def sym_parts(I, name, nseg, view=None, const=True):
    """A parts object with unknown presence of every optional component and nseg unknown segments."""
    view = view or (lambda nm: LookSV(Tok(nm)))
    rec = I.prog.recs["uri::parts"]
    o = I.default_obj(rec)
    f = flds(I, o)

    def so(cell, nm):
        c = cell.v
        if not isinstance(c, Opt):
            raise AnalysisBroken("%s of uri::parts is not an optional" % nm)
        return SymOpt(("has", nm), Cell(view(nm)), c.et)
    for nm in ("scheme", "query", "fragment"):
        f[nm].v = so(f[nm], name + "." + nm)
    au = f["authority"].v
    ao = I.default_value(au.et[0], au.et[1])
    af = flds(I, ao)
    af["userinfo"].v = so(af["userinfo"], name + ".userinfo")
    af["port"].v = so(af["port"], name + ".port")
    af["host"].v = view(name + ".host")
    f["authority"].v = SymOpt(("has", name + ".authority"), Cell(ao), au.et)
    p = f["path"].v
    pf = flds(I, p)
    pf["absolute"].v = Atom(("flag", name + ".absolute"))
    old = pf["segments"].v
    pf["segments"].v = Vec(I, old.et, [Cell(view("%s.seg%d" % (name, i))) for i in range(nseg)], name + ".segments")
    return o
