"""Functions above the group law: scalar multiplication (C12) and what is built on it."""
from mirv import poly as P
from mirv.oblig import Obligation
from mirv.grp import GrpSort, GrpContracts
from mirv.values import LimbSort
from .fieldspec import CanonContract, canon_of, lsort
from . import ptoracle
from .ecref import CURVES

VAR6 = ("", "_vv", "_vr", "_rv", "_asv", "_asr")


def grp_sorts(c, prog):
    return GrpSort(c.pty, prog.by_name(c.pty)["size"]), GrpSort(c.aty, prog.by_name(c.aty)["size"])


def put_grp(cx, name, got, want):
    """equality of integer combinations of base points: coefficientwise, by normal form or by the linear facts"""
    d = cx.w.norm(P.sub(got, want))
    if not d:
        cx.put(name, True)
        return
    # coefficient polynomials per base point
    by = {}
    for k, x in d.items():
        g = [v for v in k if (cx.w.vars[v][3] or ("",))[0] == "grp"]
        if len(g) != 1:
            cx.put(name, None, "not a combination of base points: " + P.show(d, cx.w.vname, 5))
            return
        r = list(k)
        r.remove(g[0])
        by.setdefault(g[0], {})[tuple(r)] = x
    for g, q in by.items():
        cx.zero("%s-coefficient-of-%s" % (name, cx.w.vname(g)), q)


def c12(c, prog):
    out = []
    f = c.scalar
    sp, sa = grp_sorts(c, prog)
    for k, t in (("p", sp), ("a", sa)):
        for v in VAR6:
            n = "%s_mul%s" % (k, v)
            if "%s::%s" % (c.mod, n) not in prog.roots:
                continue

            def spec(cx, a, r):
                u = canon_of(cx, f, a[1])
                put_grp(cx, "scalar-times-point", r.p, P.mul(a[0].p, u))
            so = dict(lsort(f))
            so[c.pty], so[c.aty] = sp, sa
            o = Obligation("C12/%s/%s" % (c.mod, n), "%s::%s" % (c.mod, n), spec, sorts=so, contracts=[GrpContracts(sp, sa), CanonContract(f, bits=True)])
            o.cost = 20
            out.append(o)
    return ptoracle.attach(c, out)
