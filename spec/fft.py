"""C16: best_fft over symbolic coefficients and a symbolic root of unity, for every power-of-two length in a stated range."""
import os
import re
from mirv import poly as P
from mirv.core import Ptr, Alloc
from mirv.oblig import Obligation
from mirv.par import RayonContracts
from mirv.sorts import RingSort, OpContracts, norm_name, FE
from mirv.world import Unsupported
from .algos import FIELDS, c16 as bounded
from .ecref import CURVES
from .params import FBY


class ModuleContracts:
    """curve points as elements of an abstract module over the scalar field: + - neg double, and scalar multiplication"""

    def __init__(self, sp, ss):
        self.sp, self.ss = sp, ss
        p, s = re.escape(sp.name), re.escape(ss.name)
        self.rx = [(re.compile(r"^<&?%s as std::ops::(Add|Sub)(?:<&?%s>)?>::(add|sub)$" % (p, p)), self.bin),
                   (re.compile(r"^<%s as std::ops::(Add|Sub)Assign(?:<&?%s>)?>::(add|sub)_assign$" % (p, p)), self.asg),
                   (re.compile(r"^<&?%s as std::ops::Mul<&?%s>>::(mul)()$" % (p, s)), self.mul),
                   (re.compile(r"^<%s as std::ops::MulAssign<&?%s>>::(mul)_assign()$" % (p, s)), self.mulasg),
                   (re.compile(r"^<&?%s as std::ops::Neg>::(neg)()$" % p), self.neg),
                   (re.compile(r"^<%s as group::Group>::(double)()$" % p), self.dbl),
                   (re.compile(r"^<%s as group::Group>::(identity)()$" % p), self.idt)]

    def __call__(self, e, fi, f):
        nm = norm_name(f["name"])
        for rx, h in self.rx:
            m = rx.match(nm)
            if m:
                g = m.groups()
                return lambda e, f, a, dt: h(e, a, g)
        return None

    def val(self, e, s, x):
        if isinstance(x, Ptr):
            return s.read(e, x.a, x.o).p
        a = Alloc(s.size, "tmp")
        e.store_val(a, 0, s.size, x)
        return s.read(e, a, 0).p

    def ret(self, p):
        return self.sp.image(FE(self.sp, p))

    def st(self, e, x, p):
        from mirv.core import Agg
        e.store_val(x.a, x.o, self.sp.size, self.ret(p))
        return Agg([], 0)

    def two(self, e, a, g):
        x, y = self.val(e, self.sp, a[0]), self.val(e, self.sp, a[1])
        return (P.add if g[1] == "add" else P.sub)(x, y, self.sp.m)

    def bin(self, e, a, g):
        return self.ret(self.two(e, a, g))

    def asg(self, e, a, g):
        return self.st(e, a[0], self.two(e, a, g))

    def prod(self, e, a):
        return self.ss.mul(self.val(e, self.sp, a[0]), self.val(e, self.ss, a[1]))

    def mul(self, e, a, g):
        return self.ret(self.prod(e, a))

    def mulasg(self, e, a, g):
        return self.st(e, a[0], self.prod(e, a))

    def neg(self, e, a, g):
        return self.ret(P.neg(self.val(e, self.sp, a[0]), self.sp.m))

    def dbl(self, e, a, g):
        return self.ret(P.scale(self.val(e, self.sp, a[0]), 2, self.sp.m))

    def idt(self, e, a, g):
        return self.ret({})


def transform(name, mod, fld, elt_ty, sizes, prog, low):
    """elt_ty: None for the field itself, else the point type"""
    out = []
    for k in sizes:
        fname = "%s::%s::sym_fft_%d" % ("mirv_harness::algos", mod, k)
        ss = RingSort(fld.ty, 8 * fld.n, fld.p, 1 << (64 * fld.n))
        so = {fld.ty: ss}
        con = [RayonContracts()]
        if elt_ty:
            sp = RingSort(elt_ty, prog.by_name(elt_ty)["size"], fld.p)
            so[elt_ty] = sp
            con += [ModuleContracts(sp, ss)]
        con += [OpContracts(ss)]
        n = 1 << k

        def pre(e, a, ss=ss, n=n):
            (m, _), = a[1].p.items()
            ss.rules.clear()
            if n >= 2:
                ss.rules[m[0]] = (n // 2, {(): ss.m - 1})

        def spec(cx, a, r, ss=ss, n=n):
            ok = True
            w = [{(): 1}]
            for i in range(1, n):
                w.append(ss.mul(w[-1], a[1].p))
            for i in range(n):
                t = {}
                for j in range(n):
                    t = P.add(t, ss.mul(a[0][j].p, w[i * j % n]), ss.m)
                cx.put("evaluation-at-w^%d" % i, not P.sub(ss.red(r[i].p), t, ss.m))
        o = Obligation("C16/%s/length-%d" % (name, n), low.root, spec, sorts=so, contracts=con, pre=pre)
        o.fn = fname
        o.max_steps = 40000000
        o.oracle, o.gen, o.search_n = low.oracle, low.gen, low.n
        o.cost = 1 + n * n // 16
        out.append(o)
    return out


def obligations(prog):
    low = {b.root: b for b in bounded(prog)}
    out = []
    deep = os.environ.get("VERIF_TIER") == "thorough"
    for m, k in FIELDS.items():
        out += transform(m, m, FBY[k], None, range((10 if deep else 9) if m == "t_bn_fr" else 8 if deep else 6), prog, low[m + "::fft"])
    for c in CURVES:
        m = "a_" + c.mod
        out += transform(m, m, c.scalar, c.pty, range(7 if deep else 6), prog, low[m + "::fft_g"])
    return out
