"""Points as formal integer combinations of base points: contracts of the group operations (discharged by C10) and the functions above them."""
import re
from .core import Agg, Alloc, Ptr, Part
from .world import SV, Unsupported
from .builtins import scal
from .sorts import norm_name
from . import poly as P


class GE:
    """group element: polynomial over the integers, linear in base-point variables"""
    __slots__ = ("s", "p")

    def __init__(self, s, p):
        self.s, self.p = s, p

    def __eq__(self, x):
        return isinstance(x, GE) and x.p == self.p

    def __hash__(self):
        return hash(P.key(self.p))

    def __repr__(self):
        return "GE(%s)" % P.show(self.p, limit=5)


class GrpSort:
    """memory form of a projective or affine point type of the abstract group"""

    def __init__(self, name, size):
        self.name, self.size = name, size
        self.words = size // 8

    def fresh(self, e, name):
        v = e.w.fresh(name, None, None, ("grp",))
        return GE(self, {(v,): 1})

    def image(self, g):
        return Agg([(8 * i, 8, Part(g, "grp:" + self.name, i)) for i in range(self.words)], self.size)

    def read(self, e, a, o):
        c = [e.load(a, o + 8 * i, 8) for i in range(self.words)]
        x = c[0]
        if not (isinstance(x, Part) and x.kind == "grp:" + self.name and x.i == 0):
            raise Unsupported("not an abstract point: %r" % (c[:1],))
        for i, y in enumerate(c):
            if not (isinstance(y, Part) and y.kind == x.kind and y.i == i and y.obj == x.obj):
                raise Unsupported("torn point")
        return GE(self, e.w.norm(x.obj.p))


class GrpContracts:
    """group-law contracts for (projective, affine) point types; values are integer combinations"""

    def __init__(self, sp, sa, endos=None):
        self.sp, self.sa = sp, sa
        self.endos = endos or {}  # function name -> (world, coefficients) -> coefficients
        Pn, An = re.escape(sp.name), re.escape(sa.name)
        T = "(?:%s|%s)" % (Pn, An)
        self.T = {sp.name: sp, sa.name: sa}
        self.rx = [
            (re.compile(r"^<&?(%s) as std::ops::(Add|Sub)(?:<&?(%s)>)?>::(add|sub)$" % (T, T)), "bin"),
            (re.compile(r"^<(%s) as std::ops::(Add|Sub)Assign(?:<&?(%s)>)?>::(add_assign|sub_assign)$" % (T, T)), "asg"),
            (re.compile(r"^<&?(%s) as std::ops::Neg>::neg$" % T), "neg"),
            (re.compile(r"^<(%s) as group::Group>::(double|identity)$" % Pn), "meth"),
            (re.compile(r"^<(%s) as std::default::Default>::(default)$" % T), "meth"),
            (re.compile(r"^<(%s) as group::prime::PrimeCurveAffine>::(identity|to_curve)$" % An), "meth"),
            (re.compile(r"^<(%s) as group::cofactor::CofactorCurveAffine>::(identity|to_curve)$" % An), "meth"),
            (re.compile(r"^<(%s) as group::Curve>::(to_affine)$" % Pn), "meth"),
            (re.compile(r"^<(%s) as std::convert::From<&?(?:%s)>>::(from)$" % (T, T)), "meth"),
            (re.compile(r"^<(%s) as subtle::ConstantTimeEq>::(ct_eq|ct_ne)$" % T), "meth"),
            (re.compile(r"^<(%s) as std::cmp::PartialEq>::(eq|ne)$" % T), "meth"),
            (re.compile(r"^<(%s) as group::(?:Group|prime::PrimeCurveAffine|cofactor::CofactorCurveAffine)>::(is_identity)$" % T), "meth"),
            (re.compile(r"^<(%s) as subtle::ConditionallySelectable>::(conditional_select|conditional_assign|conditional_swap)$" % T), "meth"),
        ]

    def __call__(self, e, fi, f):
        nm = norm_name(f["name"])
        h = self.endos.get(f["name"]) or self.endos.get(nm)
        if h:
            return lambda e, f, a, dt: self.ret(self.sp, h(e.w, self.arg(e, self.sp, a[0])))
        for rx, k in self.rx:
            m = rx.match(nm)
            if m:
                g = m.groups()
                if k == "bin":
                    sg = 1 if g[3] == "add" else -1
                    t2 = self.T[g[2]] if g[2] else self.T[g[0]]
                    return lambda e, f, a, dt: self.bin(e, a, self.T[g[0]], t2, sg)
                if k == "asg":
                    sg = 1 if g[3] == "add_assign" else -1
                    t2 = self.T[g[2]] if g[2] else self.T[g[0]]
                    return lambda e, f, a, dt: self.asg(e, a, self.T[g[0]], t2, sg)
                if k == "neg":
                    return lambda e, f, a, dt: self.ret(self.T[g[0]], P.neg(self.arg(e, self.T[g[0]], a[0])))
                h = getattr(self, "c_" + g[1])
                return lambda e, f, a, dt: h(e, self.T[g[0]], a)
        return None

    def arg(self, e, t, x):
        if isinstance(x, Ptr):
            return t.read(e, x.a, x.o).p
        a = Alloc(t.size, "tmp")
        e.store_val(a, 0, t.size, x)
        return t.read(e, a, 0).p

    def anyarg(self, e, x):
        """point of either type"""
        if not isinstance(x, Ptr):
            n = x.n if isinstance(x, Agg) else None
            for t in (self.sp, self.sa):
                try:
                    return self.arg(e, t, x)
                except Exception:
                    continue
            raise Unsupported("point argument")
        for t in (self.sp, self.sa):
            try:
                return self.arg(e, t, x)
            except Unsupported:
                continue
        raise Unsupported("point argument")

    def ret(self, t, p):
        return t.image(GE(t, p))

    def bin(self, e, a, t1, t2, sg):
        return self.ret(self.sp, P.add(self.arg(e, t1, a[0]), P.scale(self.arg(e, t2, a[1]), sg)))

    def asg(self, e, a, t1, t2, sg):
        r = P.add(self.arg(e, t1, a[0]), P.scale(self.arg(e, t2, a[1]), sg))
        e.store_val(a[0].a, a[0].o, t1.size, self.ret(t1, r))
        return Agg([], 0)

    def c_double(self, e, t, a):
        return self.ret(t, P.scale(self.arg(e, t, a[0]), 2))

    def c_identity(self, e, t, a):
        return self.ret(t, {})

    c_default = c_identity

    def c_to_curve(self, e, t, a):
        return self.ret(self.sp, self.arg(e, t, a[0]))

    def c_to_affine(self, e, t, a):
        return self.ret(self.sa, self.arg(e, t, a[0]))

    def c_from(self, e, t, a):
        return self.ret(t, self.anyarg(e, a[0]))

    def eqz(self, e, p):
        """atom: the combination is the identity"""
        p = e.w.norm(p)
        if not p:
            return 1
        return e.w.atom("gz", P.key(p), ("gz", p))

    def c_ct_eq(self, e, t, a):
        return self.eqz(e, P.sub(self.anyarg(e, a[0]), self.anyarg(e, a[1])))

    c_eq = c_ct_eq

    def c_ct_ne(self, e, t, a):
        x = self.c_ct_eq(e, t, a)
        return e.w.sub(1, x)

    c_ne = c_ct_ne

    def c_is_identity(self, e, t, a):
        return self.eqz(e, self.arg(e, t, a[0]))

    def mix(self, e, c, x, y):
        c = e.w.n(scal(c))
        if not isinstance(c, SV):
            return y if c else x
        return P.add(x, P.mul(c.p, P.sub(y, x)))

    def c_conditional_select(self, e, t, a):
        return self.ret(t, self.mix(e, a[2], self.arg(e, t, a[0]), self.arg(e, t, a[1])))

    def c_conditional_assign(self, e, t, a):
        e.store_val(a[0].a, a[0].o, t.size, self.ret(t, self.mix(e, a[2], self.arg(e, t, a[0]), self.arg(e, t, a[1]))))
        return Agg([], 0)

    def c_conditional_swap(self, e, t, a):
        x, y = self.arg(e, t, a[0]), self.arg(e, t, a[1])
        e.store_val(a[0].a, a[0].o, t.size, self.ret(t, self.mix(e, a[2], x, y)))
        e.store_val(a[1].a, a[1].o, t.size, self.ret(t, self.mix(e, a[2], y, x)))
        return Agg([], 0)
