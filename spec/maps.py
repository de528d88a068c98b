"""C17: the maps to the curve, executed from the public entry point on an arbitrary field element.

Base-field operations, inversion, square roots, quadratic character and parity enter through their contracts.  Quadratic
characters of rational functions of the input are tracked as classes: p has the class of k * (product of earlier ones) when
p times that product is k times a perfect square in F(u); so 'one of the three candidates is on the curve' is a polynomial identity."""
import itertools
import re
from mirv import poly as P
from mirv.core import Agg, Alloc, Ptr
from mirv.oblig import Obligation
from mirv.sorts import FE, ct_option, norm_name, on_decide
from mirv.world import SV, Unsupported, Infeasible
from . import h2c, points, towers
from .ecref import CBY, ring_sqrt, rsub
from .pointio import Codec, same
from .points import base_sort, cst, known, must_zero, must_nz


# ---------------------------------------------------------------- univariate polynomials over the base field
class Uni:
    def __init__(self, F):
        self.F = F

    def trim(self, a):
        while a and self.F.iszero(a[-1]):
            a.pop()
        return a

    def mul(self, a, b):
        if not a or not b:
            return []
        F = self.F
        r = [F.zero] * (len(a) + len(b) - 1)
        for i, x in enumerate(a):
            for j, y in enumerate(b):
                r[i + j] = F.add(r[i + j], F.mul(x, y))
        return self.trim(r)

    def add(self, a, b):
        n = max(len(a), len(b))
        z = self.F.zero
        return self.trim([self.F.add(a[i] if i < len(a) else z, b[i] if i < len(b) else z) for i in range(n)])

    def sqrt(self, a):
        """s with a = lead(a) * s^2, or None"""
        F = self.F
        if len(a) % 2 == 0:
            return None
        iv = F.inv(a[-1])
        m = [F.mul(x, iv) for x in a]
        n = (len(m) - 1) // 2
        h = F.inv(F.small(2))
        s = [F.zero] * n + [F.one]
        for k in range(1, n + 1):  # coefficient of degree 2n - k
            t = m[2 * n - k]
            for i in range(1, k):
                t = rsub(F, t, F.mul(s[n - i], s[n - k + i]))
            s[n - k] = F.mul(t, h)
        return s if self.mul(s, s) == m else None


def concrete(c, p):
    """value of a polynomial without unknowns, or None"""
    U = towers.U
    v = [0, 0]
    for k, x in p.items():
        if k == ():
            v[0] = x
        elif c.deg == 2 and k == (U,):
            v[1] = x
        else:
            return None
    return v[0] if c.deg == 1 else tuple(v)


class Squares(Codec):
    """quadratic characters, square roots and parity over the base field of c; u: the one unknown"""

    def __init__(self, c, s):
        Codec.__init__(self, c, s)
        self.U = Uni(c.F)
        self.u = None

    def wst(self, w):
        if not hasattr(w, "sqcls"):
            w.sqcls, w.sqroots = [], []
        return w

    def ratio(self, e, p):
        """(numerator, denominator) as polynomials in u, or None"""
        w, s, U = e.w, self.s, self.U
        inv = {v: m for _, v, m in getattr(w, "feinvs", [])}
        one = [self.c.F.one]

        def conv(p):
            parts = {}
            for k, x in p.items():
                i = tuple(v for v in k if v in inv)
                parts.setdefault(i, {})[tuple(v for v in k if v not in inv)] = x
            num, den = [], one
            for i, q in parts.items():
                n, d = base(q), one
                if n is None:
                    return None
                for v in i:
                    r = conv(inv[v])
                    if r is None:
                        return None
                    n, d = U.mul(n, r[1]), U.mul(d, r[0])
                if d == den:
                    num = U.add(num, n)
                else:
                    num, den = U.add(U.mul(num, d), U.mul(n, den)), U.mul(den, d)
            return num, den

        def base(q):
            cs = {}
            for k, x in q.items():
                d = k.count(self.u) if self.u is not None else 0
                r = tuple(v for v in k if v != self.u)
                cs.setdefault(d, {})[r] = x
            out = [self.c.F.zero] * (max(cs, default=-1) + 1)
            for d, r in cs.items():
                v = concrete(self.c, r)
                if v is None:
                    return None
                out[d] = v
            return U.trim(out)
        return conv(p)

    def eqz(self, e, s, p):
        """p = 0; a polynomial in u alone vanishes at its roots in the field only: u is each of them in turn, or p is nonzero"""
        w = e.w
        q = towers.clear_invs(w, s, s.fix(e, s.red(p)))
        q = s.fix(e, s.red(q))
        if not q:
            return 1
        if concrete(self.c, q) is not None:
            return 0
        for _, y in getattr(w, "sqroots", ()):  # roots of nonzero squares are nonzero
            v = next(iter(y))[0]
            while all(v in k for k in q):
                q = {tuple(k[:k.index(v)] + k[k.index(v) + 1:]): x for k, x in q.items()}
        if concrete(self.c, q) is not None:
            return 0
        r = self.ratio(e, q)
        if r is None:
            return points.eqz(e, s, p)
        key = tuple(r[0])
        if key not in w.memo.setdefault("nonzero", set()):
            for x in self.roots(key):
                d = s.sub_(P.var(self.u), cst(self.c, x))
                b = points.eqz(e, s, d)
                if w.concretize(b, "root") if isinstance(b, SV) else b:
                    self.consistent(e, x)
                    return 1
            w.memo["nonzero"].add(key)
            w.fenz.append((s, s.monic(q)))
        return 0

    def consistent(self, e, x):
        """the characters, roots and parities decided for the arbitrary u hold at u = x"""
        F, w, s = self.c.F, e.w, self.s

        def ev(a):
            v = F.zero
            for q in reversed(a):
                v = F.add(F.mul(v, x), q)
            return v
        for key, t in getattr(w, "sqcls", ()):
            v = ev(key)
            if not F.iszero(v) and self.character(v) != t:
                raise Infeasible()
        inv = {}
        for _, v, m in getattr(w, "feinvs", []):
            m = concrete(self.c, P.subst(s.fix(e, m), inv, s.m, s.rules))
            if m is None:
                raise Unsupported("inverse of more than the unknown")
            if F.iszero(m):
                raise Infeasible()
            inv[v] = cst(self.c, F.inv(m))
        for p, y in getattr(w, "sqroots", ()):
            v = concrete(self.c, P.subst(s.fix(e, p), inv, s.m, s.rules))
            if v is None:
                raise Unsupported("root of more than the unknown")
            r = ring_sqrt(F, v)
            b = w.var("root%d" % len(w.vars), 0, 1)
            if w.concretize(b, "which root"):
                r = F.neg(r)
            w.fesub[next(iter(y))[0]] = cst(self.c, r)
        for p, t in self.st(w)["sgn"]:
            v = concrete(self.c, P.subst(s.fix(e, p), inv, s.m, s.rules))
            t = w.n(t)
            if v is None or isinstance(t, SV):
                raise Unsupported("undecided parity")
            if h2c.sgn0(self.c, v) != t:
                raise Infeasible()

    def roots(self, key):
        m = self.c.__dict__.setdefault("_roots", {})
        if key not in m:
            m[key] = h2c.poly_roots(self.c.F, list(key))
        return m[key]

    def character(self, v):
        F = self.c.F
        return 1 if F.iszero(v) or F.pow(v, (F.order - 1) // 2) == F.one else 0

    def poly(self, a):
        out = {}
        for i, v in enumerate(a):
            out = self.s.add(out, self.s.mul(cst(self.c, v), {(self.u,) * i: 1}))
        return out

    def is_square(self, e, p):
        """1 when p is a square (zero included), 0 otherwise"""
        w, s = self.wst(e.w), self.s
        p = s.fix(e, s.red(p))
        v = concrete(self.c, p)
        if v is not None:
            return self.character(v)
        r = self.ratio(e, p)
        key = None
        if r is not None:
            key = self.U.mul(*r)
            if not key:
                return 1
            if len(key) == 1:
                return self.character(key[0])
            if key in [k for k, _ in w.sqcls]:
                return next(t for k, t in w.sqcls if k == key)
        z = self.eqz(e, s, p)
        z = w.concretize(z, "zero?") if isinstance(z, SV) else z
        if z:
            return 1
        if key is None:
            raise Unsupported("quadratic character of an expression in further unknowns")
        for n in (0, 1, 2):
            for qs in itertools.combinations(w.sqcls, n):
                t, cl = key, 1
                for k, b in qs:
                    t = self.U.mul(t, k)
                    cl ^= 1 - b
                if self.U.sqrt(t) is not None:
                    cl = cl if self.character(t[-1]) else 1 - cl
                    w.sqcls.append((key, cl))
                    return cl
        t = w.atom("sq", str(key), ("sq", str(key)))
        t = w.concretize(t, "square") if isinstance(t, SV) else t
        w.sqcls.append((key, t))
        return t

    def root(self, e, p):
        """square root of a nonzero square"""
        w, s = self.wst(e.w), self.s
        p = s.fix(e, s.red(p))
        v = concrete(self.c, p)
        if v is not None:
            return cst(self.c, ring_sqrt(self.c.F, v))
        for q, y in w.sqroots:
            if same(e, s, p, q):
                return y
        z = self.eqz(e, s, p)
        z = w.concretize(z, "zero?") if isinstance(z, SV) else z
        if z:
            return {}
        r = self.ratio(e, p)
        for q, y in w.sqroots:
            # p q = k (S / (D D'))^2: the root of p is sqrt(k) S y / (D N') for q = N' / D'
            r2 = self.ratio(e, q)
            t = r and r2 and self.U.mul(self.U.mul(*r), self.U.mul(*r2))
            S = t and self.U.sqrt(t)
            if S and self.character(t[-1]):
                den = self.poly(self.U.mul(r[1], r2[0]))
                iv = s.contracts().inverse(e, den) if concrete(self.c, den) is None else cst(self.c, self.c.F.inv(concrete(self.c, den)))
                return s.mul(s.mul(s.mul(self.poly(S), cst(self.c, ring_sqrt(self.c.F, t[-1]))), y), iv)
        yv = w.fresh("y%d" % len(w.sqroots), None, None, ("fe", s))
        s.rules[yv] = (2, p)
        y = P.var(yv)
        w.fenz.append((s, y))
        w.sqroots.append((p, y))
        return y

    def sign(self, e, p):
        v = concrete(self.c, self.s.fix(e, self.s.red(p)))
        if v is not None:
            return h2c.sgn0(self.c, v)
        t = Codec.sign(self, e, p)
        return e.w.concretize(t, "parity") if isinstance(t, SV) else t


class MapContracts:
    """sqrt, quadratic character and parity of the base field; inversion of constants"""

    def __init__(self, c, s):
        self.k, self.c, self.s = Squares(c, s), c, s
        T = s.name
        self.m = {"<%s as ff::Field>::sqrt" % T: self.sqrt, "<%s as ff::PrimeField>::is_odd" % T: self.odd, "<%s as ff::Field>::invert" % T: self.invert,
                  "<%s as ff::PrimeField>::is_even" % T: lambda e, f, a, dt: 1 - self.odd(e, f, a, dt)}
        L = "<%s as halo2curves::ff_ext::Legendre>::" % T
        self.m[L + "ct_quadratic_non_residue"] = lambda e, f, a, dt: 1 - self.k.is_square(e, self.arg(e, a[0]))
        self.m[L + "ct_quadratic_residue"] = lambda e, f, a, dt: self.k.is_square(e, self.arg(e, a[0]))
        self.m[L + "legendre"] = self.legendre
        self.m["halo2curves::hash_to_curve::mirv_hooks::set_field_elements<%s>" % T] = self.hookset
        self.m["halo2curves::hash_to_curve::mirv_hooks::field_elements<%s>" % T] = self.hookget

    def __call__(self, e, fi, f):
        return self.m.get(norm_name(f["name"]).replace("::<", "<"))

    def arg(self, e, x):
        if isinstance(x, Ptr):
            return self.s.read(e, x.a, x.o).p
        a = Alloc(self.s.size, "tmp")
        e.store_val(a, 0, self.s.size, x)
        return self.s.read(e, a, 0).p

    def sqrt(self, e, f, a, dt):
        p = self.arg(e, a[0])
        t = self.k.is_square(e, p)
        return ct_option(e, dt, self.s, FE(self.s, self.k.root(e, p) if t else {}), t)

    def odd(self, e, f, a, dt):
        return self.k.sign(e, self.arg(e, a[0]))

    def legendre(self, e, f, a, dt):
        p = self.arg(e, a[0])
        if not self.k.is_square(e, p):
            return (1 << 64) - 1
        z = self.k.eqz(e, self.s, self.s.fix(e, p))
        z = e.w.concretize(z, "zero?") if isinstance(z, SV) else z
        return 1 - z

    def invert(self, e, f, a, dt):
        p = self.s.fix(e, self.s.red(self.arg(e, a[0])))
        v = concrete(self.c, p)
        if v is None:
            return self.s.contracts().c_invert(e, f, a, dt)
        z = self.c.F.iszero(v)
        return ct_option(e, dt, self.s, FE(self.s, {} if z else cst(self.c, self.c.F.inv(v))), 0 if z else 1)

    # the hook: chosen field elements in place of the hashed ones
    def hookset(self, e, f, a, dt):
        v = a[0]
        if isinstance(v, Agg):
            e.user.setdefault("chosen", v)
        return Agg([], 0)

    def hookget(self, e, f, a, dt):
        if "chosen" not in e.user:
            raise Unsupported("no chosen elements")
        return e.user["chosen"]


class Capture:
    """the sum of the two mapped points, and the cofactor clearing after it, as tokens; the operands are kept"""

    def __init__(self, c, ps):
        self.c, self.ps = c, ps
        p = re.escape(c.pty)
        self.add = re.compile(r"^<&?%s as std::ops::Add(?:<&?%s>)?>::add$" % (p, p))
        self.asg = re.compile(r"^<%s as std::ops::AddAssign(?:<&?%s>)?>::add_assign$" % (p, p))
        self.clr = re.compile(r"^<%s as group::cofactor::CofactorGroup>::clear_cofactor$" % p)

    def __call__(self, e, fi, f):
        n = norm_name(f["name"])
        if f["name"].startswith("std::ptr::drop_glue::<"):  # releasing memory is not observable
            return lambda e, f, a, dt: Agg([], 0)
        if self.add.match(n):
            return lambda e, f, a, dt: self.sum(e, a)
        if self.asg.match(n):
            def h(e, f, a, dt):
                e.store_val(a[0].a, a[0].o, self.ps.size, self.sum(e, a))
                return Agg([], 0)
            return h
        if self.clr.match(n):
            return self.clear
        return None

    def read(self, e, x):
        if not isinstance(x, Ptr):
            a = Alloc(self.ps.size, "tmp")
            e.store_val(a, 0, self.ps.size, x)
            x = Ptr(a, 0)
        return self.ps.read(e, x.a, x.o)

    def sum(self, e, a):
        u = e.user
        u.setdefault("sums", []).append((self.read(e, a[0]), self.read(e, a[1])))
        return self.token(e, "sum%d" % len(u["sums"]))

    def token(self, e, n):
        v = tuple(FE(self.ps.s, P.var(e.w.fresh(n + k, None, None, ("fe", self.ps.s)))) for k in "xyz")
        e.user.setdefault("tokens", {})[n] = v
        return self.ps.image(v)

    def clear(self, e, f, a, dt):
        v = self.read(e, a[0])
        n = [k for k, t in e.user.get("tokens", {}).items() if t == v]
        return self.token(e, "cleared-" + (n[0] if n else "other"))


# ---------------------------------------------------------------- the documented map, with fractions
class Ref:
    """candidate abscissae of the map at u as fractions; `zero` decides the vanishing of a polynomial"""

    def __init__(self, cx, s, c, k, u):
        self.cx, self.s, self.c, self.k, self.u = cx, s, c, k, u
        self.M = h2c.maps(c)

    def C(self, v):
        return cst(self.c, v)

    def vanishes(self, p):
        s, e, w = self.s, self.cx.e, self.cx.w
        p = s.fix(e, s.red(p))
        if not p:
            return True
        if concrete(self.c, p) is not None:
            return False
        z = self.k.eqz(e, s, p)
        return bool(w.concretize(z, "exceptional") if isinstance(z, SV) else z)

    def g(self, x, A, B):
        """numerator of x^3 + A x + B over d^3 for x = n / d"""
        s = self.s
        n, d = x
        d2 = s.mul(d, d)
        return s.add(s.add(s.mul(s.mul(n, n), n), s.mul(s.mul(A, n), d2)), s.mul(B, s.mul(d2, d)))

    def square(self, x, A, B):
        n = self.g(x, A, B)
        return self.k.is_square(self.cx.e, self.s.mul(n, x[1]))  # n / d^3 has the class of n d

    def svdw(self):
        s, M, u, C = self.s, self.M, self.u, self.C
        one = {(): 1}
        t = s.mul(s.mul(u, u), C(M.c1))
        p, m = s.add(one, t), s.sub_(one, t)
        c2, z = C(M.c2), C(M.Z)
        if self.vanishes(s.mul(p, m)):
            xs = [(c2, one), (c2, one), (z, one)]
        else:
            q = s.mul(u, C(M.c3))
            xs = [(s.sub_(s.mul(c2, p), q), p), (s.add(s.mul(c2, p), q), p)]
            m2 = s.mul(m, m)
            xs.append((s.add(s.mul(C(M.c4), s.mul(p, p)), s.mul(z, m2)), m2))
        A, B = C(self.c.a), C(self.c.b)
        for i, x in enumerate(xs):
            if self.square(x, A, B):
                return x, A, B
        return None, A, B

    def sswu(self):
        s, M, u, C = self.s, self.M, self.u, self.C
        one = {(): 1}
        A, B, Z = C(M.A), C(M.B), C(M.Z)
        t = s.mul(Z, s.mul(u, u))
        q = s.add(s.mul(t, t), t)
        if self.vanishes(q):
            x = (B, s.mul(Z, A))
        else:
            x = (s.mul(B, s.add(one, q)), s.neg(s.mul(A, q)))
        if self.square(x, A, B):
            return x, A, B
        x = (s.mul(t, x[0]), x[1])
        return (x if self.square(x, A, B) else None), A, B


def horner(s, cs, x):
    """numerator over d^(len - 1)"""
    n, d = x
    t, pw = {}, {(): 1}
    for i, q in enumerate(reversed(cs)):
        t = s.add(s.mul(t, n), s.mul(q, pw))
        pw = s.mul(pw, d)
    return t


def matches(cx, s, c, k, u, got, tag):
    """got = (X, Y, Z) represents the documented image of u"""
    e, w = cx.e, cx.w
    R = Ref(cx, s, c, k, u)
    sv = not hasattr(R.M, "A")
    x, A, B = R.svdw() if sv else R.sswu()
    cx.put(tag + "some-candidate-on-curve", x is not None)
    if x is None:
        return
    # y = r / d^2 with r^2 = n(g) d
    n, d = x
    r2 = s.mul(R.g(x, A, B), d)
    X, Y, Z = [g.p for g in got]
    d2 = s.mul(d, d)
    if getattr(R.M, "iso", None) is None:
        must_zero(cx, s, tag + "abscissa", s.sub_(s.mul(X, d), s.mul(n, Z)))
        must_nz(cx, s, tag + "Z-nonzero", Z)
        # Y / Z = +- r / d^2
        must_zero(cx, s, tag + "ordinate", s.sub_(s.mul(s.mul(Y, Y), s.mul(d2, d2)), s.mul(r2, s.mul(Z, Z))))
        if known(cx, s, Y) == "zero":
            return
        iz = s.contracts().inverse(e, s.fix(e, Z)) if concrete(c, s.fix(e, Z)) is None else cst(c, c.F.inv(concrete(c, s.fix(e, Z))))
        y = s.mul(Y, iz)
        cx.put(tag + "parity", k.sign(e, y) == k.sign(e, u))
        return
    iso = [[cst(c, v) for v in l] for l in R.M.iso]
    rt = k.root(e, r2)
    id2 = s.contracts().inverse(e, d2) if concrete(c, d2) is None else cst(c, c.F.inv(concrete(c, d2)))
    y = s.mul(rt, id2)
    if k.sign(e, y) != k.sign(e, u):
        rt = s.neg(rt)
    v = [horner(s, l, x) for l in iso]
    deg = [len(l) - 1 for l in iso]
    pw = [{(): 1}]
    for _ in range(max(deg) + 4):
        pw.append(s.mul(pw[-1], d))
    if R.vanishes(s.mul(v[1], v[3])):
        must_zero(cx, s, tag + "X-zero", X)
        must_zero(cx, s, tag + "Z-zero", Z)
        must_nz(cx, s, tag + "Y-nonzero", Y)
        return
    # X/Z = (v0 / d^k0) / (v1 / d^k1),  Y/Z = (r / d^2) (v2 / d^k2) / (v3 / d^k3)
    must_zero(cx, s, tag + "abscissa", s.sub_(s.mul(s.mul(X, v[1]), pw[deg[0]]), s.mul(s.mul(Z, v[0]), pw[deg[1]])))
    must_zero(cx, s, tag + "ordinate", s.sub_(s.mul(s.mul(Y, v[3]), pw[deg[2] + 2]), s.mul(s.mul(s.mul(Z, rt), v[2]), pw[deg[3]])))
    must_nz(cx, s, tag + "Z-nonzero", Z, [v[1], v[3]])


class Elements:
    """the two base-field arguments: one arbitrary, one fixed"""

    def __init__(self, c, s, k, which, other):
        self.c, self.s, self.k, self.which, self.other = c, s, k, which, other

    def reset(self):
        self.i = 0

    def fresh(self, e, name):
        self.i += 1
        if self.i - 1 != self.which:
            return FE(self.s, cst(self.c, self.other))
        v = e.w.fresh("u", None, None, ("fe", self.s))
        self.k.u = v
        self.v = P.var(v)
        # the poles of the documented map first: every later decision is about an argument already told apart from them
        for x in dict.fromkeys(h2c.exceptional(self.c)):
            b = points.eqz(e, self.s, self.s.sub_(self.v, cst(self.c, x)))
            if e.w.concretize(b, "pole") if isinstance(b, SV) else b:
                return FE(self.s, cst(self.c, x))
        return FE(self.s, self.v)

    def image(self, v):
        return self.s.image(v)

    def read(self, e, a, o):
        return self.s.read(e, a, o)


def image_of(c, prog, which):
    from . import algos
    s = base_sort(c)
    s.reset = lambda: None
    con = MapContracts(c, s)
    other = c.F.small(5)
    el = Elements(c, s, con.k, which, other)
    ps = points.PtSort(c, s, "p", False, prog)

    def setup(e):
        if c.deg == 2:
            towers.symbols(e)
        s.rules = dict(s.base_rules)
        e.w.fezero, e.w.fenz, e.w.fesub = [], [], {}
        con.k.u = None

    def spec(cx, a, r):
        e = cx.e
        sums = e.user.get("sums", [])
        cx.put("one-sum", len(sums) == 1)
        if len(sums) != 1:
            return
        tk = e.user["tokens"]
        last = "cleared-sum1" if c.mod in h2c.CLEARED else "sum1"
        cx.put("result", last in tk and tuple(r) == tk[last])
        matches(cx, s, c, con.k, s.fix(e, a[which].p), sums[0][which], "image-")
        F = c.F
        Q = h2c.maps(c).map(other)
        X, Y, Z = [concrete(c, s.fix(e, s.red(g.p))) for g in sums[0][1 - which]]
        cx.put("fixed-image", None not in (X, Y, Z) and not F.iszero(Z) and (F.mul(X, F.inv(Z)), F.mul(Y, F.inv(Z))) == Q)

    user = {"fe_eqz": con.k.eqz}
    o = Obligation("C17/%s/map-of-argument-%d" % (c.mod, which), "h_%s::map2" % c.mod, spec, sorts={c.fty: el, c.pty: ps}, contracts=[con, Capture(c, ps), s.contracts()], setup=setup, user=user)
    b = algos.map2(c)
    o.oracle, o.gen, o.search_n = b.oracle, b.gen, 400
    o.cost, o.limit = 100, 400
    return o


def obligations(prog):
    return [image_of(CBY[m], prog, i) for m in h2c.SUITES for i in (0, 1)]
