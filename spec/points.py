"""Curve points over an abstract base field: the group law, conversions, comparisons (C10, C11, C20, C06 constants).

A projective argument is, by forking, the identity (0 : Y : 0) with Y != 0 or (x z : y z : z) with z != 0 and y^2 = x^3 + a x + b;
a second related argument is the identity, a point with a different abscissa, the same point or the opposite one.
y != 0 on every point because no curve of the library has a rational 2-torsion point (lemma, computed)."""
import itertools
from mirv import poly as P
from mirv.core import Agg
from mirv.world import SV, Unsupported
from mirv.oblig import Obligation
from mirv.sorts import RingSort, OpContracts, FE
from mirv.runner import Lemma
from . import ecref, towers, ptoracle
from .ecref import CURVES
from .towers import ExtContracts, cpoly, clear_invs


def base_sort(c):
    if c.deg == 1:
        s = RingSort(c.fty, c.field.size, c.field.p, r=c.field.R)
        s.base_rules = {}
        s.contracts = lambda **k: OpContracts(s, **k)
    else:
        so, subs = towers.sorts(c.tw, 2, 2)
        s = subs[2]
        s.base_rules = towers.rules(c.tw)
        s.contracts = lambda **k: ExtContracts(s, c.tw, 2, **k)
        s.subsort = subs[1]
    s.c = c
    return s


def cst(c, v):
    return cpoly(c.tw, c.deg, v) if c.deg == 2 else ({(): v} if v else {})


class Plan:
    def __init__(self, related):
        self.related = related
        self.pts = []  # None or (x, y)
        self.zs = []
        self.rel = []


class PtSort:
    """a point argument; kind 'p' projective (x z, y z, z), 'a' affine"""

    def __init__(self, c, s, kind, related=True, prog=None):
        self.c, self.s, self.kind, self.related = c, s, kind, related
        self.k = 3 if kind == "p" else 2
        t = prog.by_name(c.pty if kind == "p" else c.aty)
        fs = t["vars"][0][2]
        self.offs = [t["offs"][[f[0] for f in fs].index(n)] for n in "xyz"[:self.k]]
        self.size = t["size"]

    def fresh(self, e, name):
        w, s = e.w, self.s
        pl = e.user.get("pts")
        if pl is None or pl.w is not w:
            pl = e.user["pts"] = Plan(self.related)
            pl.w = w
            s.rules = dict(s.base_rules)
            if not hasattr(w, "fezero"):
                w.fezero, w.fenz, w.fesub = [], [], {}

        def bit(n):
            v = w.fresh(name + n, 0, 1)
            return w.decide_var(v)
        prev = [(i, q) for i, q in enumerate(pl.pts) if q is not None]
        var = lambda n: P.var(w.fresh(name + n, None, None, ("fe", s)))
        if self.kind == "p":
            z = var("z")
            w.fenz.append((s, z))
        else:
            z = {(): 1}
        if bit("_identity"):
            pt, rel = None, "identity"
            co = ({}, z, {}) if self.kind == "p" else ({}, {})
        else:
            rel = "point"
            if prev and self.related:
                if bit("_same_x"):
                    rel = "opposite" if bit("_opposite") else "equal"
            if rel in ("equal", "opposite"):
                x, y = prev[0][1]
                pt = (x, y if rel == "equal" else s.neg(y))
            else:
                x, y = var("x"), var("y")
                yv = next(iter(y))[0]
                s.rules[yv] = (2, rhs(self.c, s, x))
                w.fenz.append((s, y))
                if prev and self.related:
                    w.fenz.append((s, s.monic(s.sub_(x, prev[0][1][0]))))
                pt = (x, y)
            co = (s.mul(pt[0], z), s.mul(pt[1], z), z) if self.kind == "p" else pt
        pl.pts.append(pt)
        pl.zs.append(z)
        pl.rel.append(rel)
        self.plan = pl
        return tuple(FE(s, q) for q in co)

    def image(self, v):
        cells = []
        for o, fe in zip(self.offs, v):
            cells += [(o + a, n, x) for a, n, x in self.s.image(fe).c]
        return Agg(cells, self.size)

    def read(self, e, a, o):
        return tuple(self.s.read(e, a, o + d) for d in self.offs)


def rhs(c, s, x):
    return s.add(s.mul(s.add(s.mul(x, x), cst(c, c.a)), x), cst(c, c.b))


# ---------------------------------------------------------------- affine law as fractions
def law(s, c, A, B, rel=None):
    """A + B for abstract affine points: None or (xn, yn, D): x = xn/D^2, y = yn/D^3"""
    if A is None and B is None:
        return None
    if A is None or B is None:
        Q = A or B
        return (Q[0], Q[1], {(): 1})
    m, sb = s.mul, s.sub_
    if A[0] == B[0]:
        if A[1] == s.neg(B[1]):
            return None
        if A[1] != B[1]:
            raise Unsupported("points with equal abscissa and unrelated ordinate")
        D = P.scale(A[1], 2, s.m)
        N = s.add(P.scale(m(A[0], A[0]), 3, s.m), cst(c, c.a))
    else:
        D, N = sb(B[0], A[0]), sb(B[1], A[1])
    D2 = m(D, D)
    D3 = m(D2, D)
    xn = sb(m(N, N), m(s.add(A[0], B[0]), D2))
    yn = sb(m(N, sb(m(A[0], D2), xn)), m(A[1], D3))
    return xn, yn, D


def ng(s, A):
    return None if A is None else (A[0], s.neg(A[1]))


def nz_atoms(c, s, pl):
    """polynomials that cannot vanish on points of the curve: ordinates of non-identity points"""
    out = []
    ps = [p for p in pl.pts if p is not None]
    for p in ps:
        out.append(p[1])
        out.append(rhs(c, s, p[0]))
        out.append(law(s, c, p, p)[1])
    for A, B in itertools.combinations(ps, 2):
        if A[0] != B[0] and pl.related:
            out.append(s.sub_(A[0], B[0]))
            for Q in (B, ng(s, B)):
                out.append(law(s, c, A, Q)[1])
    return out


def known(cx, s, p, atoms=()):
    """'zero', 'nonzero' or None"""
    w = cx.w
    p = towers.zero(cx, s, p)
    if not p:
        return "zero"
    nzv = {next(iter(q))[0] for _, q in w.fenz if len(q) == 1 and len(next(iter(q))) == 1}

    def strip(q):
        m = None
        for k in q:
            m = list(k) if m is None else inter(m, k)
            if not m:
                return q
        m = [v for v in (m or []) if v in nzv]
        if not m:
            return q
        out = {}
        for k, x in q.items():
            k = list(k)
            for v in m:
                k.remove(v)
            out[tuple(k)] = x
        return out
    p = strip(p)
    if P.is_const(p):
        return "nonzero"
    p = s.monic(p)
    for _, q in w.fezero:
        q = strip(s.fix(cx.e, q))
        if q and s.monic(q) == p:
            return "zero"
    if c_unit(p, s):
        return "nonzero"
    cand = []
    for q in [q for _, q in w.fenz] + [s.fix(cx.e, q) for q in atoms]:
        q = strip(q)
        if not P.is_const(q):
            q = s.monic(q)
            if q not in cand:
                cand.append(q)
    for n in (1, 2, 3):
        for qs in itertools.combinations_with_replacement(cand, n):
            t = {(): 1}
            for q in qs:
                t = s.mul(t, q)
            t = strip(s.fix(cx.e, t))
            if t and s.monic(t) == p:
                return "nonzero"
    return None


def c_unit(p, s):
    """a nonzero constant of the extension field"""
    sym = getattr(s, "sym", None)
    return sym is not None and set(P.vars_of(p)) <= {sym}


def inter(m, k):
    k = list(k)
    out = []
    for v in m:
        if v in k:
            k.remove(v)
            out.append(v)
    return out


def must_zero(cx, s, name, p):
    k = known(cx, s, p)
    cx.put(name, k == "zero", "residual " + P.show(towers.zero(cx, s, p), cx.w.vname, 5))


def must_nz(cx, s, name, p, atoms=()):
    k = known(cx, s, p, atoms)
    cx.put(name, k == "nonzero", "%s not known to be nonzero" % P.show(towers.zero(cx, s, p), cx.w.vname, 5))


def is_rep(cx, s, c, pl, got, want, tag=""):
    """got = (X, Y, Z) represents the law result want"""
    X, Y, Z = [g.p for g in got]
    at = nz_atoms(c, s, pl)
    if want is None:
        must_zero(cx, s, tag + "X-zero", X)
        must_zero(cx, s, tag + "Z-zero", Z)
        must_nz(cx, s, tag + "Y-nonzero", Y, at)
        return
    xn, yn, D = want
    D2 = s.mul(D, D)
    must_zero(cx, s, tag + "abscissa", s.sub_(s.mul(X, D2), s.mul(xn, Z)))
    must_zero(cx, s, tag + "ordinate", s.sub_(s.mul(Y, s.mul(D2, D)), s.mul(yn, Z)))
    must_nz(cx, s, tag + "Z-nonzero", Z, at)


def is_aff(cx, s, got, pt, tag=""):
    w = pt if pt is not None else ({}, {})
    for n, g, x in zip("xy", got, w):
        must_zero(cx, s, tag + n, s.sub_(g.p, x))


def sub_nz(fn):
    return fn


# ---------------------------------------------------------------- lemmas
def lemma_no_two_torsion(c):
    def f():
        # gcd(X^q - X, X^3 + aX + b) in F_q[X] is 1
        F = c.F
        q = F.order
        rs = lambda a, b: ecref.rsub(F, a, b)

        def mulm(f, g):
            r = [F.zero] * 5
            for i, x in enumerate(f):
                for j, y in enumerate(g):
                    r[i + j] = F.add(r[i + j], F.mul(x, y))
            for k in (4, 3):
                # X^3 = -aX - b
                t = r[k]
                r[k] = F.zero
                r[k - 2] = rs(r[k - 2], F.mul(t, c.a))
                r[k - 3] = rs(r[k - 3], F.mul(t, c.b))
            return r[:3]
        h = [F.one, F.zero, F.zero]
        x = [F.zero, F.one, F.zero]
        for b in bin(q)[2:]:
            h = mulm(h, h)
            if b == "1":
                h = mulm(h, x)
        g = [h[0], rs(h[1], F.one), h[2]]
        cub = [c.b, c.a, F.zero, F.one]

        def gcd(a, b):
            def deg(t):
                d = len(t) - 1
                while d >= 0 and F.iszero(t[d]):
                    d -= 1
                return d
            while deg(b) >= 0:
                da, db = deg(a), deg(b)
                if da < db:
                    a, b = b, a
                    continue
                k = F.mul(a[da], F.inv(b[db]))
                a = list(a)
                for i in range(db + 1):
                    a[da - db + i] = rs(a[da - db + i], F.mul(k, b[i]))
                if deg(a) < deg(b):
                    a, b = b, a
            return deg(a)
        return gcd(cub, g) == 0, "x^3+ax+b has a root in the base field"
    return Lemma("points/%s/no-2-torsion" % c.mod, f)


def lemma_closure(c):
    """the fraction law stays on the curve, so its ordinate is one of a curve point (justifies the non-vanishing atoms)"""
    def f():
        from mirv.world import World

        class E:
            pass
        w = World()
        s = base_sort(c)
        if c.deg == 2:
            for n in "uvw":
                w.fresh(n, None, None)
        x1, y1, x2, y2 = [P.var(w.fresh(n, None, None)) for n in ("x1", "y1", "x2", "y2")]
        s.rules = dict(s.base_rules)
        s.rules[next(iter(y1))[0]] = (2, rhs(c, s, x1))
        s.rules[next(iter(y2))[0]] = (2, rhs(c, s, x2))
        for A, B in (((x1, y1), (x2, y2)), ((x1, y1), (x1, y1))):
            xn, yn, D = law(s, c, A, B)
            D2 = s.mul(D, D)
            D4 = s.mul(D2, D2)
            r = s.add(s.mul(s.add(s.mul(xn, xn), s.mul(cst(c, c.a), D4)), xn), s.mul(cst(c, c.b), s.mul(D4, D2)))
            if s.sub_(s.mul(yn, yn), r):
                return False, "closure fails"
        return True, ""
    return Lemma("points/%s/law-closed" % c.mod, f)


# ---------------------------------------------------------------- obligations
class Points:
    def __init__(self, c, prog, tag):
        self.c, self.prog, self.tag, self.out = c, prog, tag, []

    def ob(self, n, spec, related=True, **kw):
        c = self.c
        if "%s::%s" % (c.mod, n) not in self.prog.roots:
            return None
        s = base_sort(c)
        ps, pa = PtSort(c, s, "p", related, self.prog), PtSort(c, s, "a", related, self.prog)
        so = {c.fty: s, c.pty: ps, c.aty: pa}

        def run(cx, a, r):
            pl = cx.e.user.get("pts")
            if pl is None:
                pl = Plan(related)
                if not hasattr(cx.w, "fezero"):
                    cx.w.fezero, cx.w.fenz, cx.w.fesub = [], [], {}
            spec(cx, s, c, pl, a, r)

        def setup(e):
            if c.deg == 2:
                towers.symbols(e)
            s.rules = dict(s.base_rules)
        o = Obligation("%s/%s/%s" % (self.tag, c.mod, n), "%s::%s" % (c.mod, n), run, sorts=so, contracts=[s.contracts()], setup=setup, user={"fe_eqz": eqz}, **kw)
        self.out.append(o)
        return o


def eqz(e, s, p):
    """decide a zero test from what the path already knows"""
    class C:
        pass
    cx = C()
    cx.w, cx.e = e.w, e
    q = clear_invs(e.w, s, p)
    q = s.fix(e, q)
    if not hasattr(e.w, "fenz"):
        e.w.fezero, e.w.fenz, e.w.fesub = [], [], {}
    k = known(cx, s, q)
    if k == "zero":
        return 1
    if k == "nonzero":
        return 0
    q = strip_nz(e.w, q)
    q = s.monic(q)
    return e.w.atom("fz", (s.name, P.key(q)), ("fz", s, q))


def strip_nz(w, q):
    nzv = {next(iter(t))[0] for _, t in w.fenz if len(t) == 1 and len(next(iter(t))) == 1}
    m = None
    for k in q:
        m = list(k) if m is None else inter(m, k)
    m = [v for v in (m or []) if v in nzv]
    if not m:
        return q
    out = {}
    for k, x in q.items():
        k = list(k)
        for v in m:
            k.remove(v)
        out[tuple(k)] = x
    return out


VAR6 = ("", "_vv", "_vr", "_rv", "_asv", "_asr")


def c10(c, prog):
    B = Points(c, prog, "C10")

    def addlike(sign):
        def spec(cx, s, c, pl, a, r):
            A, Q = pl.pts
            is_rep(cx, s, c, pl, r, law(s, c, A, Q if sign > 0 else ng(s, Q)))
        return spec
    for k in ("pp", "pa", "ap", "aa"):
        for v in VAR6:
            B.ob("%s_add%s" % (k, v), addlike(1))
            B.ob("%s_sub%s" % (k, v), addlike(-1))
    for n in ("p_sum", "p_sum_v"):
        B.ob(n, addlike(1))
    B.ob("p_double", lambda cx, s, c, pl, a, r: is_rep(cx, s, c, pl, r, law(s, c, pl.pts[0], pl.pts[0])))
    for n in ("p_neg", "p_neg_v"):
        B.ob(n, lambda cx, s, c, pl, a, r: is_rep(cx, s, c, pl, r, law(s, c, ng(s, pl.pts[0]), None)))
    for n in ("a_neg", "a_neg_v"):
        B.ob(n, lambda cx, s, c, pl, a, r: is_aff(cx, s, r, ng(s, pl.pts[0])))
    return ptoracle.attach(c, B.out) + [lemma_no_two_torsion(c), lemma_closure(c)]


def boolval(cx, r):
    r = cx.w.n(r)
    return cx.w.concretize(r) if isinstance(r, SV) else int(r)


class RawPt:
    """arbitrary coordinates (no curve relation)"""

    def __init__(self, like):
        self.b = like
        self.s = like.s

    def fresh(self, e, name):
        s = self.s
        s.rules = dict(s.base_rules)
        return tuple(FE(s, P.var(e.w.fresh(name + n, None, None, ("fe", s)))) for n in "xyz"[:self.b.k])

    def image(self, v):
        return self.b.image(v)

    def read(self, e, a, o):
        return self.b.read(e, a, o)


def curve_poly(c, s, X, Y, Z=None, jac=False):
    """homogeneous (or Jacobian, or affine) curve equation"""
    m = s.mul
    if Z is None:
        return s.sub_(m(Y, Y), rhs(c, s, X))
    Z2 = m(Z, Z)
    X3 = m(m(X, X), X)
    if jac:
        Z4 = m(Z2, Z2)
        return s.sub_(m(Y, Y), s.add(X3, s.add(m(cst(c, c.a), m(X, Z4)), m(cst(c, c.b), m(Z4, Z2)))))
    return s.sub_(m(m(Y, Y), Z), s.add(X3, s.add(m(cst(c, c.a), m(X, Z2)), m(cst(c, c.b), m(Z2, Z)))))


def settle(cx):
    """decide the remaining zero-test atoms of the path so that every coordinate test is known"""
    w = cx.w
    for v in range(len(w.vars)):
        t = w.vars[v][3]
        if t and t[0] == "fz" and v not in w.assign:
            w.decide_var(v)


def accepts(cx, s, accept, eq, exc, excv):
    """accept <=> (eq vanishes) == True unless the exceptional condition (all of exc vanish) holds, where the answer is excv"""
    settle(cx)
    ks = [known(cx, s, q) for q in exc]
    if exc and all(k == "zero" for k in ks):
        cx.put("exceptional-input", accept == excv, "answer %r" % accept)
        return
    k = known(cx, s, eq)
    if accept:
        ok = k == "zero" or (excv and False)
        cx.put("accepts-only-the-curve", ok, "accepted with equation %r, exceptional tests %r" % (k, ks))
    else:
        ok = k == "nonzero"
        cx.put("rejects-only-off-curve", ok, "rejected with equation %r, exceptional tests %r" % (k, ks))


def c11(c, prog):
    B = Points(c, prog, "C11")
    for n in ("p_identity", "p_default"):
        B.ob(n, lambda cx, s, c, pl, a, r: is_rep(cx, s, c, pl, r, None))
    for n in ("a_identity", "a_default"):
        B.ob(n, lambda cx, s, c, pl, a, r: is_aff(cx, s, r, None))
    for n in ("p_is_identity", "a_is_identity"):
        B.ob(n, lambda cx, s, c, pl, a, r: cx.put("identity-test", boolval(cx, r) == int(pl.pts[0] is None)))
    for n in ("a_to_curve", "p_from_a", "p_from_ar"):
        B.ob(n, lambda cx, s, c, pl, a, r: is_rep(cx, s, c, pl, r, law(s, c, pl.pts[0], None)))
    for n in ("p_to_affine", "a_from_p", "a_from_pr", "batch1"):
        B.ob(n, lambda cx, s, c, pl, a, r: is_aff(cx, s, r, pl.pts[0]))

    def batch(cx, s, c, pl, a, r):
        for i, q in enumerate(r):
            is_aff(cx, s, q, pl.pts[i], "%d-" % i)
    for n in ("batch2", "batch3"):
        B.ob(n, batch, related=False)

    def eqs(cx, s, c, pl, a, r):
        A, Q = pl.pts
        same = A is None and Q is None or (A is not None and Q is not None and A[0] == Q[0] and A[1] == Q[1])
        b = boolval(cx, r)
        cx.put("equality-is-equality-of-points", b == int(same), "got %d, relation %r" % (b, pl.rel))
    for n in ("p_eq", "p_ct_eq", "a_eq", "a_ct_eq"):
        B.ob(n, eqs)
    o = B.ob("p_on_curve", lambda cx, s, c, pl, a, r: accepts(cx, s, boolval(cx, r), curve_poly(c, s, *[x.p for x in a[0]]), [a[0][1].p, a[0][2].p], 0))
    if o:
        o.sorts[c.pty] = RawPt(o.sorts[c.pty])
    o = B.ob("a_on_curve", lambda cx, s, c, pl, a, r: accepts(cx, s, boolval(cx, r), curve_poly(c, s, a[0].p, a[1].p), [a[0].p, a[1].p], 1))

    def fxy(cx, s, c, pl, a, r):
        accepts(cx, s, int(r is not None), curve_poly(c, s, a[0].p, a[1].p), [a[0].p, a[1].p], 1)
        if r is not None:
            for n, x, y in zip("xy", r[1], a):
                must_zero(cx, s, n, s.sub_(x.p, y.p))
    o = B.ob("from_xy", fxy)
    if o:
        o.sorts[c.aty] = RawPt(o.sorts[c.aty])

    def coord(cx, s, c, pl, a, r):
        cx.put("some", r is not None)
        if r is not None:
            is_aff(cx, s, r[1], pl.pts[0])
    B.ob("coordinates", coord)

    def jac(cx, s, c, pl, a, r):
        X, Y, Z = [x.p for x in r]
        A = pl.pts[0]
        if A is None:
            must_zero(cx, s, "Z-zero", Z)
            return
        z2 = s.mul(Z, Z)
        must_nz(cx, s, "Z-nonzero", Z)
        must_zero(cx, s, "abscissa", s.sub_(X, s.mul(A[0], z2)))
        must_zero(cx, s, "ordinate", s.sub_(Y, s.mul(A[1], s.mul(z2, Z))))
    B.ob("jac_coords", jac)

    def newjac(cx, s, c, pl, a, r):
        X, Y, Z = [x.p for x in a]
        accepts(cx, s, int(r is not None), curve_poly(c, s, X, Y, Z, True), [Z], 1)
        if r is None:
            return
        gx, gy, gz = [g.p for g in r[1]]
        if known(cx, s, Z) == "zero":
            must_zero(cx, s, "X-zero", gx)
            must_zero(cx, s, "Z-zero", gz)
            must_nz(cx, s, "Y-nonzero", gy)
            return
        z2 = s.mul(Z, Z)
        must_nz(cx, s, "Z-nonzero", gz)
        must_zero(cx, s, "abscissa", s.sub_(s.mul(gx, z2), s.mul(X, gz)))
        must_zero(cx, s, "ordinate", s.sub_(s.mul(gy, s.mul(z2, Z)), s.mul(Y, gz)))
    o = B.ob("new_jac", newjac)
    if o:
        o.sorts[c.pty] = RawPt(o.sorts[c.pty])
    return ptoracle.attach(c, B.out) + [lemma_no_two_torsion(c)]


def c20(c, prog):
    B = Points(c, prog, "C20")

    def same(cx, s, tag, g, w):
        for n, x, y in zip("xyz", g, w):
            must_zero(cx, s, tag + n, s.sub_(x.p, y.p))
    for k in "pa":
        for n in ("_select", "_cassign"):
            B.ob(k + n, lambda cx, s, c, pl, a, r: same(cx, s, "chosen-", r, a[1] if boolval(cx, a[2]) else a[0]), related=False)

        def swp(cx, s, c, pl, a, r):
            b = boolval(cx, a[2])
            same(cx, s, "first-", r[0], a[1] if b else a[0])
            same(cx, s, "second-", r[1], a[0] if b else a[1])
        B.ob(k + "_cswap", swp, related=False)
    return ptoracle.attach(c, B.out)


def c06(c, prog):
    B = Points(c, prog, "C06")
    for n in ("p_ca", "a_ca"):
        B.ob(n, lambda cx, s, c, pl, a, r: must_zero(cx, s, "coefficient-a", s.sub_(r.p, cst(c, c.a))))
    for n in ("p_cb", "a_cb"):
        B.ob(n, lambda cx, s, c, pl, a, r: must_zero(cx, s, "coefficient-b", s.sub_(r.p, cst(c, c.b))))

    def gen(cx, s, c, pl, a, r):
        g = [cst(c, v) for v in c.gen]
        X, Y, Z = [x.p for x in r] if len(r) == 3 else [x.p for x in r] + [{(): 1}]
        must_zero(cx, s, "generator-x", s.sub_(X, s.mul(g[0], Z)))
        must_zero(cx, s, "generator-y", s.sub_(Y, s.mul(g[1], Z)))
        must_nz(cx, s, "Z-nonzero", Z)
    for n in ("p_gen", "p_gen_t", "a_gen", "a_gen_t"):
        B.ob(n, gen)

    def order():
        return c.on(c.gen) and c.mul(c.gen, c.order) is None, "reference generator has the curve's prime order"
    return ptoracle.attach(c, B.out) + [Lemma("C06/%s/generator-order" % c.mod, order)]
