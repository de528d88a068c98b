"""Endomorphism, scalar decomposition (C14); cofactor clearing and subgroup tests (C19)."""
import math
from mirv import poly as P
from mirv.conc import FieldIO
from mirv.core import Agg, Alloc, Ptr
from mirv.grp import GrpContracts, GE
from mirv.oblig import Obligation
from mirv.runner import Lemma
from mirv.sorts import OpContracts, FE, RingSort, norm_name
from mirv.values import LimbSort
from mirv.world import Unsupported
from . import cofactor, ecref, groups, params, points, ptoracle, towers
from .cofactor import endo_of, size_of
from .ecref import CURVES


def transport():
    sp = ecref.transport()
    for f in params.PASTA.values():
        sp[f.ty] = FieldIO(f)
    return sp


# ---------------------------------------------------------------- C19: points as combinations over Z[w]
def wsym(w):
    """the symbol of the automorphism w, w^2 + w + 1 = 0"""
    if not hasattr(w, "gw"):
        w.gw = w.fresh("w", None, None, ("gw",))
        w.gwrules = {w.gw: (2, {(): -1, (w.gw,): -1})}
    return w.gw


def times(w, p, e):
    """the combination p under the endomorphism e = (e0, e1) in Z[w]"""
    v = wsym(w)
    return P.mul(p, {k: x for k, x in {(): e[0], (v,): e[1]}.items() if x}, None, w.gwrules)


def silent(e, fi, f):
    if f["name"] in ("std::io::_print", "std::io::_eprint"):
        return lambda e, f, a, dt: Agg([], 0)
    return None


NAMES = {
    "bn_g2": {"halo2curves::bn256::curve::psi": "psi"},
    "bls_g2": {"halo2curves::bls12381::G2::psi": "psi", "halo2curves::bls12381::G2::psi2": "psi2"},
    "bls_g1": {"<halo2curves::bls12381::G1 as halo2curves::CurveExt>::endo": "endo"},
}


def endos(c):
    """function name -> element of Z[w] it acts as"""
    out = {}
    for n, k in NAMES.get(c.mod, {}).items():
        E = endo_of(c)
        if k == "psi":
            out[n] = E.al
        elif k == "psi2":
            out[n] = cofactor.wmul(E.al, E.al)
    return out


def coef(cx, p, pv):
    """the combination as an endomorphism applied to the base point pv: element of Z[w] or None"""
    e = [0, 0]
    gw = getattr(cx.w, "gw", None)
    for k, x in cx.w.norm(p).items():
        k = list(k)
        if k.count(pv) != 1:
            return None
        k.remove(pv)
        if not k:
            e[0] += x
        elif k == [gw]:
            e[1] += x
        else:
            return None
    return tuple(e)


def clears(c, e):
    if c.mod in NAMES:
        return cofactor.clears(c, e)
    return e[1] == 0 and e[0] * c.order % size_of(c) == 0 and math.gcd(e[0], c.order) == 1


def kills_sub(c, e):
    """e is zero on the prime-order subgroup"""
    if c.mod in NAMES:
        return endo_of(c).eig(e) == 0
    return e[1] == 0 and e[0] % c.order == 0


def forces_sub(c, es):
    """a rational point killed by all of es is killed by the order"""
    if c.mod in NAMES:
        E = endo_of(c)
        return cofactor.inside((E.r, 0), cofactor.ideal(E.rel, *es))
    if any(e[1] for e in es):
        return False
    return c.order % math.gcd(size_of(c), *[e[0] for e in es]) == 0


def c19(c, prog):
    out = []
    sp, sa = groups.grp_sorts(c, prog)
    ev = endos(c)
    for n, k in NAMES.get(c.mod, {}).items():
        if k == "endo":
            # the automorphism it is, w or w^2: whichever its body is proved to compute
            for e, cw in (((0, 1), endo_of(c).cw), ((-1, -1), c.F.mul(endo_of(c).cw, endo_of(c).cw))):
                o = endo_body(c, prog, n, cw)
                if o.run(prog)["status"] == "proved":
                    ev[n] = e
                    out.append(o)
                    break
    con = {n: (lambda w, p, e=e: times(w, p, e)) for n, e in ev.items()}

    def ob(n, spec):
        if "%s::%s" % (c.mod, n) not in prog.roots:
            return
        o = Obligation("C19/%s/%s" % (c.mod, n), "%s::%s" % (c.mod, n), spec, sorts={c.pty: sp, c.aty: sa}, contracts=[GrpContracts(sp, sa, con), silent])
        o.cost = 10
        out.append(o)

    def pv(a):
        return next(iter(a[0].p))[0]

    def clear(cx, a, r):
        e = coef(cx, r.p, pv(a))
        cx.put("multiple-of-the-input-in-the-subgroup", e is not None and clears(c, e), "acts as %r" % (e,))

    def decided(cx, a):
        """tests taken on this path: (endomorphism, outcome)"""
        t = []
        w = cx.w
        for v in range(len(w.vars)):
            tg = w.vars[v][3]
            if tg and tg[0] == "gz":
                if v not in w.assign:
                    w.decide_var(v)
                t.append((coef(cx, tg[1], pv(a)), w.assign[v]))
        return t

    def member(cx, a, yes):
        t = decided(cx, a)
        if yes:
            es = [e for e, b in t if b]
            cx.put("accepts-only-subgroup", None not in es and forces_sub(c, es), "tests %r" % (es,))
        else:
            cx.put("accepts-the-subgroup", any(not b and e is not None and kills_sub(c, e) for e, b in t), "tests %r" % (t,))

    def torsion(cx, a, r):
        decided(cx, a)
        member(cx, a, points.boolval(cx, r))

    def into(cx, a, r):
        member(cx, a, r is not None)
        if r is not None:
            cx.put("same-point", cx.w.norm(r[1].p) == a[0].p)
    ob("clear_cofactor", clear)
    ob("torsion_free", torsion)
    ob("into_subgroup", into)
    out += psi_obs(c, prog)
    lem = [Lemma("C19/%s/%s" % (c.mod, n), f) for n, f in lemmas(c)]
    return ptoracle.attach(c, out) + lem


def endo_body(c, prog, n, cw):
    s = points.base_sort(c)
    pt = points.RawPt(points.PtSort(c, s, "p", False, prog))

    def spec(cx, a, r):
        for i, k in ((0, cw), (1, c.F.one), (2, c.F.one)):
            towers.put_eq(cx, "xyz"[i], s, r[i].p, s.mul(points.cst(c, k), a[0][i].p))
    o = Obligation("C19/%s/endo" % c.mod, "%s::torsion_free" % c.mod, spec, sorts={c.pty: pt, c.fty: s}, contracts=[s.contracts()])
    o.fn = n
    return o


def lemmas(c):
    def hasse():
        q, n = c.F.order, size_of(c)
        r = c.order
        if (n - q - 1) ** 2 > 4 * q:
            return False, "outside the Hasse interval"
        if n == r:
            # the order is a multiple of r below 2r
            return 2 * r > q + 1 + 2 * math.isqrt(q) + 1, "another multiple of r lies in the Hasse interval"
        return n % r == 0 and (n // r) % r != 0, "r divides the cofactor"
    yield "order", hasse
    yield "generator", lambda: (c.on(c.gen) and c.mul(c.gen, c.order) is None, "generator order")
    if c.mod in NAMES:
        def end():
            E = endo_of(c)
            P_ = cofactor.full_points(c, 4, seed=9)
            ok = E is not None and E.al is not None and E.N == size_of(c) and all(c.mul(Q, E.N) is None for Q in P_)
            ok = ok and all(E.act(E.al, Q) == E.frob(Q) for Q in P_)
            if E.psi is not None:
                F, p = c.F, E.p
                U, V = E.psi
                cj = lambda a: (a[0], -a[1] % p)
                # psi maps the curve to itself
                ok = ok and F.mul(V, V) == F.mul(U, F.mul(U, U)) and F.mul(F.mul(V, V), cj(c.b)) == c.b
            return ok, "Frobenius as an element of Z[w]"
        yield "endomorphism-ring", end


# ---------------------------------------------------------------- field-level bodies of psi
def psi_obs(c, prog):
    out = []
    for n, k in NAMES.get(c.mod, {}).items():
        if k == "endo":
            continue
        so, subs = towers.sorts(c.tw, 2, 1)
        s = subs[2]
        s.base_rules = towers.rules(c.tw)
        pt = points.RawPt(points.PtSort(c, s, "p", False, prog))
        F, p = c.F, c.tw.p
        U, V = endo_of(c).psi
        cjp = lambda q, s=s: P.subst(q, {towers.U: {(towers.U,): -1 % s.m}}, s.m, s.rules)
        if k == "psi2":
            cj = lambda a: (a[0], -a[1] % p)
            U, V = F.mul(U, cj(U)), F.mul(V, cj(V))
            cjp = lambda q: q

        def spec(cx, a, r, U=U, V=V, cjp=cjp, s=s):
            X, Y, Z = [v.p for v in r]
            x, y, z = [cjp(v.p) for v in a[0]]
            towers.put_eq(cx, "x", s, X, s.mul(towers.cpoly(c.tw, 2, U), x))
            towers.put_eq(cx, "y", s, Y, s.mul(towers.cpoly(c.tw, 2, V), y))
            towers.put_eq(cx, "z", s, Z, z)
        so = dict(so)
        so[c.pty] = pt
        o = Obligation("C19/%s/%s" % (c.mod, n.split("::")[-1]), "%s::clear_cofactor" % c.mod, spec, sorts=so, contracts=[OpContracts(subs[1])], setup=towers.symbols)
        o.fn = n
        out.append(o)
    return out


# ---------------------------------------------------------------- C14
def limbs_int(x):
    ls = x.limbs
    return sum(v << (64 * i) for i, v in enumerate(ls)) if all(isinstance(v, int) for v in ls) else None


def c14(c, prog):
    F = c.F
    if not F.iszero(c.a):
        return []
    B = points.Points(c, prog, "C14")
    f = c.scalar

    def spec(cx, s, c, pl, a, r):
        l = limbs_int(r[1])
        if l is None or l >= f.p:
            cx.put("eigenvalue-constant", False, "not a canonical constant")
            return
        w = c.eigen(f.unmont(l))
        cx.put("eigenvalue-of-an-automorphism", w is not None, "lambda = %x" % f.unmont(l))
        if w is None:
            return
        A = pl.pts[0]
        points.is_rep(cx, s, c, pl, r[0], points.law(s, c, None if A is None else (s.mul(A[0], points.cst(c, w)), A[1]), None))
    o = B.ob("endo_z", spec)
    if o:
        o.sorts[f.ty] = LimbSort(f.ty, f.p, f.n)
    return ptoracle.attach(c, B.out)


# ---------------------------------------------------------------- scalar decomposition: integers modulo the order
class IntFE(RingSort):
    """field element as an integer combination modulo p of integer unknowns"""

    def __init__(self, f):
        RingSort.__init__(self, f.ty, f.size, f.p, r=f.R)
        self.f = f

    def fresh(self, e, name):
        v = e.w.fresh(name, 0, self.m - 1)
        e.w.facts.append(({(v,): 1}, 0, self.m - 1))
        return FE(self, {(v,): 1})


def symm(p, m):
    """representatives in (-m/2, m/2]"""
    return {k: (x if 2 * x <= m else x - m) for k, x in ((k, x % m) for k, x in p.items()) if x}


def int_fix(w, lin, v):
    """the integer value the facts force on variable v, or None (rational bounds, then integrality)"""
    import z3
    import fractions
    l = lin.at(len(lin.mk) - 1)
    r, m = l.check()
    if r != z3.sat:
        return None
    t = l.term({(v,): 1})
    q = z3.simplify(m.eval(t, model_completion=True))
    try:
        q = q.as_fraction()
    except Exception:
        return None
    for c in {math.floor(q), math.ceil(q)}:
        if l.check(t >= c + 1)[0] == z3.unsat and l.check(t <= c - 1)[0] == z3.unsat:
            return c
    return None


def settle_ints(w, p, m, timeout=20000):
    """replace the variables of p whose coefficient is not 0 mod m by the value the facts force, where there is one"""
    from mirv import prove
    lin = prove.LinSet(w, [], timeout=timeout)
    fixed = []
    for v in range(len(w.vars)):
        if w.vars[v][3] == ("quot",):
            c = int_fix(w, lin, v)
            if c is not None:
                fixed.append(({(v,): 1}, c, c))
                lin = prove.LinSet(w, fixed, timeout=timeout)
                if str(lin.check()[0]) == "unsat":
                    return {}    # no integers satisfy the path condition
    out = dict(w.norm(p))
    for v in sorted(P.vars_of(out)):
        if all(x % m == 0 for k, x in out.items() if v in k):
            continue
        c = int_fix(w, lin, v)
        if c is not None:
            out = P.subst(out, {v: P.const(c)})
    return out


def split4(w, v, whole, n=4):
    """limbs of an integer given by its polynomial: the upper limbs are new unknowns, the lowest is the rest"""
    ls = [w.var("%s_%d" % (v, i), 0, 2**64 - 1) for i in range(1, n)]
    lo = whole
    for i, x in enumerate(ls):
        w.facts.append((x.p, 0, 2**64 - 1))
        lo = P.sub(lo, P.scale(x.p, 1 << (64 * (i + 1))))
    w.facts.append((lo, 0, 2**64 - 1))
    return [w.mk(lo, 0, 2**64 - 1)] + ls


def ipoly(x):
    from mirv.world import SV
    return x.p if isinstance(x, SV) else P.const(x)


class IntContracts:
    """conversions between a field element and its canonical integer (C05, C07), mul_512 (proved here)"""

    def __init__(self, s):
        self.s = s
        T = s.name
        self.names = {T + "::from_mont": self.from_mont, T + "::from_raw": self.from_raw, "halo2curves::arithmetic::mul_512": self.mul512}
        if T.startswith("halo2curves::pasta"):
            self.names["<%s as ff::PrimeField>::to_repr" % T] = self.from_mont

    def __call__(self, e, fi, f):
        h = self.names.get(norm_name(f["name"]))
        return h

    def limbs(self, e, x):
        if isinstance(x, Ptr):
            a, o = x.a, x.o
        else:
            a, o = Alloc(32, "tmp"), 0
            e.store_val(a, 0, 32, x)
        return [e.w.n(e.load(a, o + 8 * i, 8)) for i in range(4)]

    def whole(self, ls):
        t = {}
        for i, x in enumerate(ls):
            t = P.add(t, P.scale(ipoly(x), 1 << (64 * i)))
        return t

    def out(self, ls):
        return Agg([(8 * i, 8, x) for i, x in enumerate(ls)], 8 * len(ls))

    def from_raw(self, e, f, a, dt):
        I = self.whole(self.limbs(e, a[0]))
        I = settle_ints(e.w, I, 1 << 300)
        return self.s.image(FE(self.s, {k: x % self.s.m for k, x in I.items() if x % self.s.m}))

    def from_mont(self, e, f, a, dt):
        s, w = self.s, e.w
        if isinstance(a[0], Ptr):
            q = s.read(e, a[0].a, a[0].o).p
        else:
            al = Alloc(s.size, "tmp")
            e.store_val(al, 0, s.size, a[0])
            q = s.read(e, al, 0).p
        key = ("intfe", P.key(q))
        if key not in w.memo:
            Q = symm(q, s.m)
            if len(Q) == 1 and next(iter(Q.values())) == 1 and w.vars[next(iter(Q))[0]][1:3] == (0, s.m - 1):
                L = Q
            elif P.is_const(q):
                c = P.cval(q) % s.m
                w.memo[key] = [(c >> (64 * i)) & (2**64 - 1) for i in range(4)]
                return self.out(w.memo[key])
            else:
                t = w.fresh("t%d" % len(w.vars), -(1 << 300), 1 << 300, ("quot",))
                L = P.sub(Q, {(t,): s.m})
                w.facts.append((L, 0, s.m - 1))
            w.memo[key] = split4(w, "l%d" % len(w.vars), L)
        return self.out([w.n(x) for x in w.memo[key]])

    def mul512(self, e, f, a, dt):
        w = e.w
        A, B = self.whole(self.limbs(e, a[0])), self.whole(self.limbs(e, a[1]))
        if not P.is_const(A) and not P.is_const(B):
            raise Unsupported("product of two unknown integers")
        X = P.mul(A, B)
        if P.is_const(X):
            c = P.cval(X)
            return self.out([(c >> (64 * i)) & (2**64 - 1) for i in range(8)])
        H = w.fresh("h%d" % len(w.vars), 0, 2**256 - 1)
        w.facts.append(({(H,): 1}, 0, 2**256 - 1))
        lo = P.sub(X, {(H,): 1 << 256})
        w.facts.append((lo, 0, 2**256 - 1))
        return self.out(split4(w, "lo%d" % len(w.vars), lo) + split4(w, "hi%d" % len(w.vars), {(H,): 1}))


def decompositions(prog):
    out = []
    for m, f in [(c.mod, c.scalar) for c in CURVES] + list(params.PASTA.items()):
        if m + "::decompose" not in prog.roots:
            continue
        s = IntFE(f)

        def spec(cx, a, r, s=s, f=f):
            (k1, n1, k2, n2), z = r
            n1, n2 = points.boolval(cx, n1), points.boolval(cx, n2)
            lam = z.p.get((), 0)
            cx.put("eigenvalue-is-a-cube-root-of-unity", P.is_const(z.p) and (lam * lam + lam + 1) % s.m == 0)
            k = next(iter(a[0].p))
            d = {k: 1}
            for v, n, x in ((ipoly(k1), n1, 1), (ipoly(k2), n2, -lam)):
                d = P.sub(d, P.scale(v, -x if n else x))
            d = settle_ints(cx.w, d, s.m)
            bad = {k: x for k, x in d.items() if x % s.m}
            cx.put("recombines-with-the-eigenvalue", not bad or None, P.show(bad, cx.w.vname, 6))
        o = Obligation("C14/%s/decompose" % m, m + "::decompose", spec, sorts={f.ty: s}, contracts=[IntContracts(s), OpContracts(s)], prune=True)
        o.oracle = ptoracle.decompose(f.p)
        o.gen = lambda rng, i, p=f.p: (ptoracle.scalars(rng, p),)
        o.cost = 10
        out.append(o)

    def m512(cx, a, r):
        t = {}
        for i, x in enumerate(r):
            t = P.add(t, P.scale(ipoly(x), 1 << (64 * i)))
        for i, x in enumerate(a[0]):
            for j, y in enumerate(a[1]):
                t = P.sub(t, P.scale(P.mul(ipoly(x), ipoly(y)), 1 << (64 * (i + j))))
        cx.zero("product", t)
    o = Obligation("C14/mul_512", "bn_g1::decompose", m512)
    o.fn = "halo2curves::arithmetic::mul_512"
    o.oracle = ptoracle.decompose(params.BN_R)
    o.gen = lambda rng, i: (ptoracle.scalars(rng, params.BN_R),)
    out.append(o)
    return out
