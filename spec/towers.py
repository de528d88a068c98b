"""Extension towers: abstract-ring contracts level by level, against the defining quotient rings."""
import random
from mirv import poly as P
from mirv.core import Agg, Part
from mirv.world import SV, Unsupported
from mirv.oblig import Obligation, Ctx
from mirv.sorts import RingSort, OpContracts, FE
from . import params

QE = "halo2curves::ff_ext::quadratic::QuadExtField<%s>"
CE = "halo2curves::ff_ext::cubic::CubicExtField<%s>"


# ---------------------------------------------------------------- concrete quotient rings (reference)
class Base:
    deg = 1

    def __init__(self, p):
        self.p = p
        self.zero, self.one = 0, 1
        self.order = p

    def add(self, a, b): return (a + b) % self.p
    def sub(self, a, b): return (a - b) % self.p
    def neg(self, a): return -a % self.p
    def mul(self, a, b): return a * b % self.p
    def inv(self, a): return pow(a, -1, self.p)
    def pow(self, a, e): return pow(a, e, self.p)
    def iszero(self, a): return a == 0
    def small(self, c): return c % self.p


class Ext:
    """sub[X]/(X^n - nr)"""

    def __init__(self, sub, n, nr):
        self.sub, self.n, self.nr = sub, n, nr
        self.p = sub.p
        self.order = sub.order ** n
        self.zero = (sub.zero,) * n
        self.one = (sub.one,) + (sub.zero,) * (n - 1)

    def small(self, c): return (self.sub.small(c),) + (self.sub.zero,) * (self.n - 1)
    def add(self, a, b): return tuple(self.sub.add(x, y) for x, y in zip(a, b))
    def sub_(self, a, b): return tuple(self._s(x, y) for x, y in zip(a, b))
    def _s(self, x, y): return self.sub.sub(x, y) if isinstance(self.sub, Base) else self.sub.sub_(x, y)
    def neg(self, a): return tuple(self.sub.neg(x) for x in a)
    def iszero(self, a): return all(self.sub.iszero(x) for x in a)

    def mul(self, a, b):
        s, n = self.sub, self.n
        r = [s.zero] * (2 * n - 1)
        for i, x in enumerate(a):
            if s.iszero(x):
                continue
            for j, y in enumerate(b):
                if s.iszero(y):
                    continue
                r[i + j] = s.add(r[i + j], s.mul(x, y))
        for k in range(2 * n - 2, n - 1, -1):
            r[k - n] = s.add(r[k - n], s.mul(r[k], self.nr))
        return tuple(r[:n])

    def pow(self, a, e):
        r = self.one
        for b in bin(e)[2:]:
            r = self.mul(r, r)
            if b == "1":
                r = self.mul(r, a)
        return r

    def inv(self, a):
        """by linear algebra on multiplication (independent of the norm formulas)"""
        s, n = self.sub, self.n
        rows = []
        for i in range(n):
            rows.append(None)
        # columns: a * X^j
        cols = []
        for j in range(n):
            e = [s.zero] * n
            e[j] = s.one
            cols.append(self.mul(a, tuple(e)))
        M = [[cols[j][i] for j in range(n)] + [s.one if i == 0 else s.zero] for i in range(n)]
        for c in range(n):
            piv = next((r for r in range(c, n) if not s.iszero(M[r][c])), None)
            if piv is None:
                raise ZeroDivisionError
            M[c], M[piv] = M[piv], M[c]
            iv = s.inv(M[c][c])
            M[c] = [s.mul(x, iv) for x in M[c]]
            for r in range(n):
                if r != c and not s.iszero(M[r][c]):
                    f = M[r][c]
                    M[r] = [sb(s, x, s.mul(f, y)) for x, y in zip(M[r], M[c])]
        return tuple(M[i][n] for i in range(n))


def sb(s, x, y):
    return s.sub(x, y) if isinstance(s, Base) else s.sub_(x, y)


class Tower:
    def __init__(self, key, fld, beta, xi, mods):
        self.key, self.fld, self.beta = key, fld, beta
        p = fld.p
        self.p = p
        self.F1 = Base(p)
        self.F2 = Ext(self.F1, 2, beta % p)
        if xi is None:
            # 57/(u+3)
            xi = self.F2.mul((57, 0), self.F2.inv((3, 1)))
        self.xi = (xi[0] % p, xi[1] % p)
        self.F6 = Ext(self.F2, 3, self.xi)
        self.F12 = Ext(self.F6, 2, (self.F2.zero, self.F2.one, self.F2.zero))
        self.t1 = fld.ty
        self.t2 = QE % self.t1
        self.t6 = CE % self.t2
        self.t12 = QE % self.t6
        self.m2, self.m6, self.m12 = mods

    def ring(self, lvl):
        return {1: self.F1, 2: self.F2, 6: self.F6, 12: self.F12}[lvl]

    def ty(self, lvl):
        return {1: self.t1, 2: self.t2, 6: self.t6, 12: self.t12}[lvl]

    def mod(self, lvl):
        return {2: self.m2, 6: self.m6, 12: self.m12}[lvl]


TOWERS = [
    Tower("bn", params.FBY["bn256_fq"], -1, (9, 1), ("bn_fq2", "bn_fq6", "bn_fq12")),
    Tower("bls", params.FBY["bls_fq"], -1, (1, 1), ("bls_fq2", "bls_fq6", "bls_fq12")),
    Tower("pluto", params.FBY["pluto_fp"], -5, None, ("pluto_fp2", "pluto_fp6", "pluto_fp12")),
]
BELOW = {2: 1, 6: 2, 12: 6}
U, VV, W = 0, 1, 2  # symbol variables, allocated first in every world


class ExtSort(RingSort):
    """level sort; expanded: elements are tuples of elements of the sub sort"""

    def __init__(self, tw, lvl, sub, expanded, **kw):
        n = {2: 2, 6: 3, 12: 2}[lvl]
        self.sym = {2: U, 6: VV, 12: W}[lvl]
        self.n = n
        syms = [{(): 1}] + [{(self.sym,) * i: 1} for i in range(1, n)]
        RingSort.__init__(self, tw.ty(lvl), sub.size * n, tw.p, sub=sub, syms=syms, rules=rules(tw), short="%s_F%d" % (tw.key, lvl))
        self.expanded = expanded
        self.lvl, self.tw = lvl, tw

    def fresh(self, e, name):
        if not self.expanded:
            return RingSort.fresh(self, e, name)
        p = {}
        for i, s in enumerate(self.syms):
            p = self.add(p, self.mul(self.sub.fresh(e, "%s.%d" % (name, i)).p, s))
        return FE(self, p)

    def comps(self, p):
        out = [{} for _ in range(self.n)]
        for k, c in p.items():
            i = k.count(self.sym)
            out[i][tuple(v for v in k if v != self.sym)] = c
        return out

    def image(self, fe):
        if not self.expanded:
            return RingSort.image(self, fe)
        cells = []
        for i, p in enumerate(self.comps(fe.p)):
            a = self.sub.image(FE(self.sub, p))
            cells += [(i * self.sub.size + o, n, v) for o, n, v in a.c]
        return Agg(cells, self.size)


def rules(tw):
    xi = {k: c for k, c in {(): tw.xi[0], (U,): tw.xi[1]}.items() if c}
    return {U: (2, {(): tw.beta % tw.p}), VV: (3, xi), W: (2, {(VV,): 1})}


def nr_poly(tw, lvl):
    """the non-residue multiplied by at level `lvl`"""
    if lvl == 1:
        return {(): tw.beta % tw.p}
    if lvl == 2:
        return rules(tw)[VV][1]
    return {(VV,): 1}


def symbols(e):
    for i, n in enumerate("uvw"):
        v = e.w.fresh(n, None, None, ("sym", n))
        assert v == i, "symbols must be the first variables"


class ExtContracts(OpContracts):
    """contracts of a tower level: the ring operations plus multiplication by the non-residue and the Frobenius maps"""

    def __init__(self, s, tw, lvl, which=None, frob=False):
        OpContracts.__init__(self, s, which)
        import re
        T = re.escape(s.name)
        self.rx.append((re.compile(r"^<%s as halo2curves::ff_ext::ExtField>::(mul_by_nonresidue%s)$" % (T, "|frobenius_map" if frob else "")), 1))
        self.tw, self.lvl = tw, lvl

    def c_mul_by_nonresidue(self, e, f, a, dt):
        return self.ret(self.s.mul(self.arg(e, a[0]).p, nr_poly(self.tw, self.lvl)))

    def c_frobenius_map(self, e, f, a, dt):
        return NotImplemented

    def c_conjugate(self, e, f, a, dt):
        return NotImplemented


def sorts(tw, lvl, leaf):
    """sorts for functions at level lvl, components expanded down to abstract elements of level `leaf`"""
    out = {}
    chain = [1, 2, 6, 12]
    subs = {1: RingSort(tw.t1, tw.fld.size, tw.p, r=tw.fld.R)}
    subs[1].rules = rules(tw)
    for l in chain[1:]:
        subs[l] = ExtSort(tw, l, subs[BELOW[l]], l > leaf)
    for l in chain:
        if l <= lvl:
            out[tw.ty(l)] = subs[l]
    return out, subs


def clear_invs(w, s, d):
    """eliminate the inverse atoms: for v = 1/m replace d by m^deg(d) * d"""
    for srt, v, mp in reversed(getattr(w, "feinvs", [])):
        if not any(v in k for k in d):
            continue
        deg = max(k.count(v) for k in d)
        parts = [{} for _ in range(deg + 1)]
        for k, c in d.items():
            parts[k.count(v)][tuple(x for x in k if x != v)] = c
        t, pw = {}, {(): 1}
        for j in range(deg, -1, -1):
            t = s.add(t, s.mul(parts[j], pw))
            pw = s.mul(pw, mp)
        d = t
    return d


def zero(c, s, d):
    """polynomial d vanishes (after learned substitutions and clearing denominators)"""
    d = s.fix(c.e, s.red(P.scale(d, 1, s.m)))
    d = clear_invs(c.w, s, d)
    return s.fix(c.e, d)


def put_eq(c, name, s, got, want):
    d = zero(c, s, P.sub(got, want, s.m))
    c.put(name, not d, P.show(d, c.w.vname, 6))


def ring_table(s):
    A, S, M = s.add, s.sub_, s.mul
    t = {}
    for v in ("", "_vv", "_vr", "_rv", "_asv", "_asr", "_in"):
        t["add" + v], t["sub" + v], t["mul" + v] = A, S, M
    t["mul_as_in"] = M
    t["sum2"], t["prod2"] = A, M
    for v in ("", "_v", "_in"):
        t["neg" + v] = s.neg
    t["double"] = t["double_f"] = lambda a: P.scale(a, 2, s.m)
    t["square"] = t["square_f"] = t["square_as"] = lambda a: M(a, a)
    t["cube"] = lambda a: M(M(a, a), a)
    for n in ("zero", "zero_c", "default"):
        t[n] = lambda: {}
    for n in ("one", "one_c"):
        t[n] = lambda: {(): 1}
    return t


def cpoly(tw, lvl, v):
    """poly of a concrete ring element"""
    if lvl == 1:
        return {(): v} if v else {}
    out = {}
    sym = {2: U, 6: VV, 12: W}[lvl]
    for i, x in enumerate(v):
        for k, c in cpoly(tw, BELOW[lvl], x).items():
            out[tuple(sorted((sym,) * i + k))] = c
    return out


class PowArg:
    """usize argument written m*t + r with r decided by forking"""

    def __init__(self, m):
        self.m = m

    def fresh(self, e, name):
        w = e.w
        t = w.var(name + "_q", 0, (1 << 59))
        nb = self.m.bit_length()
        bits = [w.var("%s_b%d" % (name, i), 0, 1) for i in range(nb)]
        r = 0
        from mirv.world import Infeasible
        for i in reversed(range(nb)):
            r += w.decide_var(next(iter(bits[i].p))[0]) << i
        if r >= self.m:
            raise Infeasible()
        self.r = r
        return w.add(w.mul(t, self.m), r)

    def image(self, v):
        return v

    def read(self, e, a, o):
        return e.w.n(e.load(a, o, 8))


FEATS = ["g_towers"]
OPS = None


def c08(tw):
    out = []
    for lvl in (2, 6, 12):
        out += c08_level(tw, lvl)
    return out + c08_lemmas(tw)


def c08_level(tw, lvl):
    out = []
    leaf = BELOW[lvl]
    mod = tw.mod(lvl)
    if True:

        def mk(n, spec, leaf=leaf, contracts=None, extra_sorts=None, root=None, **kw):
            so, subs = sorts(tw, lvl, leaf)
            s = subs[lvl]
            if extra_sorts:
                so.update(extra_sorts)
            con = contracts(subs) if contracts else [ExtContracts(subs[leaf], tw, leaf)]
            o = Obligation("C08/%s/%s" % (mod, n), "%s::%s" % (mod, root or n), lambda c, a, r: spec(c, subs, s, a, r), sorts=so, contracts=con, setup=symbols, **kw)
            out.append(o)
            return o

        _, subs0 = sorts(tw, lvl, leaf)
        for n, f in ring_table(subs0[lvl]).items():
            mk(n, lambda c, subs, s, a, r, n=n: put_eq(c, "equals-ring-operation", s, r.p, ring_table(s)[n](*[x.p for x in a])))
        if lvl != 12:
            mk("mul_nr", lambda c, subs, s, a, r: put_eq(c, "times-nonresidue", s, r.p, s.mul(a[0].p, nr_poly(tw, lvl))))
            mk("c_nr", lambda c, subs, s, a, r: put_eq(c, "nonresidue", s, r.p, nr_poly(tw, lvl)))

        def inv(c, subs, s, a, r):
            if r is None:
                # the norm vanished on this path: the reference norm must be what was tested
                N = norm_ref(tw, s, lvl, a[0].p)
                mN = s.monic(N) if N else {}
                z = [q for _, q in getattr(c.w, "fezero", [])]
                c.put("none-only-when-norm-is-zero", any(q == mN for q in z), "tested %s" % (P.show(z[0], c.w.vname, 4) if z else "nothing"))
            else:
                put_eq(c, "product-is-one", s, s.mul(r[1].p, a[0].p), {(): 1})
        mk("invert", inv)
        if lvl in (2, 12):
            mk("norm", lambda c, subs, s, a, r: put_eq(c, "norm", s, r.p, norm_ref(tw, s, lvl, a[0].p)))

            def conj(c, subs, s, a, r):
                put_eq(c, "conjugate", s, r.p, P.subst(a[0].p, {s.sym: P.neg({(s.sym,): 1}, s.m)}, s.m, s.rules))
            mk("conj", conj)
        if lvl != 2 or True:
            def newspec(c, subs, s, a, r):
                w = {}
                for x, y in zip(a, s.syms):
                    w = s.add(w, s.mul(x.p, y))
                put_eq(c, "components", s, r.p, w)
            mk("new", newspec)
        if lvl == 2:
            for i in (0, 1):
                mk("c%d" % i, lambda c, subs, s, a, r, i=i: put_eq(c, "component", s, r.p, s.comps(a[0].p)[i]))

        def eqs(neg):
            def spec(c, subs, s, a, r):
                r = c.w.concretize(r)
                d = s.sub_(a[0].p, a[1].p if len(a) > 1 else {})
                if r != neg:
                    put_eq(c, "all-components-equal", s, d, {})
                else:
                    z = [subs[leaf].monic(x) for x in s.comps(d) if x]
                    nz = [q for _, q in getattr(c.w, "fenz", [])]
                    c.put("some-component-differs", any(q in z for q in nz))
            return spec
        for n, ng in (("ct_eq", 0), ("eq", 0), ("ct_ne", 1), ("ne", 1), ("is_zero", 0), ("is_zero_vt", 0)):
            mk(n, eqs(ng))

        def sel(c, subs, s, a, r):
            b = c.w.concretize(a[2])
            put_eq(c, "selected", s, r.p, (a[1] if b else a[0]).p)

        def swp(c, subs, s, a, r):
            b = c.w.concretize(a[2])
            put_eq(c, "first", s, r[0].p, (a[1] if b else a[0]).p)
            put_eq(c, "second", s, r[1].p, (a[0] if b else a[1]).p)
        mk("select", sel)
        mk("cassign", sel)
        mk("cswap", swp)

        def frob(c, subs, s, a, r):
            k = c.ob.pw.r
            put_eq(c, "p^%d-power" % k, s, r.p, frob_ref(tw, s, lvl, a[0].p, k))
        pa = PowArg(12)
        o = mk("frob", frob, leaf=1, contracts=lambda subs: [OpContracts(subs[1])], extra_sorts={"usize": pa})
        o.pw = pa
        if lvl == 6:
            con2 = lambda subs: [ExtContracts(subs[2], tw, 2)]
            mk("mul_by_1", lambda c, subs, s, a, r: put_eq(c, "sparse-product", s, r.p, s.mul(a[0].p, s.mul(a[1].p, {(VV,): 1}))), leaf=2, contracts=con2)
            mk("mul_by_01", lambda c, subs, s, a, r: put_eq(c, "sparse-product", s, r.p, s.mul(a[0].p, s.add(a[1].p, s.mul(a[2].p, {(VV,): 1})))), leaf=2, contracts=con2)
        if lvl == 12:
            con2 = lambda subs: [ExtContracts(subs[2], tw, 2)]

            def sparse(pos):
                ms = {0: {(): 1}, 1: {(VV,): 1}, 3: {(W,): 1}, 4: {(VV, W): 1}}

                def spec(c, subs, s, a, r):
                    y = {}
                    for x, k in zip(a[1:], pos):
                        y = s.add(y, s.mul(x.p, ms[k]))
                    put_eq(c, "sparse-product", s, r.p, s.mul(a[0].p, y))
                return spec
            mk("mul_by_014", sparse((0, 1, 4)), leaf=2, contracts=con2)
            mk("mul_by_034", sparse((0, 3, 4)), leaf=2, contracts=con2)

            def cyc(c, subs, s, a, r):
                d = s.sub_(r.p, s.mul(a[0].p, a[0].p))
                c.put("equals-square-on-cyclotomic-subgroup", in_span(tw, s, d, cyc_relations(tw, s, a[0].p)))
            mk("cyc_square", cyc, leaf=1, contracts=lambda subs: [OpContracts(subs[1])])
    return out


def c08_lemmas(tw):
    from mirv.runner import Lemma
    out = []
    F1, F2, F6 = tw.F1, tw.F2, tw.F6
    p = tw.p
    out.append(Lemma("C08/%s/beta-nonsquare" % tw.key, lambda: (F1.pow(tw.beta % p, (p - 1) // 2) == p - 1, "u^2 - beta is reducible")))
    out.append(Lemma("C08/%s/xi-noncube" % tw.key, lambda: (F2.pow(tw.xi, (p * p - 1) // 3) != F2.one, "v^3 - xi is reducible")))
    out.append(Lemma("C08/%s/v-nonsquare" % tw.key, lambda: (F2.pow(tw.xi, (p * p - 1) // 2) != F2.one, "w^2 - v is reducible")))
    return out


def norm_ref(tw, s, lvl, p):
    """relative norm to the level below, as the resultant with the minimal polynomial"""
    c = s.comps(p)
    nr = nr_poly(tw, BELOW[lvl])
    M = s.mul
    if lvl in (2, 12):
        return s.sub_(M(c[0], c[0]), M(nr, M(c[1], c[1])))
    a, b, d = c
    cub = lambda x: M(x, M(x, x))
    t = s.add(cub(a), M(nr, cub(b)))
    t = s.add(t, M(M(nr, nr), cub(d)))
    return s.sub_(t, P.scale(M(nr, M(a, M(b, d))), 3, s.m))


def frob_ref(tw, s, lvl, p, k):
    """x -> x^(p^k): linear over the prime field; basis monomials are raised concretely"""
    R = tw.ring(12)
    out = {}
    cache = {}
    for m, c in p.items():
        sy = tuple(v for v in m if v <= W)
        rest = tuple(v for v in m if v > W)
        if sy not in cache:
            cache[sy] = cpoly(tw, 12, basis_frob(tw, sy, k))
        out = s.add(out, s.mul({rest: c}, cache[sy]))
    return out


_bf = {}


def basis_frob(tw, sy, k):
    key = (tw.key, sy, k % 12)
    k %= 12
    if key not in _bf:
        R = tw.F12
        if len(sy) == 0:
            _bf[key] = R.one
        elif len(sy) > 1:
            _bf[key] = R.mul(basis_frob(tw, sy[:1], k), basis_frob(tw, sy[1:], k))
        elif k > 1:
            _bf[key] = frob_conc(tw, 12, basis_frob(tw, sy, k - 1), 1)
        else:
            one2, z2 = tw.F2.one, tw.F2.zero
            g = {U: (((0, 1), z2, z2), tw.F6.zero), VV: ((z2, one2, z2), tw.F6.zero), W: (tw.F6.zero, tw.F6.one)}[sy[0]]
            _bf[key] = R.pow(g, tw.p) if k else g
    return _bf[key]


def coeffs12(s, p):
    """split a polynomial into its 12 coefficients over the prime field"""
    out = {}
    for k, c in p.items():
        sy = tuple(v for v in k if v <= W)
        out.setdefault(sy, {})[tuple(v for v in k if v > W)] = c
    return out


def cyc_relations(tw, s, x):
    """components of x * x^(p^4) - x^(p^2)"""
    d = s.sub_(s.mul(x, frob_ref(tw, s, 12, x, 4)), frob_ref(tw, s, 12, x, 2))
    return list(coeffs12(s, d).values())


def in_span(tw, s, d, rels):
    """every coefficient of d is a linear combination over the prime field of the relations"""
    p = tw.p
    # row echelon of the relations
    ech = []
    for r in rels:
        r = dict(r)
        for lead, q in ech:
            if lead in r:
                r = P.sub(r, P.scale(q, r[lead], p), p)
        if r:
            lead = max(r)
            ech.append((lead, P.scale(r, pow(r[lead], -1, p), p)))
    for c in coeffs12(s, d).values():
        c = dict(c)
        for lead, q in ech:
            if lead in c:
                c = P.sub(c, P.scale(q, c[lead], p), p)
        # the echelon is not reduced: repeat until stable
        for _ in range(len(ech)):
            ch = False
            for lead, q in ech:
                if lead in c:
                    c = P.sub(c, P.scale(q, c[lead], p), p)
                    ch = True
            if not ch:
                break
        if c:
            return False
    return True


# ---------------------------------------------------------------- concrete transport and oracles
def c20(prog):
    """equality, zero test and selection of the towers (same contracts as C08)"""
    import re
    out = []
    for t in TOWERS:
        for o in attach(t, c08(t)):
            if re.search(r"/(ct_eq|ct_ne|eq|ne|is_zero|is_zero_vt|select|cassign|cswap)$", o.name):
                o.name = "C20" + o.name[3:]
                out.append(o)
    return out


def ios(fields=False):
    from mirv.conc import FieldIO, TupIO

    class ExtIO(TupIO):
        def __init__(self, els, ring):
            TupIO.__init__(self, els)
            self.ring = ring

        def gen(self, rng):
            r = rng.random()
            out = []
            for e in self.els:
                if r < 0.35 and rng.random() < 0.5:
                    out.append(zero_of(e))
                else:
                    out.append(e.gen(rng))
            return tuple(out)

        def edges(self):
            z = [zero_of(e) for e in self.els]
            n = len(z)
            out = [tuple(z)]
            ee = self.els[0].edges()
            for i in range(n):
                for x in ee[:8]:
                    y = list(z)
                    y[i] = x
                    out.append(tuple(y))
            return list(dict.fromkeys(out))

    def zero_of(e):
        return 0 if isinstance(e, FieldIO) else tuple(zero_of(x) for x in e.els)
    sp = {f.ty: FieldIO(f) for f in params.FIELDS} if fields else {}
    for tw in TOWERS:
        a = FieldIO(tw.fld)
        b = ExtIO([a, a], tw.F2)
        c = ExtIO([b] * 3, tw.F6)
        d = ExtIO([c] * 2, tw.F12)
        sp.update({tw.t1: a, tw.t2: b, tw.t6: c, tw.t12: d})
    return sp


def oracles(tw, lvl):
    from mirv.conc import Pred, Skip
    R = tw.ring(lvl)
    S = tw.ring(BELOW[lvl])
    A, Sb, M = R.add, R.sub_, R.mul
    o = {}
    for v in ("", "_vv", "_vr", "_rv", "_asv", "_asr", "_in"):
        o["add" + v], o["sub" + v], o["mul" + v] = A, Sb, M
    o["mul_as_in"] = M
    o["sum2"], o["prod2"] = A, M
    for v in ("", "_v", "_in"):
        o["neg" + v] = R.neg
    o["double"] = o["double_f"] = lambda a: A(a, a)
    o["square"] = o["square_f"] = o["square_as"] = lambda a: M(a, a)
    o["cube"] = lambda a: M(a, M(a, a))
    for n in ("zero", "zero_c", "default"):
        o[n] = lambda: R.zero
    for n in ("one", "one_c"):
        o[n] = lambda: R.one
    o["invert"] = lambda a: None if R.iszero(a) else ("Some", R.inv(a))
    o["ct_eq"] = o["eq"] = lambda a, b: int(a == b)
    o["ct_ne"] = o["ne"] = lambda a, b: int(a != b)
    o["is_zero"] = o["is_zero_vt"] = lambda a: int(R.iszero(a))
    o["select"] = o["cassign"] = lambda a, b, c: b if c else a
    o["cswap"] = lambda a, b, c: (b, a) if c else (a, b)
    o["frob"] = lambda a, k: frob_conc(tw, lvl, a, k)
    o["norm"] = lambda a: sb(S, S.mul(a[0], a[0]), S.mul(S.mul(a[1], a[1]), R.nr))
    o["conj"] = lambda a: (a[0], S.neg(a[1]))
    nr = {2: tw.xi, 6: (tw.F2.zero, tw.F2.one, tw.F2.zero)}.get(lvl)
    o["mul_nr"] = lambda a: M(a, nr)
    o["c_nr"] = lambda: nr
    o["new"] = lambda *a: tuple(a)
    o["c0"], o["c1"] = (lambda a: a[0]), (lambda a: a[1])
    if lvl == 6:
        z = tw.F2.zero
        o["mul_by_1"] = lambda a, b: M(a, (z, b, z))
        o["mul_by_01"] = lambda a, b, c: M(a, (b, c, z))
    if lvl == 12:
        z = tw.F2.zero
        o["mul_by_014"] = lambda a, b, c, d: M(a, ((b, c, z), (z, d, z)))
        o["mul_by_034"] = lambda a, b, c, d: M(a, ((b, z, z), (c, d, z)))
        o["cyc_square"] = lambda a: M(a, a)
    return o


def frob_conc(tw, lvl, a, k):
    """through the p-power of the basis"""
    flat = {}

    def walk(l, x, sy):
        if l == 1:
            flat[sy] = x
            return
        sym = {2: U, 6: VV, 12: W}[l]
        for i, y in enumerate(x):
            walk(BELOW[l], y, tuple(sorted(sy + (sym,) * i)))
    walk(lvl, a, ())
    R = tw.F12
    acc = R.zero
    for sy, x in flat.items():
        if x:
            b = basis_frob(tw, sy, k)
            acc = R.add(acc, scal12(tw, b, x))
    return {12: acc, 6: acc[0], 2: acc[0][0]}[lvl]


def scal12(tw, b, x):
    return tuple(tuple(tuple(y * x % tw.p for y in f2) for f2 in f6) for f6 in b)


def cyc_elem(tw, rng):
    """random element of the cyclotomic subgroup"""
    R = tw.F12
    x = tuple(tuple((rng.randrange(tw.p), rng.randrange(tw.p)) for _ in range(3)) for _ in range(2))
    y = R.mul(frob_conc(tw, 12, x, 6), R.inv(x))
    return R.mul(frob_conc(tw, 12, y, 2), y)


def attach(tw, obs):
    memo = {}
    for o in obs:
        if o.root is None or getattr(o, "oracle", None) is not None:
            continue
        m, n = o.root.split("::")
        for l in (2, 6, 12):
            if tw.mod(l) == m:
                if l not in memo:
                    memo[l] = oracles(tw, l)
                o.oracle = memo[l].get(n)
                o.search_n = {2: 8000, 6: 3000, 12: 1200}[l]
                if n == "frob":
                    def gen(rng, i, l=l):
                        io = ios()[tw.ty(l)]
                        return io.gen(rng), rng.randrange(60) if i % 2 else i % 26
                    o.gen = gen
                    o.search_n = 400
                if n == "cyc_square":
                    o.gen = lambda rng, i: (cyc_elem(tw, rng) if i else tw.F12.one,)
                    o.search_n = 60
    return obs


def c03(tw):
    """inversion in the towers: batch inversion over the level's own operations, and the level's inversion over the level below (shared with C08)"""
    from . import inverse
    out = []
    for lvl in (2, 6, 12):
        so, subs = sorts(tw, lvl, lvl)
        s, R = subs[lvl], tw.ring(lvl)
        obs = inverse.batch(tw.mod(lvl), tw.ty(lvl), s, [OpContracts(s)], put_eq, "C03", inverse.batch_oracle(R.inv, R.mul, R.one, R.iszero))
        for o in obs:
            o.setup = symbols
        out += obs
        for o in c08_level(tw, lvl):
            if o.name.endswith("/invert"):
                o.name = o.name.replace("C08/", "C03/")
                out.append(o)
    return attach(tw, out)
