"""C18: pairings, final exponentiation, target groups."""
import math
import random
import re
from mirv import poly as P
from mirv.builtins import scal
from mirv.core import Part
from mirv.conc import Pred, Skip
from mirv.grp import GE, GrpSort
from mirv.oblig import Ctx, Obligation
from mirv.runner import Bounded
from mirv.sorts import OpContracts, ct_option
from mirv.world import SV, PanicPath, Unsupported
from .endo import silent
from .fieldspec import CanonContract, canon_of, lsort
from .groups import put_grp
from . import params
from .algos import dlogs, scalar
from .ecref import CBY
from .towers import TOWERS, frob_conc


class Engine:
    def __init__(self, key, mod, g1, g2, tw, power):
        self.key, self.mod, self.tw, self.power = key, mod, tw, power
        self.g1, self.g2 = CBY[g1], CBY[g2]
        self.r = self.g1.order
        self.R = tw.F12
        self.full = (tw.p ** 12 - 1) // self.r
        assert (tw.p ** 12 - 1) % self.r == 0 and self.g2.order == self.r

    def gpow(self, a, e):
        """power of an element of norm one over Fp6 (inverse = conjugate)"""
        return self.R.pow(frob_conc(self.tw, 12, a, 6) if e < 0 else a, abs(e))

    def fexp(self, f):
        """f^(power * (p^12 - 1)/r) by a plain power, the easy part through the reference Frobenius"""
        R, tw = self.R, self.tw
        a = R.mul(frob_conc(tw, 12, f, 6), R.inv(f))
        a = R.mul(frob_conc(tw, 12, a, 2), a)
        p = tw.p
        return R.pow(a, self.power * ((p ** 4 - p ** 2 + 1) // self.r) % (p ** 4 - p ** 2 + 1))

    def gt(self):
        """a generator of the order-r target group and a few known powers"""
        if not hasattr(self, "_gt"):
            rng = random.Random(17)
            p = self.tw.p
            while True:
                x = tuple(tuple((rng.randrange(p), rng.randrange(p)) for _ in range(3)) for _ in range(2))
                g = self.fexp(x)
                if g != self.R.one:
                    break
            out = {0: self.R.one}
            for i in range(1, 5):
                out[i] = self.R.mul(out[i - 1], g)
                out[self.r - i] = frob_conc(self.tw, 12, out[i], 6)
            for _ in range(6):
                k = rng.randrange(self.r)
                out[k] = self.R.pow(g, k)
            self._gt = out
        return self._gt


TW = {t.key: t for t in TOWERS}


def engines():
    x = params.BN_X
    px = -params.PLUTO_X if params.PLUTO_X > 0 else params.PLUTO_X
    fc = lambda x: 2 * x * (6 * x * x + 3 * x + 1)
    return [Engine("bn", "e_bn", "bn_g1", "bn_g2", TW["bn"], 1), Engine("bls", "e_bls", "bls_g1", "bls_g2", TW["bls"], 3),
            Engine("pluto", "e_pluto", "pluto_g1", "pluto_g2", TW["pluto"], 1)]


ENGINES = engines()


def related(e, k):
    """(x, g): g generates the target group, x = g^k"""
    R = e.R

    def f(got):
        if not (isinstance(got, tuple) and len(got) == 2):
            return False
        x, g = got
        return g != R.one and R.mul(g, frob_conc(e.tw, 12, g, 6)) == R.one and R.pow(g, e.r) == R.one and x == R.pow(g, k % e.r)
    return Pred(f, "(g^%d, g) for some generator g of the target group" % (k % e.r))


def c18(prog):
    out = []
    for e in ENGINES:
        R, tw = e.R, e.tw

        def pick(c, rng):
            a, P = rng.choice(dlogs(c))
            return c.a_out(P)

        def g_pair(rng, i, e=e, pick=pick):
            return (pick(e.g1, rng), pick(e.g2, rng))

        def g_multi(rng, i, e=e, pick=pick):
            n = rng.choice([0, 1, 1, 2, 2, 3, 4])
            v = [(pick(e.g1, rng), pick(e.g2, rng)) for _ in range(n)]
            if n > 1 and rng.random() < 0.4:
                a, P = rng.choice(dlogs(e.g1)[1:])
                q = pick(e.g2, rng)
                v[0], v[-1] = (e.g1.a_out(P), q), (e.g1.a_out(e.g1.neg(P)), q)
            return (tuple(v),)

        def dl(c, p):
            dlogs(c)
            if p not in c._dlmap:
                raise Skip
            return c._dlmap[p]

        def o_pair(p, q, e=e, dl=dl):
            return related(e, dl(e.g1, p) * dl(e.g2, q))

        def o_multi(v, e=e, dl=dl):
            return related(e, sum(dl(e.g1, p) * dl(e.g2, q) for p, q in v))

        def g_f(rng, i, e=e):
            p = e.tw.p
            x = [rng.choice([0, 1, p - 1, rng.randrange(p), rng.randrange(p), rng.randrange(p)]) for _ in range(12)]
            k = rng.random()
            if k < 0.2:
                x = [v if j == int(k * 60) else 0 for j, v in enumerate(x)]
            if not any(x):
                x[0] = 1
            return ((tuple((x[j], x[j + 1]) for j in (0, 2, 4)), tuple((x[j], x[j + 1]) for j in (6, 8, 10))),)

        def o_f(f, e=e):
            if e.R.iszero(f):
                raise Skip
            return e.fexp(f)

        def gtg(rng, e=e):
            return rng.choice(list(e.gt().values()))

        def B(name, oracle, n, gen, why):
            out.append(Bounded("C18/%s/%s" % (e.key, name), "%s::%s" % (e.mod, name), oracle, n=n, gen=gen, why="bounded: " + why))
        why = "points with known logarithms and the identity"
        for n in ("pair", "pair_1", "pair_2"):
            B(n, o_pair, 60, g_pair, why)
        B("multi", o_multi, 60, g_multi, why + ", up to 4 terms")
        B("final_exp", o_f, 24, g_f, "random and sparse elements")
        inv = lambda a, tw=tw: frob_conc(tw, 12, a, 6)
        two = lambda rng, i, gtg=gtg: (gtg(rng), gtg(rng))
        one = lambda rng, i, gtg=gtg: (gtg(rng),)
        why = "elements of the order-r subgroup"
        for n in ("gt_add", "gt_add_vv", "gt_add_as", "gt_sum", "gt_sum_v"):
            B(n, lambda a, b, R=R: R.mul(a, b), 40, two, why)
        for n in ("gt_sub", "gt_sub_vv", "gt_sub_as"):
            B(n, lambda a, b, R=R, inv=inv: R.mul(a, inv(b)), 40, two, why)
        for n in ("gt_neg", "gt_neg_v"):
            B(n, inv, 40, one, why)
        for n in ("gt_double", "gt_double_t"):
            B(n, lambda a, R=R: R.mul(a, a), 40, one, why)
        for n in ("gt_mul", "gt_mul_vv", "gt_mul_as"):
            B(n, lambda a, k, R=R: R.pow(a, k), 14, lambda rng, i, gtg=gtg, e=e: (gtg(rng), scalar(rng, e.r)), why)
        for n in ("gt_id", "gt_id_t"):
            B(n, lambda R=R: R.one, 1, lambda rng, i: (), why)
        B("gt_is_id", lambda a, R=R: a == R.one, 30, one, why)
        for n in ("gt_eq", "gt_ct_eq"):
            B(n, lambda a, b: a == b, 40, two, why)
        B("gt_select", lambda a, b, k: b if k else a, 40, lambda rng, i, gtg=gtg: (gtg(rng), gtg(rng), rng.random() < 0.5), why)
    return out


# ---------------------------------------------------------------- contracts: the multiplicative group of Fp12, written additively
ZERO = {(): 1}  # marker: not an exponent (constants never occur in exponents)


class GtSort(GrpSort):
    """nonzero elements of Fp12 as integer combinations of unknowns (exponents); constants: only 1.
    N: exponents are read modulo N"""

    def __init__(self, tw, N, sub):
        GrpSort.__init__(self, tw.t12, 12 * tw.fld.size)
        self.tw, self.N, self.sub = tw, N, sub
        n = tw.fld.n
        self.onec = [(tw.fld.R % tw.p >> (64 * i)) & (2**64 - 1) for i in range(n)] + [0] * (11 * n)

    def red(self, p):
        if self.N is None:
            return p
        return {k: c % self.N for k, c in p.items() if c % self.N}

    def fresh(self, e, name):
        v = e.w.fresh(name, None, None, ("grp",))
        return GE(self, {(v,): 1})

    def read(self, e, a, o):
        c = [e.load(a, o + 8 * i, 8) for i in range(self.words)]
        if c == self.onec:
            return GE(self, {})
        x = c[0]
        if isinstance(x, Part) and x.kind == "grp:" + self.name and x.obj.p is ZERO and all(isinstance(y, Part) and y.obj == x.obj for y in c):
            return x.obj
        return GrpSort.read(self, e, a, o)


class GtContracts(OpContracts):
    """multiplication, squaring, inversion, conjugation, Frobenius, selection and comparison of Fp12 (discharged by C08), on nonzero
    elements. sub: the elements lie in the subgroup of order N"""

    def __init__(self, s):
        OpContracts.__init__(self, s)
        self.rx.append((re.compile(r"^<%s as halo2curves::ff_ext::(ExtField)>::(\w+)$" % re.escape(s.name)), 2))

    def arg(self, e, x):
        return self.rawarg(e, x)

    def val(self, e, x, zero=False):
        p = self.rawarg(e, x).p
        if p is ZERO:
            if zero:
                return p
            raise Unsupported("the zero element")
        return e.w.norm(p)

    def ret(self, p):
        return self.s.image(GE(self.s, p if p is ZERO else self.s.red(p)))

    def c_zero(self, e, f, a, dt):
        return self.ret(ZERO)

    c_default = c_zero

    def c_mul(self, e, f, a, dt):
        return self.ret(P.add(self.val(e, a[0]), self.val(e, a[1])))

    def c_mul_assign(self, e, f, a, dt):
        return self._assign(e, a[0], P.add(self.val(e, a[0]), self.val(e, a[1])))

    def c_square(self, e, f, a, dt):
        return self.ret(P.scale(self.val(e, a[0]), 2))

    def c_square_assign(self, e, f, a, dt):
        return self._assign(e, a[0], P.scale(self.val(e, a[0]), 2))

    def c_cyclotomic_square(self, e, f, a, dt):
        x = self.val(e, a[0])
        s, p = self.s, self.s.tw.p
        if not s.sub:
            for c in x.values():
                if c * (p ** 4 - p ** 2 + 1) % s.N:
                    raise PanicPath("cyclotomic squaring of an element outside the cyclotomic subgroup")
        return self._assign(e, a[0], P.scale(x, 2))

    def c_conjugate(self, e, f, a, dt):
        s = self.s
        return self._assign(e, a[0], P.neg(self.val(e, a[0])) if s.sub else P.scale(self.val(e, a[0]), s.tw.p ** 6))

    def c_frobenius_map(self, e, f, a, dt):
        k = e.w.n(a[1])
        if not isinstance(k, int):
            raise Unsupported("symbolic Frobenius power")
        r = self._assign(e, a[0], P.scale(self.val(e, a[0]), pow(self.s.tw.p, k % 12)))
        return r

    def c_invert(self, e, f, a, dt):
        return ct_option(e, dt, self.s, GE(self.s, self.s.red(P.neg(self.val(e, a[0])))), 1)

    def c_one(self, e, f, a, dt):
        return self.ret({})

    def nope(self, e, f, a, dt):
        raise Unsupported("no contract for " + f["name"][-40:])

    c_add = c_sub = c_neg = c_double = c_add_assign = c_sub_assign = c_from = c_sub_const = nope
    c_mul_by_014 = c_mul_by_034 = c_mul_by_nonresidue = c_norm = c_sqrt = c_legendre = nope

    def c_is_zero(self, e, f, a, dt):
        return int(self.val(e, a[0], True) is ZERO)

    c_is_zero_vartime = c_is_zero

    def _eq(self, e, a):
        return eqz(e, P.sub(self.val(e, a[0]), self.val(e, a[1])))

    def mix(self, e, c, x, y):
        c = e.w.n(scal(c))
        if not isinstance(c, SV):
            return y if c else x
        if x is ZERO or y is ZERO:
            raise Unsupported("selection of zero")
        return P.add(x, P.mul(c.p, P.sub(y, x)))

    def c_conditional_select(self, e, f, a, dt):
        return self.ret(self.mix(e, a[2], self.val(e, a[0], True), self.val(e, a[1], True)))

    def c_conditional_assign(self, e, f, a, dt):
        return self._assign(e, a[0], self.mix(e, a[2], self.val(e, a[0]), self.val(e, a[1])))

    def c_conditional_swap(self, e, f, a, dt):
        x, y = self.val(e, a[0]), self.val(e, a[1])
        self._assign(e, a[0], self.mix(e, a[2], x, y))
        return self._assign(e, a[1], self.mix(e, a[2], y, x))


def eqz(e, p):
    p = e.w.norm(p)
    if not p:
        return 1
    # one orientation of the difference
    if p[min(p)] < 0:
        p = P.neg(p)
    return e.w.atom("gz", P.key(p), ("gz", p))


def obligations(prog):
    out = []
    for e in ENGINES:
        tw, f = e.tw, e.g1.scalar
        full = GtSort(tw, tw.p ** 12 - 1, False)

        def fin(cx, a, r, e=e, full=full):
            """f^k with k a multiple of (p^12-1)/r, the quotient prime to r: into the subgroup of order r, trivial exactly on r-th powers"""
            (v,), = a[0].p
            q = {(v,): 1}
            got = cx.w.norm(r.p)
            k = got.get((v,), 0) % full.N
            cx.put("power-of-the-argument", set(got) <= {(v,)})
            cx.put("order-divides-r", k * e.r % full.N == 0)
            cx.put("faithful", k % e.full == 0 and math.gcd(k // e.full, e.r) == 1)
            cx.put("documented-multiple", k == e.power * e.full % full.N)
        o = Obligation("C18/%s/final_exp" % e.key, "%s::final_exp" % e.mod, fin, sorts={tw.t12: full}, contracts=[GtContracts(full), silent])
        out.append(o)

        sub = GtSort(tw, None, True)
        add = P.add
        two = lambda g: (lambda cx, a, r: put_grp(cx, "value", r.p, g(a[0].p, a[1].p)))
        one = lambda g: (lambda cx, a, r: put_grp(cx, "value", r.p, g(a[0].p)))
        specs = {}
        for n in ("gt_add", "gt_add_vv", "gt_sum", "gt_sum_v", "gt_add_as"):
            specs[n] = two(P.add)
        for n in ("gt_sub", "gt_sub_vv", "gt_sub_as"):
            specs[n] = two(P.sub)
        for n in ("gt_neg", "gt_neg_v"):
            specs[n] = one(P.neg)
        for n in ("gt_double", "gt_double_t"):
            specs[n] = one(lambda x: P.scale(x, 2))
        for n in ("gt_id", "gt_id_t"):
            specs[n] = lambda cx, a, r: put_grp(cx, "value", r.p, {})
        for n in ("gt_mul", "gt_mul_vv", "gt_mul_as"):
            specs[n] = lambda cx, a, r, f=f: put_grp(cx, "scalar-power", r.p, P.mul(a[0].p, canon_of(cx, f, a[1])))

        def beq(d):
            def spec(cx, a, r):
                want = eqz(cx.e, d(a))
                cx.zero("boolean", P.sub(Ctx.poly(cx.w.n(r)), Ctx.poly(want)))
            return spec
        specs["gt_is_id"] = beq(lambda a: a[0].p)
        specs["gt_eq"] = specs["gt_ct_eq"] = beq(lambda a: P.sub(a[0].p, a[1].p))

        def sel(cx, a, r):
            put_grp(cx, "selected", r.p, P.add(a[0].p, P.mul(Ctx.poly(cx.w.n(a[2])), P.sub(a[1].p, a[0].p))))
        specs["gt_select"] = sel
        for n, sp in specs.items():
            so = dict(lsort(f))
            so[tw.t12] = sub
            o = Obligation("C18/%s/%s" % (e.key, n), "%s::%s" % (e.mod, n), sp, sorts=so, contracts=[GtContracts(sub), CanonContract(f, bits=True)])
            o.cost = 10
            out.append(o)
    bs = {b.root: b for b in c18(prog)}
    for o in out:
        b = bs[o.root]
        o.oracle, o.gen, o.search_n = b.oracle, b.gen, b.n
    return out
