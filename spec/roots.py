"""Square roots, Legendre symbols, inversion (C03, C04, C09)."""
import random
import re
from mirv.core import Agg, Ptr
from mirv.world import Unsupported
from mirv.oblig import Obligation
from mirv.runner import Bounded, Lemma
from mirv.conc import Pred
from mirv.mulsort import Group, MulSort, MulContracts
from mirv.sorts import FE, ct_option, norm_name
from . import params
from .towers import Base, TOWERS

CASES = ("zero", "square", "nonsquare")


def prime_sort(f):
    g = Group(Base(f.p))
    s = MulSort(f.ty, f.size, g, f.Rinv)
    k = 2
    while pow(k, (f.p - 1) // 2, f.p) == 1:
        k += 1
    s.nonsq = k
    return s


class TonelliShanks:
    """assumed contract of the dependency ff::helpers::sqrt_tonelli_shanks (p = 1 mod 16): with tm1d2 = (t - 1)/2 and the field's S and
    ROOT_OF_UNITY as C06 proves them, returns Some(r) with r^2 = f when f is a square, otherwise None"""

    def __init__(self, f, mc):
        self.f, self.mc = f, mc
        self.rx = re.compile(r"^ff::helpers::sqrt_tonelli_shanks::<%s, .*>$" % re.escape(f.ty))

    def __call__(self, e, fi, f):
        return self.run if self.rx.match(f["name"]) else None

    def run(self, e, f, a, dt):
        fld = self.f
        ls = [e.w.n(c) for _, _, c in sorted(a[1].c, key=lambda x: x[0])] if isinstance(a[1], Agg) else None
        if ls is None or not all(isinstance(x, int) for x in ls):
            raise Unsupported("exponent of sqrt_tonelli_shanks is not a constant array")
        v = sum(x << (64 * i) for i, x in enumerate(ls))
        e.user["tm1d2"] = (v, (fld.T - 1) // 2)
        if fld.p % 16 != 1 or v != (fld.T - 1) // 2:
            raise Unsupported("precondition of sqrt_tonelli_shanks not met")
        return self.mc.c_sqrt(e, f, a, dt)


class NonRes:
    """constants in the multiplicative domain stay constants"""


def case_ob(name, root, f, plan, spec, which):
    s = prime_sort(f)
    mc = MulContracts(s, which)

    def setup(e):
        s.plan = plan
    o = Obligation("%s/%s" % (name, "-".join(plan)), root, spec(s), sorts={f.ty: s}, contracts=[mc, TonelliShanks(f, mc)], setup=setup)
    o.fsort = s
    return o


BASIC = {"mul", "mul_assign", "square", "square_assign", "ct_eq", "eq", "ne", "ct_ne", "is_zero", "is_zero_vartime", "conditional_select",
         "conditional_assign", "one", "zero", "mul_const", "neg", "default"}


def some_root(s):
    def spec(c, a, r):
        g = s.g
        x = a[0].p
        if s.plan[0] == "nonsquare":
            c.put("none-for-nonsquare", r is None)
            return
        c.put("some-for-square", r is not None)
        if r is not None:
            z = g.eq(c.w, g.pow(r[1].p, 2), x)
            c.put("squares-to-input", z == 1, str(z)[:200])
    return spec


def ratio(s, alt=False):
    def spec(c, a, r):
        g = s.g
        n = a[0].p
        d = (g.ring.one, {}) if alt else a[1].p
        dn = "square" if alt else s.plan[1]
        ok, v = r[0], r[1].p
        if n is None:
            c.put("zero-flag", ok == 1)
            c.put("zero-root", v is None)
        elif d is None:
            c.put("div-zero-flag", ok == 0)
            c.put("div-zero-root", v is None)
        else:
            sq = s.plan[0] == dn
            c.put("flag", ok == int(sq))
            want = n if sq else g.mul(n, (s.rou, {}))
            z = g.eq(c.w, g.mul(g.pow(v, 2), d), want)
            c.put("root-of-ratio", z == 1, str(z)[:200])
    return spec


def jac(a, n):
    a %= n
    r = 1
    while a:
        while a % 2 == 0:
            a //= 2
            if n % 8 in (3, 5):
                r = -r
        a, n = n, a
        if a % 4 == 3 and n % 4 == 3:
            r = -r
        a %= n
    return r if n == 1 else 0


def c04(f):
    out = []
    k = f.key
    rou = pow(f.gen, f.T, f.p)
    for c in CASES:
        out.append(case_ob("C04/%s/sqrt" % k, k + "::sqrt", f, (c,), some_root, BASIC))
    R = BASIC | {"sqrt", "invert"}
    for c in CASES:
        o = case_ob("C04/%s/sqrt_alt" % k, k + "::sqrt_alt", f, (c,), lambda s: ratio(s, True), R)
        o.fsort.rou = rou
        out.append(o)
        for d in CASES:
            o = case_ob("C04/%s/sqrt_ratio" % k, k + "::sqrt_ratio", f, (c, d), ratio, R)
            o.fsort.rou = rou
            out.append(o)
    m = oracles(f)
    for o in out:
        o.oracle = m[o.root.split("::")[1]]
        o.search_n = 600
        o.gen = gen_of(f, o.root)
    return out


def gen_of(f, root):
    from mirv.conc import FieldIO
    io = FieldIO(f)
    two = root.endswith("sqrt_ratio")

    def g(rng, i):
        def one():
            x = io.gen(rng)
            return x * x % f.p if rng.random() < 0.5 else x
        return (one(), one()) if two else (one(),)
    return g


def oracles(f):
    p = f.p
    rou = pow(f.gen, f.T, p)

    def sq(a):
        if a == 0:
            return ("Some", 0)
        if jac(a, p) != 1:
            return None
        return Pred(lambda o: isinstance(o, tuple) and o[0] == "Some" and isinstance(o[1], int) and o[1] * o[1] % p == a, "Some(square root of %d)" % a)

    def rt(n, d):
        if n == 0:
            return (1, 0)
        if d == 0:
            return (0, 0)
        x = n * pow(d, -1, p) % p
        ok = jac(x, p) == 1
        w = x if ok else x * rou % p
        return Pred(lambda o: isinstance(o, tuple) and o[0] == int(ok) and isinstance(o[1], int) and o[1] * o[1] % p == w, "(%d, root of %d)" % (ok, w))
    return {"sqrt": sq, "sqrt_ratio": rt, "sqrt_alt": lambda a: rt(a, 1), "legendre": lambda a: jac(a, p),
            "invert": lambda a: ("Some", pow(a, -1, p)) if a else None}


# ---------------------------------------------------------------- quadratic extensions
def fq2_sorts(tw):
    f = tw.fld
    g = Group(tw.F2, f.p)
    b = MulSort(tw.t1, f.size, g, f.Rinv)
    s = MulSort(tw.t2, 2 * f.size, g, f.Rinv, base=b)
    s.gen_u = (0, 1)
    rng = random.Random(5)
    while True:
        k = (rng.randrange(f.p), rng.randrange(f.p))
        if g.ring.pow(k, g.N // 2) != g.ring.one:
            break
    s.nonsq = k
    return s, b


def c09_roots(tw):
    out = []
    k = tw.m2
    for c in CASES:
        for fn in ("sqrt", "legendre"):
            s, b = fq2_sorts(tw)

            def setup(e, s=s, c=c):
                s.plan = (c,)

            def spec(cx, a, r, s=s, c=c, fn=fn):
                if fn == "sqrt":
                    some_root(s)(cx, a, r)
                else:
                    cx.put("symbol", (r - (1 << 64) if r >> 63 else r) == {"zero": 0, "square": 1, "nonsquare": -1}[c], str(r))
            o = Obligation("C09/%s/%s/%s" % (k, fn, c), "%s::%s" % (k, fn), spec, sorts={tw.t2: s, tw.t1: b},
                           contracts=[MulContracts(s, BASIC | {"add", "sub", "add_assign", "frobenius_map", "conjugate", "norm", "double"}),
                                      MulContracts(b, BASIC | {"add", "sub", "sqrt", "legendre", "jacobi"})], setup=setup)
            out.append(o)
    m = oracles2(tw)
    for o in out:
        o.oracle = m[o.root.split("::")[1]]
        o.search_n = 400
        o.gen = gen2(tw)
    return out


def oracles2(tw):
    R = tw.F2
    p = tw.p
    norm = lambda a: R.mul(a, R.pow(a, p))[0] if False else (a[0] * a[0] - tw.beta * a[1] * a[1]) % p

    def sq(a):
        if jac(norm(a), p) == -1:
            return None
        return Pred(lambda o: isinstance(o, tuple) and o[0] == "Some" and R.mul(o[1], o[1]) == tuple(a), "Some(square root of %r)" % (a,))
    return {"sqrt": sq, "legendre": lambda a: jac(norm(a), p)}


def gen2(tw):
    from mirv.conc import FieldIO
    io = FieldIO(tw.fld)

    def g(rng, i):
        k = rng.random()
        a = (io.gen(rng), io.gen(rng))
        if k < 0.2:
            a = (a[0], 0)
        elif k < 0.4:
            a = (0, a[1])
        if rng.random() < 0.4:
            a = tw.F2.mul(a, a)
        return (a,)
    return g


# ---------------------------------------------------------------- bounded stand-ins (inverter, Jacobi symbol)
def b_field(tag, fn, why, n=3000):
    def mk(prog):
        out = []
        for f in params.FIELDS:
            out.append(Bounded("%s/%s/%s" % (tag, f.key, fn), "%s::%s" % (f.key, fn), oracles(f)[fn], n=n, why=why))
        return out
    return mk
