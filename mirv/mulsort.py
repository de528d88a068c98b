"""Multiplicative domain: nonzero field elements as constant * product of unknowns with integer exponents, modulo a lattice of known
relations between the unknowns. Decides squareness, roots, Frobenius powers for arbitrary elements."""
import re
from .core import Agg, Alloc, Ptr, Part
from .world import SV, Unsupported
from .sorts import OpContracts, FE, ct_option


def vadd(a, b, k=1):
    r = dict(a)
    for s, x in b.items():
        r[s] = r.get(s, 0) + k * x
    return r


class Group:
    """unit group of a finite field: ring is the concrete reference field; N its order - 1; q: Frobenius exponent (None for prime fields)"""

    def __init__(self, ring, q=None):
        self.ring, self.q = ring, q
        self.N = ring.order - 1
        self.minus1 = ring.neg(ring.one)

    def rels(self, w):
        if not hasattr(w, "mrel"):
            w.mrel, w.mneq, w.mmemo = [], [], {}
        return w.mrel

    def norm(self, v):
        return {s: x % self.N for s, x in v.items() if x % self.N}

    def value(self, w, v):
        """constant the monomial v equals, or None when the relations do not determine it"""
        v = self.norm(v)
        if not v:
            return self.ring.one
        rows = [(dict(r), {i: 1}) for i, (r, _) in enumerate(self.rels(w))]
        syms = sorted(set(v) | {s for r, _ in rows for s in r})
        rows += [({s: self.N}, {}) for s in syms]
        comb = {}
        v = dict(v)
        for s in syms:
            # gcd elimination in column s
            act = [r for r in rows if r[0].get(s, 0)]
            rest = [r for r in rows if not r[0].get(s, 0)]
            while len(act) > 1:
                act.sort(key=lambda r: abs(r[0][s]))
                p = act[0]
                nx = [p]
                for r in act[1:]:
                    k = r[0][s] // p[0][s]
                    nr = ({t: x for t, x in vadd(r[0], p[0], -k).items() if x}, vadd(r[1], p[1], -k))
                    (nx if nr[0].get(s, 0) else rest).append(nr)
                act = nx
            if act:
                p = act[0]
                k, m = divmod(v.get(s, 0), p[0][s])
                if m:
                    return None
                v = vadd(v, p[0], -k)
                comb = vadd(comb, p[1], k)
            elif v.get(s, 0):
                return None
            rows = [r for r in rest if r[0]]
        c = self.ring.one
        for i, k in comb.items():
            c = self.ring.mul(c, self.ring.pow(self.rels(w)[i][1], k % self.N))
        return c

    # elements: None (zero) or (const, exponents)
    def mul(self, a, b):
        if a is None or b is None:
            return None
        return (self.ring.mul(a[0], b[0]), self.norm(vadd(a[1], b[1])))

    def pow(self, a, k):
        if a is None:
            return None
        return (self.ring.pow(a[0], k % self.N), self.norm({s: x * k for s, x in a[1].items()}))

    def inv(self, a):
        return self.pow(a, -1)

    def eq(self, w, a, b):
        """0, 1 or a boolean atom"""
        if a is None or b is None:
            return int(a is None and b is None)
        r = self.mul(a, self.inv(b))
        v = self.value(w, r[1])
        if v is not None:
            return int(self.ring.mul(v, r[0]) == self.ring.one)
        t = self.ring.inv(r[0])
        key = tuple(sorted(r[1].items()))
        for k2, t2 in w.mneq:
            for sg in (1, -1):
                # r = v * k2^sg with v known: r == t would force k2 == t2
                v = self.value(w, vadd(r[1], dict(k2), -sg))
                if v is not None and self.ring.mul(v, t2 if sg == 1 else self.ring.inv(t2)) == t:
                    return 0
        return w.atom("mq", (key, t), ("mq", self, r[1], t))

    def decide(self, w, c, tag):
        e, t = tag[2], tag[3]
        if c:
            self.rels(w).append((e, t))
            return
        w.mneq.append((tuple(sorted(e.items())), t))
        # a square root of a known square, different from one root, is the other root
        v = self.value(w, {s: 2 * x for s, x in e.items()})
        if v is not None:
            if v == self.ring.mul(t, t):
                self.rels(w).append((e, self.ring.neg(t)))

    def add(self, e, a, b):
        if a is None:
            return b
        if b is None:
            return a
        w = e.w
        r = self.mul(b, self.inv(a))
        z = self.eq(w, r, (self.minus1, {}))
        if isinstance(z, SV):
            z = w.concretize(z, "sum")
        if z:
            return None
        v = self.value(w, r[1])
        if v is not None:
            return self.mul(a, (self.ring.add(self.ring.one, self.ring.mul(v, r[0])), {}))
        key = ("madd", r[0], tuple(sorted(r[1].items())))
        self.rels(w)
        s = w.mmemo.get(key)
        if s is None:
            s = w.mmemo[key] = "beta%d" % len(w.mmemo)
            if self.q is not None:
                n = self.value(w, {x: k * (self.q + 1) for x, k in r[1].items()})
                if n is not None and self.ring.mul(n, self.ring.pow(r[0], self.q + 1)) == self.ring.one:
                    # r^q = 1/r, so (1 + r)^q = 1 + 1/r = (1 + r)/r
                    w.mrel.append((vadd({s: self.q - 1}, r[1]), self.ring.inv(r[0])))
        return self.mul(a, (self.ring.one, {s: 1}))

    def neg(self, a):
        return self.mul(a, (self.minus1, {}))

    def fresh_root(self, e, a, extra=()):
        w = e.w
        self.rels(w)
        s = "rho%d" % len(w.mmemo)
        w.mmemo[s] = s
        w.mrel.append((vadd({s: 2}, a[1], -1), a[0]))
        for k in extra:
            w.mrel.append(({s: k}, self.ring.one))
        return (self.ring.one, {s: 1})

    def is_square(self, w, a, n=None):
        """True/False/None; n: order of the subfield's unit group the element lies in"""
        n = n or self.N
        if a is None:
            return True
        p = self.pow(a, n // 2)
        v = self.value(w, p[1])
        return None if v is None else self.ring.mul(v, p[0]) == self.ring.one


class MulSort:
    """memory sort for a field type; base: MulSort of the base field when this is a quadratic extension"""

    def __init__(self, name, size, g, rinv, base=None, cases=("zero", "square", "nonsquare")):
        self.name, self.size, self.g, self.rinv, self.base = name, size, g, rinv, base
        self.words = size // 8
        self.short = name.split("::")[-1]
        self.k = 0
        self.plan = []
        self.up = None
        if base is not None:
            base.up = self

    def reset(self):
        self.k = 0

    def is_raw(self, fe):
        return False

    def fresh(self, e, name):
        """inputs follow self.plan: 'zero', 'square' (y^2), 'nonsquare' (s y^2)"""
        kind = self.plan[self.k]
        self.k += 1
        if kind == "zero":
            return FE(self, None)
        c = self.g.ring.one if kind == "square" else self.nonsq
        return FE(self, (c, {"y_" + name: 2}))

    def fix(self, e, p):
        return p

    def image(self, fe):
        return Agg([(8 * i, 8, Part(fe, self.name, i)) for i in range(self.words)], self.size)

    def read(self, e, a, o):
        cells = [e.load(a, o + 8 * i, 8) for i in range(self.words)]
        return self.from_cells(e, cells)

    def const_of(self, cells):
        v = sum(c << (64 * i) for i, c in enumerate(cells))
        if v >= self.g.ring.p:
            raise Unsupported("non-canonical constant")
        return v * self.rinv % self.g.ring.p

    def from_cells(self, e, cells):
        c0 = cells[0]
        if isinstance(c0, Part) and c0.kind == self.name and all(
                isinstance(c, Part) and c.kind == self.name and c.i == c0.i + i and (c.obj is c0.obj or c.obj == c0.obj) for i, c in enumerate(cells)) and c0.i == 0:
            return FE(self, c0.obj.p)
        if self.base is None:
            if isinstance(c0, Part) and self.up is not None and c0.kind == self.up.name and c0.i % self.words == 0:
                return FE(self, ("comp", c0.obj.p, c0.i // self.words))
            if all(isinstance(c, int) for c in cells):
                v = self.const_of(cells)
                return FE(self, self.lift(v))
        else:
            n = self.base.words
            a, b = self.base.from_cells(e, cells[:n]).p, self.base.from_cells(e, cells[n:]).p
            if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == "comp" and b[0] == "comp" and a[1] == b[1] and (a[2], b[2]) == (0, 1):
                return FE(self, a[1])
            if b is None:
                return FE(self, a)
            if a is None and b[0] != "comp":
                return FE(self, self.g.mul(b, (self.gen_u, {})))
            ca, cb = self.base.cst(a), self.base.cst(b)
            if ca is not None and cb is not None:
                return FE(self, ((ca, cb), {}))
        raise Unsupported("value outside the multiplicative domain: %r" % (cells[:1],))

    def lift(self, v):
        """constant of the prime field inside the group's ring"""
        if v == 0:
            return None
        return (self.g.ring.small(v), {})

    def cst(self, a):
        if a is None:
            return 0
        if a[0] == "comp" or a[1]:
            return None
        c = a[0]
        return c if isinstance(c, int) else (c[0] if c[1] == 0 else None)


class MulContracts(OpContracts):
    def __init__(self, s, which=None, **kw):
        OpContracts.__init__(self, s, which, **kw)
        T = re.escape(s.name)
        self.rx.append((re.compile(r"^<%s as halo2curves::ff_ext::(ExtField|Legendre)>::(\w+)$" % T), 2))

    def c_conjugate(self, e, f, a, dt):
        g = self.s.g
        return self._assign(e, a[0], g.pow(self.val(e, a[0]), g.q))

    def val(self, e, x):
        p = self.arg(e, x).p
        if isinstance(p, tuple) and p[0] == "comp":
            g = self.s.g
            if p[1] is None:
                return None
            z = p[1]
            if p[2] == 0 and self.in_base(e.w, z):
                return z
            raise Unsupported("component of an element not known to lie in the base field")
        return p

    def in_base(self, w, z):
        g = self.s.g
        t = g.pow(z, g.q - 1)
        v = g.value(w, t[1])
        return v is not None and g.ring.mul(v, t[0]) == g.ring.one

    def c_mul(self, e, f, a, dt):
        return self.ret(self.prod(e, a))

    def prod(self, e, a):
        x, y = self.arg(e, a[0]).p, self.arg(e, a[1]).p
        for u, v, i in ((x, y, 1), (y, x, 0)):
            if isinstance(u, tuple) and u[0] == "comp" and not (isinstance(v, tuple) and v[0] == "comp"):
                t = self.val(e, a[i])
                return ("comp", self.s.g.mul(u[1], t), u[2]) if t is not None else None
        return self.s.g.mul(self.val(e, a[0]), self.val(e, a[1]))

    c_mul_const = c_mul

    def c_mul_assign(self, e, f, a, dt):
        return self._assign(e, a[0], self.prod(e, a))

    def c_square(self, e, f, a, dt):
        return self.ret(self.s.g.pow(self.val(e, a[0]), 2))

    def c_square_assign(self, e, f, a, dt):
        return self._assign(e, a[0], self.s.g.pow(self.val(e, a[0]), 2))

    def c_add(self, e, f, a, dt):
        return self.ret(self.s.g.add(e, self.val(e, a[0]), self.val(e, a[1])))

    def c_sub(self, e, f, a, dt):
        return self.ret(self.s.g.add(e, self.val(e, a[0]), self.s.g.neg(self.val(e, a[1]))))

    c_sub_const = c_sub

    def c_add_assign(self, e, f, a, dt):
        return self._assign(e, a[0], self.s.g.add(e, self.val(e, a[0]), self.val(e, a[1])))

    def c_sub_assign(self, e, f, a, dt):
        return self._assign(e, a[0], self.s.g.add(e, self.val(e, a[0]), self.s.g.neg(self.val(e, a[1]))))

    def c_neg(self, e, f, a, dt):
        return self.ret(self.s.g.neg(self.val(e, a[0])))

    def c_double(self, e, f, a, dt):
        return self.ret(self.s.g.mul(self.val(e, a[0]), (self.s.g.ring.small(2), {})))

    def c_zero(self, e, f, a, dt):
        return self.ret(None)

    c_default = c_zero

    def c_one(self, e, f, a, dt):
        return self.ret((self.s.g.ring.one, {}))

    def c_is_zero(self, e, f, a, dt):
        return int(self.val(e, a[0]) is None)

    c_is_zero_vartime = c_is_zero

    def _eq(self, e, a):
        return self.s.g.eq(e.w, self.val(e, a[0]), self.val(e, a[1]))

    def c_invert(self, e, f, a, dt):
        x = self.val(e, a[0])
        if x is None:
            return ct_option(e, dt, self.s, FE(self.s, None), 0)
        return ct_option(e, dt, self.s, FE(self.s, self.s.g.inv(x)), 1)

    def c_frobenius_map(self, e, f, a, dt):
        g = self.s.g
        k = e.w.n(a[1])
        if not isinstance(k, int):
            raise Unsupported("symbolic Frobenius power")
        if k % 2:
            return self._assign(e, a[0], g.pow(self.val(e, a[0]), g.q))
        return Agg([], 0)

    def c_norm(self, e, f, a, dt):
        g = self.s.g
        return self.s.base.image(FE(self.s.base, g.pow(self.val(e, a[0]), g.q + 1)))

    # contracts of the base field's own root functions (discharged by C04 for the prime fields)
    def c_sqrt(self, e, f, a, dt):
        s, g = self.s, self.s.g
        z = self.val(e, a[0])
        if z is None:
            return ct_option(e, dt, s, FE(s, None), 1)
        n = (g.q - 1) if g.q is not None else g.N
        q = g.is_square(e.w, z, n)
        if q is None:
            raise Unsupported("squareness not determined")
        if not q:
            return ct_option(e, dt, s, FE(s, None), 0)
        return ct_option(e, dt, s, FE(s, g.fresh_root(e, z, [n] if g.q is not None else [])), 1)

    def c_legendre(self, e, f, a, dt):
        g = self.s.g
        z = self.val(e, a[0])
        if z is None:
            return 0
        n = (g.q - 1) if g.q is not None else g.N
        q = g.is_square(e.w, z, n)
        if q is None:
            raise Unsupported("squareness not determined")
        return 1 if q else (1 << 64) - 1
