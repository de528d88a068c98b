"""Endomorphism rings of the curves with j = 0: exact lattice arithmetic in Z[w] (w^2 + w + 1 = 0), where w acts as (x, y) -> (c x, y).

E(F_q) is a module over Z[w]/(f - 1), f the q-power Frobenius. An endomorphism e kills the rational points killed by d whenever
e * d lies in the ideal (f - 1); e kills only points of order dividing d whenever d lies in the ideal (e, f - 1)."""
import math
import random
from .ecref import ring_sqrt


def wmul(a, b):
    # (a0 + a1 w)(b0 + b1 w), w^2 = -1 - w
    k = a[1] * b[1]
    return (a[0] * b[0] - k, a[0] * b[1] + a[1] * b[0] - k)


def wadd(a, b):
    return (a[0] + b[0], a[1] + b[1])


def wsub(a, b):
    return (a[0] - b[0], a[1] - b[1])


def wnorm(a):
    return a[0] * a[0] - a[0] * a[1] + a[1] * a[1]


def weval(poly, al):
    """integer polynomial (low to high) at an element of Z[w]"""
    r = (0, 0)
    for c in reversed(poly):
        r = wadd(wmul(r, al), (c, 0))
    return r


def hnf(vs):
    vs = [list(v) for v in vs if any(v)]
    while True:
        nz = [v for v in vs if v[0]]
        if len(nz) <= 1:
            break
        m = min(nz, key=lambda v: abs(v[0]))
        for v in nz:
            if v is not m:
                k = v[0] // m[0]
                v[0] -= k * m[0]
                v[1] -= k * m[1]
    d = 0
    for v in vs:
        if not v[0]:
            d = math.gcd(d, v[1])
    a = [v for v in vs if v[0]]
    return (a[0] if a else None), d


def ideal(*gens):
    return hnf([g for x in gens for g in (x, wmul(x, (0, 1)))])


def inside(v, h):
    a, d = h
    v = list(v)
    if v[0]:
        if a is None or v[0] % a[0]:
            return False
        k = v[0] // a[0]
        v[1] -= k * a[1]
    return v[1] == 0 if d == 0 else v[1] % d == 0


def index(h):
    return abs(h[0][0] * h[1]) if h[0] and h[1] else 0


def full_points(c, n, seed=5):
    """random points of the whole curve"""
    rng = random.Random(seed)
    out = []
    while len(out) < n:
        x = c.rnd(rng)
        y = ring_sqrt(c.F, c.rhs(x))
        if y is not None:
            out.append((x, y if rng.random() < .5 else c.F.neg(y)))
    return out


class Endo:
    """curve with its endomorphism data"""

    def __init__(self, c, trace, p, psi=None):
        self.c, self.t, self.p, self.r = c, trace, p, c.order
        F = c.F
        q = F.order
        # a primitive cube root of unity of the base field
        rng = random.Random(2)
        while True:
            self.cw = F.pow(c.rnd(rng), (q - 1) // 3)
            if self.cw != F.one and not F.iszero(self.cw):
                break
        y2, rem = divmod(4 * p - trace * trace, 3)
        y = math.isqrt(y2)
        assert rem == 0 and y * y == y2
        # (t + y sqrt(-3))/2 with sqrt(-3) = 1 + 2w
        self.cands = [((trace + s * y) // 2, s * y) for s in (1, -1)]
        self.psi = psi
        pts = full_points(c, 4)
        ok = []
        for al in self.cands:
            if all(self.act(al, P) == self.frob(P) for P in pts):
                ok.append(al)
        self.al = ok[0] if len(ok) == 1 else None
        if self.al is None:
            return
        if psi is None:
            self.rel = wsub(self.al, (1, 0))
        else:
            U, V = psi
            nU = F.mul(U, (U[0], -U[1] % p))
            nV = F.mul(V, (V[0], -V[1] % p))
            self.unit = nU, nV
            if nV != F.neg(F.one) or nU == F.one or F.mul(nU, F.mul(nU, nU)) != F.one:
                self.al = None
                return
            eps = (0, -1) if nU == self.cw else (1, 1)  # -w or -w^2
            self.rel = wsub(wmul(self.al, self.al), eps)
        self.I = ideal(self.rel)
        self.N = index(self.I)
        # eigenvalue of w on the subgroup of prime order
        g = c.gen
        self.lam = None
        x = ((F.mul(self.cw, g[0])), g[1])
        for l in cube_roots(self.r):
            if c.mul(g, l) == x:
                self.lam = l

    def w(self, P):
        return None if P is None else (self.c.F.mul(self.cw, P[0]), P[1])

    def act(self, e, P):
        c = self.c
        return c.add(c.mul(P, e[0]), c.mul(self.w(P), e[1]))

    def frob(self, P):
        """psi, or the Frobenius (identity on rational points)"""
        if self.psi is None:
            return P
        F, p = self.c.F, self.p
        cj = lambda a: (a[0], -a[1] % p)
        return (F.mul(self.psi[0], cj(P[0])), F.mul(self.psi[1], cj(P[1])))

    def eig(self, e):
        return (e[0] + e[1] * self.lam) % self.r


_roots = {}


def cube_roots(r):
    """the two primitive cube roots of unity modulo a prime"""
    if r not in _roots:
        rng = random.Random(1)
        l = 1
        while l == 1:
            l = pow(rng.randrange(2, r), (r - 1) // 3, r)
        _roots[r] = [l, l * l % r]
    return _roots[r]


def _psi(c, inverse):
    F, p = c.F, c.tw.p
    U, V = F.pow(c.tw.xi, (p - 1) // 3), F.pow(c.tw.xi, (p - 1) // 2)
    return (F.inv(U), F.inv(V)) if inverse else (U, V)


_memo = {}
BNX = 4965661367192848881
BLSX = -0xd201000000010000


def endo_of(c):
    if c.mod not in _memo:
        if c.mod == "bn_g2":
            e = Endo(c, 6 * BNX * BNX + 1, c.tw.p, _psi(c, False))
        elif c.mod == "bls_g2":
            e = Endo(c, BLSX + 1, c.tw.p, _psi(c, True))
        elif c.mod == "bls_g1":
            e = Endo(c, BLSX + 1, c.F.p)
        elif c.mod == "bn_g1" and False:
            e = None
        else:
            e = None
        _memo[c.mod] = e
    return _memo[c.mod]


def clears(c, e, psi_poly=None):
    """the endomorphism e (element of Z[w]) maps E(F_q) into the subgroup of order r, and is invertible there"""
    E = endo_of(c)
    return inside(wmul(e, (E.r, 0)), E.I) and E.eig(e) != 0


def detects(c, e):
    """e kills exactly the rational points killed by r"""
    E = endo_of(c)
    return E.eig(e) == 0 and inside((E.r, 0), ideal(e, E.rel))


def small_primes(h, bound=20000):
    out, d = [], 2
    while d < bound and h > 1:
        if h % d == 0:
            out.append(d)
            while h % d == 0:
                h //= d
        d += 1
    return out


def twists(q, t):
    """the traces of the six curves y^2 = x^3 + b over F_q, one of them of trace t"""
    y2, rem = divmod(4 * q - t * t, 3)
    y = math.isqrt(y2)
    assert rem == 0 and y * y == y2
    return sorted({t, -t, (t + 3 * y) // 2, -(t + 3 * y) // 2, (t - 3 * y) // 2, -(t - 3 * y) // 2})


def size_of(c):
    """number of rational points; for j = 0 curves with a cofactor the candidates are the orders of the sextic twists"""
    if not hasattr(c, "_n"):
        q = c.F.order
        c._n = c.order
        if c.mod == "bls_g1":
            c._n = endo_of(c).N
        elif c.deg == 2:
            p = c.tw.p
            t = {"bn_g2": 6 * BNX * BNX + 1, "bls_g2": BLSX + 1, "pluto_g2": p + 1 - c.order}[c.mod]
            ns = [q + 1 - x for x in twists(q, t * t - 2 * p)]
            pts = full_points(c, 3)
            ok = [n for n in ns if n % c.order == 0 and all(c.mul(P, n) is None for P in pts)]
            assert len(ok) == 1, (c.mod, len(ok))
            c._n = ok[0]
    return c._n


def cofactor(c):
    return size_of(c) // c.order
