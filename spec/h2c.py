"""Reference hash-to-curve (RFC 9380: expand_message_xmd, hash_to_field, SVDW / simplified SWU, isogenies), independent of the code."""
import hashlib
import json
import os
from .ecref import CBY, ring_sqrt, rsub

ISO = json.load(open(os.path.join(os.path.dirname(__file__), "isogenies.json")))


def el(x):
    return tuple(int(a, 16) for a in x) if isinstance(x, list) else int(x, 16)


SUITES = {  # curve -> (domain, bytes per coefficient)
    "bn_g1": (b"BN254G1_XMD:SHA-256_SVDW_RO_", 48), "bn_g2": (b"BN254G2_XMD:SHA-256_SVDW_RO_", 48),
    "grumpkin_g1": (b"GRUMPKIN_XMD:SHA-256_SVDW_RO_", 48), "secq256k1": (b"secq256k1_XMD:SHA-256_SVDW_RO_", 48),
    "secp256k1": (b"secp256k1_XMD:SHA-256_SSWU_RO_", 48), "secp256r1": (b"P256_XMD:SHA-256_SSWU_RO_", 48),
    "bls_g1": (b"BLS12381G1_XMD:SHA-256_SSWU_RO_", 64), "bls_g2": (b"BLS12381G2_XMD:SHA-256_SSWU_RO_", 64),
    "pluto_g1": (b"pluto_XMD:SHA-256_SVDW_RO_", 72), "eris": (b"eris_XMD:SHA-256_SVDW_RO_", 72),
}


def expand(msg, dst, n):
    H = lambda b: hashlib.sha256(b).digest()
    dp = dst + bytes([len(dst)])
    b0 = H(bytes(64) + msg + n.to_bytes(2, "big") + b"\0" + dp)
    b = [H(b0 + b"\1" + dp)]
    for i in range(2, -(-n // 32) + 1):
        b.append(H(bytes(x ^ y for x, y in zip(b0, b[-1])) + bytes([i]) + dp))
    return b"".join(b)[:n]


def to_field(c, prefix, msg):
    dom, L = SUITES[c.mod]
    p = c.F.p
    n = 2 * c.deg * L
    o = expand(msg, prefix + dom, n)
    v = [int.from_bytes(o[i * L:(i + 1) * L], "big") % p for i in range(2 * c.deg)]
    return (v[0], v[1]) if c.deg == 1 else ((v[0], v[1]), (v[2], v[3]))


def sgn0(c, x):
    if c.deg == 1:
        return x & 1
    return (x[0] & 1) or (1 if x[0] == 0 and x[1] & 1 else 0)


class Map:
    def __init__(self, c):
        self.c = c
        F = c.F
        iso = ISO.get(c.mod)
        if c.mod == "secp256r1":
            self.A, self.B, self.Z, self.iso = c.a, c.b, F.p - 10, None
        elif iso:
            self.A, self.B, self.Z = el(iso["a"]), el(iso["b"]), el(iso["z"])
            self.iso = [[el(x) for x in iso[k]] for k in ("xnum", "xden", "ynum", "yden")]
        else:
            self.svdw()
            return
        self.map = self.sswu

    def svdw(self):
        c, F = self.c, self.c.F
        Z = self.Z = F.one
        g = c.rhs(Z)
        zz = F.mul(Z, Z)
        t = F.add(F.add(F.add(zz, zz), zz), F.add(F.add(c.a, c.a), F.add(c.a, c.a)))
        self.c1, self.c2 = g, F.neg(F.mul(Z, F.inv(F.small(2))))
        c3 = ring_sqrt(F, F.neg(F.mul(g, t)))
        self.c3 = F.neg(c3) if sgn0(c, c3) else c3
        self.c4 = F.neg(F.mul(F.mul(F.small(4), g), F.inv(t)))
        self.map = self.svdw_map

    def inv0(self, a):
        return a if self.c.F.iszero(a) else self.c.F.inv(a)

    def square(self, a):
        F = self.c.F
        return F.iszero(a) or F.pow(a, (F.order - 1) // 2) == F.one

    def sign(self, u, y):
        return y if sgn0(self.c, u) == sgn0(self.c, y) else self.c.F.neg(y)

    def svdw_map(self, u):
        c, F = self.c, self.c.F
        m = F.mul
        t1 = m(m(u, u), self.c1)
        t2 = F.add(F.one, t1)
        t1 = rsub(F, F.one, t1)
        t3 = self.inv0(m(t1, t2))
        t4 = m(m(m(u, t1), t3), self.c3)
        x1, x2 = rsub(F, self.c2, t4), F.add(self.c2, t4)
        x3 = m(m(t2, t2), t3)
        x3 = F.add(m(m(x3, x3), self.c4), self.Z)
        x = next(x for x in (x1, x2, x3) if self.square(c.rhs(x)))
        return (x, self.sign(u, ring_sqrt(F, c.rhs(x))))

    def sswu(self, u):
        c, F = self.c, self.c.F
        m = F.mul
        A, B, Z = self.A, self.B, self.Z
        g = lambda x: F.add(m(F.add(m(x, x), A), x), B)
        zu = m(Z, m(u, u))
        t = self.inv0(F.add(m(zu, zu), zu))
        if F.iszero(t):
            x1 = m(B, F.inv(m(Z, A)))
        else:
            x1 = m(F.neg(m(B, F.inv(A))), F.add(F.one, t))
        x = x1 if self.square(g(x1)) else m(zu, x1)
        y = self.sign(u, ring_sqrt(F, g(x)))
        if self.iso is None:
            return (x, y)
        v = []
        for k in self.iso:
            a = F.zero
            for q in reversed(k):
                a = F.add(m(a, x), q)
            v.append(a)
        if F.iszero(v[1]) or F.iszero(v[3]):
            return None
        return (m(v[0], F.inv(v[1])), m(m(y, v[2]), F.inv(v[3])))


CLEARED = ("bls_g1", "bls_g2", "bn_g2")
HEFF = {"bls_g1": 0xD201000000010001}


def clear(c, P):
    """the documented cofactor clearing of the suite"""
    if c.mod in HEFF:
        return c.mul(P, HEFF[c.mod])
    if c.mod in ("bls_g2", "bn_g2"):
        from .endo import endo_of
        from . import params
        E = endo_of(c)
        psi = lambda Q: None if Q is None else (c.F.mul(E.psi[0], conj(c, Q[0])), c.F.mul(E.psi[1], conj(c, Q[1])))
        if c.mod == "bls_g2":
            # RFC 9380 appendix G.3
            x = params.BLS_X
            a = c.mul(P, x)
            b = psi(P)
            r = c.add(c.mul(c.add(a, b), x), psi(psi(c.add(P, P))))
            return c.add(c.add(c.add(r, c.neg(a)), c.neg(b)), c.neg(P))
        x = params.BN_X
        # Fuentes-Castaneda et al.: [x]P + psi([3x]P) + psi^2([x]P) + psi^3(P)
        a = c.mul(P, x)
        return c.add(c.add(a, psi(c.mul(a, 3))), c.add(psi(psi(a)), psi(psi(psi(P)))))
    return P


def conj(c, a):
    return (a[0], -a[1] % c.F.p)


def maps(c):
    if not hasattr(c, "_h2c"):
        c._h2c = Map(c)
    return c._h2c


def hash_to_curve(c, prefix, msg):
    M = maps(c)
    u0, u1 = to_field(c, prefix, msg)
    return clear(c, c.add(M.map(u0), M.map(u1)))


# ---------------------------------------------------------------- exceptional inputs of the maps
def poly_roots(F, f):
    k = tuple(f)
    m = F.__dict__.setdefault("_poly_roots", {})
    if k not in m:
        m[k] = find_roots(F, f)
    return list(m[k])


def find_roots(F, f):
    """roots in the field F of the polynomial with coefficients f (lowest first)"""
    import random as _r
    rng = _r.Random(7)

    def trim(a):
        a = list(a)
        while a and F.iszero(a[-1]):
            a.pop()
        return a

    def mod(a, b):
        a, b = trim(a), trim(b)
        iv = None if b[-1] == F.one else F.inv(b[-1])
        while len(a) >= len(b):
            k = a[-1] if iv is None else F.mul(a[-1], iv)
            o = len(a) - len(b)
            for i, x in enumerate(b):
                a[o + i] = rsub(F, a[o + i], F.mul(k, x))
            a = trim(a)
        return a

    def mul(a, b, m):
        r = [F.zero] * (len(a) + len(b))
        for i, x in enumerate(a):
            for j, y in enumerate(b):
                r[i + j] = F.add(r[i + j], F.mul(x, y))
        return mod(r, m)

    def power(a, n, m):
        r = [F.one]
        for b in bin(n)[2:]:
            r = mul(r, r, m)
            if b == "1":
                r = mul(r, a, m)
        return r

    def gcd(a, b):
        a, b = trim(a), trim(b)
        while b:
            a, b = b, mod(a, b)
        return a

    def minus(a, b):
        n = max(len(a), len(b))
        z = F.zero
        return trim([rsub(F, a[i] if i < len(a) else z, b[i] if i < len(b) else z) for i in range(n)])

    def rnd():
        c = lambda: rng.randrange(F.p)
        return c() if isinstance(F.zero, int) else tuple(c() for _ in F.zero)
    f = trim(f)
    if len(f) < 2:
        return []
    f = [F.mul(y, F.inv(f[-1])) for y in f]
    x = [F.zero, F.one]
    g = gcd(f, minus(power(mod(x, f), F.order, f), x)) if len(f) > 2 else f
    out, todo = [], [g]
    while todo:
        g = todo.pop()
        if len(g) < 2:
            continue
        g = [F.mul(y, F.inv(g[-1])) for y in g]
        if len(g) == 2:
            out.append(rsub(F, F.zero, F.mul(g[0], F.inv(g[1]))))
            continue
        while True:
            h = minus(power(mod([rnd(), F.one], g), (F.order - 1) // 2, g), [F.one])
            d = gcd(g, h)
            if 1 < len(d) < len(g):
                break
        q, a = [], list(g)  # quotient
        iv = F.inv(d[-1])
        while len(a) >= len(d):
            k = F.mul(a[-1], iv)
            q.append(k)
            o = len(a) - len(d)
            for i, y in enumerate(d):
                a[o + i] = rsub(F, a[o + i], F.mul(k, y))
            a.pop()
        todo += [d, q[::-1]]
    return out


def exceptional(c):
    """field elements at which a denominator of the map (or of its isogeny) vanishes"""
    F = c.F
    M = maps(c)
    out = [F.zero]
    if not hasattr(M, "A"):
        k = F.inv(M.c1)
        for s in (k, F.neg(k)):
            out += poly_roots(F, [F.neg(s), F.zero, F.one])
        return out
    A, B, Z = M.A, M.B, M.Z
    ws = [F.neg(F.one)]
    if M.iso:
        for x0 in {x for k in (1, 3) for x in poly_roots(F, M.iso[k])}:
            t = F.neg(F.add(F.mul(F.mul(A, x0), F.inv(B)), F.one))
            ws += poly_roots(F, [F.neg(F.one), t, t])
            e = F.mul(A, x0)
            ws += poly_roots(F, [F.add(B, e), F.add(B, e), B])
    zi = F.inv(Z)
    for w in ws:
        out += poly_roots(F, [F.neg(F.mul(w, zi)), F.zero, F.one])
    return out
