"""Reference elliptic-curve arithmetic (affine chord-and-tangent law), standard domain parameters, transport and input generation."""
import random
from mirv.conc import FieldIO, TupIO, Pred, Skip, PANIC
from . import params
from .towers import TOWERS, Base, Ext, ios as tower_ios
from .params import FBY

TW = {t.key: t for t in TOWERS}


def rsub(R, a, b):
    return R.sub(a, b) if isinstance(R, Base) else R.sub_(a, b)


def ring_sqrt(R, a):
    """Tonelli-Shanks in a finite field given as a ring object"""
    if R.iszero(a):
        return a
    q = R.order
    if R.pow(a, (q - 1) // 2) != R.one:
        return None
    if not hasattr(R, "_ts"):
        s, t = 0, q - 1
        while t % 2 == 0:
            s, t = s + 1, t // 2
        rng = random.Random(3)
        while True:
            z = rng.randrange(R.p) if isinstance(R, Base) else tuple(rng.randrange(R.p) for _ in range(R.n))
            if R.pow(z, (q - 1) // 2) != R.one:
                break
        R._ts = (s, t, R.pow(z, t))
    s, t, c = R._ts
    x, b, m = R.pow(a, (t + 1) // 2), R.pow(a, t), s
    while b != R.one:
        i, d = 0, b
        while d != R.one:
            d = R.mul(d, d)
            i += 1
        g = c
        for _ in range(m - i - 1):
            g = R.mul(g, g)
        x, c = R.mul(x, g), R.mul(g, g)
        b, m = R.mul(b, c), i
    return x


class Curve:
    def __init__(self, mod, ty, F, field, a, b, order, gen, flags, scalar, tw=None, sgn="parity"):
        self.mod, self.ty, self.F, self.field, self.order, self.gen, self.flags, self.scalar, self.tw, self.sgn = mod, ty, F, field, order, gen, flags, scalar, tw, sgn
        self.a, self.b = a, b
        self.deg = 1 if tw is None else 2
        self.fty = field.ty if tw is None else tw.t2
        self.nf = field.size * self.deg
        self.nc = self.nf + (1 if flags == "extra" else 0)

    # affine law; None is the identity
    def on(self, P):
        if P is None:
            return True
        F = self.F
        x, y = P
        return F.mul(y, y) == self.rhs(x)

    def rhs(self, x):
        F = self.F
        return F.add(F.mul(F.add(F.mul(x, x), self.a), x), self.b)

    def neg(self, P):
        return None if P is None else (P[0], self.F.neg(P[1]))

    def add(self, P, Q):
        if P is None:
            return Q
        if Q is None:
            return P
        F = self.F
        if P[0] == Q[0]:
            if P[1] != Q[1] or F.iszero(P[1]):
                return None
            xx = F.mul(P[0], P[0])
            l = F.mul(F.add(F.add(F.add(xx, xx), xx), self.a), F.inv(F.add(P[1], P[1])))
        else:
            l = F.mul(rsub(F, Q[1], P[1]), F.inv(rsub(F, Q[0], P[0])))
        x = rsub(F, rsub(F, F.mul(l, l), P[0]), Q[0])
        return (x, rsub(F, F.mul(l, rsub(F, P[0], x)), P[1]))

    def mul(self, P, k):
        """through complete projective formulas to avoid inversions"""
        if P is None or k == 0:
            return None
        if k < 0:
            return self.mul(self.neg(P), -k)
        R = None
        for b in bin(k)[2:]:
            R = self.jdbl(R)
            if b == "1":
                R = self.jadd(R, P)
        return self.jaff(R)

    def jdbl(self, P):
        if P is None:
            return None
        F = self.F
        X, Y, Z = P
        if F.iszero(Y):
            return None
        m, s2 = F.mul, lambda a, b: rsub(F, a, b)
        YY = m(Y, Y)
        S = m(X, YY)
        S = F.add(F.add(S, S), F.add(S, S))
        ZZ = m(Z, Z)
        XX = m(X, X)
        M = F.add(F.add(F.add(XX, XX), XX), m(self.a, m(ZZ, ZZ)))
        X3 = s2(s2(m(M, M), S), S)
        Y4 = m(YY, YY)
        Y8 = F.add(Y4, Y4)
        Y8 = F.add(Y8, Y8)
        Y8 = F.add(Y8, Y8)
        Y3 = s2(m(M, s2(S, X3)), Y8)
        Z3 = m(Y, Z)
        return (X3, Y3, F.add(Z3, Z3))

    def jadd(self, P, Q):
        F = self.F
        if P is None:
            return (Q[0], Q[1], F.one)
        m, s2 = F.mul, lambda a, b: rsub(F, a, b)
        X, Y, Z = P
        ZZ = m(Z, Z)
        U, S = m(Q[0], ZZ), m(Q[1], m(Z, ZZ))
        H, R = s2(U, X), s2(S, Y)
        if F.iszero(H):
            return self.jdbl(P) if F.iszero(R) else None
        HH = m(H, H)
        HHH = m(H, HH)
        V = m(X, HH)
        X3 = s2(s2(s2(m(R, R), HHH), V), V)
        return (X3, s2(m(R, s2(V, X3)), m(Y, HHH)), m(Z, H))

    def jaff(self, P):
        if P is None:
            return None
        F = self.F
        i = F.inv(P[2])
        ii = F.mul(i, i)
        return (F.mul(P[0], ii), F.mul(P[1], F.mul(i, ii)))

    def eigen(self, l):
        """the cube root of unity w with (w x, y) = l * (x, y) on the prime-order subgroup (j = 0), or None"""
        m = self.__dict__.setdefault("_eig", {})
        if l not in m:
            F = self.F
            m[l] = None
            Q = self.mul(self.gen, l)
            if Q is not None and Q[1] == self.gen[1]:
                w = F.mul(Q[0], F.inv(self.gen[0]))
                if w != F.one and F.mul(w, F.mul(w, w)) == F.one:
                    m[l] = w
        return m[l]

    # representations
    def aff(self, P):
        """projective representative -> affine"""
        F = self.F
        if F.iszero(P[2]):
            if not F.iszero(P[0]) or F.iszero(P[1]):
                raise Skip()
            return None
        i = F.inv(P[2])
        Q = (F.mul(P[0], i), F.mul(P[1], i))
        if not self.on(Q):
            raise Skip()
        return Q

    def affa(self, A):
        F = self.F
        if F.iszero(A[0]) and F.iszero(A[1]):
            return None
        if not self.on(A):
            raise Skip()
        return (A[0], A[1])

    def a_out(self, P):
        return (self.F.zero, self.F.zero) if P is None else P

    def is_proj(self, o, P):
        """o is a projective representative of P"""
        try:
            return isinstance(o, tuple) and len(o) == 3 and self.aff(o) == P
        except (Skip, TypeError, ValueError, AttributeError):
            return False

    def proj(self, P):
        return Pred(lambda o: self.is_proj(o, P), "a representative of %r" % (P,))

    def some_proj(self, P):
        return Pred(lambda o: isinstance(o, tuple) and len(o) == 2 and o[0] == "Some" and self.is_proj(o[1], P), "Some(representative of %r)" % (P,))

    # encodings
    def sign(self, y):
        """sign flag of the compressed form"""
        cs = [y] if self.deg == 1 else list(y)
        if self.sgn == "parity":
            for c in cs:
                if c:
                    return c & 1
            return 0
        for c in reversed(cs):
            if c:
                return int(c > (self.field.p - 1) // 2)
        return 0

    def fbytes(self, x):
        cs = [x] if self.deg == 1 else list(x)
        return b"".join(c.to_bytes(self.field.size, "big" if self.field.be else "little") for c in cs)

    def fdec(self, b):
        n = self.field.size
        cs = [int.from_bytes(b[i:i + n], "big" if self.field.be else "little") for i in range(0, len(b), n)]
        if max(cs) >= self.field.p:
            return None
        return cs[0] if self.deg == 1 else tuple(cs)

    def flagpos(self):
        """(byte index, compressed, identity, sign masks)"""
        if self.flags == "extra":
            return 0, 0, 0x40, 0x80
        i = 0 if self.field.be else self.nf - 1
        if self.flags == "two":
            return i, 0, 0x40, 0x80
        return i, 0x80, 0x40, 0x20

    def encode(self, P):
        i, mc, mi, ms = self.flagpos()
        b = bytearray(self.fbytes(self.F.zero if P is None else P[0]))
        if self.flags == "extra":
            b = bytearray(1) + b
        b[i] |= mc
        if P is None:
            b[i] |= mi
        elif self.sign(P[1]):
            b[i] |= ms
        return bytes(b)

    def decode(self, s):
        """-> ("ok", point) or None"""
        i, mc, mi, ms = self.flagpos()
        b = bytearray(s)
        fl = b[i]
        b[i] &= 0xff & ~(mc | mi | ms)
        if mc and not fl & mc:
            return None
        if self.flags == "extra":
            if b[0]:
                return None
            b = b[1:]
        x = self.fdec(bytes(b))
        if x is None:
            return None
        if fl & mi:
            return ("ok", None) if self.F.iszero(x) and not fl & ms else None
        y = ring_sqrt(self.F, self.rhs(x))
        if y is None:
            return None
        if self.sign(y) != int(bool(fl & ms)):
            y = self.F.neg(y)
        return ("ok", (x, y))

    # sample points
    def pool(self):
        if hasattr(self, "_pool"):
            return self._pool
        rng = random.Random(11)
        F = self.F
        out = [self.gen]
        Q = self.gen
        for _ in range(7):
            Q = self.add(Q, self.gen)
            out.append(Q)
        for _ in range(6):
            Q = self.mul(Q, rng.getrandbits(64) + 3)
            out.append(Q)
        xs = [F.zero, F.one, F.small(2), F.small(-1), F.small(-2)] + [self.rnd(rng) for _ in range(8)]
        if self.deg == 2:
            xs += [(0, 1), (0, 5), (rng.randrange(F.p), 0), (0, rng.randrange(F.p))]
        for x in xs:
            y = ring_sqrt(F, self.rhs(x))
            if y is not None:
                out.append((x, y))
        if self.deg == 2 and self.F.iszero(self.a):
            # points whose ordinate has a vanishing coefficient
            n = 0
            for t in range(2, 60):
                for y in ((0, t), (t, 0)):
                    x = self.cbrt(rsub(F, F.mul(y, y), self.b))
                    if x is not None and n < 6:
                        n += 1
                        out.append((x, y))
        out += [self.neg(P) for P in out[:4] + out[-6:]]
        self._pool = out
        return out

    def cbrt(self, a):
        F = self.F
        q = F.order
        if F.iszero(a):
            return a
        if F.pow(a, (q - 1) // 3) != F.one:
            return None
        s, t = 0, q - 1
        while t % 3 == 0:
            s, t = s + 1, t // 3
        # Adleman-Manders-Miller, small 3-part
        k = pow(3, -1, t)
        x = F.pow(a, k)
        rng = random.Random(9)
        while True:
            z = self.rnd(rng)
            if F.pow(z, (q - 1) // 3) != F.one:
                break
        g = F.pow(z, t)
        w = F.one
        for _ in range(3 ** s):
            y = F.mul(x, w)
            if F.mul(F.mul(y, y), y) == a:
                return y
            w = F.mul(w, g)
        return None

    def rnd(self, rng):
        return rng.randrange(self.F.p) if self.deg == 1 else (rng.randrange(self.F.p), rng.randrange(self.F.p))


def make():
    bn, bls, pl = TW["bn"], TW["bls"], TW["pluto"]
    B = {k: Base(FBY[k].p) for k in FBY}
    bnp = bn.p
    b2bn = bn.F2.mul((3, 0), bn.F2.inv((9, 1)))
    P = "halo2curves::"
    out = [
        Curve("bn_g1", "bn256::G1", B["bn256_fq"], FBY["bn256_fq"], 0, 3, params.BN_R, (1, 2), "two", FBY["bn256_fr"]),
        Curve("bn_g2", "bn256::G2", bn.F2, FBY["bn256_fq"], (0, 0), b2bn, params.BN_R,
              ((10857046999023057135944570762232829481370756359578518086990519993285655852781,
                11559732032986387107991004021392285783925812861821192530917403151452391805634),
               (8495653923123431417604973247489272438418190587263600148770280649306958101930,
                4082367875863433681332203403145435568316851327593401208105741076214120093531)), "two", FBY["bn256_fr"], bn),
        Curve("grumpkin_g1", "grumpkin::G1", B["bn256_fr"], FBY["bn256_fr"], 0, -17 % params.BN_R, bnp,
              (1, 17631683881184975370165255887551781615748388533673675138860), "two", FBY["bn256_fq"]),
        Curve("secp256k1", "secp256k1::Secp256k1", B["k1_fp"], FBY["k1_fp"], 0, 7, params.K1_N,
              (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798, 0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8),
              "extra", FBY["k1_fq"]),
        Curve("secq256k1", "secq256k1::Secq256k1", B["k1_fq"], FBY["k1_fq"], 0, 7, params.K1_P,
              (0x76C39F5585CB160EB6B06C87A2CE32E23134E45A097781A6A24288E37702EDA6, 0x3FFC646C7B2918B5DC2D265A8E82A7F7D18983D26E8DC055A4120DDAD952677F),
              "extra", FBY["k1_fp"]),
        Curve("secp256r1", "secp256r1::Secp256r1", B["r1_fp"], FBY["r1_fp"], params.R1_P - 3,
              0x5AC635D8AA3A93E7B3EBBD55769886BC651D06B0CC53B0F63BCE3C3E27D2604B, params.R1_N,
              (0x6B17D1F2E12C4247F8BCE6E563A440F277037D812DEB33A0F4A13945D898C296, 0x4FE342E2FE1A7F9B8EE7EB4A7C0F9E162BCE33576B315ECECBB6406837BF51F5),
              "extra", FBY["r1_fq"]),
        Curve("bls_g1", "bls12381::G1", B["bls_fq"], FBY["bls_fq"], 0, 4, params.BLS_R,
              (0x17F1D3A73197D7942695638C4FA9AC0FC3688C4F9774B905A14E3A3F171BAC586C55E83FF97A1AEFFB3AF00ADB22C6BB,
               0x08B3F481E3AAA0F1A09E30ED741D8AE4FCF5E095D5D00AF600DB18CB2C04B3EDD03CC744A2888AE40CAA232946C5E7E1), "three", FBY["bls_fr"], sgn="lex"),
        Curve("bls_g2", "bls12381::G2", bls.F2, FBY["bls_fq"], (0, 0), (4, 4), params.BLS_R,
              ((0x024AA2B2F08F0A91260805272DC51051C6E47AD4FA403B02B4510B647AE3D1770BAC0326A805BBEFD48056C8C121BDB8,
                0x13E02B6052719F607DACD3A088274F65596BD0D09920B61AB5DA61BBDC7F5049334CF11213945D57E5AC7D055D042B7E),
               (0x0CE5D527727D6E118CC9CDC6DA2E351AADFD9BAA8CBDD3A76D429A695160D12C923AC9CC3BACA289E193548608B82801,
                0x0606C4A02EA734CC32ACD2B02BC28B99CB3E287E85A763AF267492AB572E99AB3F370D275CEC1DA1AAA9075FF05F79BE)), "three", FBY["bls_fr"], bls, sgn="lex"),
        Curve("pluto_g1", "pluto_eris::G1", B["pluto_fp"], FBY["pluto_fp"], 0, 57, params.PLUTO_R, (params.PLUTO_P - 2, 7), "two", FBY["pluto_fq"]),
        Curve("pluto_g2", "pluto_eris::G2", pl.F2, FBY["pluto_fp"], (0, 0), (3, 1), params.PLUTO_R, None, "two", FBY["pluto_fq"], pl),
        Curve("eris", "pluto_eris::Eris", B["pluto_fq"], FBY["pluto_fq"], 0, 57, params.PLUTO_P, (params.PLUTO_R - 2, 7), "two", FBY["pluto_fp"]),
    ]
    for c in out:
        c.pty = P + c.ty
        c.aty = P + c.ty + "Affine"
    return out


CURVES = make()
CBY = {c.mod: c for c in CURVES}
CBY["pluto_g2"].gen = (
    (0x13576C81FAF3A13FD815D0E9BD54B845EE935948B84498B27CA972BFB93722E223C9E276A4EBE7559CFC86DD865F07D64F2B5FE6556F9066,
     0x142164CB875DB0465E5092F9380F44F555243D011699B7393029F2D201554727AEB383298FDF5847B9B3DFF01BBE8D63FE7C781A8FD7BF21),
    (0x2239F7408EAD478C58E88D4DF1E7418C42FDBB92E64BA85AA4DC17D7DACE3F32EB471C004DB774BFE78574ACA67B3898CD1B78AD106AB9FE,
     0x1260B04D51136590DBB53DFD7CAF450AECA714555BBE4F079CA65D97EB28FC9FC697B4E10BBCD9E0539EF82A731FB88ED49E3C080E6D945D))


def transport():
    sp = tower_ios(True)

    class PIO(TupIO):
        def __init__(self, c, n):
            f = sp[c.fty]
            TupIO.__init__(self, [f] * n)
            self.c = c

        def gen(self, rng):
            c = self.c
            F = c.F
            n = len(self.els)
            P = None if rng.random() < 0.12 else rng.choice(c.pool())
            if n == 2:
                return c.a_out(P)
            return rep(c, P, rng)

        def edges(self):
            rng = random.Random(4)
            c = self.c
            ps = [None] + c.pool()[:3] + c.pool()[-3:]
            return [c.a_out(P) if len(self.els) == 2 else rep(c, P, rng) for P in ps]

    for c in CURVES:
        sp[c.pty] = PIO(c, 3)
        sp[c.aty] = PIO(c, 2)
    return sp


def rep(c, P, rng):
    F = c.F
    k = rng.random()
    if k < 0.3:
        z = F.one
    elif k < 0.5:
        z = F.small(rng.choice([2, 3, -1, -2]))
    else:
        z = c.rnd(rng)
        if F.iszero(z):
            z = F.one
    if P is None:
        return (F.zero, z, F.zero)
    return (F.mul(P[0], z), F.mul(P[1], z), z)


def g_points(c, kinds):
    """correlated points: kinds is a string of 'p' (projective) and 'a' (affine)"""
    def g(rng, i):
        pool = c.pool()
        base = rng.choice(pool)
        pts = []
        for j, _ in enumerate(kinds):
            k = rng.random()
            P = base if k < 0.25 else c.neg(base) if k < 0.45 else None if k < 0.6 else rng.choice(pool)
            pts.append(P)
        if c.deg == 1 and c.a == 0 and len(pts) > 1 and rng.random() < 0.15:
            # same ordinate, different abscissa
            z = getattr(c, "_cr", None)
            if z is None:
                z = c._cr = next((w for w in (pow(h, (c.F.p - 1) // 3, c.F.p) for h in range(2, 40)) if w != 1), 1) if c.F.p % 3 == 1 else 1
            if pts[0]:
                pts[1] = (pts[0][0] * z % c.F.p, pts[0][1])
        return tuple(rep(c, P, rng) if k == "p" else c.a_out(P) for k, P in zip(kinds, pts))
    return g
