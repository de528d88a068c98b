"""Concrete oracles for the curve roots (reference group law on affine points)."""
import random
from mirv.conc import Pred, Skip
from .ecref import CURVES, g_points, rep, rsub, ring_sqrt
from .cofactor import cube_roots, cofactor, small_primes


def decompose(r):
    """k = k1 - lambda k2 with the published eigenvalue and halves below 2^128"""
    def f(k):
        def ok(t):
            if not (isinstance(t, tuple) and len(t) == 2 and isinstance(t[1], int) and len(t[0]) == 4):
                return False
            (a, an, b, bn), l = t
            k1, k2 = (-a if an else a), (-b if bn else b)
            return (l * l + l + 1) % r == 0 and max(a, b) < 1 << 128 and (k1 - k2 * l - k) % r == 0
        return Pred(ok, "((|k1|, k1 < 0, |k2|, k2 < 0), lambda) with k1 - lambda k2 = 0x%x" % k)
    return f


def oracles(c):
    o = {}
    F = c.F
    for v in ("", "_vv", "_vr", "_rv", "_asv", "_asr"):
        o["pp_add" + v] = lambda a, b: c.proj(c.add(c.aff(a), c.aff(b)))
        o["pp_sub" + v] = lambda a, b: c.proj(c.add(c.aff(a), c.neg(c.aff(b))))
        o["pa_add" + v] = lambda a, b: c.proj(c.add(c.aff(a), c.affa(b)))
        o["pa_sub" + v] = lambda a, b: c.proj(c.add(c.aff(a), c.neg(c.affa(b))))
    for v in ("", "_vv", "_vr", "_rv"):
        o["ap_add" + v] = lambda a, b: c.proj(c.add(c.affa(a), c.aff(b)))
        o["ap_sub" + v] = lambda a, b: c.proj(c.add(c.affa(a), c.neg(c.aff(b))))
        o["aa_add" + v] = lambda a, b: c.proj(c.add(c.affa(a), c.affa(b)))
        o["aa_sub" + v] = lambda a, b: c.proj(c.add(c.affa(a), c.neg(c.affa(b))))
    o["p_double"] = lambda a: c.proj(c.add(c.aff(a), c.aff(a)))
    o["p_neg"] = o["p_neg_v"] = lambda a: c.proj(c.neg(c.aff(a)))
    o["a_neg"] = o["a_neg_v"] = lambda a: c.a_out(c.neg(c.affa(a)))
    o["p_sum"] = o["p_sum_v"] = o["pp_add"]
    # C11
    o["p_identity"] = o["p_default"] = lambda: c.proj(None)
    o["a_identity"] = o["a_default"] = lambda: c.a_out(None)
    o["p_is_identity"] = lambda a: int(c.aff(a) is None)
    o["a_is_identity"] = lambda a: int(c.affa(a) is None)
    o["a_to_curve"] = o["p_from_a"] = o["p_from_ar"] = lambda a: c.proj(c.affa(a))
    o["p_to_affine"] = o["a_from_p"] = o["a_from_pr"] = lambda a: c.a_out(c.aff(a))
    o["batch1"] = lambda a: c.a_out(c.aff(a))
    o["batch2"] = lambda a, b: (c.a_out(c.aff(a)), c.a_out(c.aff(b)))
    o["batch3"] = lambda *a: tuple(c.a_out(c.aff(x)) for x in a)

    def onp(a):
        X, Y, Z = a
        if F.iszero(Z):
            if F.iszero(X) and not F.iszero(Y):
                return 1
            if F.iszero(X) and F.iszero(Y):
                raise Skip()
            return 0
        i = F.inv(Z)
        return int(c.on((F.mul(X, i), F.mul(Y, i))))
    o["p_on_curve"] = onp
    ona = lambda x, y: int((F.iszero(x) and F.iszero(y)) or c.on((x, y)))
    o["a_on_curve"] = ona
    o["from_xy"] = lambda x, y: ("Some", (x, y)) if ona(x, y) else None
    o["coordinates"] = lambda a: ("Some", c.a_out(c.affa(a)))

    def jac(a):
        P = c.aff(a)
        F_ = F

        def ok(t):
            if not (isinstance(t, tuple) and len(t) == 3):
                return False
            X, Y, Z = t
            if P is None:
                return F_.iszero(Z)
            if F_.iszero(Z):
                return False
            zz = F_.mul(Z, Z)
            return X == F_.mul(P[0], zz) and Y == F_.mul(P[1], F_.mul(zz, Z))
        return Pred(ok, "Jacobian coordinates of %r" % (P,))
    o["jac_coords"] = jac

    def newj(x, y, z):
        if F.iszero(z):
            return c.some_proj(None)
        i = F.inv(z)
        ii = F.mul(i, i)
        P = (F.mul(x, ii), F.mul(y, F.mul(ii, i)))
        return c.some_proj(P) if c.on(P) else None
    o["new_jac"] = newj
    o["p_eq"] = o["p_ct_eq"] = lambda a, b: int(c.aff(a) == c.aff(b))
    o["a_eq"] = o["a_ct_eq"] = lambda a, b: int(c.affa(a) == c.affa(b))
    for k in "pa":
        o[k + "_select"] = o[k + "_cassign"] = lambda a, b, s: b if s else a
        o[k + "_cswap"] = lambda a, b, s: (b, a) if s else (a, b)
    # C12
    for v in ("", "_vv", "_vr", "_rv", "_asv", "_asr"):
        o["p_mul" + v] = lambda a, k: c.proj(c.mul(c.aff(a), k))
    for v in ("", "_vv", "_vr", "_rv"):
        o["a_mul" + v] = lambda a, k: c.proj(c.mul(c.affa(a), k))
    # C13
    o["a_to_bytes"] = lambda a: c.encode(c.affa(a))
    o["p_to_bytes"] = lambda a: c.encode(c.aff(a))

    def da(b):
        r = c.decode(b)
        return None if r is None else ("Some", c.a_out(r[1]))

    def dp(b):
        r = c.decode(b)
        return None if r is None else c.some_proj(r[1])
    o["a_from_bytes"] = o["a_from_bytes_u"] = da
    o["p_from_bytes"] = o["p_from_bytes_u"] = dp
    o["to_unc"] = lambda a: b"".join(c.fbytes(x) for x in c.a_out(c.affa(a)))

    def unc(b, chk):
        x, y = c.fdec(b[:c.nf]), c.fdec(b[c.nf:])
        if x is None or y is None:
            return None
        return ("Some", (x, y)) if not chk or ona(x, y) else None
    o["from_unc"] = lambda b: unc(b, True)
    o["from_unc_u"] = lambda b: unc(b, False)

    def raw(x):
        return b"".join(c.field.mont(v).to_bytes(c.field.size, "little") for v in ([x] if c.deg == 1 else x))

    def unraw(b):
        n = c.field.size
        vs = [int.from_bytes(b[i:i + n], "little") for i in range(0, len(b), n)]
        if max(vs) >= c.field.p:
            return None
        vs = [c.field.unmont(v) for v in vs]
        return vs[0] if c.deg == 1 else tuple(vs)
    cut = lambda b: [unraw(b[i:i + c.nf]) for i in range(0, len(b), c.nf)]
    for k in "pa":
        o[k + "_to_raw"] = o[k + "_write_raw"] = lambda a: b"".join(raw(x) for x in a)

    def fr(proj, chk):
        def g(b):
            v = cut(b)
            if any(x is None for x in v):
                return None
            if chk and not (onp(v) if proj else ona(*v)):
                return None
            return ("Some", tuple(v))
        return g

    def fu(proj):
        def g(b):
            v = cut(b)
            if any(x is None for x in v):
                raise Skip()
            return tuple(v)
        return g
    for k, pr in (("p", True), ("a", False)):
        o[k + "_from_raw"], o[k + "_read_raw"] = fr(pr, True), fr(pr, True)
        o[k + "_from_raw_u"] = o[k + "_read_raw_u"] = fu(pr)
        o[k + "_from_raw_short"] = lambda b: None
    # C06
    o["p_gen"] = o["p_gen_t"] = lambda: c.proj(c.gen)
    o["a_gen"] = o["a_gen_t"] = lambda: c.gen
    o["p_ca"] = o["a_ca"] = lambda: c.a
    o["p_cb"] = o["a_cb"] = lambda: c.b
    # C14
    def endo(a):
        P = c.aff(a)

        def ok(t):
            if not (isinstance(t, tuple) and len(t) == 2 and isinstance(t[1], int)):
                return False
            w = c.eigen(t[1])
            return w is not None and c.is_proj(t[0], None if P is None else (F.mul(w, P[0]), P[1]))
        return Pred(ok, "(lambda * P, lambda) for P = %r" % (P,))
    if F.iszero(c.a):
        o["endo_z"] = endo
    o["decompose"] = decompose(c.scalar.p)
    # C19
    def cleared(a):
        P = c.aff(a)
        sub = P is not None and c.mul(P, c.order) is None

        def ok(t):
            try:
                Q = c.aff(t)
            except Exception:
                return False
            return c.mul(Q, c.order) is None and not (sub and Q is None)
        return Pred(ok, "a point of the prime-order subgroup%s" % (" other than the identity" if sub else ""))
    o["clear_cofactor"] = cleared
    o["torsion_free"] = lambda a: int(c.mul(c.aff(a), c.order) is None)

    def sub(a):
        P = c.aff(a)
        return c.some_proj(P) if c.mul(P, c.order) is None else None
    o["into_subgroup"] = sub
    return o


def scalars(rng, r):
    """scalars around the decomposition boundaries"""
    lam = rng.choice(cube_roots(r))
    k = rng.random()
    if k < 0.2:
        return rng.choice([0, 1, 2, r - 1, r - 2, (r - 1) // 2, (r + 1) // 2, lam, r - lam, lam + 1, lam * lam % r, (1 << 128) - 1, 1 << 128, (1 << 192) - 1, 1 << 192]) % r
    a, b = rng.getrandbits(rng.choice([1, 64, 126, 127, 128])), rng.getrandbits(rng.choice([1, 64, 126, 127, 128]))
    if k < 0.6:
        return (rng.choice([1, -1]) * a + rng.choice([1, -1]) * lam * b) % r
    if k < 0.8:
        # near multiples of r/2^j
        return (r * rng.randrange(1, 16) // rng.choice([2, 3, 4, 5, 8, 16]) + rng.randrange(-3, 4)) % r
    return rng.randrange(r)


def gens(c):
    """input generators per root"""
    g = {}
    F = c.F
    for v in ("", "_vv", "_vr", "_rv", "_asv", "_asr"):
        for op in ("add", "sub"):
            g["pp_%s%s" % (op, v)] = g_points(c, "pp")
            g["pa_%s%s" % (op, v)] = g_points(c, "pa")
            g["ap_%s%s" % (op, v)] = g_points(c, "ap")
            g["aa_%s%s" % (op, v)] = g_points(c, "aa")
        def pm(kind):
            gp = g_points(c, kind)

            def f(rng, i):
                p = c.scalar.p
                k = rng.choice([0, 1, 2, 3, p - 1, p - 2, (p - 1) // 2, rng.getrandbits(64), rng.randrange(p), rng.randrange(p), 1 << (p.bit_length() - 1),
                                rng.getrandbits(p.bit_length() - 1) & ~0xff, (1 << rng.randrange(p.bit_length() - 1))])
                return gp(rng, i) + (k % p,)
            return f
        g["p_mul" + v] = pm("p")
        g["a_mul" + v] = pm("a")
    for n in ("p_sum", "p_sum_v", "p_eq", "p_ct_eq", "batch2"):
        g[n] = g_points(c, "pp")
    g["batch3"] = g_points(c, "ppp")
    g["a_eq"] = g["a_ct_eq"] = g_points(c, "aa")
    def sc(rng, i):
        return (scalars(rng, c.scalar.p),)
    g["decompose"] = sc
    for n in ("p_double", "p_neg", "p_neg_v", "endo_z", "p_is_identity", "p_to_affine", "a_from_p", "a_from_pr", "batch1", "jac_coords", "p_to_bytes", "p_to_raw", "p_write_raw",
              "endo"):
        g[n] = g_points(c, "p")

    def tors(rng, i):
        if not hasattr(c, "_tors"):
            out = []
            for P in c.pool():
                Q = c.mul(P, c.order)
                if Q is not None:
                    out += [Q, c.add(Q, c.gen)]
                    h = cofactor(c)
                    for d in small_primes(h):
                        R = c.mul(Q, h // d)
                        if R is not None:
                            out += [R, c.add(R, c.gen), c.add(R, c.mul(c.gen, 5))]
                    if len(out) > 60:
                        break
            c._tors = out + c.pool()[:6] + [None]
        return (rep(c, rng.choice(c._tors), rng),)
    for n in ("clear_cofactor", "torsion_free", "into_subgroup"):
        g[n] = tors
    for n in ("a_neg", "a_neg_v", "a_is_identity", "a_to_curve", "p_from_a", "p_from_ar", "coordinates", "a_to_bytes", "to_unc", "a_to_raw", "a_write_raw"):
        g[n] = g_points(c, "a")

    def xy(rng, i):
        P = c.a_out(rng.choice(c.pool() + [None, None]))
        k = rng.random()
        if k < 0.5:
            return P
        if k < 0.6:
            return (P[0], F.neg(P[1]))
        if k < 0.7:
            return (P[1], P[0])
        if k < 0.8:
            return (P[0], F.zero)
        if k < 0.9:
            return (F.zero, P[1])
        return (P[0], F.add(P[1], F.one))
    g["a_on_curve"] = g["from_xy"] = xy

    def xyz(jac):
        def f(rng, i):
            x, y = xy(rng, i)
            z = rng.choice([F.one, F.small(2), F.small(-1), c.rnd(rng)])
            k = rng.random()
            if k < 0.15:
                return (rng.choice([F.zero, F.zero, x]), rng.choice([y, F.one]), F.zero)
            if jac:
                zz = F.mul(z, z)
                return (F.mul(x, zz), F.mul(y, F.mul(zz, z)), z)
            return (F.mul(x, z), F.mul(y, z), z)
        return f
    g["new_jac"] = xyz(True)
    tp = xyz(False)
    g["p_on_curve"] = lambda rng, i: (tp(rng, i),)

    def comp(rng, i):
        pool = c.pool() + [None]
        b = bytearray(c.encode(rng.choice(pool)))
        k = rng.random()
        ip, mc, mi, ms = c.flagpos()
        if k < 0.35:
            pass
        elif k < 0.6:
            b[ip] ^= rng.choice([mi, ms, mc or ms, mi | ms, 0x20, 0x10, 1])
        elif k < 0.7:
            b = bytearray(c.nc)
            b[ip] = rng.choice([0, mc, mi, ms, mi | ms, mc | mi, mc | ms, mc | mi | ms, 0x20, 0xff])
        elif k < 0.8:
            j = rng.randrange(len(b))
            b[j] = (b[j] + 1) % 256
        elif k < 0.9:
            # coordinate not below the modulus
            p, n = c.field.p, c.field.size
            v = p + rng.randrange(0, 3)
            e = v.to_bytes(n, "big" if c.field.be else "little")
            off = 1 if c.flags == "extra" else 0
            j = off + (n * rng.randrange(c.deg))
            fl = b[ip] & (mc | mi | ms)
            b[j:j + n] = e
            b[ip] |= fl
        else:
            b = bytearray(rng.randbytes(c.nc))
            if rng.random() < 0.7:
                b[ip] = (b[ip] & 0x07) | mc | rng.choice([0, ms]) if c.flags != "extra" else rng.choice([0, ms])
        return (bytes(b),)
    for n in ("a_from_bytes", "a_from_bytes_u", "p_from_bytes", "p_from_bytes_u"):
        g[n] = comp

    def bytes_of(enc, nc):
        def f(rng, i):
            b = bytearray(enc(rng))
            k = rng.random()
            if k < 0.5:
                pass
            elif k < 0.75:
                j = rng.randrange(len(b))
                b[j] = (b[j] + 1) % 256
            elif k < 0.9:
                p, n = c.field.p, c.field.size
                j = n * rng.randrange(len(b) // n)
                b[j:j + n] = (p + rng.randrange(2)).to_bytes(n, "big" if nc and c.field.be else "little")
            else:
                b = bytearray(rng.randbytes(len(b)))
            return (bytes(b),)
        return f
    mo = lambda x: b"".join(c.field.mont(v).to_bytes(c.field.size, "little") for v in ([x] if c.deg == 1 else x))
    g["from_unc"] = g["from_unc_u"] = bytes_of(lambda rng: b"".join(c.fbytes(x) for x in xy(rng, 0)), True)
    for n in ("from_raw", "from_raw_short", "from_raw_u", "read_raw", "read_raw_u"):
        g["a_" + n] = bytes_of(lambda rng: b"".join(mo(x) for x in xy(rng, 0)), False)
        g["p_" + n] = bytes_of(lambda rng: b"".join(mo(x) for x in tp(rng, 0)), False)
    return g


def attach(c, obs):
    if not hasattr(c, "_or"):
        c._or, c._ge = oracles(c), gens(c)
    for o in obs:
        if o.root is None:
            continue
        n = o.root.split("::")[1]
        if getattr(o, "oracle", None) is None:
            o.oracle = c._or.get(n)
        if getattr(o, "gen", None) is None:
            o.gen = c._ge.get(n)
    return obs
