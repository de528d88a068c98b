"""Bounded checks of the whole-input algorithms: MSM (C15), FFT (C16), hashing to curves (C17), pairings (C18)."""
import random
from mirv.conc import Pred, Skip, VecIO
from mirv.runner import Bounded
from . import params, h2c
from .ecref import CBY, CURVES, rep, transport as ec_transport
from .params import FBY


REP = random.Random(11)


class StrIO:
    def enc(self, v):
        import struct
        b = v.encode()
        return struct.pack("<I", len(b)) + b


def transport():
    sp = ec_transport()
    sp["std::string::String"] = StrIO()
    return sp


# ---------------------------------------------------------------- MSM
def dlogs(c):
    """[(a, a * generator)] including the identity, small, opposite and random multiples"""
    if not hasattr(c, "_dl"):
        r = c.order
        rng = random.Random(5)
        out = [(0, None)]
        Q = None
        for i in range(1, 9):
            Q = c.add(Q, c.gen)
            out += [(i, Q), (r - i, c.neg(Q))]
        a, Q = 1, c.gen
        for _ in range(40):
            k = rng.getrandbits(40) + 5
            a, Q = a * k % r, c.mul(Q, k)
            out.append((a, Q))
        out += [(-a % r, c.neg(Q)) for a, Q in out[-8:]]
        c._dl = out
        c._dlmap = {c.a_out(P): a for a, P in out}
    return c._dl


def scalar(rng, r):
    k = rng.random()
    b = r.bit_length()
    if k < 0.12:
        return rng.choice([0, 0, 1, 2, 3, r - 1, r - 2])
    if k < 0.22:
        return rng.getrandbits(rng.choice([1, 7, 8, 9, 16, 33, 64, 128])) % r
    if k < 0.3:
        return (1 << rng.randrange(b)) % r
    if k < 0.36:
        return ((1 << rng.randrange(1, b + 1)) - 1) % r
    if k < 0.42:
        w = rng.randrange(1, 14)
        return int(("1" * w + "0" * rng.choice([w, 1, 3])) * 300, 2) % (1 << (b - 1)) % r
    if k < 0.5:
        return r - 1 - rng.getrandbits(rng.randrange(1, 20))
    return rng.randrange(r)


def g_msm(c, threads, big):
    r = c.order

    def g(rng, i):
        dl = dlogs(c)
        if big and i % 3 == 0:
            n = rng.choice([8104, 8200, 8103, 9000])
        elif not big and i % 8 == 5:
            n = rng.choice([55, 149, 404, 404, 1097, 1097, 2981])  # each window size once more
        else:
            n = rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 7, 8, 9, 17, 31, 32, 33, 64, 150])
        k = rng.random()
        base = dl if k < 0.35 else dl[1:] if k < 0.5 else rng.sample(dl[1:], 2) if k < 0.65 else [dl[0], dl[1], dl[2]] if k < 0.75 else rng.sample(dl[1:], 20)
        k = rng.random()
        s0 = [scalar(rng, r) for _ in range(4)]
        sc = (lambda: 0) if k < 0.05 else (lambda: rng.choice(s0)) if k < 0.3 else (lambda: rng.getrandbits(10)) if k < 0.4 else (lambda: scalar(rng, r))
        pts = [rng.choice(base) for _ in range(n)]
        ks = tuple(sc() for _ in range(n))
        a = (ks, tuple(c.a_out(P) for _, P in pts))
        if threads:
            a = (rng.choice([1, 1, 2, 3, 4, 7, 8]),) + a
        return a
    return g


def o_msm(c):
    def f(*a):
        ks, ps = a[-2:]
        dlogs(c)
        s = sum(k * c._dlmap[p] for k, p in zip(ks, ps)) % c.order
        return c.proj(c.mul(c.gen, s))
    return f


# ---------------------------------------------------------------- FFT
def root(f, k):
    return pow(f.gen, (f.p - 1) >> k, f.p)


def dft(v, w, p):
    n = len(v)
    if n == 1:
        return list(v)
    e, o = dft(v[::2], w * w % p, p), dft(v[1::2], w * w % p, p)
    out = [0] * n
    t = 1
    for i in range(n // 2):
        out[i] = (e[i] + t * o[i]) % p
        out[i + n // 2] = (e[i] - t * o[i]) % p
        t = t * w % p
    return out


def g_fft(f, kmax, val, conv):
    two = 0
    while (f.p - 1) % (1 << (two + 1)) == 0:
        two += 1

    def g(rng, i):
        k = min(two, rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 10][:kmax + 4]))
        n = 1 << k
        w = pow(root(f, k), rng.randrange(1, n + 1, 2) if k else 1, f.p)
        v = [val(rng) for _ in range(n)]
        if rng.random() < 0.2:
            j = rng.randrange(n)
            v = [x if i == j else v[0] for i, x in enumerate(v)]
        return (rng.choice([1, 2, 3, 4, 5, 8, 16]), tuple(conv(x) for x in v), w, k)
    return g


FIELDS = {"t_bn_fr": "bn256_fr", "t_bls_fr": "bls_fr", "t_pluto_fq": "pluto_fq", "t_pluto_fp": "pluto_fp", "t_bn_fq": "bn256_fq",
          "t_secp256k1_fp": "k1_fp", "t_secp256k1_fq": "k1_fq", "t_secp256r1_fq": "r1_fq"}


def c15(prog):
    out = []
    for c in CURVES:
        for n, th, big in (("msm_serial", False, False), ("msm_parallel", True, False), ("msm_best", True, True)):
            o = Bounded("C15/%s/%s" % (c.mod, n), "a_%s::%s" % (c.mod, n), o_msm(c), n=(16 if big else 120), gen=g_msm(c, th, big), why="bounded: lengths 0..150 (msm_best also above 8103), 1..8 threads")
            out.append(o)
    return out


def c16(prog):
    out = []
    for m, k in FIELDS.items():
        f = FBY[k]
        o = lambda t, v, w, k, f=f: tuple(dft(v, w, f.p))
        val = lambda rng, f=f: rng.choice([0, 1, f.p - 1, rng.randrange(f.p), rng.randrange(f.p), rng.randrange(f.p)])
        out.append(Bounded("C16/%s/fft" % m, m + "::fft", o, n=400, gen=g_fft(f, 9, val, lambda x: x), why="bounded: lengths 1..1024, 1..16 threads"))
    for c in CURVES:
        f = c.scalar

        def o(t, v, w, k, c=c, f=f):
            d = [c._dlp[p] for p in v]
            e = [c.proj(c.mul(c.gen, s)) for s in dft(d, w, f.p)]
            return Pred(lambda got: isinstance(got, tuple) and len(got) == len(e) and all(x.f(y) for x, y in zip(e, got)), "the transform of %r times the generator" % (d,))

        def conv(x, c=c):
            a, P = x
            q = rep(c, P, REP)
            c.__dict__.setdefault("_dlp", {})[q] = a
            return q
        val = lambda rng, c=c: rng.choice(dlogs(c))
        out.append(Bounded("C16/%s/fft_g" % c.mod, "a_%s::fft_g" % c.mod, o, n=40, gen=g_fft(f, 2, val, conv), why="bounded: lengths 1..8, 1..16 threads"))
    return out


def map2(c):
    """the sum of the images of two chosen field elements, exceptional ones included"""
    F = c.F

    def g(rng, i):
        if not hasattr(c, "_exc"):
            e = h2c.exceptional(c)
            c._exc = e + [F.neg(x) for x in e]
        rnd = lambda: rng.randrange(F.p) if c.deg == 1 else (rng.randrange(F.p) if rng.random() < 0.8 else 0, rng.randrange(F.p) if rng.random() < 0.8 else 0)
        one = lambda: rng.choice(c._exc) if rng.random() < 0.5 else rnd() if rng.random() < 0.7 else F.small(rng.randrange(20))
        u = c._exc[i // 2] if i < 2 * len(c._exc) else one()
        v = rnd() if i < 2 * len(c._exc) and i % 2 else one()
        if rng.random() < 0.1:
            v = rng.choice([u, F.neg(u)])
        return (u, v)

    def o(u, v):
        M = h2c.maps(c)
        return c.proj(h2c.clear(c, c.add(M.map(u), M.map(v))))
    return Bounded("C17/%s/map" % c.mod, "h_%s::map2" % c.mod, o, n=200, gen=g, why="bounded: chosen field elements, exceptional ones included")


def c17(prog):
    out = []
    for m in h2c.SUITES:
        c = CBY[m]

        def g(rng, i):
            d = rng.choice(["", "QUUX-V01-CS02-with-", "x", "a" * 200, "some-protocol-%d" % rng.randrange(9)])
            n = rng.choice([0, 1, 3, 31, 32, 33, 55, 56, 63, 64, 65, 119, 200, 300])
            return (d, bytes(rng.randrange(256) for _ in range(n)))
        o = lambda d, msg, c=c: c.proj(h2c.hash_to_curve(c, d.encode(), msg))
        out.append(map2(c))
        out.append(Bounded("C17/%s/hash" % m, "h_%s::hash" % m, o, n=200, gen=g, why="bounded: messages up to 300 bytes"))
    return out
