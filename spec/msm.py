"""C15: the functions of src/msm.rs under contract."""
import math
import re
from mirv import poly as P
from mirv.core import Agg, Alloc, Ptr, SV
from mirv.oblig import Obligation
from mirv.runner import Lemma
from mirv.world import Unsupported, Infeasible
from . import params

MSM = "halo2curves::msm::"


def poly(x):
    return x.p if isinstance(x, SV) else P.const(x)


def cases(w, n, why):
    """arbitrary choice in range(n)"""
    b = [w.var("%s%d_%d" % (why, len(w.vars), i), 0, 1) for i in range((n - 1).bit_length())]
    k = sum(w.concretize(x, why) << i for i, x in enumerate(b))
    if k >= n:
        raise Infeasible()
    return k


# ---------------------------------------------------------------- get_booth_index
class Sequence:
    """the usize arguments in order"""

    def __init__(self, *makers):
        self.makers = makers

    def reset(self):
        self.i = 0

    def fresh(self, e, name):
        self.i += 1
        return self.makers[self.i - 1](e)

    def image(self, v):
        return v


class BitSlice:
    """&[u8] of a fixed length whose bits are variables"""

    def __init__(self, n):
        self.n = n

    def fresh(self, e, name):
        return [[e.w.var("b%d" % (8 * j + i), 0, 1) for i in range(8)] for j in range(self.n)]

    def image(self, v):
        a = Alloc(self.n, "bytes")
        for j, bits in enumerate(v):
            p = {}
            for i, b in enumerate(bits):
                p = P.add(p, P.scale(b.p, 1 << i))
            a.cells[j] = (SV(p, 0, 255), 1)
        return Agg([(0, 8, Ptr(a, 0)), (8, 8, self.n)], 16)


class Signed:
    def __init__(self, bits):
        self.bits = bits

    def read(self, e, a, o):
        return e.to_signed(e.w.n(e.load(a, o, self.bits // 8)), self.bits)


def digit(bit, s, c):
    """Booth digit of window [s, s + c): the window, plus the bit below it, minus 2^c times its top bit"""
    p = {}
    for i in range(c):
        p = P.add(p, P.scale(bit(s + i), 1 << i))
    return P.add(P.sub(p, P.scale(bit(s + c - 1), 1 << c)), bit(s - 1) if s else {})


CMAX = 23


def windows(nbytes, c):
    return 8 * nbytes // c + 1


def booth(nbytes, c):
    st = {}

    def spec(cx, a, r):
        bits = [b.p for by in a[2] for b in by]
        bit = lambda i: bits[i] if i < len(bits) else {}
        want = digit(bit, st["w"] * c, c)
        cx.zero("booth-digit", P.sub(cx.w.norm(poly(r)), cx.w.norm(want)))
        h = 1 << (c - 1)
        cx.le("digit-range", poly(r), h)
        cx.ge("digit-range", poly(r), -h)

    def window(e):
        st["w"] = cases(e.w, windows(nbytes, c), "window")
        return st["w"]
    o = Obligation("C15/get_booth_index/%d-bytes-window-%d" % (nbytes, c), None, spec,
                   sorts={"usize": Sequence(window, lambda e: c), "&[u8]": BitSlice(nbytes), "i32": Signed(32)}, max_paths=100000)
    o.fn = MSM + "get_booth_index"
    o.cost = windows(nbytes, c)
    return o


def recompose(n, c):
    """the digits of n // c + 1 windows recombine to an n-bit scalar"""
    bit = lambda i: {(i,): 1} if i < n else {}
    tot = {}
    for w in range(n // c + 1):
        tot = P.add(tot, P.scale(digit(bit, w * c, c), 1 << (w * c)))
    return tot == {(i,): 1 << i for i in range(n)}


def recombines():
    """msm_serial covers the 8 m bits of the longest coefficient, msm_best the NUM_BITS of the scalar field"""
    from .ecref import CURVES
    ns = sorted({8 * m for m in range(1, 57)} | {c.order.bit_length() for c in CURVES})
    bad = [(n, c) for n in ns for c in range(1, CMAX + 1) if not recompose(n, c)]
    return not bad, "window digits of an n-bit scalar recombine to it: %s" % bad[:5]


def length_for(c):
    """a number of terms for which the code picks window size c"""
    return {1: 2, 2: 2, 3: 7}.get(c) or max(32, int(math.exp(c - 1)) + 1)


def g_window(cv, c):
    """inputs that reach window size c (the largest ones the search can afford stand in for c > 11)"""
    from . import algos
    n = length_for(min(c, 11))

    def g(rng, i):
        dl = algos.dlogs(cv)[1:]
        pts = [rng.choice(dl) for _ in range(n)]
        ks = tuple(algos.scalar(rng, cv.order) for _ in range(n)) if i % 3 else tuple([algos.scalar(rng, cv.order)] + [0] * (n - 1))
        return (ks, tuple(cv.a_out(P) for _, P in pts))
    return g


def obligations(prog):
    from . import algos
    from .ecref import CBY
    out = []
    for nbytes, cv in ((32, CBY["bn_g1"]), (56, CBY["pluto_g1"])):
        for c in [1] + list(range(3, CMAX + 1)):
            o = booth(nbytes, c)
            o.root = "a_%s::msm_serial" % cv.mod
            o.oracle = algos.o_msm(cv)
            o.gen = g_window(cv, c)
            o.search_n = 60 if c < 9 else 6
            out.append(o)
    out.append(Lemma("C15/booth-digits-recombine", recombines))
    return out
