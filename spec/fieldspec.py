"""Specifications of the prime-field entry points: limb-level postconditions and an executable oracle."""
from mirv import poly as P
from mirv.values import LimbField, LimbSort
from mirv.world import SV, Unsupported, PanicPath
from mirv.oblig import Obligation, Ctx
from mirv.core import Agg, Alloc
from mirv.sorts import RingSort, OpContracts, FE, ct_option
from . import params


# ---------------------------------------------------------------- from_mont contract
class CanonContract:
    """F::from_mont(x) -> limbs of the canonical integer U with U*R == x (mod p), 0 <= U < p (memoised per argument)"""

    def __init__(self, fld, bits=False):
        self.fld, self.bits = fld, bits

    def __call__(self, e, fi, f):
        if f["name"] == self.fld.ty + "::from_mont":
            return self.go
        return None

    def go(self, e, f, a, dt):
        x = [e.load(a[0].a, a[0].o + 8 * i, 8) for i in range(self.fld.n)]
        return LimbField(canon(e.w, self.fld, x, self.bits)).agg()


def canon(w, fld, limbs, bits=False):
    ls = [w.n(x) for x in limbs]
    key = [P.key(Ctx.poly(x)) for x in ls]
    seen = w.memo.setdefault("canons", [])
    old = None
    for l0, r, done in seen:
        # decisions made since the first call may have changed how the limbs are written
        if [P.key(w.norm(Ctx.poly(x))) for x in l0] == key:
            old = (l0, r, done)
            break
    if all(isinstance(x, int) for x in ls):
        v = fld.unmont(sum(x << (64 * i) for i, x in enumerate(ls)))
        cs = [(v >> (64 * i)) & (2**64 - 1) for i in range(fld.n)]
        if old and not old[2]:
            for x, y in zip(old[1], cs):
                w.facts.append((x.p, y, y))
            old[2].append(1)
        return cs
    if old:
        return old[1]
    if bits:
        # every limb written as the sum of its bits
        nb = fld.p.bit_length()
        r = []
        for i in range(fld.n):
            q = {}
            for j in range(64):
                if 64 * i + j < nb:
                    (k, _), = w.var("b%d_%d" % (len(w.vars), 64 * i + j), 0, 1).p.items()
                    q[k] = 1 << j
            r.append(w.mk(q, 0, min(2**64 - 1, (1 << (nb - 64 * i)) - 1)))
    else:
        r = [w.var("u%d_%d" % (len(w.vars), i), 0, 2**64 - 1) for i in range(fld.n)]
    w.facts.append((LimbField(r).val(), 0, fld.p - 1))
    seen.append((list(limbs), r, []))
    return r


# ---------------------------------------------------------------- limb-level specs
def V(x):
    return Ctx.poly(x)


def fe_result(fld, expr):
    """result is the canonical Montgomery form of expr(values)"""
    def spec(c, args, ret):
        p = fld.p
        vals = []
        for x in args:
            if isinstance(x, LimbField):
                vals.append(P.scale(x.val(), fld.Rinv, p))
            elif isinstance(x, list):
                vals.append(x)
            else:
                vals.append(V(x))
        want = expr(*vals)
        v = ret.val()
        c.cong("congruent", P.sub(v, P.scale(want, fld.R % p, p)), p)
        c.le("canonical", v, p - 1)
    return spec


def padd(p):
    return lambda *x: P.add(*x, p)


def products(fld):
    def extra(c, args):
        fe = [a.val() for a in args if isinstance(a, LimbField)]
        out = []
        p = fld.p
        for i, a in enumerate(fe):
            for b in fe[i:]:
                out.append((P.mul(a, b), 0, (p - 1) ** 2))
        if len(fe) == 1:
            pass
        return out
    return extra


def table(fld):
    """name -> (kind, value-level function on polys mod p)"""
    p = fld.p
    A = lambda a, b: P.add(a, b, p)
    S = lambda a, b: P.sub(a, b, p)
    M = lambda a, b: P.mul(a, b, p)
    t = {}
    for v in ("", "_vv", "_vr", "_rv", "_asv", "_asr", "_in"):
        t["add" + v] = A
        t["sub" + v] = S
        t["mul" + v] = M
    t["sum2"], t["prod2"] = A, M
    for v in ("", "_v", "_in"):
        t["neg" + v] = lambda a: P.neg({k: c % p for k, c in a.items()}, p)
    t["double"] = t["double_f"] = lambda a: P.scale(a, 2, p)
    t["square"] = t["square_f"] = lambda a: M(a, a)
    t["cube"] = lambda a: M(M(a, a), a)
    for n in ("zero", "zero_c", "default", "sum0"):
        t[n] = lambda: {}
    for n in ("one", "one_c", "prod0"):
        t[n] = lambda: {(): 1}
    return t


CORE = ["add_in", "sub_in", "mul_in", "neg_in", "double", "square", "zero", "one", "zero_c", "one_c", "default"]
INHERENT = {"add", "sub", "mul", "neg", "double", "square", "zero", "one"}


def ring_sort(fld):
    return RingSort(fld.ty, fld.size, fld.p, r=fld.R)


def ring_obligation(fld, name, root, expr, which=INHERENT):
    s = ring_sort(fld)

    def spec(c, args, ret):
        c.arith = "ring"
        d = s.fix(c.e, P.sub(ret.p, expr(*[a.p if isinstance(a, FE) else Ctx.poly(a) for a in args]), fld.p))
        c.put("equals-spec", not d, P.show(d, c.w.vname))
    return Obligation(name, root, spec, sorts={fld.ty: s}, contracts=[OpContracts(s, which, traits=False)])


def limb_obligation(fld, name, root, expr, contracts=(), extra=None):
    ls = LimbSort(fld.ty, fld.p, fld.n)
    return Obligation(name, root, fe_result(fld, expr), sorts={fld.ty: ls}, contracts=list(contracts), extra=extra or products(fld))


def c01(fld):
    out = []
    t = table(fld)
    k = fld.key
    for n in CORE:
        out.append(limb_obligation(fld, "C01/%s/%s" % (k, n), "%s::%s" % (k, n), t[n]))
    for n in t:
        if n in CORE:
            continue
        o = ring_obligation(fld, "C01/%s/%s" % (k, n), "%s::%s" % (k, n), t[n])
        o.fallback = limb_obligation(fld, o.name, o.root, t[n])
        out.append(o)
    return out


# ---------------------------------------------------------------- executable oracles (value level)
def oracles(fld):
    from mirv.conc import Pred, Skip, PANIC
    p, n, N = fld.p, fld.n, fld.size
    o = {}
    for v in ("", "_vv", "_vr", "_rv", "_asv", "_asr", "_in"):
        o["add" + v] = lambda a, b: (a + b) % p
        o["sub" + v] = lambda a, b: (a - b) % p
        o["mul" + v] = lambda a, b: a * b % p
    o["sum2"], o["prod2"] = o["add"], o["mul"]
    for v in ("", "_v", "_in"):
        o["neg" + v] = lambda a: -a % p
    o["double"] = o["double_f"] = lambda a: 2 * a % p
    o["square"] = o["square_f"] = lambda a: a * a % p
    o["cube"] = lambda a: a**3 % p
    for k in ("zero", "zero_c", "default", "sum0"):
        o[k] = lambda: 0
    for k in ("one", "one_c", "prod0"):
        o[k] = lambda: 1
    o["pow_vt"] = o["pow_ct"] = lambda a, e: pow(a, e[0], p)
    o["ct_eq"] = o["eq"] = lambda a, b: int(a == b)
    o["ct_ne"] = o["ne"] = lambda a, b: int(a != b)
    o["is_zero"] = o["is_zero_vt"] = lambda a: int(a == 0)
    o["select"] = o["cassign"] = lambda a, b, c: b if c else a
    o["cswap"] = lambda a, b, c: (b, a) if c else (a, b)
    o["cmp"] = lambda a, b: (a > b) - (a < b)
    o["partial_cmp"] = lambda a, b: ("Some", (a > b) - (a < b))
    o["lex_largest"] = lambda a: int(a > (p - 1) // 2)
    o["is_odd"] = lambda a: a & 1
    o["is_even"] = lambda a: 1 - (a & 1)
    be = fld.be
    le = lambda a: a.to_bytes(N, "little")
    en = lambda a: a.to_bytes(N, "big" if be else "little")
    o["to_repr"] = o["repr_from"] = o["repr_from_r"] = le
    dle = lambda b: (lambda v: ("Some", v) if v < p else None)(int.from_bytes(b, "little"))
    den = lambda b: (lambda v: ("Some", v) if v < p else None)(int.from_bytes(b, "big" if be else "little"))
    o["from_repr"] = o["from_repr_vt"] = dle
    o["to_bytes"] = o["endian_to_bytes"] = en
    o["from_bytes"] = o["endian_from_bytes"] = den
    raw = lambda a: fld.mont(a).to_bytes(N, "little")
    draw = lambda b: (lambda v: ("Some", fld.unmont(v)) if v < p else None)(int.from_bytes(b, "little"))
    o["to_raw"] = o["write_raw"] = raw
    o["from_raw_b"] = o["read_raw"] = draw
    o["from_raw_short"] = o["read_raw_short"] = lambda b: None

    def unch(b):
        v = int.from_bytes(b, "little")
        if v >= p:
            raise Skip()
        return fld.unmont(v)
    o["from_raw_u"] = o["read_raw_u"] = unch
    ls = lambda v: tuple((v >> (64 * i)) & (2**64 - 1) for i in range(n))
    o["le_bits"] = ls
    o["char_bits"] = lambda: ls(p)
    o["from_u64"] = o["from_u128"] = o["from_bool"] = lambda v: v % p
    o["from_raw"] = lambda v: sum(x << (64 * i) for i, x in enumerate(v)) % p
    for u in fld.uniform:
        o["un%d" % u] = lambda b: int.from_bytes(b, "little") % p
    o["random"] = lambda b: int.from_bytes(b, "little") % p
    o["invert"] = lambda a: ("Some", pow(a, -1, p)) if a else None
    jac = lambda a: 0 if a == 0 else (1 if pow(a, (p - 1) // 2, p) == 1 else -1)
    o["legendre"] = jac
    o["sqrt"] = lambda a: Pred(lambda g: g is None, "None") if jac(a) < 0 else Pred(lambda g: g is not None and isinstance(g[1], int) and g[1] ** 2 % p == a, "a square root")

    def srat(a, b):
        if b == 0:
            if a == 0:
                return (1, 0)
            return (0, 0)
        q = a * pow(b, -1, p) % p
        if jac(q) >= 0:
            return Pred(lambda g: g[0] == 1 and isinstance(g[1], int) and g[1] ** 2 % p == q, "(1, sqrt(a/b))")
        # the documented contract: square root of G_S * num/div with G_S the chosen root of unity
        w = pow(fld.gen, fld.T, p)
        return Pred(lambda g: g[0] == 0 and isinstance(g[1], int) and g[1] ** 2 % p == q * w % p, "(0, sqrt(ROOT_OF_UNITY*a/b))")
    o["sqrt_ratio"] = srat
    o["sqrt_alt"] = lambda a: srat(a, 1)
    return o


def special():
    from mirv.conc import FieldIO
    return {f.ty: FieldIO(f) for f in params.FIELDS}


def attach(obs):
    """oracle by root name"""
    memo = {}
    for o in obs:
        if o.root is None or getattr(o, "oracle", None) is not None:
            continue
        m, n = o.root.split("::")
        if m in params.FBY:
            if m not in memo:
                memo[m] = oracles(params.FBY[m])
            o.oracle = memo[m].get(n)
    return obs


def raw_mul_obligations(fld, tag):
    """a*b is canonical and congruent already when only one operand is canonical (the contract the decoders rely on)"""
    out = []
    for nm, order, root in (("mul", 0, "mul_in"), ("mul", 1, "mul_in"), ("mul_const", 0, "from_raw"), ("mul_const", 1, "from_raw")):
        ls = LimbSort(fld.ty, fld.p, fld.n)

        class S(LimbSort):
            k = 0

            def reset(self):
                self.k = 0

            def fresh(self, e, name):
                self.k += 1
                if self.k - 1 == self.raw:
                    return LimbField([e.w.var("%s_%d" % (name, i), 0, (1 << 64) - 1) for i in range(self.n)])
                return LimbSort.fresh(self, e, name)
        s = S(fld.ty, fld.p, fld.n)
        s.raw = order

        def extra(c, args):
            return [(P.mul(args[0].val(), args[1].val()), 0, (fld.R - 1) * (fld.p - 1))]
        o = Obligation("%s/%s/%s-raw%d" % (tag, fld.key, nm, order), "%s::%s" % (fld.key, root), fe_result(fld, lambda a, b: P.mul(a, b, fld.p)),
                       sorts={fld.ty: s}, extra=extra)
        o.fn = fld.ty + "::" + nm
        out.append(o)
    return out


def raw_ring(fld):
    s = ring_sort(fld)
    s.raw_ok = True
    return s


# ---------------------------------------------------------------- C05 encodings, C07 conversions, C20 predicates
def bytes_val(bs, be=False):
    if hasattr(bs, "le"):
        return bs.be() if be else bs.le()
    return Ctx.le_value(list(reversed(bs)) if be else bs, 8)


def is_neg_of(a, b):
    return a == b or a == P.neg(b)


def lsort(fld):
    return {fld.ty: LimbSort(fld.ty, fld.p, fld.n)}


def canon_of(c, fld, x):
    """canonical integer of a symbolic element, as a poly"""
    return LimbField(canon(c.w, fld, x.limbs)).val()


def is_some(r):
    return r is not None


def c05(fld):
    p, R, N, k = fld.p, fld.R, fld.size, fld.key
    out = []

    def ob(n, spec, contracts=(), **kw):
        o = Obligation("C05/%s/%s" % (k, n), "%s::%s" % (k, n), spec, sorts=lsort(fld), contracts=list(contracts), **kw)
        out.append(o)
        return o

    def enc(be):
        def spec(c, a, r):
            c.zero("integer-bytes", P.sub(bytes_val(r, be), canon_of(c, fld, a[0])))
            c.put("width", len(r) == N)
        return spec

    def enc_limb(be):
        def spec(c, a, r):
            v = bytes_val(r, be)
            c.cong("integer-bytes", P.sub(P.scale(v, R % p), a[0].val()), p)
            c.le("canonical", v, p - 1)
            c.put("width", len(r) == N)
        return spec

    def dec(be, opt=True):
        def spec(c, a, r):
            b = bytes_val(a[0], be)
            if r is None:
                c.ge("reject-only-noncanonical", b, p)
            else:
                v = r[1].val()
                c.le("accept-only-canonical", b, p - 1)
                c.cong("value", P.sub(v, P.scale(b, R % p)), p)
                c.le("result-canonical", v, p - 1)
        return spec

    def fm(c, a, r):
        v = Ctx.le_value(r, 64)
        c.cong("integer", P.sub(P.scale(v, R % p), a[0].val()), p)
        c.le("canonical", v, p - 1)
    o = ob("from_mont", fm)
    o.fn = fld.ty + "::from_mont"
    o.root = "%s::to_repr" % k
    cc = [CanonContract(fld)]
    for n, be in (("to_repr", False), ("repr_from", False), ("repr_from_r", False), ("to_bytes", fld.be), ("endian_to_bytes", fld.be)):
        o = ob(n, enc(be), cc)
        o.fallback = Obligation(o.name, o.root, enc_limb(be), sorts=lsort(fld))
    for n, be in (("from_repr", False), ("from_repr_vt", False), ("from_bytes", fld.be), ("endian_from_bytes", fld.be)):
        ob(n, dec(be))

    def raw_enc(c, a, r):
        c.put("width", len(r) == N)
        c.zero("raw-limbs", P.sub(bytes_val(r), a[0].val()))
    ob("to_raw", raw_enc)
    ob("write_raw", raw_enc)

    def raw_dec(c, a, r):
        b = bytes_val(a[0])
        if r is None:
            c.ge("reject-only-noncanonical", b, p)
        else:
            c.le("accept-only-canonical", b, p - 1)
            c.zero("raw-limbs", P.sub(r[1].val(), b))
    ob("from_raw_b", raw_dec)
    ob("read_raw", raw_dec)

    def short(c, a, r):
        c.put("short-input-rejected", r is None)
    ob("from_raw_short", short)
    ob("read_raw_short", short)

    def raw_u(c, a, r):
        c.zero("raw-limbs", P.sub(r.val(), bytes_val(a[0])))
    ob("from_raw_u", raw_u)
    ob("read_raw_u", raw_u)

    def bits(c, a, r):
        c.zero("bits", P.sub(Ctx.le_value(r, 64), canon_of(c, fld, a[0])))
    ob("le_bits", bits, cc)

    def cbits(c, a, r):
        c.put("modulus", sum(int(x) << (64 * i) for i, x in enumerate(r)) == p)
    ob("char_bits", cbits)
    return out


def c07(fld):
    p, R, k = fld.p, fld.R, fld.key
    out = []

    def ob(n, want, **kw):
        def limb(c, a, r):
            v = r.val()
            c.cong("congruent", P.sub(v, P.scale(want(*a), R % p)), p)
            c.le("canonical", v, p - 1)
        s = raw_ring(fld)

        def spec(c, a, r):
            d = s.fix(c.e, P.sub(r.p, {m: x % p for m, x in want(*a).items()}, p))
            c.put("congruent", not d, P.show(d, c.w.vname))
        o = Obligation("C07/%s/%s" % (k, n), "%s::%s" % (k, n), spec, sorts={fld.ty: s}, contracts=[OpContracts(s, {"mul", "mul_const", "add", "zero", "one"}, traits=False)])
        o.fallback = Obligation(o.name, o.root, limb, sorts=lsort(fld), **kw)
        out.append(o)
    out += raw_mul_obligations(fld, "C07")
    for n in ("from_u64", "from_u128", "from_bool"):
        ob(n, V)
    ob("from_raw", lambda v: Ctx.le_value(v, 64))
    for u in fld.uniform:
        ob("un%d" % u, bytes_val)
    ob("random", bytes_val)
    return out


def c20(fld):
    p, R, k = fld.p, fld.R, fld.key
    out = []
    cc = [CanonContract(fld)]

    def ob(n, spec, contracts=(), **kw):
        o = Obligation("C20/%s/%s" % (k, n), "%s::%s" % (k, n), spec, sorts=lsort(fld), contracts=list(contracts), **kw)
        out.append(o)
        return o

    def eqspec(neg):
        def spec(c, a, r):
            d = P.sub(a[0].val(), a[1].val() if len(a) > 1 else {})
            r = c.w.concretize(r)
            if r != neg:
                for i in range(fld.n):
                    c.zero("limb%d-equal" % i, P.sub(V(a[0].limbs[i]), V(a[1].limbs[i]) if len(a) > 1 else {}))
            else:
                c.differ("differ", d, [P.sub(V(a[0].limbs[i]), V(a[1].limbs[i]) if len(a) > 1 else {}) for i in range(fld.n)])
        return spec
    for n, ng in (("ct_eq", 0), ("eq", 0), ("is_zero", 0), ("is_zero_vt", 0), ("ct_ne", 1), ("ne", 1)):
        ob(n, eqspec(ng))

    def sel(c, a, r):
        b = c.w.concretize(a[2])
        want = a[1] if b else a[0]
        for i in range(fld.n):
            c.zero("limb%d" % i, c.w.norm(P.sub(V(r.limbs[i]), V(want.limbs[i]))))
    ob("select", sel)
    ob("cassign", sel)

    def swp(c, a, r):
        b = c.w.concretize(a[2])
        x, y = (a[1], a[0]) if b else (a[0], a[1])
        for i in range(fld.n):
            c.zero("first%d" % i, c.w.norm(P.sub(V(r[0].limbs[i]), V(x.limbs[i]))))
            c.zero("second%d" % i, c.w.norm(P.sub(V(r[1].limbs[i]), V(y.limbs[i]))))
    ob("cswap", swp)

    def cmp(c, a, r):
        if isinstance(r, tuple):
            r = r[1]
        r = c.w.n(r)
        if isinstance(r, SV):
            r = c.w.concretize(r)
        r = int(r)
        r = r - 256 if r > 127 else r
        d = P.sub(canon_of(c, fld, a[0]), canon_of(c, fld, a[1]))
        if r == 0:
            c.zero("equal", d)
        elif r == 1:
            c.ge("greater", d, 1)
        else:
            c.put("range", r == -1)
            c.le("less", d, -1)
    ob("cmp", cmp, cc)
    ob("partial_cmp", cmp, cc)

    def lex(c, a, r):
        u = canon_of(c, fld, a[0])
        r = c.w.concretize(r)
        if r:
            c.ge("larger-than-negation", u, (p + 1) // 2)
        else:
            c.le("not-larger-than-negation", u, (p - 1) // 2)
    ob("lex_largest", lex, cc)

    def odd(flip):
        def spec(c, a, r):
            u = canon_of(c, fld, a[0])
            c.cong("parity", P.sub(P.add(V(r), P.const(flip)), u), 2)
            c.ge("boolean", V(r), 0)
            c.le("boolean1", V(r), 1)
        return spec
    ob("is_odd", odd(0), cc)
    ob("is_even", odd(1), cc)
    return out


# ---------------------------------------------------------------- C06 constants (concrete evaluation of the compiled constants)
def isprime(n, k=24):
    import random
    if n < 2:
        return False
    for q in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % q == 0:
            return n == q
    d, s = n - 1, 0
    while d % 2 == 0:
        d, s = d // 2, s + 1
    r = random.Random(7)
    for i in range(k):
        a = (2, 3, 5, 7, 11, 13)[i] if i < 6 else r.randrange(2, n - 1)
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def concrete(r):
    """decoded constant as python ints"""
    if isinstance(r, LimbField):
        return sum(int(x) << (64 * i) for i, x in enumerate(r.limbs))
    return r


def c06(fld):
    from mirv.runner import Lemma
    p, k, S, T = fld.p, fld.key, fld.S, fld.T
    out = [Lemma("C06/%s/modulus-prime" % k, lambda: (isprime(p), "modulus is composite"))]
    R, Ri = fld.R, fld.Rinv

    def ob(n, pred, text):
        def spec(c, a, r):
            v = concrete(r)
            if isinstance(r, LimbField):
                c.put("canonical", v < p, "raw 0x%x" % v)
                v = v * Ri % p
            c.put(text, bool(pred(v)), "value %r" % (v if not isinstance(v, int) else hex(v)))
        o = Obligation("C06/%s/%s" % (k, n), "%s::%s" % (k, n), spec, sorts=lsort(fld))
        from mirv.conc import Pred
        o.oracle = lambda: Pred(lambda g: pred(g), text)
        out.append(o)
    gen = {}
    jac = lambda a: -1 if pow(a, (p - 1) // 2, p) == p - 1 else 1
    ob("c_two_inv", lambda v: v * 2 % p == 1, "two-inverse")
    ob("c_gen", lambda v: v == fld.gen and jac(v) == -1, "multiplicative generator is the published non-residue")
    ob("c_rou", lambda v: pow(v, 1 << S, p) == 1 and pow(v, 1 << (S - 1), p) == p - 1 and v == pow(fld.gen, T, p), "root of unity of exact order 2^S equal to g^t")
    ob("c_rou_inv", lambda v: v * pow(fld.gen, T, p) % p == 1, "inverse root of unity")
    ob("c_delta", lambda v: v == pow(fld.gen, 1 << S, p), "delta = g^(2^S)")
    ob("c_zeta", lambda v: v != 1 and pow(v, 3, p) == 1, "zeta is a primitive cube root of one")
    ob("c_s", lambda v: v == S, "two-adicity")
    ob("c_bits", lambda v: v == p.bit_length(), "NUM_BITS")
    ob("c_cap", lambda v: v == p.bit_length() - 1, "CAPACITY")
    ob("c_size", lambda v: v == fld.size, "SIZE")
    ob("c_limbs", lambda v: v == fld.n, "NUM_LIMBS")
    ob("c_mod", lambda v: bytes(int(x) for x in v).decode().lower().startswith("0x") and int(bytes(int(x) for x in v).decode(), 16) == p, "modulus string")
    return out


def word_products(fld):
    """canonical operand times one word of the other (operand scanning)"""
    base = products(fld)

    def extra(c, args):
        out = base(c, args)
        fe = [a for a in args if isinstance(a, LimbField)]
        for a in fe:
            for b in fe:
                for w in b.limbs:
                    w = Ctx.poly(w)
                    out.append((P.sub(P.scale(w, fld.p - 1), P.mul(a.val(), w)), 0, None))
                    out.append((P.mul(a.val(), w), 0, (fld.p - 1) * (2**64 - 1)))
        return out
    return extra


def small_table(fld, s):
    """indexing a constant table whose entry i is the element i: decided for every entry, then used as a contract of the lookup"""
    memo = {}

    def index(e, a, o, n, el, i):
        if el["name"] != fld.ty or not isinstance(n, int):
            return None
        k = (id(a), o)
        if k not in memo:
            bad = None
            for j in range(n):
                v = sum(e.load(a, o + j * e.stride(el) + 8 * l, 8) << (64 * l) for l in range(fld.n))
                if v != j * fld.R % fld.p:
                    bad = j
                    break
            memo[k] = bad
        if memo[k] is not None:
            raise PanicPath("table entry %d is not the element %d" % (memo[k], memo[k]))
        b = Alloc(el["size"], "table entry")
        e.store_val(b, 0, el["size"], s.image(FE(s, e.w.poly(i))))
        return b, 0
    return index


def c02(fld):
    """the assembly back end (three fields) and the dispatch to the generic one (seven fields)"""
    out = []
    conv = {"from_mont", "to_repr", "le_bits", "from_u64", "from_u128", "from_bool"}
    for o in c01(fld) + [o for o in c05(fld) + c07(fld) if o.name.split("/")[-1] in conv]:
        o.name = "C02" + o.name[3:]
        if o.name.split("/")[-1] in ("mul_in", "square"):
            o.extra = word_products(fld)
        if o.name == "C02/bn256_fr/from_u64":
            o.user = dict(symindex=small_table(fld, o.sorts[fld.ty]))
            o.max_paths = 64
            o.extra_inputs = [(i,) for i in range(65540)]
            o.fallback = None
        out.append(o)
    return out
