"""Quadratic extensions at limb level: encodings, conversions, order (C05/C07/C09/C20 clauses)."""
from mirv import poly as P
from mirv.values import LimbField, LimbSort
from mirv.world import SV
from mirv.oblig import Obligation, Ctx
from mirv.sorts import OpContracts
from .fieldspec import CanonContract, bytes_val, lsort, canon_of, raw_ring, V
from .towers import TOWERS


def half(bs, i, be=False):
    """integer of the i-th half of a byte string"""
    n = len(bs) // 2
    if hasattr(bs, "words") and n % 8 == 0:
        ws = bs.words[i * n // 8:(i + 1) * n // 8]
        if be:
            ws = [bs.e.w.bswap(x, 8) for x in reversed(ws)]
        return bs.le(ws)
    return bytes_val(bs[i * n:(i + 1) * n], be)


def encodings(tw, tag):
    """from_repr, from_bytes, raw forms: c0 first, each coefficient in the base field's encoding"""
    f = tw.fld
    p, R, N, k = f.p, f.R, f.size, tw.m2
    out = []

    def ob(n, spec, contracts=(), **kw):
        o = Obligation("%s/%s/%s" % (tag, k, n), "%s::%s" % (k, n), spec, sorts=lsort(f), contracts=list(contracts), **kw)
        out.append(o)
        return o
    cc = [CanonContract(f)]

    def enc(be):
        def spec(c, a, r):
            c.put("width", len(r) == 2 * N)
            for i in (0, 1):
                c.zero("coefficient%d" % i, P.sub(half(r, i, be), canon_of(c, f, a[0][i])))
        return spec

    def dec(be, raw=False):
        def spec(c, a, r):
            b = [half(a[0], i, be) for i in (0, 1)]
            if r is None:
                ok = False
                for x in b:
                    st, _ = c.lin().entails_ge(x, p)
                    ok = ok or st is True
                c.put("reject-only-noncanonical", ok)
            else:
                for i in (0, 1):
                    c.le("accept-only-canonical%d" % i, b[i], p - 1)
                    if raw:
                        c.zero("limbs%d" % i, P.sub(r[1][i].val(), b[i]))
                    else:
                        d = P.sub(r[1][i].p, {m: x % p for m, x in b[i].items()}, p)
                        c.put("value%d" % i, not d, P.show(d, c.w.vname))
        return spec
    ob("to_repr", enc(False), cc)
    ob("to_bytes", enc(f.be), cc)
    for n, be in (("from_repr", False), ("from_repr_vt", False), ("from_bytes", f.be)):
        o = ob(n, dec(be))
        s = raw_ring(f)
        o.sorts = {f.ty: s}
        o.contracts = [OpContracts(s, {"mul", "mul_const", "add", "zero", "one"}, traits=True)]
    for n in ("from_raw_b", "read_raw"):
        ob(n, dec(False, True))

    def short(c, a, r):
        c.put("short-input-rejected", r is None)
    ob("from_raw_short", short)
    ob("read_raw_short", short)

    def raw_u(c, a, r):
        for i in (0, 1):
            c.zero("limbs%d" % i, P.sub(r[i].val(), half(a[0], i)))
    ob("from_raw_u", raw_u)
    ob("read_raw_u", raw_u)

    def raw_enc(c, a, r):
        c.put("width", len(r) == 2 * N)
        for i in (0, 1):
            c.zero("limbs%d" % i, P.sub(half(r, i), a[0][i].val()))
    ob("to_raw", raw_enc)
    ob("write_raw", raw_enc)
    return out


def conversions(tw, tag):
    f = tw.fld
    p, R, k = f.p, f.R, tw.m2
    out = []

    def ob(n, want):
        s = raw_ring(f)

        def spec(c, a, r):
            w = want(*a)
            for i in (0, 1):
                d = s.fix(c.e, P.sub(r[i].p, {m: x % p for m, x in w[i].items()}, p))
                c.put("coefficient%d" % i, not d, P.show(d, c.w.vname))
        o = Obligation("%s/%s/%s" % (tag, k, n), "%s::%s" % (k, n), spec, sorts={f.ty: s},
                       contracts=[OpContracts(s, {"mul", "mul_const", "add", "zero", "one"}, traits=False)])
        out.append(o)
    ob("from_u64", lambda v: (V(v), {}))
    un = {64: "un128", 48: "un96"}
    for n in ("un128", "un96"):
        if (n == "un96") == (tw.key == "bn"):
            ob(n, lambda b: (half(b, 1), half(b, 0)))
    ob("random", lambda b: (half(b, 0), half(b, 1)))
    return out


def unor(c, r):
    """bitwise-or atoms whose one side is zero on this path are the other side"""
    for _ in range(4):
        if not isinstance(r, SV):
            return r
        sub = {}
        for v in P.vars_of(r.p):
            t = c.w.vars[v][3]
            if t and t[0] in ("or", "xor"):
                x, y = c.w.n(t[1]), c.w.n(t[2])
                for g, h in ((x, y), (y, x)):
                    if not isinstance(g, SV) and g == 0 or isinstance(g, SV) and c.lin().entails_zero(g.p)[0] is True:
                        sub[v] = V(h)
        if not sub:
            return r
        r = c.w.mk(P.subst(V(r), sub))
    return r


def order(tw, tag):
    f = tw.fld
    p, k = f.p, tw.m2
    out = []
    cc = [CanonContract(f)]

    def link(c, a):
        """part of from_mont's contract: U R == x (mod p) with both canonical, so x == 0 forces U == 0"""
        return [(canon_of(c, f, x), 0, 0) for x in a[0] if not c.w.norm(x.val())]

    def ob(n, spec):
        out.append(Obligation("%s/%s/%s" % (tag, k, n), "%s::%s" % (k, n), spec, sorts=lsort(f), contracts=cc, extra=link))

    def cmp(c, a, r):
        if isinstance(r, tuple):
            r = r[1]
        r = c.w.n(r)
        if isinstance(r, SV):
            r = c.w.concretize(r)
        r = int(r)
        r = r - 256 if r > 127 else r
        d = [P.sub(canon_of(c, f, a[0][i]), canon_of(c, f, a[1][i])) for i in (0, 1)]
        c.put("range", r in (-1, 0, 1))
        # exactly one of: d1 > 0, d1 < 0, d1 == 0 and d0 ...
        hi = [x for x in (d[1], d[0])]
        if r == 0:
            c.zero("high-equal", d[1])
            c.zero("low-equal", d[0])
            return
        s = 1 if r == 1 else -1
        st, _ = c.lin().entails_ge(P.scale(d[1], s), 1)
        if st is True:
            c.put("high-decides", True)
        else:
            c.zero("high-equal", d[1])
            c.ge("low-decides", P.scale(d[0], s), 1)
    ob("cmp", cmp)
    ob("partial_cmp", cmp)

    def lex(c, a, r):
        u = [canon_of(c, f, x) for x in a[0]]
        r = c.w.n(r)
        if isinstance(r, SV):
            for v in sorted(P.vars_of(r.p)):
                c.w.concretize(c.w.mk({(v,): 1}))
            u = [c.w.norm(x) for x in u]
            r = c.w.concretize(c.w.n(r))
        h = (p - 1) // 2
        if not c.w.norm(a[0][1].val()):
            (c.ge if r else c.le)("low-coefficient-decides", u[0], h + 1 if r else h)
        else:
            if r:
                c.ge("high-coefficient-larger", u[1], h + 1)
            else:
                c.le("high-coefficient-not-larger", u[1], h)
                c.differ("high-coefficient-nonzero", u[1], [a[0][1].val()] + [V(x) for x in a[0][1].limbs])
    ob("lex_largest", lex)

    def odd(flip):
        """RFC 9380 sgn0: parity of the first nonzero coefficient (c0, then c1)"""
        def spec(c, a, r):
            u = [canon_of(c, f, x) for x in a[0]]
            for x in c.w.memo_eqz():
                c.w.concretize(x)
            r = c.w.n(r)
            u = [c.w.norm(x) for x in u]
            z = not c.w.norm(a[0][0].val())
            if not z:
                # the path must have established that c0 is nonzero before its parity may be used
                c.differ("c0-nonzero", u[0], [a[0][0].val()] + [V(x) for x in a[0][0].limbs])
            else:
                c.extra = c.extra + [(u[0], 0, 0)]
            c.cong("parity", P.sub(P.add(V(unor(c, r)), P.const(flip)), u[1 if z else 0]), 2)
            c.ge("boolean", V(r), 0)
            c.le("boolean1", V(r), 1)
        return spec
    ob("is_odd", odd(0))
    ob("is_even", odd(1))
    return out


def oracles(tw):
    f = tw.fld
    p, N = f.p, f.size
    o = {}
    en = lambda be: lambda a: b"".join(x.to_bytes(N, "big" if be else "little") for x in a)
    o["to_repr"], o["to_bytes"] = en(False), en(f.be)

    def de(be):
        def g(b):
            v = tuple(int.from_bytes(b[i * N:(i + 1) * N], "big" if be else "little") for i in (0, 1))
            return ("Some", v) if max(v) < p else None
        return g
    o["from_repr"] = o["from_repr_vt"] = de(False)
    o["from_bytes"] = de(f.be)
    o["to_raw"] = o["write_raw"] = lambda a: b"".join(f.mont(x).to_bytes(N, "little") for x in a)
    from mirv.conc import Skip

    def dr(b):
        v = de(False)(b)
        return v and ("Some", tuple(f.unmont(x) for x in v[1]))

    def du(b):
        v = dr(b)
        if v is None:
            raise Skip()
        return v[1]
    o["from_raw_b"] = o["read_raw"] = dr
    o["from_raw_u"] = o["read_raw_u"] = du
    o["from_raw_short"] = o["read_raw_short"] = lambda b: None
    o["from_u64"] = lambda v: (v % p, 0)
    le = lambda b: int.from_bytes(b, "little") % p
    o["un128"] = o["un96"] = lambda b: (le(b[len(b) // 2:]), le(b[:len(b) // 2]))
    o["random"] = lambda b: (le(b[:len(b) // 2]), le(b[len(b) // 2:]))
    sg = lambda x, y: (x > y) - (x < y)
    o["cmp"] = lambda a, b: sg((a[1], a[0]), (b[1], b[0]))
    o["partial_cmp"] = lambda a, b: ("Some", o["cmp"](a, b))
    h = (p - 1) // 2
    o["lex_largest"] = lambda a: int(a[1] > h or (a[1] == 0 and a[0] > h))
    o["is_odd"] = lambda a: a[0] & 1 if a[0] else a[1] & 1
    o["is_even"] = lambda a: 1 - o["is_odd"](a)
    return o


def attach(tw, obs):
    m = oracles(tw)
    for x in obs:
        x.oracle = m.get(x.root.split("::")[1])
    return obs


def all_of(fn, tag):
    return lambda prog: [o for t in TOWERS for o in attach(t, fn(t, tag))]
