"""C03: the Bernstein-Yang inverter (src/ff_ext/inverse.rs) under contract.

Layer 1: every operation of CInt (62-bit chunks) against integer arithmetic modulo 2^(62 L), at machine level.
Layer 2: `invert` against the field inverse, over the contracts of layer 1 and of `jump`, with a loop invariant:
    d x = f A,  e x = g A (mod M);  -2M < d, e < M;  |f|, |g| <= M;  f odd;  some integers a, b have a f + b g = 1.
"""
import random
import re
from mirv import poly as P
from mirv.core import Agg, Alloc, Part, Ptr
from mirv.loops import CutEnd, LoopCut, succ
from mirv.oblig import Obligation
from mirv.runner import Lemma
from mirv.sorts import norm_name
from mirv.values import LimbField, LimbSort
from mirv.world import SV, Infeasible, Unsupported
from . import params

B = 62
MASK = (1 << B) - 1
INV = "halo2curves::ff_ext::inverse::"


def poly(x):
    return x.p if isinstance(x, SV) else x if isinstance(x, dict) else P.const(x)


def rewrite(p, rules):
    """replace monomials divisible by a rule's leading monomial, to a fixed point"""
    todo = dict(p)
    out = {}
    n = 0
    while todo:
        k, c = todo.popitem()
        for lead, rhs in rules:
            r = list(k)
            ok = True
            for v in lead:
                if v in r:
                    r.remove(v)
                else:
                    ok = False
                    break
            if ok:
                for k2, c2 in rhs.items():
                    kk = tuple(sorted(tuple(r) + k2))
                    s = todo.get(kk, 0) + c * c2
                    if s:
                        todo[kk] = s
                    else:
                        todo.pop(kk, None)
                n += 1
                if n > 20000:
                    raise Unsupported("rewriting does not terminate")
                break
        else:
            s = out.get(k, 0) + c
            if s:
                out[k] = s
            else:
                out.pop(k, None)
    return out


# ------------------------------------------------------------------ layer 1: machine-level contracts of CInt
class Chunks:
    """CInt<62, L> as its chunks, each below 2^62 (the type invariant)"""

    def __init__(self, name, L):
        self.name, self.L = name, L

    def fresh(self, e, name):
        return LimbField([e.w.var("%s_%d" % (name, i), 0, MASK) for i in range(self.L)])

    def read(self, e, a, o):
        return LimbField([e.w.n(e.load(a, o + 8 * i, 8)) for i in range(self.L)])

    def image(self, f):
        return f.agg()


class I64Sort:
    name = "i64"

    def __init__(self, lo=-(1 << 63) + 1, hi=(1 << 63) - 1):
        self.lo, self.hi = lo, hi

    def fresh(self, e, name):
        self.e = e
        return e.w.var(name, self.lo, self.hi)

    def image(self, v):
        return self.e.simage(v, 64)

    def read(self, e, a, o):
        return e.to_signed(e.w.n(e.load(a, o, 8)), 64)


class SliceSort:
    """&[u64] of a fixed length, words below 2^bits"""

    def __init__(self, n, bits):
        self.n, self.bits = n, bits

    def fresh(self, e, name):
        self.e = e
        return [e.w.var("%s_%d" % (name, i), 0, (1 << self.bits) - 1) for i in range(self.n)]

    def image(self, v):
        a = Alloc(8 * self.n, "slice")
        for i, x in enumerate(v):
            a.cells[8 * i] = (x, 8)
        return Agg([(0, 8, Ptr(a, 0)), (8, 8, self.n)], 16)


def val(xs, bits=B):
    t = {}
    for i, x in enumerate(xs):
        t = P.add(t, P.scale(poly(x), 1 << (bits * i)))
    return t


def below(cx, name, xs, bound=MASK):
    for i, x in enumerate(xs):
        if isinstance(x, int):
            cx.put("%s-%d" % (name, i), 0 <= x <= bound)
        elif x.lo >= 0 and x.hi <= bound:
            cx.put("%s-%d" % (name, i), True)
        else:
            cx.le("%s-%d" % (name, i), x.p, bound)


def neg_flag(cx, x):
    """1 iff the top chunk says negative"""
    top = x.limbs[-1]
    return poly(cx.w.neg(cx.w.sub((1 << (B - 1)) - 1, top)))


def cint_specs(L):
    m = 1 << (B * L)

    def lin(f):
        def spec(cx, a, r):
            cx.cong("value", P.sub(val(r.limbs), f(cx, a)), m)
            below(cx, "chunk", r.limbs)
        return spec

    def sv(x):
        return poly(x) if not isinstance(x, LimbField) else val(x.limbs)

    def shift(cx, a, r):
        x = a[0]
        d = P.sub(P.scale(val(r.limbs), 1 << B), P.sub(val(x.limbs), poly(x.limbs[0])))
        cx.zero("arithmetic-shift", P.sub(d, P.scale(neg_flag(cx, x), MASK * m)))
        below(cx, "chunk", r.limbs)

    def eq(flip):
        def spec(cx, a, r):
            d = P.sub(val(a[0].limbs), val(a[1].limbs))
            parts = [P.sub(poly(x), poly(y)) for x, y in zip(a[0].limbs, a[1].limbs)]
            r = cx.w.n(r)
            if not isinstance(r, int):
                r = cx.w.concretize(r, "eq")
            if r ^ flip:
                for i, q in enumerate(parts):
                    cx.zero("chunk-equal-%d" % i, q)
            else:
                cx.differ("different", d, parts)
        return spec
    return {
        "add": lin(lambda cx, a: P.add(sv(a[0]), sv(a[1]))),
        "sub": lin(lambda cx, a: P.sub(sv(a[0]), sv(a[1]))),
        "neg": lin(lambda cx, a: P.neg(sv(a[0]))),
        "mul": lin(lambda cx, a: P.mul(sv(a[0]), sv(a[1]))),
        "clone": lin(lambda cx, a: sv(a[0])),
        "shift": shift,
        "lowest": lambda cx, a, r: cx.zero("lowest-chunk", P.sub(poly(r), poly(a[0].limbs[0]))),
        "is_negative": lambda cx, a, r: cx.zero("sign", P.sub(poly(r), neg_flag(cx, a[0]))),
        "eq": eq(0), "ne": eq(1)}


def layer1(prog):
    """obligations for every CInt operation the program reaches"""
    out = []
    root = {}
    for f in params.FIELDS:
        root.setdefault(-(-(64 * f.n + 64) // B), "%s::invert" % f.key)
    for i, n in sorted(prog.names.items(), key=lambda t: t[1]):
        m = re.search(r"CInt(?:::)?<62, (\d+)>", n)
        if not n.startswith((INV, "<" + INV, "<&" + INV)):
            continue
        c = re.match(re.escape(INV) + r"BYInverter::<(\d+)>::convert::<(\d+), (\d+), (\d+)>$", n)
        o = None
        if c:
            L, I, O, S = map(int, c.groups())
            words = S if I == 62 else None
            size = L if I == 62 else {9: 7, 8: 6, 6: 4}.get(L)
            if size is None:
                continue

            def spec(cx, a, r, I=I, O=O, S=S):
                d = P.sub(val(r, O), val(a[0], I))
                if I == 62:
                    cx.cong("same-integer", d, 1 << (O * S))
                else:
                    cx.zero("same-integer", d)
                below(cx, "chunk", r, (1 << O) - 1)
            o = Obligation("C03/BYInverter-%d/convert-%d-%d" % (L, I, O), None, spec, sorts={"&[u64]": SliceSort(size, I)})
        elif m:
            L = int(m.group(1))
            op = n.rsplit("::", 1)[1]
            sp = cint_specs(L).get(op)
            if sp is None or "Mul<&" in n and "for i64" not in n:
                continue
            cn = INV + "CInt<62, %d>" % L
            kind = re.sub(r"halo2curves::ff_ext::inverse::|std::(ops|cmp|clone)::", "", n)
            o = Obligation("C03/CInt-%d/%s" % (L, re.sub(r"[^\w&<>-]+", "_", kind)), None, sp, sorts={cn: Chunks(cn, L), "i64": I64Sort()})
        if o is not None:
            o.fn = n
            o.L = L
            o.root = root.get(L) or next(iter(root.values()))
            out.append(o)
    return out


# ------------------------------------------------------------------ layer 2: the inverter over integers
class Val:
    """the integer represented by a CInt"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __eq__(self, x):
        return isinstance(x, Val) and (x.v == self.v if isinstance(x.v, int) or isinstance(self.v, int) else x.v.p == self.v.p)

    def __hash__(self):
        return hash(self.v) if isinstance(self.v, int) else hash(P.key(self.v.p))


class HeadLimb:
    """field element as limbs whose integer is one variable: limb 0 is that variable minus the rest"""

    def __init__(self, fld):
        self.f = fld

    def fresh(self, e, name):
        x = e.w.var(name, 1, self.f.p - 1)
        e.user["x"] = x
        return LimbField(headlimbs(e.w, x, self.f.n, 64, name))

    def image(self, v):
        return v.agg()

    def read(self, e, a, o):
        return LimbField([e.w.n(e.load(a, o + 8 * i, 8)) for i in range(self.f.n)])


def headlimbs(w, x, n, bits, name):
    if isinstance(x, int):
        return [(x >> (bits * i)) & ((1 << bits) - 1) for i in range(n)]
    rest = [w.var("%s_%d" % (name, i), 0, (1 << bits) - 1) for i in range(1, n)]
    p = x.p
    for i, r in enumerate(rest):
        p = P.sub(p, P.scale(r.p, 1 << (bits * (i + 1))))
    return [w.mk(p, 0, (1 << bits) - 1, fact=True)] + rest


class InvContracts:
    """contracts of CInt (layer 1), convert (layer 1) and jump over the integers"""

    def __init__(self, fld, L, nodelta=1 << 40):
        self.f, self.L = fld, L
        self.M = fld.p
        self.top = 1 << (B * L - 1)
        self.D = nodelta
        c = re.escape("CInt<62, %d>" % L)
        T = "(?:%s)" % re.escape(INV) + c
        pre = r"(?:<&?%s as std::" % T
        self.rx = [
            (re.compile(r"^<&?%s as std::ops::Add(?:<&?%s>)?>::add$" % (T, T)), "add"),
            (re.compile(r"^<&?%s as std::ops::Sub(?:<&?%s>)?>::sub$" % (T, T)), "sub"),
            (re.compile(r"^<&?%s as std::ops::Neg>::neg$" % T), "neg"),
            (re.compile(r"^<&?%s as std::ops::Mul<i64>>::mul$" % T), "mulr"),
            (re.compile(r"^%s<impl std::ops::Mul<&?%s> for i64>::mul$" % (re.escape(INV), T)), "mull"),
            (re.compile(r"^<%s as std::clone::Clone>::clone$" % T), "clone"),
            (re.compile(r"^<%s as std::cmp::PartialEq>::(eq)$" % T), "eq"),
            (re.compile(r"^<%s as std::cmp::PartialEq>::(ne)$" % T), "ne"),
            (re.compile(r"^%sCInt::<62, %d>::shift$" % (re.escape(INV), L)), "shift"),
            (re.compile(r"^%sCInt::<62, %d>::lowest$" % (re.escape(INV), L)), "lowest"),
            (re.compile(r"^%sCInt::<62, %d>::is_negative$" % (re.escape(INV), L)), "isneg"),
            (re.compile(r"^%sBYInverter::<%d>::jump$" % (re.escape(INV), L)), "jump"),
            (re.compile(r"^%sBYInverter::<%d>::convert::<64, 62, %d>$" % (re.escape(INV), L, L)), "inp"),
            (re.compile(r"^%sBYInverter::<%d>::convert::<62, 64, %d>$" % (re.escape(INV), L, fld.n)), "outp"),
        ]

    def __call__(self, e, fi, f):
        for rx, k in self.rx:
            if rx.match(f["name"]):
                h = getattr(self, "c_" + k)
                return lambda e, f, a, dt: h(e, a, dt)
        return None

    # memory
    def read(self, e, a, o):
        c = [e.load(a, o + 8 * i, 8) for i in range(self.L)]
        if all(isinstance(x, int) for x in c):
            if any(x > MASK for x in c):
                raise Unsupported("chunk out of range")
            v = sum(x << (B * i) for i, x in enumerate(c))
            return v - 2 * self.top if v >= self.top else v
        x = c[0]
        if not (isinstance(x, Part) and x.kind == "cint" and all(isinstance(y, Part) and y.kind == "cint" and y.i == i and y.obj == x.obj for i, y in enumerate(c))):
            raise Unsupported("not a CInt value: %r" % (c[:2],))
        return e.w.n(x.obj.v)

    def arg(self, e, x):
        if isinstance(x, Ptr):
            return self.read(e, x.a, x.o)
        a = Alloc(8 * self.L, "tmp")
        e.store_val(a, 0, 8 * self.L, x)
        return self.read(e, a, 0)

    def image(self, w, v):
        lo, hi = w.rng(v)
        if lo < -self.top or hi >= self.top:
            raise Unsupported("CInt overflow not excluded")
        if isinstance(v, int):
            v = v % (2 * self.top)
            return Agg([(8 * i, 8, (v >> (B * i)) & MASK) for i in range(self.L)], 8 * self.L)
        x = Val(v)
        return Agg([(8 * i, 8, Part(x, "cint", i)) for i in range(self.L)], 8 * self.L)

    def c_add(self, e, a, dt):
        return self.image(e.w, e.w.add(self.arg(e, a[0]), self.arg(e, a[1])))

    def c_sub(self, e, a, dt):
        return self.image(e.w, e.w.sub(self.arg(e, a[0]), self.arg(e, a[1])))

    def c_neg(self, e, a, dt):
        return self.image(e.w, e.w.sub(0, self.arg(e, a[0])))

    def c_clone(self, e, a, dt):
        return self.image(e.w, self.arg(e, a[0]))

    def times(self, e, x, k):
        if isinstance(k, SV):
            k = e.to_signed(e.w.n(k), 64)
        elif k >> 63:
            k -= 1 << 64
        if e.w.rng(k)[0] <= -(1 << 63):
            raise Unsupported("i64 factor may be the minimum: %r" % (k,))
        return self.image(e.w, e.w.mul(x, k))

    def c_mulr(self, e, a, dt):
        return self.times(e, self.arg(e, a[0]), a[1])

    def c_mull(self, e, a, dt):
        return self.times(e, self.arg(e, a[1]), a[0])

    def c_shift(self, e, a, dt):
        w = e.w
        x = self.arg(e, a[0])
        if isinstance(x, SV):
            x = w.n(w.mk(rewrite(x.p, e.user["rules"]), x.lo, x.hi))
        return self.image(w, w.divmod2k(x, B)[0])

    def c_lowest(self, e, a, dt):
        return e.w.divmod2k(self.arg(e, a[0]), B)[1]

    def c_isneg(self, e, a, dt):
        return e.w.concretize(e.w.neg(self.arg(e, a[0])), "is_negative")

    def equal(self, e, a):
        w = e.w
        d = w.n(w.sub(self.arg(e, a[0]), self.arg(e, a[1])))
        if isinstance(d, int):
            return int(d == 0)
        lo, hi = w.rng(d)
        if lo > 0 or hi < 0:
            return 0
        b = w.concretize(w.var("equal%d" % len(w.vars), 0, 1), "cint-eq")
        if not b:
            w.neqs.append(d.p)
            return 0
        vs = [m for m in d.p if m]
        if len(vs) != 1 or len(vs[0]) != 1 or abs(d.p[vs[0]]) != 1:
            raise Unsupported("equality of compound values")
        v = vs[0][0]
        w.assign[v] = -d.p.get((), 0) * d.p[vs[0]]
        for p, q in e.user["coprime"]:
            for s, t in ((p, q), (q, p)):
                if s == v and w.assign[v] == 0 and t not in w.assign:
                    # gcd(t, 0) = 1: t is a unit
                    w.assign[t] = -1 if w.concretize(w.var("unit%d" % t, 0, 1), "sign of the unit") else 1
        return 1

    def c_eq(self, e, a, dt):
        return self.equal(e, a)

    def c_ne(self, e, a, dt):
        return 1 - self.equal(e, a)

    def words(self, e, x):
        ptr = n = None
        for o, s, v in x.c:
            if isinstance(v, Ptr):
                ptr = v
            else:
                n = v
        return ptr, n

    def c_inp(self, e, a, dt):
        w = e.w
        ptr, n = self.words(e, a[0])
        t = 0
        for i in range(n):
            t = w.add(t, w.mul(w.n(e.load(ptr.a, ptr.o + 8 * i, 8)), 1 << (64 * i)))
        t = w.n(t)
        lo, hi = w.rng(t)
        if lo < 0 or hi >= self.top:
            raise Unsupported("input range")
        return self.image(w, t)

    def c_outp(self, e, a, dt):
        w = e.w
        ptr, n = self.words(e, a[0])
        if n != self.L:
            raise Unsupported("convert of %r words" % n)
        x = self.read(e, ptr.a, ptr.o)
        n = self.f.n
        if isinstance(x, SV):
            e.user["goals"].append(lambda c: (c.ge("result-not-negative", x.p, 0), c.le("result-fits", x.p, (1 << (64 * n)) - 1)))
        ls = headlimbs(w, x, n, 64, "r")
        return Agg([(8 * i, 8, l) for i, l in enumerate(ls)], 8 * n)

    def c_jump(self, e, a, dt):
        """62 division steps: for odd f and |delta| small, a matrix t with |t00|+|t01|, |t10|+|t11| <= 2^62 and determinant 2^62,
        and integers F (odd), G with 2^62 (F, G) = t (f, g)"""
        w, u = e.w, e.user
        f, g = self.arg(e, a[0]), self.arg(e, a[1])
        fv, gv = single(f), single(g)
        if fv is None or gv is None:
            raise Unsupported("jump on compound values")
        if fv not in u["odd"]:
            raise Unsupported("jump: f not known to be odd")
        d = a[2]
        if isinstance(d, SV):
            d = e.to_signed(w.n(d), 64)
        elif d >> 63:
            d -= 1 << 64
        lo, hi = w.rng(d)
        if lo < -self.D or hi > self.D:
            raise Unsupported("jump: delta out of range")
        K = max(abs(x) for x in w.rng(f) + w.rng(g))
        k = len(u["jumps"])
        t = [[w.var("t%d%d" % (i, j), -(1 << B), 1 << B) for j in (0, 1)] for i in (0, 1)]
        ab = [[w.var("abs_t%d%d" % (i, j), 0, 1 << B) for j in (0, 1)] for i in (0, 1)]
        for i in (0, 1):
            for j in (0, 1):
                w.facts.append((P.sub(ab[i][j].p, t[i][j].p), 0, None))
                w.facts.append((P.add(ab[i][j].p, t[i][j].p), 0, None))
            w.facts.append((P.add(ab[i][0].p, ab[i][1].p), None, 1 << B))
            for s0 in (1, -1):
                for s1 in (1, -1):
                    p = P.add(P.scale(t[i][0].p, s0), P.scale(t[i][1].p, s1))
                    w.mk(p, -(1 << B), 1 << B)
        F, G = w.var("F%d" % k, -K, K), w.var("G%d" % k, -K, K)
        for i, X in ((0, F), (1, G)):
            ti = [single(y) for y in t[i]]
            rhs = P.sub(P.scale(X.p, 1 << B), P.mul(t[i][1].p, g.p))
            u["rules"].append((tuple(sorted((ti[0], fv))), rhs))
        u["odd"].add(single(F))
        if (fv, gv) in u["coprime"] or (gv, fv) in u["coprime"]:
            u["coprime"].add((single(F), single(G)))
        u["jumps"].append((t, ab))
        dn = w.var("delta%d" % (k + 1), lo - B, hi + B)
        ts = dt
        m = e.prog.ty[ts["fs"][1]]
        cells = [(ts["offs"][0], 8, e.simage(dn, 64))]
        for i in (0, 1):
            for j in (0, 1):
                cells.append((ts["offs"][1] + 16 * i + 8 * j, 8, e.simage(t[i][j], 64)))
        return Agg(cells, ts["size"])


def single(x):
    if isinstance(x, SV) and len(x.p) == 1:
        (k, c), = x.p.items()
        if c == 1 and len(k) == 1:
            return k[0]
    return None


class InvLoop:
    """the invariant of the main loop of invert"""

    def __init__(self, con):
        self.c = con
        self.A = con.f.R ** 2 % con.f.p

    def roles(self, e, fr, mod):
        c = self.c
        out = {}
        x = e.user["x"]
        for i in mod:
            if i not in fr.loc:
                continue
            t = e.prog.ty[fr.f["locals"][i]]
            if t["name"].endswith("CInt<62, %d>" % c.L):
                try:
                    v = c.read(e, fr.loc[i], 0)
                except Exception:
                    continue
                if isinstance(v, int):
                    r = {c.M: "f", 0: "d", self.A: "e"}.get(v)
                else:
                    r = "g" if v.p == x.p else None
                if r is None:
                    raise Unsupported("loop-carried value without a role: %r" % (v,))
                out[i] = r
            elif t["name"] == "i64" and fr.loc[i].cells:
                if e.load(fr.loc[i], 0, 8) != 1:
                    raise Unsupported("initial delta")
                out[i] = "delta"
        got = sorted(out.values())
        if got != ["d", "delta", "e", "f", "g"]:
            raise Unsupported("loop variables %s" % got)
        return out

    def enter(self, e, fr, mod):
        # d x = f A, e x = g A (mod M): 0 = M A and A x = x A; M odd; M prime and 0 < x < M: coprime
        self.role = self.roles(e, fr, mod)

    def havoc(self, e, fr, mod):
        w, c, M, u = e.w, self.c, self.c.M, e.user
        x = single(u["x"])
        v = {"f": w.var("f", -M, M), "g": w.var("g", -M, M), "d": w.var("d", -2 * M + 1, M - 1), "e": w.var("e", -2 * M + 1, M - 1),
             "delta": w.var("delta", -c.D, c.D)}
        u["v"] = v
        u["odd"] = {single(v["f"])}
        u["coprime"] = {(single(v["f"]), single(v["g"]))}
        u["mod"] = [(tuple(sorted((single(v[a]), x))), P.scale(v[b].p, self.A)) for a, b in (("d", "f"), ("e", "g"))]
        for i, r in self.role.items():
            if r == "delta":
                e.store(fr.loc[i], 0, 8, e.simage(v[r], 64))
            else:
                e.store_val(fr.loc[i], 0, 8 * c.L, c.image(w, v[r]))
        return set(self.role)

    def again(self, e, fr):
        c, M, u = self.c, self.c.M, e.user
        n = {r: c.read(e, fr.loc[i], 0) for i, r in self.role.items() if r != "delta"}
        x = u["x"]
        fv, gv = single(n["f"]), single(n["g"])

        def goals(cx):
            for r in "fg":
                cx.ge("loop-%s-lower" % r, poly(n[r]), -M)
                cx.le("loop-%s-upper" % r, poly(n[r]), M)
            for r in "de":
                cx.ge("loop-%s-lower" % r, poly(n[r]), -2 * M + 1)
                cx.le("loop-%s-upper" % r, poly(n[r]), M - 1)
            cx.put("loop-f-odd", True if fv in u["odd"] else None, "f after the iteration")
            cx.put("loop-coprime", True if (fv, gv) in u["coprime"] else None, "gcd(f, g) after the iteration")
            for r, s in (("d", "f"), ("e", "g")):
                # 2^62 (d' x - f' A) with 2^62 f' expanded through the jump relation
                d = P.sub(P.mul(poly(n[r]), x.p), P.scale(poly(n[s]), self.A))
                d = P.scale(d, 1 << B)
                if len(u["jumps"]) == 1:
                    t, _ = u["jumps"][0]
                    for i, nm in ((0, "F0"), (1, "G0")):
                        vi = [k for k in range(len(cx.w.vars)) if cx.w.vname(k) == nm][0]
                        rhs = P.add(P.mul(t[i][0].p, u["v"]["f"].p), P.mul(t[i][1].p, u["v"]["g"].p))
                        d = substdiv(d, vi, rhs)
                d = rewrite({k: q % M for k, q in d.items() if q % M}, [(l, rr) for l, rr in u["mod"]])
                cx.cong("loop-%s-relation" % r, d, M)
        u["goals"].append(goals)


def substdiv(d, v, rhs):
    """replace v by rhs / 2^62 where its coefficients are multiples of 2^62"""
    out = {}
    for k, q in d.items():
        if v in k:
            if k.count(v) != 1 or q % (1 << B):
                raise Unsupported("substitution")
            r = list(k)
            r.remove(v)
            out = P.add(out, P.scale(P.mul({tuple(r): 1}, rhs), q >> B))
        else:
            out = P.add(out, {k: q})
    return out


def products(cx, args):
    """|t| K >= |t D| for |D| <= K, D one of d, e brought into (-M, M) by the sign learned on the path"""
    e, w = cx.e, cx.w
    u = e.user
    if not u.get("jumps"):
        return []
    M = u["M"]
    out = []
    for t, ab in u["jumps"]:
        for i in (0, 1):
            for j, r in ((0, "d"), (1, "e")):
                v = u["v"][r]
                n = w.n(w.neg(v))
                D = P.add(v.p, P.scale(poly(n), M))
                for s in (1, -1):
                    out.append((P.add(P.scale(ab[i][j].p, M - 1), P.scale(P.mul(t[i][j].p, D), s)), 0, None))
    return out


def layer2(prog):
    out = []
    for fld in params.FIELDS:
        L = -(-(64 * fld.n + 64) // B)
        con = InvContracts(fld, L)

        def spec(cx, a, r, fld=fld, con=con):
            if not (isinstance(r, tuple) and r[0] == "Some"):
                return cx.put("inverse-exists", False, "nonzero element has an inverse")
            u = cx.e.user
            v = r[1].val()
            cx.ge("not-negative", v, 0)
            cx.le("canonical", v, fld.p - 1)
            d = P.sub(P.mul(v, u["x"].p), P.const(fld.R ** 2))
            d = cx.w.norm(rewrite(d, u["mod"]))
            cx.cong("product-is-one", d, fld.p)

        def setup(e, fld=fld):
            e.user.update(rules=[], odd=set(), coprime=set(), jumps=[], goals=[], mod=[], M=fld.p)
        o = Obligation("C03/%s/invert" % fld.key, "%s::invert" % fld.key, spec, sorts={fld.ty: HeadLimb(fld)}, contracts=[con], setup=setup,
                       extra=products)
        o.cuts = [LoopCut(lambda n, L=L, N=fld.n: n == INV + "BYInverter::<%d>::invert::<%d>" % (L, N), at_head(InvLoop(con)))]
        out.append(o)
    return out


def outer(loops):
    best = [h for h in loops if not any(h in b and k != h for k, b in loops.items())]
    return best[0] if len(best) == 1 else None


def at_head(inv):
    def pick(f, loops):
        h = outer(loops)
        return None if h is None else {h: (h, inv)}
    return pick


# ------------------------------------------------------------------ jump: 62 division steps on the lowest chunks
DELTA = 1 << 40


class Steps:
    """shared ghost state of the two cut points of jump's loop.
    With P = 2^(62 - steps):  P f = t00 f0 + t01 g0,  P g = t10 f0 + t11 g0,  f odd,  |t00| + |t01| <= P,  det t = P,
    |delta| <= D + 62 - steps, and
      at the head: for some b <= steps, 2^b | g, |g| <= 2^(62+b), |t10| + |t11| <= 2^b P   (b = 0 at the start)
      after the exit test: g odd, |g| <= 2^62, |t10| + |t11| <= P."""

    def find(self, e, fr, mod):
        f0, g0 = e.user["f0"], e.user["g0"]
        out = {}
        for i in mod:
            if i not in fr.loc or not fr.loc[i].cells:
                continue
            t = e.prog.ty[fr.f["locals"][i]]
            n = t["name"]
            if n == "[[i64; 2]; 2]":
                out[i] = "t"
            elif n in ("i64", "i128"):
                v = e.w.n(e.load(fr.loc[i], 0, t["size"]))
                v = v if isinstance(v, int) else e.to_signed(v, t["bits"])
                if v == 62:
                    out[i] = "steps"
                elif isinstance(v, SV) and v.p == f0.p:
                    out[i] = "f"
                elif isinstance(v, SV) and v.p == g0.p:
                    out[i] = "g"
                elif isinstance(v, SV) and v.p == e.user["delta"].p:
                    out[i] = "delta"
                else:
                    raise Unsupported("loop-carried value without a role")
            else:
                raise Unsupported("loop-carried local of type " + n)
        if sorted(out.values()) != ["delta", "f", "g", "steps", "t"]:
            raise Unsupported("loop variables %s" % sorted(out.values()))
        return out

    def get(self, e, fr):
        out = {}
        for i, r in e.user["roles"].items():
            t = e.prog.ty[fr.f["locals"][i]]
            if r == "t":
                out[r] = [[I64Sort().read(e, fr.loc[i], 16 * k + 8 * j) for j in (0, 1)] for k in (0, 1)]
            else:
                v = e.w.n(e.load(fr.loc[i], 0, t["size"]))
                out[r] = v if isinstance(v, int) and not v >> (t["bits"] - 1) else e.to_signed(v, t["bits"])
        return out

    def set(self, e, fr, v):
        w = e.w
        for i, r in e.user["roles"].items():
            t = e.prog.ty[fr.f["locals"][i]]
            if r == "t":
                for k in (0, 1):
                    for j in (0, 1):
                        e.store(fr.loc[i], 16 * k + 8 * j, 8, e.simage(v["t"][k][j], 64))
            else:
                e.store(fr.loc[i], 0, t["size"], e.simage(v[r], t["bits"]))
        return set(e.user["roles"])

    def cases(self, w, n, why):
        """arbitrary choice in range(n)"""
        b = [w.var("%s%d_%d" % (why, len(w.vars), i), 0, 1) for i in range((n - 1).bit_length())]
        k = sum(w.concretize(x, why) << i for i, x in enumerate(b))
        if k >= n:
            raise Infeasible()
        return k

    def matrix(self, e, P0, row0, row1, pmax):
        """rows bounded by row0 and row1 (integers or polynomials), with the rules of the invariant"""
        w, u = e.w, e.user
        t = [[w.var("t%d%d_%d" % (k, j, len(w.vars)), -b, b) for j in (0, 1)] for k, b in ((0, pmax[0]), (1, pmax[1]))]
        a = [[w.var("a%d%d_%d" % (k, j, len(w.vars)), 0, b) for j in (0, 1)] for k, b in ((0, pmax[0]), (1, pmax[1]))]
        for k, bound in ((0, row0), (1, row1)):
            for j in (0, 1):
                w.facts.append((P.sub(a[k][j].p, t[k][j].p), 0, None))
                w.facts.append((P.add(a[k][j].p, t[k][j].p), 0, None))
            w.facts.append((P.sub(poly(bound), P.add(a[k][0].p, a[k][1].p)), 0, None))
            for s0 in (1, -1):
                for s1 in (1, -1):
                    w.mk(P.add(P.scale(t[k][0].p, s0), P.scale(t[k][1].p, s1)), -pmax[k], pmax[k])
        u["tv"], u["av"] = t, a
        return t

    def rules(self, e, P0, f, g):
        u = e.user
        t, f0, g0 = u["tv"], u["f0"], u["g0"]
        pair = lambda x, y: tuple(sorted((single(x), single(y))))
        u["rules"] = [(pair(t[0][0], f0), P.sub(P.mul(P0, poly(f)), P.mul(t[0][1].p, g0.p))),
                      (pair(t[1][0], f0), P.sub(P.mul(P0, poly(g)), P.mul(t[1][1].p, g0.p))),
                      (pair(t[0][0], t[1][1]), P.add(P0, P.mul(t[0][1].p, t[1][0].p)))]

    def relations(self, cx, v, P0, tag):
        u = cx.e.user
        f0, g0, t = u["f0"].p, u["g0"].p, v["t"]
        m = lambda k, j: poly(t[k][j])
        for k, x in ((0, "f"), (1, "g")):
            d = P.sub(P.sub(P.mul(P0, poly(v[x])), P.mul(m(k, 0), f0)), P.mul(m(k, 1), g0))
            cx.zero("%s-%s-relation" % (tag, x), rewrite(d, u["rules"]))
        d = P.sub(P.sub(P.mul(m(0, 0), m(1, 1)), P.mul(m(0, 1), m(1, 0))), P0)
        cx.zero("%s-determinant" % tag, rewrite(d, u["rules"]))

    def rows(self, cx, v, bounds, tag):
        for k in (0, 1):
            for s0 in (1, -1):
                for s1 in (1, -1):
                    p = P.add(P.scale(poly(v["t"][k][0]), s0), P.scale(poly(v["t"][k][1]), s1))
                    cx.le("%s-row-%d" % (tag, k), P.sub(p, poly(bounds[k])), 0)

    def delta(self, cx, v, tag):
        for s in (1, -1):
            cx.le("%s-delta" % tag, P.add(P.scale(poly(v["delta"]), s), poly(v["steps"])), DELTA + 62)

    def odd(self, cx, x, name):
        p = poly(x)
        cx.put(name, True if p.get((), 0) % 2 and all(c % 2 == 0 for k, c in p.items() if k) else None, P.show(p, cx.w.vname, 4))

    def boundsof(self, cx, x, K, name):
        cx.ge(name, poly(x), -K)
        cx.le(name, poly(x), K)


class Head(Steps):
    def enter(self, e, fr, mod):
        w, u = e.w, e.user
        u["roles"] = self.find(e, fr, mod)
        v = self.get(e, fr)
        c = u["mkctx"]()
        u["rules"] = []
        self.relations(c, v, P.const(1), "start")
        self.rows(c, v, (P.const(1), P.const(1)), "start")
        self.delta(c, v, "start")
        self.boundsof(c, v["f"], 1 << 62, "start-f")
        self.boundsof(c, v["g"], 1 << 62, "start-g")
        u["early"] += c.clauses

    def havoc(self, e, fr, mod):
        w, u = e.w, e.user
        k = self.cases(w, 124, "zeros")
        last = k >= 62
        z = k - 61 if last else k  # the zeros min(steps, tz g): all remaining steps, or tz g = z < steps
        f = w.add(w.mul(w.var("h", -(1 << 61), (1 << 61) - 1), 2), 1)
        G = 1 << 62
        if last:
            steps, P0 = z, P.const(1 << (62 - z))
            g = w.mul(w.var("y", -G, G), 1 << z)
            pm = 1 << (62 - z)
        else:
            steps = w.var("steps", z + 1, 62)
            pm = 1 << (61 - z)
            P0 = w.var("P", 1, pm).p
            y = w.var("y", -(G >> 1) - 1, G >> 1)
            o = w.mk(P.add(P.scale(y.p, 2), P.const(1)), -G, G, fact=True)
            g = w.mk(P.scale(o.p, 1 << z), -G << z, G << z)
        t = self.matrix(e, P0, P0, P.scale(P0, 1 << z), (pm, pm << z))
        self.rules(e, P0, f, g)
        d = w.var("delta", -DELTA - 62, DELTA + 62)
        v = {"f": f, "g": g, "t": t, "steps": steps, "delta": d}
        for s in (1, -1):
            w.facts.append((P.add(P.scale(d.p, s), poly(steps)), None, DELTA + 62))
        u["at"] = ("head", z, last, P0, v)
        return self.set(e, fr, v)

    def again(self, e, fr):
        u = e.user
        kind, b, _, P0, _ = u["at"]
        if kind != "mid":
            raise Unsupported("loop head reached without the exit test")
        v = u["final"] = self.get(e, fr)

        def goals(cx):
            for i, d in enumerate(digits(u)):
                cx.ge("step-digit", d, 0)
                cx.le("step-digit", d, (1 << b) - 1)
            self.relations(cx, v, P0, "step")
            self.odd(cx, v["f"], "step-f-odd")
            self.boundsof(cx, v["f"], 1 << 62, "step-f")
            self.boundsof(cx, v["g"], 1 << (62 + b), "step-g")
            g = poly(v["g"])
            if b:
                cx.cong("step-g-divisible", g, 1 << b)
                cx.ge("step-zeros-fit", poly(v["steps"]), b)
            self.rows(cx, v, (P0, P.scale(P0, 1 << b)), "step")
            self.delta(cx, v, "step")
        u["goals"].append(goals)


class Mid(Steps):
    """after the exit test: steps >= 1 left"""

    def enter(self, e, fr, mod):
        w, u = e.w, e.user
        if u["at"][0] != "head":
            raise Unsupported("exit test reached without the loop head")
        _, z, last, P0, old = u["at"]
        v = self.get(e, fr)
        c = u["mkctx"]()
        if last:
            # all steps were done: the exit must have been taken
            u["early"].append(c)
            c.put("exit-when-done", False, "loop continues without steps left")
        P1 = P.scale(P0, 1 << z)
        c.zero("shift-steps", P.sub(poly(v["steps"]), P.sub(poly(old["steps"]), P.const(z))))
        self.relations(c, v, P1, "shift")
        self.odd(c, v["f"], "shift-f-odd")
        self.odd(c, v["g"], "shift-g-odd")
        self.boundsof(c, v["f"], 1 << 62, "shift-f")
        self.boundsof(c, v["g"], 1 << 62, "shift-g")
        self.rows(c, v, (P1, P1), "shift")
        self.delta(c, v, "shift")
        u["early"] += c.clauses
        # one continuation stands for all: it does not depend on the number of zeros
        if z or last:
            raise CutEnd()

    def havoc(self, e, fr, mod):
        w, u = e.w, e.user
        swap = self.cases(w, 2, "sign")
        k = self.cases(w, 9, "bits")
        b = 5 if k == 8 else k // 2 + 1
        c = self.cases(w, 16, "low bits")
        # b = min(steps, 1 - m, 5) for m = -|delta| (delta > 0 is negated)
        if b == 5:
            steps, m = w.var("steps", 5, 62), w.var("m", -DELTA - 62, -4)
        elif k % 2:
            steps, m = b, w.var("m", -DELTA - 62, -b)
        else:
            steps, m = w.var("steps", b, 62), 1 - b
        if swap:
            d = w.sub(0, m)
            if isinstance(d, int):
                if d <= 0:
                    raise Infeasible()
            else:
                # delta > 0
                if d.lo <= 0:
                    (mv,) = [x for x in m.p]
                    m = w.var("m1", -DELTA - 62, min(1 - b, -1))
                    d = w.sub(0, m)
        else:
            d = m
        pm = 1 << (62 - b)
        P0 = w.var("P", 1, pm).p if isinstance(steps, SV) else P.const(1 << (62 - steps))
        G = 1 << 62
        lo = w.var("phi", -(1 << 57), (1 << 57) - 1)
        x = w.add(w.mul(lo, 32), 2 * c + 1)
        y = w.add(w.mul(w.var("h", -(1 << 61), (1 << 61) - 1), 2), 1)
        f, g = (y, x) if swap else (x, y)
        t = self.matrix(e, P0, P0, P0, (pm, pm))
        self.rules(e, P0, f, g)
        v = {"f": f, "g": g, "t": t, "steps": steps, "delta": d}
        for s in (1, -1):
            w.facts.append((P.add(P.scale(poly(d), s), poly(steps)), None, DELTA + 62))
        u["at"] = ("mid", b, False, P0, v)
        return self.set(e, fr, v)

    def again(self, e, fr):
        raise Unsupported("exit test reached twice")


def jumpcuts(f, loops):
    h = outer(loops)
    if h is None:
        return None
    body = loops[h]
    mids = []
    for b in sorted(body):
        t = f["bb"][b][1]
        s = succ(t)
        if any(x not in body and x is not None for x in s) and t[0] == "sw":
            mids += [x for x in s if x in body]
    if len(mids) != 1:
        return None
    return {h: (h, Head()), mids[0]: (h, Mid())}


def c_tz(e, fi, f):
    if re.match(r"^core::num::<impl (i128|u128|i64|u64)>::trailing_zeros$", f["name"]):
        def go(e, f, a, dt):
            x = e.w.n(a[0])
            if isinstance(x, int):
                return (x & -x).bit_length() - 1 if x else 128
            s = e.to_signed(x, 128)
            c = s.p.get((), 0)
            rest = [v for k, v in s.p.items() if k]
            tz = lambda n: (n & -n).bit_length() - 1
            m = min(tz(r) for r in rest)
            if c and tz(c) < m:
                return tz(c)
            if e.w.concretize(e.w.var("exact%d" % len(e.w.vars), 0, 1), "trailing zeros"):
                return m
            return e.w.var("tz", m + 1, 128)
        return go
    return None


def digits(u):
    """the (nonconstant) multipliers of old rows inside the new row 1"""
    out = []
    v = u.get("final")
    if v is None:
        return out
    for k in (0, 1):
        for j in (0, 1):
            tv = single(u["tv"][k][j])
            c = {}
            for m, q in poly(v["t"][1][j]).items():
                if tv in m:
                    r = list(m)
                    r.remove(tv)
                    c[tuple(r)] = q
            if c and not P.is_const(c) and c not in out:
                out.append(c)
    return out


def jump_products(cx, args):
    """|t| m >= |t w| for 0 <= w <= m (the range of w is a goal of its own)"""
    u = cx.e.user
    out = []
    if u.get("at", (0,))[0] == "mid":
        m = (1 << u["at"][1]) - 1
        for wv in digits(u):
            for j in (0, 1):
                for k in (0, 1):
                    for s in (1, -1):
                        out.append((P.add(P.scale(u["av"][k][j].p, m), P.scale(P.mul(u["tv"][k][j].p, wv), s)), 0, None))
    return out


def jumps(prog):
    out = []
    roots = {}
    for f in params.FIELDS:
        roots.setdefault(-(-(64 * f.n + 64) // B), "%s::invert" % f.key)
    for L in (6, 8, 9):
        n = INV + "BYInverter::<%d>::jump" % L
        if n not in prog.names.values():
            continue
        cn = INV + "CInt<62, %d>" % L

        def pre(e, a):
            f, g, d = a
            e.user.update(f0=f.limbs[0], g0=g.limbs[0], delta=d, goals=[])

        def spec(cx, a, r):
            u = cx.e.user
            dn, t = r
            f, g = val(a[0].limbs), val(a[1].limbs)
            kind, z, last, P0, old = u["at"]
            if kind != "head" or not last:
                return cx.put("exit-only-when-done", False, "steps remain")
            for k, nm in ((0, "F"), (1, "G")):
                s = rewrite(P.add(P.mul(poly(t[k][0]), f), P.mul(poly(t[k][1]), g)), u["rules"])
                cx.put("%s-integral" % nm, True if all(c % (1 << B) == 0 for c in s.values()) else None, P.show(s, cx.w.vname, 4))
                if k == 0:
                    q = {m: c >> B for m, c in s.items()}
                    q = {m: c for m, c in q.items() if c % 2}
                    cx.put("F-odd", True if list(q) == [()] else None, P.show(q, cx.w.vname, 4))
            d = P.sub(P.mul(poly(t[0][0]), poly(t[1][1])), P.mul(poly(t[0][1]), poly(t[1][0])))
            cx.zero("determinant", P.sub(rewrite(d, u["rules"]), P.const(1 << B)))
            self = Steps()
            self.rows(cx, {"t": t}, (P.const(1 << B), P.const(1 << B)), "result")
            cx.le("delta", poly(dn), DELTA + 62)
            cx.ge("delta", poly(dn), -DELTA - 62)
        o = Obligation("C03/BYInverter-%d/jump" % L, None, spec, sorts={cn: Chunks(cn, L), "i64": I64Sort(-DELTA, DELTA)}, contracts=[c_tz],
                       pre=pre, extra=jump_products)
        o.fn = n
        o.root = roots.get(L)
        o.cuts = [LoopCut(lambda m, n=n: m == n, jumpcuts)]
        out.append(o)
    return out


# ------------------------------------------------------------------ the property
def product_eqz(e, s, p):
    """a product vanishes iff a factor does"""
    if len(p) != 1:
        return None
    (m, _), = p.items()
    if len(m) < 2:
        return None
    z = [s.eqz(e, {(v,): 1}) for v in m]
    return 1 if 1 in z else 0 if all(isinstance(x, int) for x in z) else None


def batch(mod, ty, s, con, put, tag, oracle=None):
    out = []
    for n in (1, 2, 3):
        def spec(cx, a, r, n=n):
            o, inv = r[:-1], r[-1]
            prod = {(): 1}
            for i, (x, y) in enumerate(zip(a, o)):
                p = s.fix(cx.e, x.p)
                if not p:
                    put(cx, "zero-unchanged-%d" % i, s, y.p, {})
                else:
                    put(cx, "inverse-%d" % i, s, s.mul(y.p, p), {(): 1})
                    prod = s.mul(prod, p)
            put(cx, "inverse-of-product", s, s.mul(inv.p, prod), {(): 1})
        o = Obligation("C03/%s/batch_inv%d" % (mod, n), "%s::batch_inv%d" % (mod, n), spec, sorts={ty: s}, contracts=con, user={"fe_eqz": product_eqz})
        o.oracle = oracle
        out.append(o)
    return out


def batch_oracle(inv, mul, one, iszero):
    def f(*a):
        r = one
        out = []
        for x in a:
            if iszero(x):
                out.append(x)
            else:
                out.append(inv(x))
                r = mul(r, x)
        return tuple(out) + (inv(r),)
    return f


class ZeroSort:
    def __init__(self, n):
        self.n = n

    def fresh(self, e, name):
        return LimbField([0] * self.n)

    def image(self, v):
        return v.agg()

    def read(self, e, a, o):
        return LimbField([e.w.n(e.load(a, o + 8 * i, 8)) for i in range(self.n)])


def coprime_lemma():
    """with D = t00 t11 - t01 t10 and D F = t00 f + t01 g etc.: (a t11 - b t10) D F + (b t00 - a t01) D G = D (a f + b g)"""
    v = lambda i: {(i,): 1}
    t00, t01, t10, t11, f, g, a, b = map(v, range(8))
    M, A, S = P.mul, P.add, P.sub
    lhs = A(M(S(M(a, t11), M(b, t10)), A(M(t00, f), M(t01, g))), M(S(M(b, t00), M(a, t01)), A(M(t10, f), M(t11, g))))
    rhs = M(S(M(t00, t11), M(t01, t10)), A(M(a, f), M(b, g)))
    return not S(lhs, rhs), "unimodular maps keep a f + b g = 1 solvable"


def c03(prog):
    from mirv.sorts import OpContracts, RingSort
    from . import roots, towers
    out = layer1(prog) + jumps(prog) + layer2(prog)
    for fld in params.FIELDS:
        o = Obligation("C03/%s/invert-zero" % fld.key, "%s::invert" % fld.key, lambda cx, a, r: cx.put("zero-fails", r is None, repr(r)), sorts={fld.ty: ZeroSort(fld.n)})
        out.append(o)
        s = RingSort(fld.ty, fld.size, fld.p, fld.R)
        ors = batch_oracle(lambda x, p=fld.p: pow(x, -1, p), lambda x, y, p=fld.p: x * y % p, 1, lambda x: x == 0)
        out += batch(fld.key, fld.ty, s, [OpContracts(s)], towers.put_eq, "C03", ors)
    by = {"%s::invert" % f.key: roots.oracles(f)["invert"] for f in params.FIELDS}
    for o in out:
        if o.oracle is None and o.root in by:
            o.oracle = by[o.root]
            o.search_n = 2000
    for tw in towers.TOWERS:
        out += towers.c03(tw)
    out.append(Lemma("C03/jump-keeps-coprimality", coprime_lemma))
    return out
