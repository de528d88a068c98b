"""Point encodings (C13): compressed and uncompressed forms over contracts of the base field's own codec (discharged by C05 / C09), raw
forms at limb level."""
from mirv import poly as P
from mirv.core import Agg, Alloc, Ptr
from mirv.oblig import Ctx, Obligation
from mirv.sorts import FE, ct_option, norm_name
from mirv.world import SV, Unsupported
from . import points, ptoracle, towers
from .fieldspec import bytes_val, lsort
from .points import Points, base_sort, boolval, known, rhs


# ---------------------------------------------------------------- byte strings
class Bytes:
    """[u8; n] argument whose flag bits are decided by forking"""

    def __init__(self, n, pos=None, nflag=0):
        self.n, self.pos, self.nflag = n, pos, nflag

    def fresh(self, e, name):
        w = e.w
        v = []
        for i in range(self.n):
            if i == self.pos:
                hi = 0
                for k in range(self.nflag):
                    b = w.fresh("%s_bit%d" % (name, 7 - k), 0, 1)
                    hi |= w.decide_var(b) << (7 - k)
                lo = w.var("%s_low" % name, 0, (1 << (8 - self.nflag)) - 1)
                self.flags, self.low = hi, lo
                v.append(w.add(lo, hi))
            else:
                v.append(w.var("%s_%d" % (name, i), 0, 255))
        return v

    def image(self, v):
        return Agg([(i, 1, x) for i, x in enumerate(v)], self.n)

    def read(self, e, a, o):
        return [e.w.n(e.load(a, o + i, 1)) for i in range(self.n)]


# ---------------------------------------------------------------- contracts of the base field's codec
def same(e, s, p, q):
    d = s.sub_(p, q)
    return not d or not s.fix(e, towers.clear_invs(e.w, s, s.fix(e, s.red(d))))


class Codec:
    """decode(bytes) -> (canonical?, element), encode(element) -> bytes, sign(element); memoised functions of their argument"""

    def __init__(self, c, s):
        self.c, self.s = c, s
        self.n = c.nf

    def eqz(self, e, s, p):
        return points.eqz(e, s, p)

    def st(self, w):
        if not hasattr(w, "ptio"):
            w.ptio = {"dec": {}, "enc": [], "sgn": [], "sq": []}
        return w.ptio

    def decode(self, e, bs):
        w, s = e.w, self.s
        bs = [w.n(b) for b in bs]
        if all(not isinstance(b, SV) for b in bs):
            v = self.c.fdec(bytes(bs))
            return (0, {}) if v is None else (1, points.cst(self.c, v))
        k = tuple(P.key(Ctx.poly(b)) for b in bs)
        m = self.st(w)["dec"]
        if k not in m:
            x = P.var(w.fresh("x%d" % len(m), None, None, ("fe", s)))
            m[k] = (w.atom("canon", k, ("canon", k)), x)
        return m[k]

    def encode(self, e, p):
        """bytes of the canonical encoding"""
        w, s, c = e.w, self.s, self.c
        p = s.fix(e, towers.clear_invs(w, s, s.fix(e, p))) if False else s.fix(e, p)
        if not p:
            return [0] * self.n
        m = self.st(w)["enc"]
        for q, b in m:
            if same(e, s, p, q):
                return b
        pos = self.flagbyte()
        b = [w.var("enc%d_%d" % (len(m), i), 0, self.topmax() if i == pos else 255) for i in range(self.n)]
        m.append((p, b))
        return b

    def flagbyte(self):
        return 0 if self.c.field.be else self.n - 1

    def topmax(self):
        return (self.c.field.p - 1) >> (8 * (self.c.field.size - 1))

    def sign(self, e, p):
        """odd function on nonzero elements: sign(-y) = 1 - sign(y), sign(0) = 0"""
        w, s = e.w, self.s
        p = s.fix(e, p)
        z = self.eqz(e, s, p) if p else 1
        if isinstance(z, SV):
            z = w.concretize(z, "sign")
        if z:
            return 0
        m = self.st(w)["sgn"]
        for q, t in m:
            if same(e, s, p, q):
                return w.n(t)
            if same(e, s, s.neg(p), q):
                return w.sub(1, w.n(t))
        t = w.atom("sgn", (len(m), P.key(p)), ("sgn", len(m)))
        m.append((p, t))
        return t

    def square(self, e, p):
        """(square?, root) with root^2 = p; the root is a fresh unknown. p != 0 when it is the curve polynomial of an element (no 2-torsion)"""
        w, s = e.w, self.s
        p = s.fix(e, p)
        m = self.st(w)["sq"]
        for q, t, y in m:
            if same(e, s, p, q):
                return w.n(t), y
        yv = w.fresh("y%d" % len(m), None, None, ("fe", s))
        y = P.var(yv)
        nz = any(same(e, s, p, rhs(self.c, s, x)) for _, x in self.st(w)["dec"].values())
        t = w.atom("sq", P.key(p), ("sq", P.key(p)))
        m.append((p, t, y))
        if not nz:
            z = points.eqz(e, s, p)
            z = w.concretize(z, "root of zero") if isinstance(z, SV) else z
            if z:
                m[-1] = (p, 1, {})
                return 1, {}
        s.rules[yv] = (2, p)
        if not hasattr(w, "fenz"):
            w.fezero, w.fenz, w.fesub = [], [], {}
        w.fenz.append((s, y))
        return t, y


class CodecContracts:
    """from_bytes, to_bytes, is_odd / lexicographically_largest, sqrt of the base field"""

    def __init__(self, c, s):
        self.k = Codec(c, s)
        self.c, self.s = c, s
        T = s.name
        i = T.find("<")
        TI = T if i < 0 else T[:i] + "::" + T[i:]
        E = "<%s as halo2curves::serde::endian::EndianRepr>::" % T
        sg = "<%s as ff::PrimeField>::is_odd" % T if c.sgn == "parity" else TI + "::lexicographically_largest"
        self.m = {TI + "::from_bytes": self.dec, E + "from_bytes": self.dec, TI + "::to_bytes": self.enc, sg: self.sgn, "<%s as ff::Field>::sqrt" % T: self.sqrt}

    def __call__(self, e, fi, f):
        return self.m.get(norm_name(f["name"]))

    def arg(self, e, x):
        if isinstance(x, Ptr):
            return self.s.read(e, x.a, x.o).p
        a = Alloc(self.s.size, "tmp")
        e.store_val(a, 0, self.s.size, x)
        return self.s.read(e, a, 0).p

    def dec(self, e, f, a, dt):
        p = a[0]
        if isinstance(p, Agg):
            p, n = p.c[0][2], p.c[1][2]
            if not isinstance(n, int) or n < self.k.n:
                raise Unsupported("slice length %r" % (n,))
        if not isinstance(p, Ptr):
            raise Unsupported("byte string argument")
        ok, x = self.k.decode(e, [e.load(p.a, p.o + i, 1) for i in range(self.k.n)])
        ok = e.w.concretize(ok, "canonical") if isinstance(ok, SV) else ok
        if not ok:
            # the contract says nothing about the value
            x = P.var(e.w.fresh("unspec%d" % len(e.w.vars), None, None, ("fe", self.s)))
        return ct_option(e, dt, self.s, FE(self.s, x), ok)

    def enc(self, e, f, a, dt):
        return Agg([(i, 1, b) for i, b in enumerate(self.k.encode(e, self.arg(e, a[0])))], self.k.n)

    def sgn(self, e, f, a, dt):
        return self.k.sign(e, self.arg(e, a[0]))

    def sqrt(self, e, f, a, dt):
        t, y = self.k.square(e, self.arg(e, a[0]))
        t = e.w.concretize(t, "square") if isinstance(t, SV) else t
        return ct_option(e, dt, self.s, FE(self.s, y if t else {}), t)


def obligations(c, prog, tag="C13"):
    B = Points(c, prog, tag)
    ft = {"extra": 2, "two": 2, "three": 3}[c.flags]
    pos, mc, mi, ms = c.flagpos()

    def add(n, spec, byt=None, related=False):
        o = B.ob(n, None, related)
        if o is None:
            return
        s = o.sorts[c.fty]
        cc = CodecContracts(c, s)
        o.contracts = [cc] + o.contracts
        if byt is not None:
            o.sorts["[u8; %d]" % byt.n] = byt
        run0 = o.spec

        def run(cx, a, r):
            if not hasattr(cx.w, "fezero"):
                cx.w.fezero, cx.w.fenz, cx.w.fesub = [], [], {}
            spec(cx, s, cc.k, cx.e.user.get("pts"), a, r)
        o.spec = run
        o.cost = 5

    def conc(cx, b):
        return cx.w.concretize(b) if isinstance(b, SV) else int(b)

    def compressed(byt):
        def spec(cx, s, k, pl, a, r):
            e, fl = cx.e, byt.flags
            bs = list(a[0])
            ok = 1 if not mc or fl & mc else 0
            if c.flags == "extra":
                ok = ok and conc(cx, cx.w.eqz(byt.low))
                bs = bs[1:]
            else:
                bs[pos] = byt.low
            idn, sg = int(bool(fl & mi)), int(bool(fl & ms))
            can, x = k.decode(e, bs)
            can = conc(cx, can)
            want = None
            if ok and can:
                if idn:
                    z = points.eqz(e, s, s.fix(e, x))
                    if conc(cx, z) and not sg:
                        want = "identity"
                else:
                    t, y = k.square(e, rhs(c, s, s.fix(e, x)))
                    if conc(cx, t):
                        want = "point"
            st = "flags %02x extra-or-compressed-ok %s canonical %s" % (fl, ok, can)
            if want is None:
                cx.put("rejects-invalid", r is None, st)
                return
            cx.put("accepts-valid", r is not None, st + " " + want)
            if r is None:
                return
            g = [q.p for q in r[1]]
            if want == "identity":
                if len(g) == 2:
                    points.is_aff(cx, s, r[1], None)
                else:
                    points.is_rep(cx, s, c, points.Plan(False), r[1], None)
                return
            if len(g) == 3:
                points.must_zero(cx, s, "Z-one", s.sub_(g[2], {(): 1}))
            x = s.fix(e, x)
            points.must_zero(cx, s, "abscissa", s.sub_(g[0], x))
            points.must_zero(cx, s, "on-curve", s.sub_(s.mul(g[1], g[1]), rhs(c, s, x)))
            cx.put("sign-of-ordinate", conc(cx, k.sign(e, g[1])) == sg)
        return spec

    for n in ("a_from_bytes", "a_from_bytes_u", "p_from_bytes", "p_from_bytes_u"):
        b = Bytes(c.nc, pos, ft)
        add(n, compressed(b), b)

    def enc(cx, s, k, pl, a, r):
        e = cx.e
        pt = pl.pts[0]
        x = {} if pt is None else pt[0]
        want = list(k.encode(e, x))
        if c.flags == "extra":
            want = [0] + want
        fl = mc
        if pt is None:
            fl |= mi
        elif conc(cx, k.sign(e, pt[1])):
            fl |= ms
        cx.put("width", len(r) == len(want))
        for i, (g, b) in enumerate(zip(r, want)):
            b = cx.w.add(b, fl) if i == pos else b
            d = cx.w.norm(P.sub(Ctx.poly(cx.w.n(g)), Ctx.poly(cx.w.n(b))))
            if d:
                cx.zero("byte-%d" % i, d)
            else:
                cx.put("byte-%d" % i, True)
    for n in ("a_to_bytes", "p_to_bytes"):
        add(n, enc, Bytes(c.nc))

    def unc(check):
        def spec(cx, s, k, pl, a, r):
            e = cx.e
            bs = list(a[0])
            (c1, x), (c2, y) = k.decode(e, bs[:c.nf]), k.decode(e, bs[c.nf:])
            if not conc(cx, c1) or not conc(cx, c2):
                cx.put("rejects-noncanonical", r is None)
                return
            x, y = s.fix(e, x), s.fix(e, y)
            if check:
                points.accepts(cx, s, int(r is not None), points.curve_poly(c, s, x, y), [x, y], 1)
            else:
                cx.put("accepts-canonical", r is not None)
            if r is not None:
                for m, g, w in zip("xy", r[1], (x, y)):
                    points.must_zero(cx, s, m, s.sub_(g.p, w))
        return spec
    add("from_unc", unc(True), Bytes(2 * c.nf))
    add("from_unc_u", unc(False), Bytes(2 * c.nf))

    def tounc(cx, s, k, pl, a, r):
        pt = pl.pts[0]
        want = k.encode(cx.e, {} if pt is None else pt[0]) + k.encode(cx.e, {} if pt is None else pt[1])
        cx.put("width", len(r) == len(want))
        for i, (g, b) in enumerate(zip(r, want)):
            d = cx.w.norm(P.sub(Ctx.poly(cx.w.n(g)), Ctx.poly(cx.w.n(b))))
            if d:
                cx.zero("byte-%d" % i, d)
            else:
                cx.put("byte-%d" % i, True)
    add("to_unc", tounc, Bytes(2 * c.nf))
    return ptoracle.attach(c, B.out + raw(c, prog, tag))


# ---------------------------------------------------------------- raw forms
def raw(c, prog, tag):
    out = []
    f = c.field

    def leaves(v):
        if hasattr(v, "limbs"):
            return [v]
        return [x for y in v for x in leaves(y)]

    def chunks(bs, n):
        sz = f.size
        return [bytes_val([bs[i * sz + j] for j in range(sz)]) for i in range(n)]

    def words(bs):
        return [[Ctx.poly(x) for x in bs.words[i:i + f.n]] for i in range(0, len(bs.words), f.n)]

    def ob(n, spec, **kw):
        root = "%s::%s" % (c.mod, n)
        if root not in prog.roots:
            return
        s = base_sort(c)
        leaf = s if c.deg == 1 else s.subsort
        leaf.limb_ok = True

        def setup(e):
            if c.deg == 2:
                towers.symbols(e)
            s.rules = dict(s.base_rules)

        def run(cx, a, r):
            if not hasattr(cx.w, "fezero"):
                cx.w.fezero, cx.w.fenz, cx.w.fesub = [], [], {}
            spec(cx, s, a, r)
        o = Obligation("%s/%s/%s" % (tag, c.mod, n), root, run, sorts=lsort(f), contracts=[s.contracts()], setup=setup, user={"fe_eqz": points.eqz}, **kw)
        o.cost = 5
        out.append(o)

    def enc(cx, s, a, r):
        ls = leaves(a[0])
        cx.put("width", len(r) == len(ls) * f.size)
        for i, (l, b) in enumerate(zip(ls, chunks(r, len(ls)))):
            cx.zero("coordinate-%d" % i, P.sub(b, l.val()))
    for k in "pa":
        ob(k + "_to_raw", enc)
        ob(k + "_write_raw", enc)

    def dec(k, check):
        nco = 3 if k == "p" else 2

        def spec(cx, s, a, r):
            ws = words(a[0])
            vals = []
            for x in ws:
                t = {}
                for i, l in enumerate(x):
                    t = P.add(t, P.scale(l, 1 << (64 * i)))
                vals.append(t)
            if not check:
                g = leaves(r)
                for i, (x, v) in enumerate(zip(g, vals)):
                    cx.zero("limbs-%d" % i, P.sub(x.val(), v))
                return
            # coordinates as field elements of the limb unknowns
            leaf = s if c.deg == 1 else s.subsort
            fe = [P.scale({m: x % f.p for m, x in v.items()}, leaf.rinv, f.p) for v in vals]
            if c.deg == 2:
                fe = [s.add(fe[2 * i], s.mul(fe[2 * i + 1], s.syms[1])) for i in range(nco)]
            if r is not None:
                for i, (x, v) in enumerate(zip(leaves(r[1]), vals)):
                    cx.zero("limbs-%d" % i, P.sub(x.val(), v))
                    cx.le("canonical-%d" % i, v, f.p - 1)
            eq = points.curve_poly(c, s, *fe)
            points.settle(cx)
            ex = fe[1:] if k == "p" else fe
            ks = [known(cx, s, q) for q in ex]
            exc = all(x == "zero" for x in ks)
            acc = (0 if k == "p" else 1) if exc else {"zero": 1, "nonzero": 0}.get(known(cx, s, eq))
            if r is not None:
                cx.put("accepts-only-points", acc == 1, "equation %r, exceptional tests %r" % (known(cx, s, eq), ks))
                return
            if acc == 0:
                cx.put("rejects-off-curve", True)
                return
            # rejected although not known to be off the curve: some coordinate is not below the modulus
            bad = [i for i, v in enumerate(vals) if cx.lin().entails_ge(v, f.p)[0] is True]
            cx.put("rejects-only-invalid", bool(bad), "equation %r, exceptional tests %r" % (known(cx, s, eq), ks))
        return spec
    for k in "pa":
        for n in ("_from_raw", "_read_raw"):
            ob(k + n, dec(k, True))
        for n in ("_from_raw_u", "_read_raw_u"):
            ob(k + n, dec(k, False))
        ob(k + "_from_raw_short", lambda cx, s, a, r: cx.put("wrong-width-rejected", r is None))
    return out
