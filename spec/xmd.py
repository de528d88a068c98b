"""C17: from (domain prefix, message) to the curve, for every prefix and message.

The hash function is uninterpreted: a digest is 32 unknown bytes that depend only on the sequence of bytes and opaque strings fed to
it.  The two field elements and the combination of the mapped points are compared with RFC 9380 over these; the map itself is an
unknown function here (maps.py decides it)."""
import re
from mirv import poly as P
from mirv.core import Agg, Alloc, Ptr
from mirv.oblig import Obligation
from mirv.sorts import FE, norm_name
from mirv.world import SV, Unsupported
from . import algos, h2c, points, towers
from .ecref import CBY
from .maps import Capture, MapContracts
from .points import base_sort


def leaves(prog, t, path="", off=0):
    """(path, offset, type) of the scalar leaves of a struct"""
    t = prog.ty[t] if isinstance(t, int) else t
    if t["k"] == "adt" and t["adt"] == "struct":
        for i, f in enumerate(t["vars"][0][2]):
            yield from leaves(prog, f[1], path + "." + str(f[0]), off + t["offs"][i])
    elif t.get("size"):
        yield path, off, t


def field(prog, t, pat):
    c = [(o, x) for p, o, x in leaves(prog, t) if re.search(pat, p)]
    if len(c) != 1:
        raise Unsupported("layout of " + (prog.ty[t] if isinstance(t, int) else t)["name"])
    return c[0]


class Opaque:
    """Vec<u8> or String of arbitrary content and symbolic length"""

    def __init__(self, prog, name, hi):
        self.prog, self.name, self.hi = prog, name, hi
        self.ty = next((t for t in (prog.ty.values() if isinstance(prog.ty, dict) else prog.ty) if t["name"] == name), None)

    def fresh(self, e, name):
        n = e.w.var(name + "_len", 0, self.hi)
        a = Alloc(1 << 40, "opaque")
        e.user.setdefault("opaque", {})[a.id] = (name, n)
        return name, n, a

    def image(self, v):
        name, n, a = v
        p = self.prog
        cells = [(field(p, self.ty, r"\.len$")[0], 8, n), (field(p, self.ty, r"pointer$|ptr\.\w*\.?0?$")[0], 8, Ptr(a, 0)), (field(p, self.ty, r"cap")[0], 8, n)]
        return Agg(cells, self.ty["size"])


class Sha:
    """the digest as an uninterpreted function of what it was fed"""

    def __init__(self, c, prog):
        self.c, self.prog = c, prog
        self.rx = re.compile(r"(?:Digest|Update|FixedOutput|OutputSizeUser|BlockSizeUser|Default|Clone|Reset)>::(new|new_with_prefix|update|chain_update|chain|finalize|finalize_fixed|finalize_reset|digest|output_size|block_size|default|clone)(?:::<.*>)?$")

    def __call__(self, e, fi, f):
        n = norm_name(f["name"])
        if not n.startswith("<digest::core_api::") or "sha2::core_api::Sha256VarCore" not in n or "OidSha256" not in n:
            return None
        m = self.rx.search(n)
        if not m:
            return None
        h = getattr(self, "c_" + m.group(1))
        return lambda e, f, a, dt: h(e, f, a, dt)

    # states
    def state(self, e, toks):
        m = e.user.setdefault("sha", [])
        m.append(tuple(toks))
        return len(m)

    def put(self, e, dt, toks):
        return Agg([(0, 8, self.state(e, toks))], dt["size"])

    def get(self, e, x):
        i = e.load(x.a, x.o, 8) if isinstance(x, Ptr) else next((v for o, n, v in x.c if o == 0), None)
        if not isinstance(i, int) or not 0 < i <= len(e.user.get("sha", ())):
            raise Unsupported("digest state")
        return e.user["sha"][i - 1]

    def tokens(self, e, f, i, x):
        """what is fed: bytes, or an opaque string"""
        t = self.prog.ty[f["locals"][i]]
        return self.toks(e, t, x)

    def toks(self, e, t, x):
        w = e.w
        if t["k"] == "ptr" and t.get("fat"):
            p, n = x.c[0][2], x.c[1][2]
            return self.slice(e, p, n)
        if t["k"] == "ptr":
            to = self.prog.ty[t["to"]]
            return self.toks(e, to, e.load_val(x.a, x.o, to["size"]) if hasattr(e, "load_val") else e.image(x.a, x.o, to["size"]))
        if t["k"] == "array" or "GenericArray<u8" in t["name"].split("(")[0][:60]:
            a = Alloc(t["size"], "tmp")
            e.store_val(a, 0, t["size"], x)
            return self.slice(e, Ptr(a, 0), t["size"])
        if re.match(r"^(std::vec::Vec<u8>|std::string::String)$", t["name"]):
            c = {o: v for o, n, v in x.c}
            return self.slice(e, c[field(self.prog, t, r"pointer$|ptr\.\w*\.?0?$")[0]], c[field(self.prog, t, r"\.len$")[0]])
        raise Unsupported("digest input " + t["name"])

    def slice(self, e, p, n):
        w = e.w
        n = w.n(n)
        if isinstance(p, Ptr) and p.a.id in e.user.get("opaque", {}):
            name, ln = e.user["opaque"][p.a.id]
            ln = w.n(ln)
            if p.o != 0 or not (n == ln if not isinstance(n, SV) or not isinstance(ln, SV) else P.key(n.p) == P.key(ln.p)):
                raise Unsupported("part of an arbitrary string")
            return [("str", name)]
        if isinstance(n, SV):
            raise Unsupported("digest input of symbolic length")
        return [w.n(e.load(p.a, p.o + i, 1)) for i in range(n)]

    def value(self, e, toks):
        w = e.w
        k = tuple(t if not isinstance(t, SV) else ("sv", P.key(t.p)) for t in (w.n(t) if not isinstance(t, tuple) else t for t in toks))
        m = e.user.setdefault("digests", {})
        if k not in m:
            m[k] = [w.var("H%d_%d" % (len(m), i), 0, 255) for i in range(32)]
        return m[k]

    def out(self, e, dt, toks):
        return Agg([(i, 1, v) for i, v in enumerate(self.value(e, toks))], dt["size"])

    # contracts
    def c_new(self, e, f, a, dt):
        return self.put(e, dt, [])

    c_default = c_new

    def c_new_with_prefix(self, e, f, a, dt):
        return self.put(e, dt, self.tokens(e, f, 1, a[0]))

    def c_clone(self, e, f, a, dt):
        return self.put(e, dt, self.get(e, a[0]))

    def c_update(self, e, f, a, dt):
        t = list(self.get(e, a[0])) + self.tokens(e, f, 2, a[1])
        e.store_val(a[0].a, a[0].o, 8, self.state(e, t))
        return Agg([], 0)

    def c_chain_update(self, e, f, a, dt):
        return self.put(e, dt, list(self.get(e, a[0])) + self.tokens(e, f, 2, a[1]))

    c_chain = c_chain_update

    def c_finalize(self, e, f, a, dt):
        return self.out(e, dt, self.get(e, a[0]))

    c_finalize_fixed = c_finalize

    def c_finalize_reset(self, e, f, a, dt):
        r = self.out(e, dt, self.get(e, a[0]))
        e.store_val(a[0].a, a[0].o, 8, self.state(e, []))
        return r

    def c_digest(self, e, f, a, dt):
        return self.out(e, dt, self.tokens(e, f, 1, a[0]))

    def c_output_size(self, e, f, a, dt):
        return 32

    def c_block_size(self, e, f, a, dt):
        return 64


class Others:
    """uniform bytes to base field (C07), the map of the suite as an unknown function, the hook switched off"""

    def __init__(self, c, s, ps):
        self.c, self.s, self.ps = c, s, ps
        self.uni = re.compile(r"^<%s as ff::FromUniformBytes<(\d+)(?:usize)?>>::from_uniform_bytes$" % re.escape(c.fty))
        self.hook = "halo2curves::hash_to_curve::mirv_hooks::field_elements<%s>" % c.fty

    def __call__(self, e, fi, f):
        n = norm_name(f["name"])
        if n.replace("::<", "<") == self.hook:
            return self.nohook
        if self.uni.match(n):
            return self.uniform
        if "locals" not in f:
            return None
        t = [e.prog.ty[x]["name"] for x in f["locals"][:f["args"] + 1]]
        if t[0] == self.c.pty and "hash_to_curve" in n and "hash_to_curve" not in n.rsplit("::", 1)[-1] and t[1:].count(self.c.fty) == 1 and len(t) <= 3 and t[-1] == self.c.fty:
            return self.map
        return None

    def nohook(self, e, f, a, dt):
        t = dt["tag"]
        return Agg([(t["off"], t["bits"] // 8, e.tagval(dt, 0))], dt["size"])

    def uniform(self, e, f, a, dt):
        n = e.prog.ty[e.prog.ty[f["locals"][1]]["to"]]["size"]
        bs = [e.w.n(e.load(a[0].a, a[0].o + i, 1)) for i in range(n)]
        return self.s.image(FE(self.s, le(self.c, self.s, bs)))

    def map(self, e, f, a, dt):
        x = a[-1]
        t = Alloc(self.s.size, "tmp")
        e.store_val(t, 0, self.s.size, x)
        p = self.s.fix(e, self.s.red(self.s.read(e, t, 0).p))
        m = e.user.setdefault("mapped", {})
        k = P.key(p)
        if k not in m:
            v = tuple(FE(self.ps.s, P.var(e.w.fresh("map%d%s" % (len(m), q), None, None, ("fe", self.ps.s)))) for q in "xyz")
            m[k] = v
        return self.ps.image(m[k])


def poly(x):
    return x.p if isinstance(x, SV) else ({(): x} if x else {})


def le(c, s, bs):
    """the field element of uniform bytes; in an extension the two halves, each little-endian, upper half first"""
    def one(b):
        r = {}
        for i, x in enumerate(b):
            r = P.add(r, P.scale(poly(x), 1 << (8 * i)) if hasattr(P, "scale") else P.mul(poly(x), {(): 1 << (8 * i)}))
        return s.red(r) if hasattr(s, "red") else r
    if c.deg == 1:
        return one(bs)
    h = len(bs) // 2
    return s.add(one(bs[h:]), s.mul(one(bs[:h]), P.var(towers.U)))


def reference(e, sha, prefix, msg, dom, L, n, plen):
    """expand_message_xmd over the same unknown digests; n bytes"""
    w = e.w
    H = lambda t: sha.value(e, t)
    dp = [("str", prefix)] + list(dom) + [w.add(plen, len(dom))]
    b0 = H([0] * 64 + [("str", msg)] + [n >> 8, n & 255, 0] + dp)
    b = [H(b0 + [1] + dp)]
    for i in range(2, -(-n // 32) + 1):
        b.append(H([w.bitop("xor", x, y, 8) for x, y in zip(b0, b[-1])] + [i] + dp))
    return [x for y in b for x in y][:n]


def to_curve(c, prog):
    s = base_sort(c)
    s.reset = lambda: None
    ps = points.PtSort(c, s, "p", False, prog)
    dom, L = h2c.SUITES[c.mod]
    sha = Sha(c, prog)
    con = MapContracts(c, s)
    oth = Others(c, s, ps)

    def setup(e):
        if c.deg == 2:
            towers.symbols(e)
        s.rules = dict(s.base_rules)
        e.w.fezero, e.w.fenz, e.w.fesub = [], [], {}
        con.k.u = None

    def spec(cx, a, r):
        e, w = cx.e, cx.w
        (pn, plen, _), (mn, mlen, _) = a
        n = 2 * c.deg * L
        out = reference(e, sha, pn, mn, dom, L, n, plen)
        sums = e.user.get("sums", [])
        cx.put("one-sum", len(sums) == 1)
        if len(sums) != 1:
            return
        m = e.user.get("mapped", {})
        for i in (0, 1):
            bs = out[i * c.deg * L:(i + 1) * c.deg * L]
            u = s.fix(e, s.red(le(c, s, bs[::-1])))
            cx.put("element-%d" % i, P.key(u) in m, "the elements mapped differ from hash_to_field")
            if P.key(u) in m:
                cx.put("summand-%d" % i, sums[0][i] == m[P.key(u)] or sums[0][1 - i] == m[P.key(u)])
        last = "cleared-sum1" if c.mod in h2c.CLEARED else "sum1"
        tk = e.user["tokens"]
        cx.put("result", last in tk and tuple(r) == tk[last])

    o = Obligation("C17/%s/hash-to-curve" % c.mod, "h_%s::hash" % c.mod, spec,
                   sorts={"std::string::String": Opaque(prog, "std::string::String", 255 - len(dom)), "std::vec::Vec<u8>": Opaque(prog, "std::vec::Vec<u8>", 1 << 32), c.fty: s, c.pty: ps},
                   contracts=[sha, oth, Capture(c, ps), con, s.contracts()], setup=setup, user={"fe_eqz": con.k.eqz})
    b = next(x for x in algos.c17(prog) if x.name == "C17/%s/hash" % c.mod)
    o.oracle, o.gen, o.search_n = b.oracle, b.gen, 100
    return o


def obligations(prog):
    return [to_curve(CBY[m], prog) for m in h2c.SUITES]
