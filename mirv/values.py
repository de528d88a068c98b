"""Typed construction of symbolic arguments and decoding of results."""
from .core import Agg, Alloc, Ptr, Part
from .world import SV, Unsupported
from . import poly as P


class LimbField:
    """a prime-field element as its machine limbs"""
    __slots__ = ("limbs",)

    def __init__(self, limbs):
        self.limbs = limbs

    def val(self):
        t = {}
        for i, l in enumerate(self.limbs):
            t = P.add(t, P.scale(l.p if isinstance(l, SV) else P.const(l), 1 << (64 * i)))
        return t

    def agg(self):
        return Agg([(8 * i, 8, l) for i, l in enumerate(self.limbs)], 8 * len(self.limbs))


class ByteArr:
    """symbolic [u8; n] (n a multiple of 8) held as 64-bit words"""

    def __init__(self, e, words):
        self.e, self.words = e, words

    def __len__(self):
        return 8 * len(self.words)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return [self[j] for j in range(*i.indices(len(self)))]
        if i < 0:
            i += len(self)
        w = self.e.w
        return w.trunc(w.shr(w.n(self.words[i // 8]), 8 * (i % 8)), 8)

    def __iter__(self):
        return iter([self[i] for i in range(len(self))])

    def be(self):
        return self.le([self.e.w.bswap(x, 8) for x in reversed(self.words)])

    def le(self, words=None):
        t = {}
        for i, x in enumerate(words or self.words):
            x = self.e.w.n(x)
            t = P.add(t, P.scale(x.p if isinstance(x, SV) else P.const(x), 1 << (64 * i)))
        return t


class Codec:
    """sorts: {type name: handler}; handler has fresh(engine, name), read(engine, alloc, off), image(value)"""

    def __init__(self, e, sorts=None):
        self.e = e
        self.sorts = sorts or {}

    def ty(self, t):
        return self.e.prog.ty[t]

    def fresh(self, t, name):
        """-> (engine value, python view)"""
        t = self.ty(t) if isinstance(t, int) else t
        w = self.e.w
        h = self.sorts.get(t["name"])
        if h:
            v = h.fresh(self.e, name)
            return h.image(v), v
        if t["name"] == "bool":
            v = w.var(name, 0, 1)
            return v, v
        if t.get("bits") and t["k"] == "uint":
            v = w.var(name, 0, (1 << t["bits"]) - 1)
            return v, v
        if t["k"] == "array":
            el = self.ty(t["el"])
            cells, vs = [], []
            if el["name"] == "u8" and t["n"] % 8 == 0 and t["n"] and not getattr(self, "plain", False):
                ws = [w.var("%s_w%d" % (name, i), 0, (1 << 64) - 1) for i in range(t["n"] // 8)]
                return Agg([(8 * i, 8, x) for i, x in enumerate(ws)], t["size"]), ByteArr(self.e, ws)
            for i in range(t["n"]):
                x, v = self.fresh(el, "%s_%d" % (name, i))
                vs.append(v)
                o = i * self.e.stride(el)
                if isinstance(x, Agg):
                    cells += [(o + a, b, c) for a, b, c in x.c]
                else:
                    cells.append((o, el["size"], x))
            return Agg(cells, t["size"]), vs
        if t["k"] in ("tuple",) or (t["k"] == "adt" and t["adt"] == "struct"):
            fs = t.get("fs")
            if fs is None:
                fs = [x[1] for x in t["vars"][0][2]]
            cells, vs = [], []
            for i, ft in enumerate(fs):
                el = self.ty(ft)
                if el.get("size", 0) == 0:
                    continue
                x, v = self.fresh(el, "%s_%d" % (name, i))
                vs.append(v)
                o = t["offs"][i]
                if isinstance(x, Agg):
                    cells += [(o + a, b, c) for a, b, c in x.c]
                else:
                    cells.append((o, el["size"], x))
            return Agg(cells, t["size"]), vs
        if t["k"] == "ptr" and not t.get("fat"):
            el = self.ty(t["to"])
            x, v = self.fresh(el, name)
            return self.e.box(x, el["size"]), v
        raise Unsupported("symbolic argument of type " + t["name"])

    def decode(self, t, v):
        t = self.ty(t) if isinstance(t, int) else t
        if t.get("size", 0) == 0:
            return ()
        a = Alloc(t["size"], "decode")
        self.e.store_val(a, 0, t["size"], v)
        return self.read(t, a, 0)

    def read(self, t, a, o):
        e = self.e
        t = self.ty(t) if isinstance(t, int) else t
        h = self.sorts.get(t["name"])
        if h:
            return h.read(e, a, o)
        if t.get("size", 0) == 0:
            return ()
        if t["scalar"]:
            if t["k"] == "ptr":
                p = e.load(a, o, 8)
                return self.read(t["to"], p.a, p.o)
            return e.w.n(e.load(a, o, t["size"]))
        if t["k"] == "array":
            el = self.ty(t["el"])
            return [self.read(el, a, o + i * e.stride(el)) for i in range(t["n"])]
        if t["k"] == "tuple":
            return tuple(self.read(x, a, o + t["offs"][i]) for i, x in enumerate(t["fs"]))
        if t["k"] == "adt":
            if t.get("def") == "std::vec::Vec":
                el = self.ty(t["targs"][0])
                n = e.load(a, o + t["offs"][1], 8)
                if isinstance(n, SV):
                    n = e.w.concretize(n)
                if n == 0:
                    return []
                p = None
                for co, cs, cv in e.image(a, o, t["size"]).c:
                    if isinstance(cv, Ptr):
                        p = cv
                return [self.read(el, p.a, p.o + i * e.stride(el)) for i in range(n)]
            if t["adt"] == "enum":
                d = e.discr_at(a, o, t)
                if isinstance(d, SV):
                    d = e.w.concretize(d, "discriminant")
                g = t.get("tag")
                for vi, (vn, dv, fs) in enumerate(t["vars"]):
                    if int(dv) == d:
                        if t["def"] == "std::cmp::Ordering":
                            return {255: -1, 0: 0, 1: 1}[d]
                        if not fs:
                            return None if vn == "None" else (vn,)
                        vo = g["voffs"][vi] if g else t["offs"]
                        vals = [self.read(ft, a, o + vo[i]) for i, (_, ft) in enumerate(fs)]
                        return (vn,) + tuple(vals)
                raise Unsupported("discriminant %r of %s" % (d, t["name"]))
            fs = t["vars"][0][2]
            vals = [self.read(ft, a, o + t["offs"][i]) for i, (_, ft) in enumerate(fs)]
            vals = [x for x in vals if x != ()]
            return vals[0] if len(vals) == 1 else tuple(vals)
        raise Unsupported("decoding " + t["name"])


class LimbSort:
    """limb-level view of a prime field"""

    def __init__(self, name, p, n):
        self.name, self.p, self.n = name, p, n

    def fresh(self, e, name):
        w = e.w
        f = LimbField([w.var("%s_%d" % (name, i), 0, (1 << 64) - 1) for i in range(self.n)])
        w.facts.append((f.val(), 0, self.p - 1))
        return f

    def read(self, e, a, o):
        return LimbField([e.w.n(e.load(a, o + 8 * i, 8)) for i in range(self.n)])

    def image(self, f):
        return f.agg()
