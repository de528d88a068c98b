"""MIR program loader and symbolic executor."""
import json
import re
from .world import World, SV, Unsupported, PanicPath, Infeasible
from . import poly as P


class Ptr:
    __slots__ = ("a", "o")

    def __init__(self, a, o):
        self.a = a
        self.o = o

    def __repr__(self):
        return "Ptr(%s+%s)" % (self.a.name or self.a.id, self.o)

    def __eq__(self, x):
        return isinstance(x, Ptr) and x.a is self.a and x.o == self.o

    def __hash__(self):
        return hash((id(self.a), self.o))


class FnPtr:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def __repr__(self):
        return "FnPtr(%d)" % self.f

    def __eq__(self, x):
        return isinstance(x, FnPtr) and x.f == self.f

    def __hash__(self):
        return hash(self.f)


class Part:
    """machine word i (of n) of an abstract object"""
    __slots__ = ("obj", "kind", "i")

    def __init__(self, obj, kind, i):
        self.obj = obj
        self.kind = kind
        self.i = i

    def __repr__(self):
        return "Part(%r,%s,%d)" % (self.obj, self.kind, self.i)

    def __eq__(self, x):
        return isinstance(x, Part) and self.kind == x.kind and self.i == x.i and (self.obj is x.obj or self.obj == x.obj)

    def __hash__(self):
        return hash((self.kind, self.i))


class Agg:
    """memory image: list of (offset, size, value)"""
    __slots__ = ("c", "size")

    def __init__(self, c, size):
        self.c = c
        self.size = size

    def __repr__(self):
        return "Agg(%d,%r)" % (self.size, self.c[:4])


class Alloc:
    __slots__ = ("id", "size", "cells", "name", "align", "dead")
    N = 0

    def __init__(self, size, name=None, align=16):
        Alloc.N += 1
        self.id = Alloc.N
        self.size = size
        self.cells = {}
        self.name = name
        self.align = align
        self.dead = False


BASE = 1 << 44


def rootname(n):
    """`crate::module::[file::]name` -> `module::name`"""
    return "::".join(n.split("::")[-2:])


_reexp = re.compile(r"\b(?:(?:halo2curves|group|pairing|ff)::)+(?=(?:group|ff|pairing|subtle|rand_core)::)")


def canon_name(nm):
    """one spelling for items reachable through re-exports of their crate"""
    return _reexp.sub("", nm)


class Program:
    def __init__(self, path):
        self.fl = {}
        self.fcache = {}
        self.ty = {}
        self.al = {}
        self.roots = {}
        self.names = {}
        rx = re.compile(r'^\{"f":(\d+),"name":("(?:[^"\\]|\\.)*"),"sym":')
        with open(path) as f:
            for l in f:
                if l.startswith('{"t":'):
                    o = json.loads(l)
                    self.ty[o["t"]] = o
                elif l.startswith('{"f":'):
                    m = rx.match(l)
                    i = int(m.group(1))
                    self.fl[i] = l
                    self.names[i] = canon_name(json.loads(m.group(2)))
                elif l.startswith('{"a":'):
                    o = json.loads(l)
                    self.al[o["a"]] = o
                elif l.startswith('{"roots":'):
                    for n, i in json.loads(l)["roots"]:
                        self.roots[rootname(n)] = i
        for t in self.ty.values():
            self.prep(t)

    def by_name(self, n):
        if not hasattr(self, "tyname"):
            self.tyname = {}
            for t in self.ty.values():
                self.tyname.setdefault(t["name"], t)
        if n not in self.tyname:
            raise Unsupported("no type " + n)
        return self.tyname[n]

    def prep(self, t):
        k = t["k"]
        if "bits" in t:
            t["scalar"] = True
        elif k == "ptr":
            t["fat"] = t["size"] == 16
            t["scalar"] = not t["fat"]
        elif k in ("fnptr", "float"):
            t["scalar"] = True
        else:
            t["scalar"] = False

    def fn(self, i):
        f = self.fcache.get(i)
        if f is None:
            f = json.loads(self.fl[i])
            nm = f["name"] = canon_name(f["name"])
            f["last"] = lastseg(nm)
            self.fcache[i] = f
        return f

    def find(self, rx):
        r = re.compile(rx)
        return [(i, n) for i, n in self.names.items() if r.search(n)]


def strip_generics(n):
    out = []
    d = 0
    i = 0
    while i < len(n):
        c = n[i]
        if c == "<":
            d += 1
        elif c == ">" and n[i - 1] != "-":
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return "".join(out)


def lastseg(n):
    """last path segment without generic arguments"""
    s = strip_generics(n)
    s = s.rstrip(":")
    return s.split("::")[-1]


class Frame:
    __slots__ = ("f", "loc", "args")

    def __init__(self, f):
        self.f = f
        self.loc = {}


PANICS = re.compile(
    r"^(core::panicking::|std::rt::panic|std::panicking::|core::slice::index::slice_|core::slice::.*fail|"
    r"std::option::(unwrap_failed|expect_failed)|std::result::unwrap_failed|alloc::raw_vec::(handle_error|capacity_overflow)|"
    r"std::alloc::handle_alloc_error|core::str::slice_error_fail|std::process::abort|core::num::from_ascii|"
    r"std::array::|core::array::.*panic|std::cell::panic|core::option::expect_failed)")


class Engine:
    def __init__(self, prog, world, contracts=None, trace=False):
        self.prog = prog
        self.w = world
        self.contracts = contracts or {}
        self.ccache = {}
        self.statics = {}
        self.steps = 0
        self.max_steps = 50_000_000
        self.depth = 0
        self.trace = trace
        self.used = {}  # contract name -> count
        self.visited = set()
        self.addrs = {}
        self.stack = []
        self.user = {}
        self.wlog = None  # allocations written since a loop head
        self.cuts = []
        self.cutmap = {}

    # ------------------------------------------------------------ memory
    def new_alloc(self, size, name=None, align=16):
        return Alloc(size, name, align)

    def addr(self, p):
        if isinstance(p, Ptr):
            return p.a.id * BASE + p.o
        return p

    def split_cell(self, a, o):
        """ensure no cell straddles offset o"""
        cells = a.cells
        for j in range(1, 16):
            c = cells.get(o - j)
            if c is not None:
                if c[1] > j:
                    del cells[o - j]
                    if isinstance(c[0], SV) and self.w.is_bswap(c[0], c[1]):
                        for i in range(c[1]):
                            cells[o - j + i] = (self.subcell(c[0], c[1], i, 1), 1)
                        return
                    lo = self.subcell(c[0], c[1], 0, j)
                    hi = self.subcell(c[0], c[1], j, c[1] - j)
                    cells[o - j] = (lo, j)
                    cells[o] = (hi, c[1] - j)
                return

    def subcell(self, v, size, off, n):
        if isinstance(v, int):
            return (v >> (8 * off)) & ((1 << (8 * n)) - 1)
        if isinstance(v, SV):
            return self.w.bytes_of(v, size, off, n)
        if isinstance(v, Part):
            return Part(v, "sub%d_%d_%d" % (size, off, n), 0)
        raise Unsupported("splitting a %s cell" % type(v).__name__)

    def clear(self, a, o, n):
        if self.wlog is not None:
            self.wlog.add(a)
        cells = a.cells
        c = cells.get(o)
        if c is not None and c[1] == n:
            del cells[o]
            return
        self.split_cell(a, o)
        self.split_cell(a, o + n)
        if n > 64 and len(cells) < n // 4:
            for k in [k for k in cells if o <= k < o + n]:
                del cells[k]
        else:
            k = o
            while k < o + n:
                c = cells.pop(k, None)
                k += c[1] if c else 1

    def bounds(self, a, o, n):
        if a.dead:
            raise PanicPath("use of freed memory (%s)" % (a.name,))
        if not isinstance(o, int):
            raise Unsupported("symbolic pointer offset")
        if o < 0 or o + n > a.size:
            raise PanicPath("out-of-bounds access at %s+%d (size %d, len %d)" % (a.name, o, a.size, n))

    def store(self, a, o, n, v):
        """store scalar v of n bytes"""
        self.bounds(a, o, n)
        if self.wlog is not None:
            self.wlog.add(a)
        c = a.cells.get(o)
        if c is None or c[1] != n:
            self.clear(a, o, n)
        a.cells[o] = (v, n)

    def store_val(self, a, o, n, v):
        if type(v) is Agg:
            if n == 0:
                return
            self.bounds(a, o, n)
            self.clear(a, o, n)
            cells = a.cells
            for co, cs, cv in v.c:
                cells[o + co] = (cv, cs)
        elif n:
            self.store(a, o, n, v)

    def load(self, a, o, n):
        """load a scalar of n bytes"""
        self.bounds(a, o, n)
        c = a.cells.get(o)
        if c is not None and c[1] == n:
            return c[0]
        return self.combine(a, o, n)

    def combine(self, a, o, n):
        self.split_cell(a, o)
        self.split_cell(a, o + n)
        parts = []
        k = o
        while k < o + n:
            c = a.cells.get(k)
            if c is None:
                raise Unsupported("read of uninitialised memory at %s+%d" % (a.name, k))
            parts.append((k - o, c[0], c[1]))
            k += c[1]
        if len(parts) == 1:
            return parts[0][1]
        if all(isinstance(v, int) for _, v, _ in parts):
            return sum(v << (8 * k) for k, v, _ in parts)
        if all(isinstance(v, (int, SV)) for _, v, _ in parts):
            w = self.w
            t = 0
            for k, v, s in parts:
                t = w.add(t, w.mul(v, 1 << (8 * k)))
            return t
        # parts of one split Part
        v0 = parts[0][1]
        if isinstance(v0, Part) and isinstance(v0.obj, Part):
            if all(isinstance(v, Part) and v.obj == v0.obj for _, v, _ in parts):
                ok = True
                for k, v, s in parts:
                    if v.kind != "sub%d_%d_%d" % (n, k, s):
                        ok = False
                if ok:
                    return v0.obj
        comb = self.user.get("combine")
        if comb:
            r = comb(self, parts, n)
            if r is not None:
                return r
        raise Unsupported("combining cells %r" % (parts[:3],))

    def image(self, a, o, n):
        """memory image of n bytes"""
        if n == 0:
            return Agg([], 0)
        self.bounds(a, o, n)
        cells = a.cells
        if o not in cells:
            self.split_cell(a, o)
        out = []
        k = o
        end = o + n
        while k < end:
            c = cells.get(k)
            if c is None:
                k += 1
                continue
            s = c[1]
            if k + s > end:
                self.split_cell(a, end)
                c = cells[k]
                s = c[1]
            out.append((k - o, s, c[0]))
            k += s
        return Agg(out, n)

    def load_ty(self, a, o, t):
        if t["scalar"]:
            return self.load(a, o, t["size"])
        return self.image(a, o, t["size"])

    # ------------------------------------------------------------ constants
    def alloc_of(self, i):
        a = self.statics.get(i)
        if a is not None:
            return a
        d = self.prog.al[i]
        if "alias" in d:
            a = self.alloc_of(d["alias"])
        elif "fn" in d:
            a = FnPtr(d["fn"])
        elif "mem" in d:
            a = self.new_alloc(len(d["mem"][0]) // 2, d.get("static") or "const%d" % i)
            self.fill(a, d["mem"], self.prog.ty.get(d.get("ty")) if "ty" in d else None)
        elif "typeid" in d:
            a = self.new_alloc(16, "typeid%d" % d["typeid"])
            a.cells[0] = (d["typeid"] * 0x10001, 16)
        else:
            raise Unsupported("static without initialiser %s" % d)
        self.statics[i] = a
        return a

    def fill(self, a, mem, ty=None):
        hx, prov = mem
        n = len(hx) // 2
        pr = {o: i for o, i in prov}
        k = 0
        while k < n:
            if k in pr:
                off = int.from_bytes(bytes.fromhex(hx[2 * k:2 * k + 16]), "little")
                t = self.alloc_of(pr[k])
                a.cells[k] = (t if isinstance(t, FnPtr) else Ptr(t, off), 8)
                k += 8
                continue
            if hx[2 * k] == "u":
                k += 1
                continue
            s = 8
            while s > 1 and (k % s or k + s > n or any(k + j in pr for j in range(1, s)) or "u" in hx[2 * k:2 * (k + s)]):
                s //= 2
            a.cells[k] = (int.from_bytes(bytes.fromhex(hx[2 * k:2 * (k + s)]), "little"), s)
            k += s

    def const(self, op):
        t = self.prog.ty[op[1]]
        if op[2] == 0:
            return Agg([], 0)
        key = id(op)
        if not op[2][1]:
            # no provenance: cacheable
            if len(op) > 3:
                return op[3]
            if t["scalar"] and "u" not in op[2][0]:
                v = int.from_bytes(bytes.fromhex(op[2][0]), "little")
                if t["k"] == "float":
                    import struct
                    v = struct.unpack("<d", bytes.fromhex(op[2][0]))[0]
                op.append(v)
                return v
        a = Alloc(len(op[2][0]) // 2)
        self.fill(a, op[2])
        if t["scalar"]:
            return self.load(a, 0, t["size"])
        v = self.image(a, 0, t["size"])
        if not op[2][1]:
            op.append(v)
        return v

    # ------------------------------------------------------------ places
    def local(self, fr, i):
        a = fr.loc.get(i)
        if a is None:
            t = self.prog.ty[fr.f["locals"][i]]
            a = Alloc(t.get("size", 0), "%s::_%d" % (fr.f["last"], i))
            fr.loc[i] = a
        return a

    def place(self, fr, pl):
        """-> (alloc, off, ty, meta)"""
        li, proj = pl
        a = self.local(fr, li)
        o = 0
        tyid = fr.f["locals"][li]
        T = self.prog.ty
        t = T[tyid]
        meta = None
        variant = None
        for e in proj:
            if e == "D":
                if t["k"] == "adt" and t.get("box"):
                    raise Unsupported("box deref")
                p = self.load(a, o, 8)
                if t.get("fat"):
                    meta = self.load(a, o + 8, 8)
                else:
                    meta = None
                t = T[t["to"]]
                if isinstance(p, Ptr):
                    a, o = p.a, p.o
                elif t.get("size") == 0 or isinstance(p, int):
                    a, o = self.intptr(p, t)
                else:
                    raise Unsupported("deref of %r" % (p,))
                variant = None
                continue
            k = e[0]
            if k == "F":
                if variant is not None and "tag" in t:
                    o += t["tag"]["voffs"][variant][e[1]]
                elif t["k"] == "adt" and t["adt"] == "union":
                    pass
                elif "offs" in t:
                    if t.get("unsized") and e[1] == len(t["offs"]) - 1 and meta is not None:
                        o = self.dst_field_off(t, T[e[2]], o, e[1], meta)
                    else:
                        o += t["offs"][e[1]]
                else:
                    raise Unsupported("field of %s" % t["name"])
                t = T[e[2]]
                variant = None
                if not t.get("unsized"):
                    meta = None
            elif k == "I":
                i = self.load(self.local(fr, e[1]), 0, 8)
                el = T[t["el"]]
                if isinstance(i, SV):
                    h = self.user.get("symindex")
                    r = h(self, a, o, t["n"] if t["k"] == "array" else meta, el, i) if h else None
                    if r is not None:
                        a, o = r
                        t, meta = el, None
                        continue
                    i = self.w.concretize(i, "index")
                o += i * self.stride(el)
                t = el
                meta = None
            elif k == "C":
                el = T[t["el"]]
                if e[3]:
                    n = t["n"] if t["k"] == "array" else meta
                    o += (n - e[1]) * self.stride(el)
                else:
                    o += e[1] * self.stride(el)
                t = el
                meta = None
            elif k == "S":
                el = T[t["el"]]
                if t["k"] == "slice":
                    to = meta - e[2] if e[3] else e[2]
                    o += e[1] * self.stride(el)
                    meta = to - e[1]
                else:
                    o += e[1] * self.stride(el)
            elif k == "V":
                variant = e[1]
            elif k == "O":
                t = T[e[1]]
            else:
                raise Unsupported("projection %s" % e)
        return a, o, t, meta, variant

    def dst_field_off(self, t, ft, o, idx, meta):
        # ArcInner<dyn ..> etc: align the tail field dynamically
        off = t["offs"][idx]
        if ft["k"] == "dyn":
            al = self.load(meta.a, meta.o + 16, 8)
            off = (off + al - 1) // al * al
        return o + off

    def stride(self, el):
        return el["size"]

    ZST = Alloc(0, "zst")

    def intptr(self, p, t):
        if t.get("size") == 0:
            return self.ZST, 0
        if isinstance(p, int):
            return Alloc(0, "dangling(%d)" % p), 0
        raise Unsupported("int pointer deref")

    def operand(self, fr, op):
        k = op[0]
        if k == "k":
            return self.const(op)
        if k == "c" or k == "m":
            pl = op[1]
            if not pl[1]:
                a = self.local(fr, pl[0])
                t = self.prog.ty[fr.f["locals"][pl[0]]]
                return self.load_ty(a, 0, t)
            a, o, t, meta, _ = self.place(fr, pl)
            return self.load_ty(a, o, t)
        if k == "rc":
            return 0
        raise Unsupported("operand %s" % (op[:2],))

    def optype(self, fr, op):
        k = op[0]
        T = self.prog.ty
        if k == "k":
            return T[op[1]]
        if k in ("c", "m"):
            pl = op[1]
            t = T[fr.f["locals"][pl[0]]]
            return self.proj_ty(t, pl[1])
        return {"k": "uint", "bits": 8, "size": 1, "scalar": True, "bool": 1, "name": "bool"}

    def proj_ty(self, t, proj):
        T = self.prog.ty
        for e in proj:
            if e == "D":
                t = T[t["to"]]
            elif e[0] == "F":
                t = T[e[2]]
            elif e[0] in ("I", "C"):
                t = T[t["el"]]
            elif e[0] == "O":
                t = T[e[1]]
        return t

    def write_place(self, fr, pl, v):
        if not pl[1]:
            a = self.local(fr, pl[0])
            t = self.prog.ty[fr.f["locals"][pl[0]]]
            self.store_val(a, 0, t.get("size", 0), v)
            return
        a, o, t, meta, _ = self.place(fr, pl)
        self.store_val(a, o, t["size"], v)

    # ------------------------------------------------------------ rvalues
    def rvalue(self, fr, r, dt):
        k = r[0]
        if k == "use":
            return self.operand(fr, r[1])
        if k == "bin":
            return self.binop(fr, r[1], r[2], r[3])
        if k == "ref":
            a, o, t, meta, _ = self.place(fr, r[1])
            p = Ptr(a, o)
            if dt.get("fat"):
                return Agg([(0, 8, p), (8, 8, meta)], 16)
            return p
        if k == "cast":
            return self.cast(fr, r[1], r[2], self.prog.ty[r[3]])
        if k == "agg":
            return self.aggregate(fr, r)
        if k == "cbin":
            return self.checked(r[1], self.operand(fr, r[2]), self.operand(fr, r[3]), self.optype(fr, r[2]))
        if k == "un":
            x = self.operand(fr, r[2])
            t = self.optype(fr, r[2])
            if r[1] == "PtrMetadata":
                if isinstance(x, Agg):
                    for co, cs, cv in x.c:
                        if co == 8:
                            return cv
                return Agg([], 0)
            if r[1] == "Not":
                if t.get("bool"):
                    return self.w.sub(1, x)
                return self.w.sub((1 << t["bits"]) - 1, x)
            if r[1] == "Neg":
                if t["k"] == "float":
                    return -x
                s = self.easy_signed(x, t["bits"])
                return self.simage(self.w.sub(0, x if s is None else s), t["bits"])
            raise Unsupported("unop " + r[1])
        if k == "discr":
            return self.discr(fr, r[1])
        if k == "len":
            a, o, t, meta, _ = self.place(fr, r[1])
            return t["n"] if t["k"] == "array" else meta
        if k == "rep":
            x = self.operand(fr, r[1])
            t = self.optype(fr, r[1])
            s = t["size"]
            n = r[2]
            if isinstance(x, Agg):
                return Agg([(i * s + co, cs, cv) for i in range(n) for co, cs, cv in x.c], n * s)
            if s == 0:
                return Agg([], 0)
            return Agg([(i * s, s, x) for i in range(n)], n * s)
        if k == "unsize":
            x = self.operand(fr, r[1])
            m = r[3]
            if m is None:
                raise Unsupported("unsize")
            if m[0] == "same":
                return x
            if m[0] == "len":
                mv = m[1]
            else:
                mv = Ptr(self.alloc_of(m[1]), 0)
            if isinstance(x, Agg):
                # smart pointer with a single thin pointer inside
                cs = [c for c in x.c if c[1] == 8]
                if len(cs) != 1:
                    raise Unsupported("unsize of aggregate")
                p = cs[0][2]
            else:
                p = x
            return Agg([(0, 8, p), (8, 8, mv)], 16)
        if k == "fnptr":
            return FnPtr(r[1])
        if k == "rawptr":
            t = self.prog.ty[r[1]]
            p = self.operand(fr, r[2][0])
            m = self.operand(fr, r[2][1])
            if isinstance(p, Agg):
                p = p.c[0][2]
            if t.get("fat"):
                if isinstance(m, Agg):
                    m = m.c[0][2]
                return Agg([(0, 8, p), (8, 8, m)], 16)
            return p
        raise Unsupported("rvalue " + k)

    def aggregate(self, fr, r):
        _, tid, var, uf, ops = r
        t = self.prog.ty[tid]
        cells = []
        size = t["size"]
        if t["k"] == "array":
            s = self.prog.ty[t["el"]]["size"]
            offs = [i * s for i in range(len(ops))]
        elif uf is not None:
            offs = [0]
        elif "tag" in t:
            offs = t["tag"]["voffs"][var]
        else:
            offs = t.get("offs", [])
        for i, op in enumerate(ops):
            v = self.operand(fr, op)
            if isinstance(v, Agg):
                for co, cs, cv in v.c:
                    cells.append((offs[i] + co, cs, cv))
            else:
                s = self.optype(fr, op)["size"]
                if s:
                    cells.append((offs[i], s, v))
        if "tag" in t:
            tg = self.tagval(t, var)
            if tg is not None:
                n = t["tag"]["bits"] // 8
                cells = [c for c in cells if not (c[0] < t["tag"]["off"] + n and t["tag"]["off"] < c[0] + c[1])]
                cells.append((t["tag"]["off"], n, tg))
        return Agg(cells, size)

    def tagval(self, t, var):
        enc = t["tag"]["enc"]
        if enc == "direct":
            return int(t["vars"][var][1]) & ((1 << t["tag"]["bits"]) - 1)
        unt, n0, n1, st = enc
        if var == unt:
            return None
        return (int(st) + var - n0) & ((1 << t["tag"]["bits"]) - 1)

    def discr(self, fr, pl):
        a, o, t, meta, _ = self.place(fr, pl)
        return self.discr_at(a, o, t)

    def discr_at(self, a, o, t):
        if "tag" not in t:
            if t["k"] == "adt" and t["adt"] == "enum" and t["vars"]:
                return int(t["vars"][t.get("single", 0)][1])
            return 0
        g = t["tag"]
        v = self.load(a, o + g["off"], g["bits"] // 8)
        if g["enc"] == "direct":
            return v
        unt, n0, n1, st = g["enc"]
        if isinstance(v, (Ptr, FnPtr, Part)):
            idx = unt
        elif isinstance(v, SV):
            raise Unsupported("symbolic niche")
        else:
            rel = (v - int(st)) & ((1 << g["bits"]) - 1)
            idx = n0 + rel if rel <= n1 - n0 else unt
        return int(t["vars"][idx][1])

    def easy_signed(self, v, bits):
        """signed value when it is readable off the image, else None"""
        if isinstance(v, int):
            return v - (1 << bits) if v >> (bits - 1) & 1 else v
        half = 1 << (bits - 1)
        if v.hi < half:
            return v
        w = self.w
        s = w.simg.get((bits, P.key(v.p)))
        if s is not None:
            return w.n(s)
        if v.lo >= half:
            return w.sub(v, 1 << bits)
        y = P.sub(v.p, P.const(1 << bits))
        kn = w.known.get(P.key(y))
        if kn and kn[0] >= -half and kn[1] < 0:
            return w.mk(y, kn[0], kn[1])
        for m, c in v.p.items():
            if c == 1 << bits and len(m) == 1 and w.isbool(m[0]):
                y = P.sub(v.p, {m: c})
                tg = w.vars[m[0]][3]
                if tg and tg[0] == "neg" and P.key(tg[1]) == P.key(y):
                    kn = w.known.get(P.key(y))
                    if kn and kn[0] >= -half and kn[1] < half:
                        return w.mk(y, kn[0], kn[1])
        return None

    def factors(self, x, y, bits):
        """representatives of two signed images for a product modulo 2^bits: the signed values where that keeps the product in
        range or they are at hand, else the images"""
        sx, sy = self.easy_signed(x, bits), self.easy_signed(y, bits)
        if sx is not None and sy is not None:
            return sx, sy
        w = self.w
        half = 1 << (bits - 1)
        r = [w.rng(s) if s is not None else (-half, half - 1) for s in (sx, sy)]
        if max(abs(i * j) for i in r[0] for j in r[1]) < half:
            return self.to_signed(x, bits), self.to_signed(y, bits)
        return x if sx is None else sx, y if sy is None else sy

    def simage(self, s, bits):
        """two's complement image of a signed value"""
        r = self.w.trunc(s, bits)
        if isinstance(r, SV) and isinstance(s, SV) and s.lo >= -(1 << (bits - 1)) and s.hi < 1 << (bits - 1):
            self.w.simg[(bits, P.key(r.p))] = s
        return r

    def to_signed(self, v, bits):
        if isinstance(v, int):
            return v - (1 << bits) if v >> (bits - 1) & 1 else v
        s = self.easy_signed(v, bits)
        if s is not None:
            return s
        # v = u mod 2^bits; signed = v - 2^bits * [v >= 2^(bits-1)]
        w = self.w
        half = 1 << (bits - 1)
        n = w.neg(w.sub(v, half))
        return w.mk(P.add(P.sub(v.p, P.const(1 << bits)), P.scale(w.poly(n), 1 << bits)), max(-half, v.lo - (1 << bits)), half - 1)

    def binop(self, fr, op, xo, yo):
        x = self.operand(fr, xo)
        y = self.operand(fr, yo)
        t = self.optype(fr, xo)
        return self.binval(op, x, y, t, self.optype(fr, yo) if op.startswith("Sh") else None)

    def binval(self, op, x, y, t, t2=None):
        w = self.w
        if t["k"] == "ptr" or t["k"] == "fnptr":
            return self.ptrop(op, x, y, t)
        if t["k"] == "float":
            return {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y, "Div": lambda: x / y,
                    "Lt": lambda: int(x < y), "Le": lambda: int(x <= y), "Gt": lambda: int(x > y),
                    "Ge": lambda: int(x >= y), "Eq": lambda: int(x == y), "Ne": lambda: int(x != y)}[op]()
        if isinstance(x, Agg) or isinstance(y, Agg):
            if not x.c and not y.c:
                return {"Eq": 1, "Ne": 0}[op]
            raise Unsupported("binop on aggregates")
        bits = t["bits"]
        signed = t["k"] == "int"
        ix, iy = type(x) is int, type(y) is int
        if not (ix or isinstance(x, SV)) or not (iy or isinstance(y, SV)):
            return self.oddop(op, x, y, t)
        if ix and iy:
            M = (1 << bits) - 1
            if op in ("Add", "AddUnchecked"):
                return (x + y) & M
            if op in ("Sub", "SubUnchecked"):
                return (x - y) & M
            if op in ("Mul", "MulUnchecked"):
                return (x * y) & M
            if op == "BitAnd":
                return x & y
            if op == "BitOr":
                return x | y
            if op == "BitXor":
                return x ^ y
            if op[:2] == "Sh":
                if t2 is not None and t2["k"] == "int":
                    y = self.to_signed(y, t2["bits"])
                y %= bits
                if op[2] == "l":
                    return (x << y) & M
                if signed:
                    return (self.to_signed(x, bits) >> y) & M
                return x >> y
            if signed:
                x = self.to_signed(x, bits)
                y = self.to_signed(y, bits)
            if op == "Eq":
                return int(x == y)
            if op == "Ne":
                return int(x != y)
            if op == "Lt":
                return int(x < y)
            if op == "Le":
                return int(x <= y)
            if op == "Gt":
                return int(x > y)
            if op == "Ge":
                return int(x >= y)
            if op == "Div" or op == "Rem":
                if y == 0:
                    raise PanicPath("division by zero")
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0):
                    q = -q
                return (q if op == "Div" else x - q * y) & M
            if op == "Cmp":
                return ((x > y) - (x < y)) & 0xFF
            raise Unsupported("binop " + op)
        # symbolic
        if signed and op in ("Add", "AddUnchecked", "Sub", "SubUnchecked"):
            sx, sy = self.easy_signed(x, bits), self.easy_signed(y, bits)
            if sx is not None and sy is not None:
                return self.simage(w.add(sx, sy) if op[0] == "A" else w.sub(sx, sy), bits)
        if op in ("Add", "AddUnchecked"):
            return w.trunc(w.add(x, y), bits)
        if op in ("Sub", "SubUnchecked"):
            return w.trunc(w.sub(x, y), bits)
        if op in ("Mul", "MulUnchecked"):
            if signed:
                return self.simage(w.mul(*self.factors(x, y, bits)), bits)
            return w.wmul(x, y, bits)
        if op == "BitAnd":
            return w.bitop("and", x, y, bits)
        if op == "BitOr":
            return w.bitop("or", x, y, bits)
        if op == "BitXor":
            return w.bitop("xor", x, y, bits)
        if op[:2] == "Sh":
            if not iy:
                y = w.n(y)
                if isinstance(y, SV):
                    y = w.concretize(y, "shift amount")
            y %= bits
            if op[2] == "l":
                if signed:
                    s = self.easy_signed(x, bits)
                    if s is not None:
                        return self.simage(w.mul(s, 1 << y), bits)
                return w.trunc(w.mul(x, 1 << y), bits)
            if signed:
                s = w.shr(self.to_signed(x, bits), y)
                return self.simage(s, bits)
            return w.shr(x, y)
        if signed:
            x = self.to_signed(x, bits)
            y = self.to_signed(y, bits)
        if op == "Eq":
            return w.eqz(w.sub(x, y))
        if op == "Ne":
            return w.sub(1, w.eqz(w.sub(x, y)))
        if op == "Lt":
            return w.neg(w.sub(x, y))
        if op == "Gt":
            return w.neg(w.sub(y, x))
        if op == "Ge":
            return w.sub(1, w.neg(w.sub(x, y)))
        if op == "Le":
            return w.sub(1, w.neg(w.sub(y, x)))
        if op in ("Div", "Rem") and iy and y > 0 and y & (y - 1) == 0 and not signed:
            q, r = w.divmod2k(x, y.bit_length() - 1)
            return q if op == "Div" else r
        if op in ("Div", "Rem") and iy and y > 0 and not signed:
            x = w.n(x)
            q = {k: c // y for k, c in x.p.items() if c // y}
            r = {k: c % y for k, c in x.p.items() if c % y}
            lo, hi = w.naive(r)
            if lo >= 0 and hi < y:
                return w.mk(q if op == "Div" else r)
        if op == "Cmp":
            l = w.neg(w.sub(x, y))
            g = w.neg(w.sub(y, x))
            if isinstance(l, SV):
                l = w.concretize(l)
            if l:
                return 0xFF
            if isinstance(g, SV):
                g = w.concretize(g)
            return 1 if g else 0
        raise Unsupported("symbolic binop %s" % op)

    def oddop(self, op, x, y, t):
        h = self.user.get("oddop")
        if h:
            r = h(self, op, x, y, t)
            if r is not None:
                return r
        if op in ("Eq", "Ne") and isinstance(x, (Ptr, FnPtr)) != isinstance(y, (Ptr, FnPtr)):
            return 0 if op == "Eq" else 1
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            # address arithmetic on usize
            if t.get("bits") == 64 and all(isinstance(z, (Ptr, int)) for z in (x, y)):
                return self.binval(op, self.addr(x), self.addr(y), t)
        raise Unsupported("binop %s on %r, %r" % (op, x, y))

    def ptrop(self, op, x, y, t):
        if op == "Offset":
            el = self.prog.ty[t["to"]]
            s = el["size"]
            if isinstance(y, SV):
                y = self.w.concretize(y, "pointer offset")
            y = self.to_signed(y, 64)
            return self.ptradd(x, y * s)
        if isinstance(x, Agg):
            xa, xm = x.c[0][2], x.c[1][2]
            ya, ym = y.c[0][2], y.c[1][2]
            if op in ("Eq", "Ne"):
                e = int(self.addr(xa) == self.addr(ya) and xm == ym)
                return e if op == "Eq" else 1 - e
            raise Unsupported("fat ptr " + op)
        if isinstance(x, FnPtr) or isinstance(y, FnPtr):
            e = int(x == y)
        else:
            x = self.addr(x)
            y = self.addr(y)
            e = int(x == y)
        if op == "Eq":
            return e
        if op == "Ne":
            return 1 - e
        return {"Lt": int(x < y), "Le": int(x <= y), "Gt": int(x > y), "Ge": int(x >= y)}[op]

    def ptradd(self, p, n):
        if isinstance(p, Ptr):
            return Ptr(p.a, p.o + n)
        if isinstance(p, int):
            return (p + n) & ((1 << 64) - 1)
        raise Unsupported("ptradd")

    def checked(self, op, x, y, t):
        w = self.w
        bits = t["bits"]
        if t["k"] == "int":
            x, y = self.to_signed(x, bits), self.to_signed(y, bits)
            lo, hi = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
        else:
            lo, hi = 0, (1 << bits) - 1
        f = {"Add": w.add, "Sub": w.sub, "Mul": w.mul}[op[:3]]
        r = f(x, y)
        rl, rh = w.rng(r)
        if rl >= lo and rh <= hi:
            ov = 0
        else:
            u = w.neg(w.sub(r, lo)) if rl < lo else 0
            v = w.neg(w.sub(hi, r)) if rh > hi else 0
            ov = w.add(u, v)
        rt = w.trunc(r, bits)
        s = bits // 8
        return Agg([(0, s, rt), (self.cov_off(s), 1, ov)], None or (2 * s))

    def cov_off(self, s):
        return s

    def cast(self, fr, kind, op, t):
        x = self.operand(fr, op)
        s = self.optype(fr, op)
        if kind == "IntToInt":
            if t.get("scalar") and s.get("scalar"):
                bs, bt = s["bits"], t["bits"]
                if isinstance(x, (Ptr, Part)):
                    return self.subcell(x, bs // 8, 0, bt // 8) if bt != bs else x
                if s["k"] == "int" and bt > bs:
                    return self.simage(self.to_signed(x, bs), bt)
                if s["k"] == "int" and bt < bs and not isinstance(x, int):
                    y = self.easy_signed(x, bs)
                    if y is not None:
                        return self.simage(y, bt)
                return self.w.trunc(x, bt) if bt < bs else x
            # enum to int
            a = Alloc(s["size"])
            self.store_val(a, 0, s["size"], x)
            d = self.discr_at(a, 0, s)
            g = s.get("tag", {}).get("bits", 64)
            return self.w.trunc(d, t["bits"])
        if kind == "ptr" or kind == "PtrToPtr" or kind == "FnPtrToPtr":
            if t["k"] == "ptr" and not t["fat"] and isinstance(x, Agg):
                return x.c[0][2]
            return x
        if kind == "PointerExposeAddress":
            if isinstance(x, Agg):
                x = x.c[0][2]
            return x if isinstance(x, int) else self.addr(x)
        if kind == "PointerWithExposedProvenance":
            return x
        if kind in ("Transmute", "Subtype", "BoxDerefTransmute"):
            return self.transmute(x, s, t)
        if kind == "IntToFloat":
            if s["k"] == "int":
                x = self.to_signed(x, s["bits"])
            return float(x)
        if kind == "FloatToInt":
            v = int(x)
            lo, hi = (0, (1 << t["bits"]) - 1) if t["k"] == "uint" else (-(1 << (t["bits"] - 1)), (1 << (t["bits"] - 1)) - 1)
            return max(lo, min(hi, v)) & ((1 << t["bits"]) - 1)
        raise Unsupported("cast " + kind)

    def transmute(self, x, s, t):
        n = t["size"]
        if t["scalar"] and s["scalar"]:
            return x
        if n == 0:
            return Agg([], 0)
        a = Alloc(n, "transmute")
        self.store_val(a, 0, n, x)
        return self.load_ty(a, 0, t)

    # ------------------------------------------------------------ calls
    def call(self, fi, args, dt, targs_types=None):
        """call instance fi with evaluated args -> value"""
        f = self.prog.fn(fi)
        h = self.lookup(fi, f)
        if h is not None:
            r = h(self, f, args, dt)
            if r is not NotImplemented:
                self.used[f["name"]] = self.used.get(f["name"], 0) + 1
                return r
        if "bb" not in f:
            return self.external(fi, f, args, dt)
        self.visited.add(fi)
        fr = Frame(f)
        T = self.prog.ty
        n = f["args"]
        loc = f["locals"]
        if f["spread"] is not None or len(args) != n:
            sp = f["spread"]
            if sp is not None:
                # args before spread are passed as is; remaining ones packed in a tuple
                pre = args[: sp - 1]
                rest = args[sp - 1:]
                tt = T[loc[sp]]
                cells = []
                if len(rest) == 1 and isinstance(rest[0], Agg) and tt.get("size") == rest[0].size and len(tt.get("fs", [])) != 1:
                    cells = rest[0].c
                elif len(rest) == 1 and len(tt.get("fs", [])) == 1:
                    v = rest[0]
                    cells = v.c if isinstance(v, Agg) else [(0, tt["size"], v)]
                else:
                    for i, v in enumerate(rest):
                        o = tt["offs"][i]
                        if isinstance(v, Agg):
                            cells = cells + [(o + a, b, c) for a, b, c in v.c]
                        else:
                            s = T[tt["fs"][i]]["size"]
                            if s:
                                cells = cells + [(o, s, v)]
                args = pre + [Agg(cells, tt["size"])]
        if len(args) != n:
            # rust-call: last arg is a tuple to be unpacked
            tup = args[-1]
            pre = args[:-1]
            need = n - len(pre)
            types = [T[x] for x in loc[1 + len(pre): 1 + n]]
            tmp = Alloc(max([tup.size if isinstance(tup, Agg) else 16, 1]), "tuple")
            tt = self.tuple_ty(f, fi, types, tup)
            self.store_val(tmp, 0, tmp.size if not isinstance(tup, Agg) else tup.size, tup)
            args = list(pre)
            for i in range(need):
                args.append(self.load_ty(tmp, tt[i], types[i]))
        for i in range(n):
            t = T[loc[i + 1]]
            a = Alloc(t.get("size", 0), "%s::arg%d" % (f["last"], i + 1))
            self.store_val(a, 0, t.get("size", 0), args[i])
            fr.loc[i + 1] = a
        self.depth += 1
        if self.depth > 400:
            raise Unsupported("call depth")
        self.stack.append(f)
        try:
            r = self.run(fr)
        except Unsupported as x:
            if not hasattr(x, "where"):
                x.where = f["name"]
                x.args = ("%s [in %s]" % (x.args[0] if x.args else "", f["name"][:160]),) + tuple(x.args[1:])
            raise
        self.stack.pop()
        self.depth -= 1
        return r

    def tuple_ty(self, f, fi, types, tup):
        """offsets of a tuple with the given element types"""
        names = "(" + ", ".join(t["name"] for t in types) + ("," if len(types) == 1 else "") + ")"
        for t in self.prog.ty.values():
            if t["k"] == "tuple" and not t.get("closure") and t["name"] == names:
                return t["offs"]
        ids = [t["t"] for t in types]
        for t in self.prog.ty.values():
            if t["k"] == "tuple" and not t.get("closure") and t.get("fs") == ids:
                return t["offs"]
        if len(types) == 1:
            return [0]
        raise Unsupported("tuple layout " + names)

    def lookup(self, fi, f):
        h = self.ccache.get(fi, 0)
        if h == 0:
            h = None
            for c in self.contracts:
                h = c(self, fi, f)
                if h is not None:
                    break
            if h is None:
                h = builtin(self, fi, f)
            self.ccache[fi] = h
        return h

    def external(self, fi, f, args, dt):
        nm = f["name"]
        if PANICS.search(nm):
            raise PanicPath(nm)
        raise Unsupported("external function " + nm)

    def run(self, fr):
        f = fr.f
        bbs = f["bb"]
        bi = 0
        T = self.prog.ty
        loc = f["locals"]
        heads = None
        if self.cuts:
            heads = self.cutmap.get(id(f))
            if heads is None:
                heads = self.cutmap[id(f)] = {}
                for c in self.cuts:
                    for h, b in (c.heads(self, f) or {}).items():
                        heads[h] = (c, b)
        while True:
            if heads and bi in heads:
                c, b = heads[bi]
                c.hit(self, fr, bi, b)
            sts, term = bbs[bi]
            self.steps += 1 + len(sts)
            if self.steps > self.max_steps:
                raise Unsupported("step limit")
            for s in sts:
                k = s[0]
                if k == "=":
                    pl = s[1]
                    if pl[1]:
                        a, o, t, meta, _ = self.place(fr, pl)
                        v = self.rvalue(fr, s[2], t)
                        self.store_val(a, o, t["size"], v)
                    else:
                        t = T[loc[pl[0]]]
                        v = self.rvalue(fr, s[2], t)
                        sz = t.get("size", 0)
                        if sz:
                            self.store_val(self.local(fr, pl[0]), 0, sz, v)
                elif k == "sd":
                    a, o, t, meta, _ = self.place(fr, s[1])
                    if "tag" in t:
                        tg = self.tagval(t, s[2])
                        if tg is not None:
                            self.store(a, o + t["tag"]["off"], t["tag"]["bits"] // 8, tg)
                elif k == "cpy":
                    src = self.operand(fr, s[1])
                    dst = self.operand(fr, s[2])
                    n = self.operand(fr, s[3])
                    el = T[self.optype(fr, s[1])["to"]]
                    self.memcpy(dst, src, n * el["size"])
                else:
                    raise Unsupported("statement " + k)
            k = term[0]
            if k == "goto":
                bi = term[1]
            elif k == "sw":
                x = self.operand(fr, term[1])
                if not isinstance(x, int):
                    x = self.switchval(x, term)
                bi = term[3]
                for v, b in term[2]:
                    if int(v) == x:
                        bi = b
                        break
            elif k == "ret":
                t = T[loc[0]]
                if t.get("size", 0) == 0:
                    return Agg([], 0)
                return self.load_ty(self.local(fr, 0), 0, t)
            elif k == "call":
                self.do_call(fr, term)
                if term[4] is None:
                    raise Unsupported("diverging call returned: %s" % term[1])
                bi = term[4]
            elif k == "assert":
                x = self.operand(fr, term[1])
                if isinstance(x, SV):
                    x = self.w.concretize(x, "assert")
                if x != term[2]:
                    raise PanicPath(term[4])
                bi = term[3]
            elif k == "drop":
                a, o, t, meta, _ = self.place(fr, term[1])
                if not t.get("unsized"):
                    self.call(term[2], [Ptr(a, o)], None)
                else:
                    self.call(term[2], [Agg([(0, 8, Ptr(a, o)), (8, 8, meta)], 16)], None)
                bi = term[3]
            elif k == "asm":
                from . import asm
                asm.execute(self, fr, term)
                bi = term[4]
            elif k == "unreach":
                raise Unsupported("reached unreachable code in " + f["name"])
            else:
                raise Unsupported("terminator " + k)

    def switchval(self, x, term):
        if isinstance(x, SV):
            x = self.w.n(x)
            if not isinstance(x, SV):
                return x
            bv = self.w.boolvars(x, 64)
            if bv is not None:
                return self.w.concretize(x, "switch")
            # compare with each target
            for v, b in term[2]:
                e = self.w.eqz(self.w.sub(x, int(v)))
                if isinstance(e, SV):
                    e = self.w.concretize(e, "switch")
                if e:
                    return int(v)
            return -1
        h = self.user.get("switch")
        if h:
            r = h(self, x, term)
            if r is not None:
                return r
        if isinstance(x, Ptr):
            return self.addr(x)
        raise Unsupported("switch on %r" % (x,))

    def memcpy(self, dst, src, n):
        if n == 0:
            return
        if not isinstance(src, Ptr) or not isinstance(dst, Ptr):
            raise Unsupported("memcpy with %r %r" % (dst, src))
        img = self.image(src.a, src.o, n)
        self.store_val(dst.a, dst.o, n, img)

    def do_call(self, fr, term):
        _, fn, aops, dest, tgt = term
        args = [self.operand(fr, a) for a in aops]
        if isinstance(fn, int):
            fi = fn
        elif fn[0] == "virt":
            # dyn dispatch: first arg is a fat pointer
            p = args[0]
            if not isinstance(p, Agg):
                raise Unsupported("virtual call on thin self")
            data, vt = p.c[0][2], p.c[1][2]
            fp = self.load(vt.a, vt.o + 8 * fn[1], 8)
            if not isinstance(fp, FnPtr):
                raise Unsupported("vtable slot")
            fi = fp.f
            args = [data] + args[1:]
            # shims take self by pointer
        elif fn[0] == "unres":
            raise Unsupported("unresolved call " + fn[1])
        else:
            fp = self.operand(fr, fn)
            if not isinstance(fp, FnPtr):
                raise Unsupported("call through %r" % (fp,))
            fi = fp.f
        if dest[1]:
            a, o, t, meta, _ = self.place(fr, dest)
        else:
            t = self.prog.ty[fr.f["locals"][dest[0]]]
            a = None
        self.argtypes = lambda: [self.optype(fr, x) for x in aops]
        v = self.call(fi, args, t)
        if a is None:
            a, o = self.local(fr, dest[0]), 0
        self.store_val(a, o, t.get("size", 0), v)

    # helpers for harnesses
    def box(self, v, size, name="arg"):
        a = Alloc(size, name)
        self.store_val(a, 0, size, v)
        return Ptr(a, 0)


from .builtins import builtin  # noqa: E402
