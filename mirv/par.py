"""Contracts of rayon's entry points (dependency, assumed): both closures of `join` and every job of a parallel
iterator run exactly once; they own disjoint memory (Rust's borrow rules), so any schedule equals the sequential one."""
import re
from .core import Ptr, Alloc, Agg
from .world import Unsupported


def norm_g(n):
    return n.replace("::<", "<")


def closure_body(e, t):
    """function index of the body of closure type t"""
    nm = t["name"]
    ix = e.prog.__dict__.setdefault("_closures", None)
    if ix is None:
        ix = e.prog._closures = {}
        for i, n in e.prog.names.items():
            if n.endswith("}") and "::{closure#" in n:
                ix.setdefault(norm_g(n), i)
    m = re.match(r"^\{closure@(.*)\}$", nm)
    if not m or norm_g(m.group(1)) not in ix:
        raise Unsupported("closure body of " + nm[:120])
    return ix[norm_g(m.group(1))]


def call_closure(e, t, v, args, dt):
    fi = closure_body(e, t)
    f = e.prog.fn(fi)
    t1 = e.prog.ty[f["locals"][1]]
    if t1["k"] in ("ref", "ptr"):
        a = Alloc(t.get("size", 0), "closure")
        e.store_val(a, 0, t.get("size", 0), v)
        v = Ptr(a, 0)
    return e.call(fi, [v] + args, dt)


class RayonContracts:
    def __init__(self, threads=None):
        self.threads = threads

    def __call__(self, e, fi, f):
        n = f["name"]
        if n == "rayon::current_num_threads" or n == "rayon_core::current_num_threads":
            return self.nthreads
        if re.match(r"^core::num::<impl usize>::ilog2$|^std::num::<impl usize>::ilog2$", n):
            return self.ilog2
        if n.startswith("rayon::join::<") and n.count("::{closure") <= 4 and "join_context" not in n:
            return self.join
        return None

    def nthreads(self, e, f, a, dt):
        if self.threads is not None:
            return self.threads
        u = e.user
        if "threads" not in u:
            u["threads"] = e.w.var("threads", 1, (1 << 16) - 1)
        return u["threads"]

    def ilog2(self, e, f, a, dt):
        x = e.w.n(a[0])
        if isinstance(x, int):
            return x.bit_length() - 1
        m = e.w.memo.setdefault("ilog2", {})
        k = str(sorted(x.p.items()))
        if k not in m:
            m[k] = e.w.var("ilog2", 0, max(x.hi, 1).bit_length() - 1)
        return m[k]

    def join(self, e, f, a, dt):
        T = e.prog.ty
        t1, t2 = T[f["locals"][1]], T[f["locals"][2]]
        r = [T[x] for x in dt["fs"]]
        x = call_closure(e, t1, a[0], [], r[0])
        y = call_closure(e, t2, a[1], [], r[1])
        cells = []
        for v, o, t in ((x, dt["offs"][0], r[0]), (y, dt["offs"][1], r[1])):
            if isinstance(v, Agg):
                cells += [(o + p, q, c) for p, q, c in v.c]
            elif t.get("size"):
                cells.append((o, t["size"], v))
        return Agg(cells, dt["size"])
