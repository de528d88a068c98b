"""Obligations: run a root function symbolically on every path and discharge its postconditions."""
import time
import traceback
from .core import Engine, Agg
from .world import World, SV, Unsupported, PanicPath, Infeasible, explore
from .loops import CutEnd
from .values import Codec, LimbField, LimbSort
from . import poly as P
from . import prove


class Clause:
    """one named postcondition on one path"""
    __slots__ = ("name", "status", "detail", "path", "model")

    def __init__(self, name, status, detail=None, path=None, model=None):
        self.name, self.status, self.detail, self.path, self.model = name, status, detail, path, model


class Ctx:
    """proof context of one path of one root"""

    def __init__(self, w, e, ob, args=()):
        self.w, self.e, self.ob = w, e, ob
        self._lin = None
        self.clauses = []
        self.path = [(w.vname(v), c) for v, c, _ in w.trace]
        self.arith = None
        self.extra = ob.extra(self, args) if ob.extra else []

    def lin(self):
        if self._lin is None:
            self._lin = prove.LinSet(self.w, self.extra, timeout=self.ob.timeout)
        return self._lin

    def feasible(self):
        return self.lin().feasible() if self.w.trace or self.w.facts else True

    def put(self, name, st, detail=None, model=None):
        self.clauses.append(Clause(name, st, detail, self.path, model))

    # numeric values
    @staticmethod
    def poly(x):
        if isinstance(x, LimbField):
            return x.val()
        if isinstance(x, SV):
            return x.p
        if isinstance(x, dict):
            return x
        return P.const(int(x))

    @staticmethod
    def le_value(xs, bits):
        t = {}
        for i, x in enumerate(xs):
            t = P.add(t, P.scale(Ctx.poly(x), 1 << (bits * i)))
        return t

    def cong(self, name, d, m):
        st, det = prove.prove_congruent(self.w, self.lin, d, m)
        model = None
        if st is not True and isinstance(det, tuple) and len(det) == 4:
            model = det[3].model_env(det[2]) if det[2] is not None else None
        self.put(name, st, det[:2] if det else None, model)

    def le(self, name, p, bound):
        st, m = self.lin().entails_le(p, bound)
        self.put(name, st, "upper bound 0x%x" % bound, self._lin.model_env(m) if m is not None else None)

    def ge(self, name, p, bound):
        st, m = self.lin().entails_ge(p, bound)
        self.put(name, st, "lower bound %d" % bound, self._lin.model_env(m) if m is not None else None)

    def zero(self, name, p):
        st, m = self.lin().entails_zero(p)
        self.put(name, st, "zero " + P.show(p, self.w.vname, 4), self._lin.model_env(m) if m is not None else None)

    def nonzero(self, name, p):
        st, m = self.lin().entails_nonzero(p)
        self.put(name, st, "nonzero " + P.show(p, self.w.vname, 4), self._lin.model_env(m) if m is not None else None)

    def differ(self, name, p, parts=()):
        """p != 0, from a disequality learned on the path about one of `parts`, or by the solver"""
        for q in self.w.neqs:
            q = self.w.norm(q)
            for d in [p] + list(parts):
                d = self.w.norm(d)
                if q == d or q == P.neg(d):
                    return self.put(name, True)
        self.nonzero(name, p)

    def boolean(self, x):
        x = self.w.n(x)
        return x


class Obligation:
    """root: harness function; spec(ctx, args, ret): emits clauses; contracts: list; sorts: {ty: Sort}"""

    oracle = None
    gen = None
    cuts = ()

    def __init__(self, name, root, spec, sorts=None, contracts=None, setup=None, extra=None, timeout=60000, may_panic=False,
                 max_paths=4096, prune=False, user=None, pre=None, fallback=None, max_steps=None, finish=None, forks=True):
        self.name, self.root, self.spec = name, root, spec
        self.sorts, self.contracts = sorts or {}, contracts or []
        self.setup, self.extra, self.timeout = setup, extra, timeout
        self.may_panic, self.max_paths, self.prune = may_panic, max_paths, prune
        self.user = user or {}
        self.pre = pre
        self.fallback = fallback
        self.max_steps = max_steps
        self.finish = finish

    def run(self, prog):
        t0 = time.time()
        q0, s0 = prove.STATS.queries, prove.STATS.time
        res = {"name": self.name, "root": self.root, "status": "proved", "clauses": 0, "paths": 0, "failed": [], "contracts": {},
               "functions": [], "steps": 0}
        try:
            self.explore(prog, res)
        except (Unsupported, RecursionError) as x:
            res["status"] = "unsupported"
            res["reason"] = "%s: %s" % (type(x).__name__, str(x)[:1400])
        except Exception as x:  # tool failure
            res["status"] = "unsupported"
            res["reason"] = "internal %s: %s" % (type(x).__name__, traceback.format_exc()[-1500:][-300:])
        if res["status"] == "proved" and res["failed"]:
            bad = [c for c in res["failed"] if c["status"] == "refuted"]
            res["status"] = "refuted" if bad else "unknown"
        if res["status"] == "proved" and res["clauses"] == 0:
            res["status"] = "unsupported"
            res["reason"] = "no feasible path produced an obligation"
        if res["status"] in ("unsupported",) and self.fallback is not None:
            r2 = self.fallback.run(prog)
            r2["note"] = "modular run unsupported (%s); discharged without call contracts" % res.get("reason", "")[:200]
            r2["name"] = self.name
            return r2
        res["time"] = round(time.time() - t0, 3)
        res["queries"] = prove.STATS.queries - q0
        res["solver_time"] = round(prove.STATS.time - s0, 3)
        return res

    fn = None  # exact name of the function under contract, when it is not a harness entry point

    def entry(self, prog):
        if self.fn is not None:
            c = [i for i, n in prog.names.items() if n == self.fn]
            if not c:
                raise Unsupported("no function " + self.fn)
            return c[0]
        if self.root not in prog.roots:
            raise Unsupported("no such root " + self.root)
        return prog.roots[self.root]

    def explore(self, prog, res):
        fi = self.entry(prog)
        f = prog.fn(fi)
        visited = set()
        used = {}

        def run(w):
            from .sorts import on_decide
            w.on_decide = on_decide
            e = Engine(prog, w, self.contracts)
            e.user.update(self.user)
            e.user["early"] = []
            e.cuts = self.cuts
            if self.max_steps:
                e.max_steps = self.max_steps
            e.user["mkctx"] = lambda: Ctx(w, e, self, args)
            for h in self.sorts.values():
                if hasattr(h, "reset"):
                    h.reset()
            if self.setup:
                self.setup(e)
            cd = Codec(e, self.sorts)
            vals, args = [], []
            for i in range(f["args"]):
                x, v = cd.fresh(f["locals"][i + 1], "abcdefgh"[i])
                vals.append(x)
                args.append(v)
            w.args = args
            if self.pre:
                self.pre(e, args)
            try:
                r = e.call(fi, vals, prog.ty[f["locals"][0]])
                ret = cd.decode(f["locals"][0], r)
                out = ("ok", ret)
            except PanicPath as x:
                out = ("panic", x.msg)
            except CutEnd:
                out = ("cut", None)
            visited.update(e.visited)
            for k, n in e.used.items():
                used[k] = used.get(k, 0) + n
            res["steps"] += e.steps
            c = Ctx(w, e, self, args)
            c.clauses += e.user["early"]
            for k in e.user.get("goals", ()):
                k(c)
            if out[0] == "cut":
                if w.trace and not c.feasible():
                    return None
            elif out[0] == "panic":
                if self.may_panic or not c.feasible():
                    return None
                c.put("no-panic", False, out[1], c.model() if hasattr(c, "model") else None)
            else:
                if self.prune and w.trace and not c.feasible():
                    return None
                self.spec(c, args, out[1])
            return c

        for w, c in explore(run, self.max_paths):
            res["paths"] += 1
            if c is None:
                continue
            for cl in c.clauses:
                res["clauses"] += 1
                if cl.status is not True:
                    # a failing clause on an infeasible path is vacuous
                    if w.trace and cl.detail != "infeasible" and not getattr(c, "_checked", False):
                        if not c.feasible():
                            res["clauses"] -= 1
                            continue
                    res["failed"].append({
                        "clause": cl.name, "status": "refuted" if cl.status is False else "unknown",
                        "detail": str(cl.detail)[:600], "path": [list(x) for x in (cl.path or [])][:40],
                        "model": {w.vname(v): str(x) for v, x in (cl.model or {}).items()} if cl.model else None})
        res["functions"] = sorted({prog.names[i] for i in visited if "halo2curves" in prog.names[i] or "ff::" in prog.names[i]})[:400]
        res["nfunctions"] = len(visited)
        res["contracts"] = {k: v for k, v in sorted(used.items()) if "halo2curves" in k or "ff::" in k or "subtle" in k}


