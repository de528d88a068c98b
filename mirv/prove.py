"""Obligation discharge: polynomial identities modulo a prime, linear (integer/real) arithmetic via Z3."""
import time
import z3
from .world import SV
from . import poly as P


class Stats:
    def __init__(self):
        self.time = 0.0
        self.queries = 0


STATS = Stats()


class LinSet:
    """tries a small relevant subset of the facts first, then all of them"""

    def __init__(self, w, extra=(), timeout=60000):
        self.w = w
        self.levels = []
        self.mk = []
        n = len(w.facts)
        if w.marks and n > 60:
            idx = sorted(set(w.marks) | set(range(max(w.last_mark, n - 120), n)))
            if len(idx) < n:
                self.mk.append(([w.facts[i] for i in idx], min(timeout, 30000)))
        self.mk.append((w.facts, timeout))
        self.extra = list(extra)
        self.used_level = None

    def at(self, i):
        while len(self.levels) <= i:
            f, t = self.mk[len(self.levels)]
            self.levels.append(Lin(self.w, self.extra, t, f))
        return self.levels[i]

    def each(self, meth, *a):
        r = (None, None)
        for i in range(len(self.mk)):
            r = getattr(self.at(i), meth)(*a)
            if r[0] is True:
                return r
        self.lastlin = self.levels[-1]
        return r

    def entails_le(self, p, b):
        return self.each("entails_le", p, b)

    def entails_ge(self, p, b):
        return self.each("entails_ge", p, b)

    def entails_zero(self, p):
        return self.each("entails_zero", p)

    def entails_nonzero(self, p):
        return self.each("entails_nonzero", p)

    def value(self, p):
        """(True, v) if p is entailed to be the constant v"""
        for i in range(len(self.mk)):
            l = self.at(i)
            r, m = l.check()
            if r != z3.sat:
                return None, m
            v = m.eval(l.term(self.w.norm(self.w.boolnorm(p))), model_completion=True)
            if not z3.is_rational_value(v) and not z3.is_int_value(v):
                v = z3.simplify(v)
            try:
                fr = v.as_fraction()
            except Exception:
                continue
            if fr.denominator != 1:
                continue
            k = int(fr)
            ok, m2 = l.entails_zero(P.sub(p, P.const(k)))
            if ok is True:
                return True, k
        return ok, m2

    def feasible(self):
        return self.at(len(self.mk) - 1).feasible()

    def check(self, *c):
        return self.at(len(self.mk) - 1).check(*c)

    def term(self, p):
        return self.at(len(self.mk) - 1).term(p)

    def model_env(self, m):
        return self.levels[-1].model_env(m)


class Lin:
    """linear encoding of facts: monomials of degree >= 2 become fresh variables"""

    def __init__(self, w, extra=(), timeout=60000, facts=None):
        self.w = w
        self.s = z3.Solver()
        self.s.set("timeout", timeout)
        self.mv = {}
        self.seen = set()
        for p, lo, hi in list(w.facts if facts is None else facts) + list(extra):
            p = w.norm(w.boolnorm(p))
            if P.is_const(p):
                c = P.cval(p)
                if (lo is not None and c < lo) or (hi is not None and c > hi):
                    self.s.add(z3.BoolVal(False))
                continue
            t = self.term(p)
            if lo is not None:
                self.s.add(t >= self.num(lo))
            if hi is not None:
                self.s.add(t <= self.num(hi))

    def num(self, c):
        return z3.RealVal(str(c))

    def mono(self, k):
        x = self.mv.get(k)
        if x is not None:
            return x
        w = self.w
        if len(k) == 1:
            v = k[0]
            _, lo, hi, _ = w.vars[v]
            if w.isbool(v):
                i = z3.Int("v%d" % v)
                x = z3.ToReal(i)
                self.s.add(i >= 0, i <= 1)
            else:
                x = z3.Real("v%d" % v)
                if lo is not None:
                    self.s.add(x >= self.num(lo))
                if hi is not None:
                    self.s.add(x <= self.num(hi))
            self.mv[k] = x
            return x
        x = z3.Real("m_" + "_".join(map(str, k)))
        self.mv[k] = x
        lo, hi = w.naive({k: 1})
        self.s.add(x >= self.num(lo), x <= self.num(hi))
        b = [v for v in k if w.isbool(v)]
        if b:
            rest = list(k)
            rest.remove(b[0])
            rest = tuple(rest)
            y = self.mono(rest)
            bb = self.mono((b[0],))
            lo, hi = w.naive({rest: 1})
            self.s.add(x <= self.num(hi) * bb, x >= self.num(lo) * bb)
            self.s.add(x <= y - self.num(lo) * (1 - bb), x >= y - self.num(hi) * (1 - bb))
        return x

    def term(self, p):
        ts = []
        for k, c in p.items():
            ts.append(self.num(c) if not k else self.num(c) * self.mono(k))
        return z3.Sum(ts) if ts else self.num(0)

    def check(self, *conds):
        t = time.time()
        self.s.push()
        self.s.add(*conds)
        r = self.s.check()
        m = self.s.model() if r == z3.sat else None
        self.s.pop()
        STATS.time += time.time() - t
        STATS.queries += 1
        return r, m

    def entails_le(self, p, bound):
        p = self.w.norm(self.w.boolnorm(p))
        t = self.term(p)
        r, m = self.check(t >= self.num(bound + 1))  # integer-valued
        return (True if r == z3.unsat else False if r == z3.sat else None), m

    def entails_ge(self, p, bound):
        p = self.w.norm(self.w.boolnorm(p))
        t = self.term(p)
        r, m = self.check(t <= self.num(bound - 1))
        return (True if r == z3.unsat else False if r == z3.sat else None), m

    def entails_zero(self, p):
        p = self.w.norm(self.w.boolnorm(p))
        if not p:
            return True, None
        t = self.term(p)
        r, m = self.check(z3.Or(t >= 1, t <= -1))
        return (True if r == z3.unsat else False if r == z3.sat else None), m

    def entails_nonzero(self, p):
        p = self.w.norm(self.w.boolnorm(p))
        r, m = self.check(self.term(p) == 0)
        return (True if r == z3.unsat else False if r == z3.sat else None), m

    def feasible(self):
        return self.check()[0] != z3.unsat

    def model_env(self, m):
        """approximate integer assignment of the base variables from a model"""
        env = {}
        for k, x in self.mv.items():
            if len(k) == 1:
                val = m.eval(x, model_completion=True)
                try:
                    env[k[0]] = int(val.as_fraction().__floor__()) if hasattr(val, "as_fraction") else int(val.as_long())
                except Exception:
                    env[k[0]] = 0
        return env


def residue_groups(d, m, small=1 << 12):
    """partition the non-constant monomials of d (mod m) into groups c * (small integer combination of monomials)"""
    rest = {k: c % m for k, c in d.items() if c % m and k}
    out = []
    while rest:
        best = None
        for c in sorted(set(rest.values()))[:64]:
            try:
                inv = pow(c, -1, m)
            except ValueError:
                continue
            g = {}
            for k, x in rest.items():
                r = x * inv % m
                if r > m - small:
                    r -= m
                if abs(r) < small:
                    g[k] = r
            key = (len(g), -sum(abs(v) for v in g.values()))
            if best is None or key > best[0]:
                best = (key, c, g)
        if best is None:
            return None
        out.append((best[1], best[2]))
        for k in best[2]:
            del rest[k]
    return out


def prove_congruent(w, lin_f, d, m):
    """prove poly d == 0 (mod m); lin_f() builds the fact base lazily. -> (status, detail)
    Each residue group must be entailed to be an integer constant; the constants must sum to 0 mod m."""
    d = w.norm(w.boolnorm(d))
    r = {k: c % m for k, c in d.items() if c % m}
    if not r:
        return True, None
    g = residue_groups(r, m)
    shown = P.show(r, w.vname)
    if g is None:
        return None, ("residual", shown)
    total = r.get((), 0)
    lin = lin_f()
    for c, p in g:
        ok, v = lin.value(p)
        if ok is not True:
            return ok, ("residual", shown, v, lin)
        total += c * v
    if total % m:
        return False, ("residual", shown)
    return True, None
