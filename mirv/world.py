"""Symbolic world: integer variables, facts, truncation with shared quotients, branch decisions."""
import math
from . import poly as P


class Unsupported(Exception):
    """the tool cannot handle a construct: never an alarm"""


class Infeasible(Exception):
    """the current path is contradictory"""


class PanicPath(Exception):
    def __init__(self, msg):
        Exception.__init__(self, msg)
        self.msg = msg


class SV:
    """integer-valued symbolic value: polynomial plus proven interval"""
    __slots__ = ("p", "lo", "hi")

    def __init__(self, p, lo, hi):
        self.p = p
        self.lo = lo
        self.hi = hi

    def __repr__(self):
        return "SV(%s in [%x,%x])" % (P.show(self.p, limit=6), self.lo, self.hi)


def bits_tz(c):
    return (c & -c).bit_length() - 1 if c else 10 ** 9


class World:
    def __init__(self, decisions=None):
        self.vars = []  # (name, lo, hi, tag)
        self.memo = {}
        self.known = {}
        self.simg = {}  # (bits, image) -> signed value
        self.facts = []  # (poly, lo, hi)
        self.assign = {}  # var -> int
        self.decisions = decisions or []
        self.pos = 0
        self.trace = []  # decisions taken on this path: (var, value, alternatives)
        self.log = []
        self.solver_time = 0.0
        self.relations = []  # callbacks data for other domains
        self.on_decide = None
        self.prune = None  # optional feasibility callback
        self.no_fork = False
        self.neqs = []  # polynomials known to be nonzero on this path
        self.marks = set()  # facts produced by wrapping multiplications
        self.last_mark = 0

    # ---- variables
    def fresh(self, name, lo, hi, tag=None):
        self.vars.append((name, lo, hi, tag))
        return len(self.vars) - 1

    def var(self, name, lo, hi, tag=None):
        v = self.fresh(name, lo, hi, tag)
        return SV({(v,): 1}, lo, hi)

    def vname(self, v):
        return self.vars[v][0]

    def isbool(self, v):
        t = self.vars[v]
        return t[1] == 0 and t[2] == 1

    # ---- values
    def naive(self, p):
        lo = hi = 0
        for k, c in p.items():
            a = b = 1
            for v in k:
                _, l, h, _ = self.vars[v]
                if v in self.assign:
                    l = h = self.assign[v]
                cand = (a * l, a * h, b * l, b * h)
                a, b = min(cand), max(cand)
            if c >= 0:
                lo += c * a
                hi += c * b
            else:
                lo += c * b
                hi += c * a
        return lo, hi

    def mk(self, p, lo=None, hi=None, fact=False):
        if self.assign:
            p = self.norm(p)
        if P.is_const(p):
            return P.cval(p)
        k = P.key(p)
        kn = self.known.get(k)
        if kn:
            if lo is None or kn[0] > lo:
                lo = kn[0]
            if hi is None or kn[1] < hi:
                hi = kn[1]
        if lo is None or hi is None or len(p) <= 2:
            a, b = self.naive(p)
            lo = a if lo is None else max(a, lo)
            hi = b if hi is None else min(b, hi)
        if kn != (lo, hi):
            self.known[k] = (lo, hi)
        if fact:
            self.facts.append((p, lo, hi))
        if lo == hi:
            return lo
        return SV(p, lo, hi)

    def norm(self, p):
        s = self.assign
        if not s:
            return p
        for k in p:
            for v in k:
                if v in s:
                    out = {}
                    for k2, c in p.items():
                        kk = []
                        for v2 in k2:
                            if v2 in s:
                                c *= s[v2]
                                if not c:
                                    break
                            else:
                                kk.append(v2)
                        if c:
                            kk = tuple(kk)
                            t = out.get(kk, 0) + c
                            if t:
                                out[kk] = t
                            else:
                                del out[kk]
                    return out
        return p

    def n(self, x):
        """normalise a value under current assignments"""
        if isinstance(x, SV) and self.assign:
            p = self.norm(x.p)
            if p is not x.p:
                if P.is_const(p):
                    return P.cval(p)
                return self.mk(p, x.lo, x.hi)
        return x

    @staticmethod
    def poly(x):
        return x.p if isinstance(x, SV) else P.const(x)

    @staticmethod
    def rng(x):
        return (x.lo, x.hi) if isinstance(x, SV) else (x, x)

    # boolean-only values: list of vars if the value is a function of <=lim boolean variables
    def boolvars(self, x, lim=3):
        if not isinstance(x, SV):
            return []
        vs = P.vars_of(x.p)
        if len(vs) > lim:
            return None
        for v in vs:
            if not self.isbool(v):
                return None
        return sorted(vs)

    def boolnorm(self, p):
        """b*b -> b for boolean variables"""
        out = {}
        for k, c in p.items():
            if len(k) > 1:
                kk = []
                for v in k:
                    if kk and kk[-1] == v and self.isbool(v):
                        continue
                    kk.append(v)
                k = tuple(kk)
            t = out.get(k, 0) + c
            if t:
                out[k] = t
            else:
                out.pop(k, None)
        return out

    def lift(self, b, f):
        """f: int -> value, b a value depending only on boolean vars; builds multilinear interpolation"""
        bv = self.boolvars(b)
        if not bv:
            return f(b if not isinstance(b, SV) else None)
        v = bv[0]
        res = []
        for c in (0, 1):
            p = P.subst(b.p, {v: P.const(c)})
            sub = P.cval(p) if P.is_const(p) else self.mk(p)
            res.append(self.lift(sub, f))
        r0, r1 = res
        l0, h0 = self.rng(r0)
        l1, h1 = self.rng(r1)
        d = P.sub(self.poly(r1), self.poly(r0))
        p = P.add(self.poly(r0), P.mul({(v,): 1}, d))
        p = self.boolnorm(p)
        return self.mk(p, min(l0, l1), max(h0, h1))

    # ---- atoms
    def neg(self, x):
        """1 if x<0 else 0"""
        x = self.n(x)
        lo, hi = self.rng(x)
        if lo >= 0:
            return 0
        if hi < 0:
            return 1
        bv = self.boolvars(x)
        if bv:
            return self.lift(x, lambda c: 1 if c < 0 else 0)
        if len(x.p) > 1 or () not in x.p:
            g = 0
            for kk, c in x.p.items():
                if kk:
                    g = math.gcd(g, c)
            if g > 1:
                c0 = x.p.get((), 0) // g
                p = {kk: c // g for kk, c in x.p.items() if kk}
                if c0:
                    p[()] = c0
                return self.neg(self.mk(p, lo // g, hi // g))
        k = ("neg", P.key(x.p))
        m = self.memo.get(k)
        if m is not None:
            return self.n(m)
        c = P.add(P.neg(x.p), P.const(-1))
        m = self.memo.get(("neg", P.key(c)))
        if m is not None:
            return self.n(self.mk(P.sub(P.const(1), self.poly(m)), 0, 1))
        b = self.var("n%d" % len(self.vars), 0, 1, ("neg", x.p))
        self.memo[k] = b
        # n=0 -> x>=0 ; n=1 -> x<=-1
        self.facts.append((P.sub(x.p, P.scale(b.p, lo)), 0, None))
        self.facts.append((P.add(x.p, P.scale(b.p, hi + 1)), None, hi))
        return b

    def eqz(self, x):
        x = self.n(x)
        lo, hi = self.rng(x)
        if lo > 0 or hi < 0:
            return 0
        if not isinstance(x, SV):
            return 1 if x == 0 else 0
        if lo == 0 and hi == 1:
            return self.mk(P.sub(P.const(1), x.p), 0, 1)
        bv = self.boolvars(x)
        if bv:
            return self.lift(x, lambda c: 1 if c == 0 else 0)
        p = x.p
        lead = min(p.items(), key=lambda t: (len(t[0]), t[0]))
        if lead[1] < 0:
            p = P.neg(p)
            lo, hi = -hi, -lo
        k = ("eqz", P.key(p))
        m = self.memo.get(k)
        if m is not None:
            return self.n(m)
        b = self.var("e%d" % len(self.vars), 0, 1, ("eqz", p))
        self.memo[k] = b
        if hi > 0:
            self.facts.append((P.add(p, P.scale(b.p, hi)), None, hi))
        if lo < 0:
            self.facts.append((P.add(p, P.scale(b.p, lo)), lo, None))
        if lo == 0:
            self.facts.append((P.add(p, b.p), 1, None))
        return b

    def atom(self, kind, key, tag):
        k = (kind, key)
        m = self.memo.get(k)
        if m is not None:
            return self.n(m)
        b = self.var("%s%d" % (kind, len(self.vars)), 0, 1, tag)
        self.memo[k] = b
        return b

    def memo_eqz(self):
        """undecided zero-test atoms"""
        return [SV({(v,): 1}, 0, 1) for v, t in enumerate(self.vars) if t[3] and t[3][0] == "eqz" and v not in self.assign]

    # ---- arithmetic
    def add(self, a, b):
        a = self.n(a); b = self.n(b)
        if not isinstance(a, SV) and not isinstance(b, SV):
            return a + b
        (al, ah), (bl, bh) = self.rng(a), self.rng(b)
        return self.mk(P.add(self.poly(a), self.poly(b)), al + bl, ah + bh)

    def sub(self, a, b):
        a = self.n(a); b = self.n(b)
        if not isinstance(a, SV) and not isinstance(b, SV):
            return a - b
        (al, ah), (bl, bh) = self.rng(a), self.rng(b)
        return self.mk(P.sub(self.poly(a), self.poly(b)), al - bh, ah - bl)

    def mul(self, a, b):
        a = self.n(a); b = self.n(b)
        if not isinstance(a, SV) and not isinstance(b, SV):
            return a * b
        (al, ah), (bl, bh) = self.rng(a), self.rng(b)
        c = (al * bl, al * bh, ah * bl, ah * bh)
        return self.mk(self.boolnorm(P.mul(self.poly(a), self.poly(b))), min(c), max(c))

    def divmod2k(self, x, k):
        x = self.n(x)
        M = 1 << k
        if not isinstance(x, SV):
            return x >> k, x & (M - 1)
        lo, hi = x.lo, x.hi
        if lo >= 0 and hi < M:
            return 0, x
        ql, qh = lo >> k, hi >> k
        if ql == qh:
            return ql, self.mk(P.sub(x.p, P.const(ql * M)), lo - ql * M, hi - ql * M)
        bv = self.boolvars(x)
        if bv:
            return self.lift(x, lambda c: c >> k), self.lift(x, lambda c: c & (M - 1))
        tzs = {m: bits_tz(c) for m, c in x.p.items()}
        if qh - ql > 1:
            for m, z in tzs.items():
                t = self.vars[m[0]][3] if len(m) == 1 and z >= k else None
                if t and t[0] == "fdiv" and x.p[m] == -(1 << t[2]):
                    B = {n: c for n, c in x.p.items() if n != m}
                    if B == t[1]:
                        # (B - 2^j floor(B / 2^j)) div 2^k, for j >= k: through B div 2^k
                        kb = self.known.get(P.key(B)) or self.naive(B)
                        q, r = self.divmod2k(SV(B, kb[0], kb[1]), k)
                        return self.mk(P.sub(self.poly(q), P.scale(P.var(m[0]), 1 << (t[2] - k))), ql, qh), r
        levels = sorted({z for z in tzs.values() if z >= k}, reverse=True)
        for span in (0, 1):
            if span == 1 and qh - ql == 1:
                break
            for t in levels:
                if t == k and all(z >= k for m, z in tzs.items() if m):
                    break
                B = {m: c for m, c in x.p.items() if tzs[m] < t}
                if not B or len(B) == len(x.p) or P.is_const(B):
                    continue
                kb = self.known.get(P.key(B))
                na = self.naive(B)
                bl, bh = (max(na[0], kb[0]), min(na[1], kb[1])) if kb else na
                if (bh >> k) - (bl >> k) <= span:
                    q, r = self.divmod2k(SV(B, bl, bh), k)
                    A = {m: c >> k for m, c in x.p.items() if tzs[m] >= t}
                    return self.mk(P.add(A, self.poly(q)), ql, qh), r
        A, B = {}, {}
        for m, c in x.p.items():
            if tzs[m] >= k:
                A[m] = c // M
            else:
                B[m] = c
        if () in B:
            c = B[()]
            if not (0 <= c < M) and len(B) == 1:
                q, r = divmod(c, M)
                A = P.add(A, P.const(q))
                B = P.const(r)
        if P.is_const(B):
            return self.mk(A, ql, qh), P.cval(B)
        if A and qh - ql > 1:
            kb = self.known.get(P.key(B))
            na = self.naive(B)
            if kb:
                na = (max(na[0], kb[0]), min(na[1], kb[1]))
            if na[1] - na[0] < 2 * M:
                q, r = self.divmod2k(SV(B, na[0], na[1]), k)
                qq = self.mk(P.add(A, self.poly(q)), ql, qh)
                return qq, r
        if qh - ql == 1:
            y = self.mk(P.sub(x.p, P.const(qh * M)), lo - qh * M, hi - qh * M)
            nn = self.neg(y)
            q = self.mk(P.sub(P.const(qh), self.poly(nn)), ql, qh)
        else:
            for t in sorted({min(z, k) for m, z in tzs.items() if 0 < z < k}, reverse=True):
                # (2^t Y + r) div 2^k with 0 <= r < 2^t is Y div 2^(k - t)
                low = {m: c for m, c in x.p.items() if tzs[m] < t}
                b = self.known.get(P.key(low)) or self.naive(low)
                if b[0] >= 0 and b[1] < (1 << t):
                    hp = {m: c >> t for m, c in x.p.items() if tzs[m] >= t}
                    hk = self.known.get(P.key(hp)) or self.naive(hp)
                    h = self.mk(hp, max(hk[0], (lo - b[1]) >> t), min(hk[1], (hi - b[0]) >> t))
                    q, r = self.divmod2k(h, k - t)
                    return q, self.mk(P.add(P.scale(self.poly(r), 1 << t), low), 0, M - 1, fact=True)
            if len(x.p) == 1:
                (m, c), = x.p.items()
                t = self.vars[m[0]][3] if c == 1 and len(m) == 1 else None
                if t and t[0] == "fdiv":
                    # floor(floor(y/2^a)/2^k) = floor(y/2^(a+k))
                    y = self.n(self.mk(t[1]))
                    q = self.divmod2k(y, k + t[2])[0]
                    r = self.mk(P.sub(x.p, P.scale(self.poly(q), M)), 0, M - 1, fact=True)
                    return q, r
            kk = ("q", k, P.key(x.p))
            q = self.memo.get(kk)
            if q is None:
                q = self.var("q%d" % len(self.vars), ql, qh, ("fdiv", x.p, k))
                self.memo[kk] = q
        r = self.mk(P.sub(x.p, P.scale(self.poly(q), M)), 0, M - 1, fact=True)
        return q, r

    def bswap(self, x, n):
        """byte reversal of an n-byte value: an atom tied to the bytes of x"""
        x = self.n(x)
        if not isinstance(x, SV):
            return int.from_bytes(x.to_bytes(n, "little"), "big")
        if len(x.p) == 1:
            (m, c), = x.p.items()
            if c == 1 and len(m) == 1:
                t = self.vars[m[0]][3]
                if t and t[0] == "bswap" and t[2] == n:
                    return self.n(t[1])
        k = ("bswap", n, P.key(x.p))
        y = self.memo.get(k)
        if y is None:
            y = self.var("y%d" % len(self.vars), 0, (1 << (8 * n)) - 1, ("bswap", x, n))
            self.memo[k] = y
            t = y.p
            for i in range(n):
                b = self.trunc(self.shr(x, 8 * i), 8)
                t = P.sub(t, P.scale(self.poly(b), 1 << (8 * (n - 1 - i))))
            self.facts.append((t, 0, 0))
        return self.n(y)

    def is_bswap(self, x, n):
        if len(x.p) == 1:
            (m, c), = x.p.items()
            if c == 1 and len(m) == 1:
                t = self.vars[m[0]][3]
                return bool(t and t[0] == "bswap" and t[2] == n)
        return False

    def bytes_of(self, x, size, off, n):
        """bytes [off, off+n) of a size-byte value"""
        if n == 1 and len(x.p) == 1:
            (m, c), = x.p.items()
            if c == 1 and len(m) == 1:
                t = self.vars[m[0]][3]
                if t and t[0] == "bswap" and t[2] == size:
                    y = self.n(t[1])
                    return self.trunc(self.shr(y, 8 * (size - 1 - off)), 8)
        return self.trunc(self.shr(x, 8 * off), 8 * n)

    def trunc(self, x, k):
        if isinstance(x, SV):
            return self.divmod2k(x, k)[1]
        return x & ((1 << k) - 1)

    def shr(self, x, k):
        return self.divmod2k(x, k)[0]

    def wmul(self, a, b, bits):
        """(a*b) mod 2**bits, coefficient-reduced"""
        x = self.mul(a, b)
        n0 = len(self.facts)
        r = self.wmul2(x, bits)
        self.marks.update(range(n0, len(self.facts)))
        self.last_mark = len(self.facts)
        return r

    def wmul2(self, x, bits):
        if isinstance(x, SV) and x.hi >> bits:
            M = 1 << bits
            p = {m: c % M for m, c in x.p.items() if c % M}
            if p != x.p:
                if P.is_const(p):
                    return P.cval(p)
                lo, hi = self.naive(p)
                x = self.mk(p, lo, hi)
        return self.trunc(x, bits)

    # ---- bitwise
    def bitop(self, op, a, b, bits):
        a = self.n(a); b = self.n(b)
        sa, sb = isinstance(a, SV), isinstance(b, SV)
        full = (1 << bits) - 1
        if not sa and not sb:
            return {"and": a & b, "or": a | b, "xor": a ^ b}[op]
        if sa and sb and P.key(a.p) == P.key(b.p):
            return 0 if op == "xor" else a
        ba = self.boolvars(a, 2) if sa else []
        bb = self.boolvars(b, 2) if sb else []
        if not sa or not sb:
            c, x = (a, b) if not sa else (b, a)
            if op == "and":
                if c == 0:
                    return 0
                if c == full:
                    return x
            elif op == "or":
                if c == 0:
                    return x
                if c == full:
                    return full
            else:
                if c == 0:
                    return x
                if c == full:
                    return self.sub(full, x)
            xb = self.boolvars(x)
            if xb:
                return self.lift(x, lambda v: {"and": v & c, "or": v | c, "xor": v ^ c}[op])
            # decompose the constant in runs of ones
            andv = 0
            i = 0
            while i < bits:
                if c >> i & 1:
                    j = i
                    while j < bits and c >> j & 1:
                        j += 1
                    part = self.trunc(self.shr(x, i), j - i)
                    andv = self.add(andv, self.mul(part, 1 << i))
                    i = j
                else:
                    i += 1
            if op == "and":
                return andv
            if op == "or":
                return self.sub(self.add(x, c), andv)
            return self.sub(self.add(x, c), self.mul(andv, 2))
        if ba is not None and len(ba):
            return self.lift(a, lambda v: self.bitop(op, v, b, bits))
        if bb is not None and len(bb):
            return self.lift(b, lambda v: self.bitop(op, a, v, bits))
        # disjoint bits
        for x, y in ((a, b), (b, a)):
            tz = min(bits_tz(c) for c in x.p.values())
            if y.lo >= 0 and y.hi < (1 << tz):
                if op == "and":
                    return 0
                return self.add(x, y)
        r = self.masked(op, a.p, b.p, full)
        if r is not None:
            return self.mk(r, 0, full)
        if op == "xor":
            for x, y in ((a, b), (b, a)):
                # (s ^ t) ^ t = s ;  c*(s^t) ^ t
                if len(x.p) == 1:
                    (m, c), = x.p.items()
                    if c == 1:
                        for v in m:
                            tg = self.vars[v][3]
                            if tg and tg[0] == "xor":
                                rest = tuple(u for u in m if u != v)
                                if all(self.isbool(u) for u in rest):
                                    s, t = tg[1], tg[2]
                                    for s, t in ((s, t), (t, s)):
                                        if P.key(t.p) == P.key(y.p):
                                            d = P.sub(s.p, t.p)
                                            p = P.add(t.p, P.mul({rest: 1}, d))
                                            return self.mk(p, 0, full)
        if op in ("and", "or", "xor"):
            ks = sorted([tuple(sorted(a.p.items())), tuple(sorted(b.p.items()))])
            k = (op, tuple(ks))
            r = self.memo.get(k)
            if r is None:
                hi = min(a.hi, b.hi) if op == "and" else (1 << max(a.hi.bit_length(), b.hi.bit_length())) - 1
                r = self.var("%s%d" % (op, len(self.vars)), 0, hi, (op, a, b))
                self.memo[k] = r
                if op == "and":
                    self.facts.append((P.sub(a.p, r.p), 0, None))
                    self.facts.append((P.sub(b.p, r.p), 0, None))
                else:
                    self.facts.append((P.sub(P.add(a.p, b.p), r.p), 0, None))
                    if op == "or":
                        self.facts.append((P.sub(r.p, a.p), 0, None))
                        self.facts.append((P.sub(r.p, b.p), 0, None))
            return self.n(r)
        raise Unsupported("bitop")

    def masked(self, op, a, b, full):
        """the result as a polynomial when a few booleans decide one operand to be all zeros or all ones in every case"""
        vs = None
        for x in (a, b):
            t = sorted(P.vars_of(x))
            if len(t) <= 6 and all(self.isbool(v) for v in t) and (vs is None or len(t) < len(vs)):
                vs = t
        if vs is None:
            deep = {}
            for x in (a, b):
                for m in x:
                    if len(m) > 1:
                        for v in m:
                            if self.isbool(v):
                                deep[v] = deep.get(v, 0) + 1
            # a mask multiplies everything: its booleans occur most often
            vs = sorted(deep, key=lambda v: (-deep[v], v))[:6]
            if not vs:
                return None

        def go(a, b, vs):
            if P.is_const(b):
                a, b = b, a
            if P.is_const(a):
                k = P.cval(a)
                if P.is_const(b) and 0 <= k <= full and 0 <= P.cval(b) <= full:
                    y = P.cval(b)
                    return P.const({"and": k & y, "or": k | y, "xor": k ^ y}[op])
                if k == 0:
                    return {} if op == "and" else b
                if k == full:
                    return b if op == "and" else P.const(full) if op == "or" else P.sub(P.const(full), b)
            if not vs:
                return None
            v = vs[0]
            r = []
            for c in (0, 1):
                t = go(*(self.boolnorm(P.subst(x, {v: P.const(c)})) for x in (a, b)), vs[1:])
                if t is None:
                    return None
                r.append(t)
            return self.boolnorm(P.add(r[0], P.mul({(v,): 1}, P.sub(r[1], r[0]))))
        return go(a, b, vs)

    # ---- branching
    def decide_var(self, v, why=""):
        """fork on a boolean variable"""
        if v in self.assign:
            return self.assign[v]
        if self.no_fork:
            raise Unsupported("fork on %s while forking is disabled" % self.vname(v))
        opts = [0, 1]
        if self.prune is not None and self.pos >= len(self.decisions):
            opts = [c for c in opts if self.prune(self, v, c)]
            if not opts:
                raise Infeasible()
        if self.pos < len(self.decisions):
            c = self.decisions[self.pos]
            self.trace.append((v, c, self.alts_at(self.pos)))
        else:
            c = opts[0]
            self.trace.append((v, c, opts[1:]))
        self.pos += 1
        self.set_bool(v, c)
        return c

    def alts_at(self, i):
        return self.alts[i] if hasattr(self, "alts") and i < len(self.alts) else []

    def set_bool(self, v, c):
        self.assign[v] = c
        tag = self.vars[v][3]
        if tag:
            if tag[0] == "neg":
                if c:
                    self.facts.append((tag[1], None, -1))
                else:
                    self.facts.append((tag[1], 0, None))
                p = self.norm(tag[1])
                if not P.is_const(p):
                    for q, s in ((p, 1), (P.neg(p), -1)):
                        a, b = self.known.get(P.key(q)) or self.naive(q)
                        if c == (s > 0):
                            b = min(b, -1 if c else 0)
                        else:
                            a = max(a, 1 if c else 0)
                        if a <= b:
                            self.known[P.key(q)] = (a, b)
            elif tag[0] == "eqz":
                p = tag[1]
                if c:
                    self.facts.append((p, 0, 0))
                    self._zero(p)
                else:
                    self.neqs.append(p)
        if self.on_decide:
            self.on_decide(self, v, c, tag)

    def _zero(self, p):
        """learn p == 0"""
        p = self.norm(p)
        if len(p) == 1:
            (m, c), = p.items()
            if len(m) == 1:
                v = m[0]
                tg = self.vars[v][3]
                if tg and tg[0] == "or":
                    self._zero(tg[1].p)
                    self._zero(tg[2].p)
                if v not in self.assign:
                    self.assign[v] = 0
                return
        lo, hi = self.naive(p)
        if lo == 0 and all(c > 0 for c in p.values()) and all(len(m) <= 1 for m in p):
            for m in list(p):
                if m:
                    self._zero({m: 1})

    def concretize(self, x, why=""):
        """force a (boolean-valued) symbolic integer to a concrete one by forking"""
        while True:
            x = self.n(x)
            if not isinstance(x, SV):
                return x
            vs = P.vars_of(x.p)
            b = [v for v in sorted(vs) if self.isbool(v)]
            if not b or len(b) != len(vs):
                raise Unsupported("branch on a non-boolean symbolic value %r %s" % (x, why))
            self.decide_var(b[0], why)


def explore(run, max_paths=4096, **kw):
    """depth-first re-execution over all decisions. run(world) -> result; yields (world, result)"""
    stack = [([], [])]
    npaths = 0
    while stack:
        dec, alts = stack.pop()
        w = World(dec)
        w.alts = alts
        for k, v in kw.items():
            setattr(w, k, v)
        npaths += 1
        if npaths > max_paths:
            raise Unsupported("more than %d paths" % max_paths)
        try:
            res = run(w)
        except Infeasible:
            res = Infeasible
        tr = w.trace
        base = len(dec)
        for i in range(len(tr) - 1, base - 1, -1):
            v, c, al = tr[i]
            for a in al:
                stack.append(([t[1] for t in tr[:i]] + [a], [[] for _ in range(i + 1)]))
        if res is not Infeasible:
            yield w, res
