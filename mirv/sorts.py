"""Abstract algebraic sorts and the function contracts stated over them."""
import re
from .core import Agg, Alloc, Ptr, Part
from .world import SV, Unsupported, PanicPath
from . import poly as P


class FE:
    """element of a commutative ring F_m[vars]/rules"""
    __slots__ = ("s", "p")

    def __init__(self, s, p):
        self.s = s
        self.p = p

    def __eq__(self, x):
        return isinstance(x, FE) and x.s is self.s and x.p == self.p

    def __hash__(self):
        return hash(P.key(self.p))

    def __repr__(self):
        return "FE<%s>(%s)" % (self.s.short, P.show(self.p, limit=6) if isinstance(self.p, dict) else str(self.p)[:80])


class RingSort:
    """a (field) type seen as an abstract commutative ring element.
    m: characteristic; r: Montgomery radix; comps/sym: for extension fields, the sub-sort and the symbol polys
    1, s, s^2.. multiplying the components of a *concrete* constant"""

    def __init__(self, name, size, m, r=None, sub=None, syms=None, rules=None, short=None):
        self.name = name
        self.size = size
        self.m = m
        self.rinv = pow(r, -1, m) if r else None
        self.sub = sub
        self.syms = syms
        self.rules = rules if rules is not None else {}
        self.short = short or name.split("::")[-1]
        self.words = size // 8
        self.limb_ok = False  # admit machine words provably below the modulus
        self.raw_ok = False  # admit arbitrary machine words where the contract allows a non-canonical operand
        self.raws = []

    def is_raw(self, fe):
        return any(x is fe for x in self.raws)

    def reset(self):
        self.raws = []

    # ring operations
    def mul(self, a, b):
        return P.mul(a, b, self.m, self.rules)

    def add(self, a, b):
        return P.add(a, b, self.m)

    def sub_(self, a, b):
        return P.sub(a, b, self.m)

    def neg(self, a):
        return P.neg(a, self.m)

    def const(self, c):
        c %= self.m
        return {(): c} if c else {}

    def red(self, p):
        return P.reduce(p, self.rules, self.m) if self.rules else p

    # memory
    def fresh(self, e, name):
        return FE(self, P.var(e.w.fresh(name, None, None, ("fe", self))))

    def image(self, fe):
        return Agg([(8 * i, 8, Part(fe, self.name, i)) for i in range(self.words)], self.size)

    def read(self, e, a, o):
        cells = [e.load(a, o + 8 * i, 8) for i in range(self.words)]
        return self.from_cells(e, cells)

    def from_cells(self, e, cells):
        c0 = cells[0]
        if isinstance(c0, Part) and c0.kind == self.name and c0.i == 0:
            ob = c0.obj
            for i, c in enumerate(cells):
                if not (isinstance(c, Part) and c.kind == self.name and c.i == i and (c.obj is ob or c.obj == ob)):
                    break
            else:
                return FE(self, self.fix(e, ob.p))
        if self.sub is not None:
            k = self.sub.words
            t = {}
            for i, s in enumerate(self.syms):
                x = self.sub.from_cells(e, cells[i * k:(i + 1) * k])
                t = self.add(t, self.mul(x.p, s))
            return FE(self, self.fix(e, t))
        if all(isinstance(c, int) for c in cells):
            v = sum(c << (64 * i) for i, c in enumerate(cells))
            if v >= self.m:
                raise Unsupported("non-canonical constant of %s" % self.short)
            return FE(self, self.const(v * self.rinv))
        if self.raw_ok and all(isinstance(c, (int, SV)) for c in cells):
            t = {}
            for i, c in enumerate(cells):
                c = e.w.n(c)
                t = self.add(t, P.scale(c.p if isinstance(c, SV) else P.const(c), pow(2, 64 * i, self.m), self.m))
            r = FE(self, P.scale(t, self.rinv, self.m))
            self.raws.append(r)
            return r
        if self.limb_ok and all(isinstance(c, (int, SV)) for c in cells):
            # machine words: the operand has to be provably canonical at this point
            v = {}
            for i, c in enumerate(cells):
                c = e.w.n(c)
                v = P.add(v, P.scale(c.p if isinstance(c, SV) else P.const(c), 1 << (64 * i)))
            k = P.key(v)
            done = e.w.memo.setdefault("limb_ok", {})
            if k not in done:
                from . import prove
                done[k] = prove.LinSet(e.w, []).entails_le(v, self.m - 1)[0] is True
            if not done[k]:
                raise Unsupported("field operation on words not known to be below the modulus")
            return FE(self, P.scale({m: x % self.m for m, x in v.items()}, self.rinv, self.m))
        raise Unsupported("value of sort %s is not an abstract element: %r" % (self.short, cells[:2]))

    def fix(self, e, p):
        """apply current assignments / learned substitutions"""
        w = e.w
        if w.assign:
            p2 = {}
            ch = False
            for k in p:
                if any(v in w.assign for v in k):
                    ch = True
                    break
            if ch:
                p = P.subst(p, {v: self.const(c) for v, c in w.assign.items()}, self.m, self.rules)
        sb = getattr(w, "fesub", None)
        if sb:
            while any(v in sb for k in p for v in k):
                p = P.subst(p, sb, self.m, self.rules)
        return p

    # predicates
    def eqz(self, e, p):
        """boolean atom: p == 0"""
        w = e.w
        p = self.fix(e, p)
        if not p:
            return 1
        if P.is_const(p):
            return 0
        p = self.monic(p)
        for q in getattr(w, "fezero", ()):
            if q[1] == p:
                return 1
        for q in getattr(w, "fenz", ()):
            if q[1] == p:
                return 0
        h = e.user.get("fe_eqz")
        if h:
            r = h(e, self, p)
            if r is not None:
                return r
        return w.atom("fz", (self.name, P.key(p)), ("fz", self, p))

    def monic(self, p):
        k = min(p, key=lambda t: (-len(t), t))
        c = p[k]
        if c != 1:
            p = P.scale(p, pow(c, -1, self.m), self.m)
        return p


def on_decide(w, v, c, tag):
    if tag and tag[0] == "mq":
        tag[1].decide(w, c, tag)
        return
    if tag and tag[0] == "fz":
        s, p = tag[1], tag[2]
        if not hasattr(w, "fezero"):
            w.fezero, w.fenz, w.fesub = [], [], {}
        if c:
            w.fezero.append((s, p))
            # linear with a constant coefficient in a variable that occurs nowhere else
            if len(p) == 1:
                (m, _), = p.items()
                if len(set(m)) == 1 and m:
                    w.fesub[m[0]] = {}
                    return
            for m in sorted(p, key=lambda t: (len(t), t), reverse=True):
                if len(m) == 1 and sum(1 for k in p if m[0] in k) == 1 and w.vars[m[0]][3] and w.vars[m[0]][3][0] == "fe":
                    rest = {k: x for k, x in p.items() if k != m}
                    w.fesub[m[0]] = P.scale(P.neg(rest, s.m), pow(p[m], -1, s.m), s.m)
                    return
        else:
            w.fenz.append((s, p))


def choice(e, x):
    """engine value of a subtle::Choice / bool"""
    return x


_nn = {}


def norm_name(nm):
    """`path::<impl Trait for T>::m` -> `<T as Trait>::m`"""
    r = _nn.get(nm)
    if r is not None:
        return r
    r = nm
    i = nm.find("::<impl ")
    if i >= 0:
        d, j = 1, i + 8
        cut = None
        while j < len(nm) and d:
            ch = nm[j]
            if ch == "<":
                d += 1
            elif ch == ">" and nm[j - 1] != "-":
                d -= 1
            elif d == 1 and nm.startswith(" for ", j):
                cut = j
            j += 1
        if cut is not None:
            r = "<%s as %s>%s" % (nm[cut + 5:j - 1], nm[i + 8:cut], nm[j:])
        else:
            t = nm[i + 8:j - 1]
            g = t.find("<")
            r = (t if g < 0 else t[:g] + "::" + t[g:]) + nm[j:]
    _nn[nm] = r
    return r


class OpContracts:
    """contracts of a field-like type over RingSort `s`; `which` restricts to a set of operation names"""

    def __init__(self, s, which=None, inherent=True, traits=True, name=None):
        self.s = s
        self.which = which
        T = re.escape(name or s.name)
        # inherent path: generic args of an ADT are printed with ::<...>
        n = name or s.name
        i = n.find("<")
        TI = re.escape(n) if i < 0 else re.escape(n[:i] + "::" + n[i:])
        self.rx = []
        ad = self.rx.append
        if traits:
            ad((re.compile(r"^<&?%s as std::ops::(Add|Sub|Mul)(<&?%s>)?>::(add|sub|mul)$" % (T, T)), 3))
            ad((re.compile(r"^<&?%s as std::ops::(Neg)>::(neg)$" % T), 2))
            ad((re.compile(r"^<%s as std::ops::(Add|Sub|Mul)Assign(<&?%s>)?>::(add_assign|sub_assign|mul_assign)$" % (T, T)), 3))
            ad((re.compile(r"^<%s as ff::Field>::(\w+)(::<.*>)?$" % T), 1))
            ad((re.compile(r"^<%s as subtle::(ConstantTimeEq|ConditionallySelectable)>::(\w+)$" % T), 2))
            ad((re.compile(r"^<%s as std::cmp::PartialEq>::(eq|ne)$" % T), 1))
            ad((re.compile(r"^<%s as std::default::(Default)>::(default)$" % T), 2))
            ad((re.compile(r"^<%s as std::convert::From<u64>>::(from)$" % T), 1))
        if inherent:
            ad((re.compile(r"^%s::(\w+)$" % TI), 1))

    def __call__(self, e, fi, f):
        nm = norm_name(f["name"])
        for rx, g in self.rx:
            m = rx.match(nm)
            if m:
                op = m.group(g)
                if self.which is not None and op not in self.which:
                    return None
                h = getattr(self, "c_" + op, None)
                return h
        return None

    # argument access
    def arg(self, e, x):
        r = self.rawarg(e, x)
        if self.s.is_raw(r):
            raise Unsupported("unreduced operand")
        return r

    def rawarg(self, e, x):
        if isinstance(x, Ptr):
            return self.s.read(e, x.a, x.o)
        a = Alloc(self.s.size, "tmp")
        e.store_val(a, 0, self.s.size, x)
        return self.s.read(e, a, 0)

    def ret(self, p):
        return self.s.image(FE(self.s, p))

    def c_mul(self, e, f, a, dt):
        """a*b for a, b < R with at least one canonical"""
        x, y = self.rawarg(e, a[0]), self.rawarg(e, a[1])
        if self.s.is_raw(x) and self.s.is_raw(y):
            raise Unsupported("product of two unreduced operands")
        return self.ret(self.s.mul(x.p, y.p))

    c_mul_const = c_mul

    def c_add(self, e, f, a, dt):
        return self.ret(self.s.add(self.arg(e, a[0]).p, self.arg(e, a[1]).p))

    def c_sub(self, e, f, a, dt):
        return self.ret(self.s.sub_(self.arg(e, a[0]).p, self.arg(e, a[1]).p))

    c_sub_const = c_sub

    def c_neg(self, e, f, a, dt):
        return self.ret(self.s.neg(self.arg(e, a[0]).p))

    def c_double(self, e, f, a, dt):
        return self.ret(P.scale(self.arg(e, a[0]).p, 2, self.s.m))

    def c_square(self, e, f, a, dt):
        p = self.arg(e, a[0]).p
        return self.ret(self.s.mul(p, p))

    def _assign(self, e, a, p):
        e.store_val(a.a, a.o, self.s.size, self.ret(p))
        return Agg([], 0)

    def c_add_assign(self, e, f, a, dt):
        return self._assign(e, a[0], self.s.add(self.arg(e, a[0]).p, self.arg(e, a[1]).p))

    def c_sub_assign(self, e, f, a, dt):
        return self._assign(e, a[0], self.s.sub_(self.arg(e, a[0]).p, self.arg(e, a[1]).p))

    def c_mul_assign(self, e, f, a, dt):
        return self._assign(e, a[0], self.s.mul(self.arg(e, a[0]).p, self.arg(e, a[1]).p))

    def c_square_assign(self, e, f, a, dt):
        p = self.arg(e, a[0]).p
        return self._assign(e, a[0], self.s.mul(p, p))

    def c_zero(self, e, f, a, dt):
        return self.ret({})

    c_default = c_zero

    def c_one(self, e, f, a, dt):
        return self.ret({(): 1})

    def c_is_zero(self, e, f, a, dt):
        return self.s.eqz(e, self.arg(e, a[0]).p)

    c_is_zero_vartime = c_is_zero

    def _eq(self, e, a):
        x, y = self.arg(e, a[0]), self.arg(e, a[1])
        return self.s.eqz(e, self.s.sub_(x.p, y.p))

    def c_ct_eq(self, e, f, a, dt):
        return self._eq(e, a)

    def c_eq(self, e, f, a, dt):
        return self._eq(e, a)

    def c_ne(self, e, f, a, dt):
        return e.w.sub(1, self._eq(e, a))

    c_ct_ne = c_ne

    def pickv(self, e, c, x, y):
        from .builtins import scal
        c = e.w.n(scal(c))
        if isinstance(c, SV):
            if x == y:
                return x
            c = e.w.concretize(c, "select")
        return y if c else x

    def c_conditional_select(self, e, f, a, dt):
        x, y = self.arg(e, a[0]), self.arg(e, a[1])
        r = self.pickv(e, a[2], x, y)
        return self.ret(self.s.fix(e, r.p))

    def c_conditional_assign(self, e, f, a, dt):
        x, y = self.arg(e, a[0]), self.arg(e, a[1])
        r = self.pickv(e, a[2], x, y)
        return self._assign(e, a[0], self.s.fix(e, r.p))

    def c_conditional_swap(self, e, f, a, dt):
        from .builtins import scal
        x, y = self.arg(e, a[0]), self.arg(e, a[1])
        c = e.w.n(scal(a[2]))
        if isinstance(c, SV):
            c = e.w.concretize(c, "swap")
        if c:
            self._assign(e, a[0], y.p)
            self._assign(e, a[1], x.p)
        return Agg([], 0)

    def c_from(self, e, f, a, dt):
        if isinstance(a[0], int):
            return self.ret(self.s.const(a[0]))
        return NotImplemented

    def c_invert(self, e, f, a, dt):
        """CtOption { value, is_some }: is_some iff x != 0, and then value * x == 1"""
        s = self.s
        x = self.arg(e, a[0])
        z = s.eqz(e, x.p)
        if isinstance(z, SV):
            z = e.w.concretize(z, "invert")
        p = s.fix(e, x.p)
        if z:
            # value unspecified by the contract, except that every implementation must return some element
            y = FE(s, P.var(e.w.fresh("unspec", None, None, ("fe", s))))
            y = FE(s, {})
            return ct_option(e, dt, s, y, 0)
        return ct_option(e, dt, s, FE(s, self.inverse(e, p)), 1)

    def inverse(self, e, p):
        s = self.s
        if P.is_const(p):
            return s.const(pow(P.cval(p), -1, s.m))
        w = e.w
        c = None
        mp = s.monic(p)
        k = min(p, key=lambda t: (-len(t), t))
        c = pow(p[k], -1, s.m)
        key = ("feinv", s.name, P.key(mp))
        v = w.memo.get(key)
        if v is None:
            v = w.fresh("inv%d" % len(w.vars), None, None, ("feinv", s, mp))
            w.memo[key] = v
            if not hasattr(w, "feinvs"):
                w.feinvs = []
            w.feinvs.append((s, v, mp))
        return {(v,): c}


def ct_option(e, dt, s, fe, some):
    """memory image of subtle::CtOption<T>"""
    t = dt
    offs = t["offs"]
    names = [x[0] for x in t["vars"][0][2]]
    iv, isz = names.index("value"), names.index("is_some")
    cells = [(offs[iv] + a, b, c) for a, b, c in s.image(fe).c]
    cells.append((offs[isz], 1, some))
    return Agg(cells, t["size"])
