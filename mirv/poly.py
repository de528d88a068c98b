"""Sparse multivariate polynomials with integer (or mod-p) coefficients.
A polynomial is a dict {monomial: coef}; a monomial is a sorted tuple of variable ids."""


def const(c):
    return {(): c} if c else {}


def var(v):
    return {(v,): 1}


def add(a, b, m=0):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for k, c in b.items():
        s = r.get(k, 0) + c
        if m:
            s %= m
        if s:
            r[k] = s
        else:
            r.pop(k, None)
    return r


def sub(a, b, m=0):
    r = dict(a)
    for k, c in b.items():
        s = r.get(k, 0) - c
        if m:
            s %= m
        if s:
            r[k] = s
        else:
            r.pop(k, None)
    return r


def scale(a, c, m=0):
    if m:
        c %= m
        if c == 0:
            return {}
        r = {}
        for k, x in a.items():
            y = x * c % m
            if y:
                r[k] = y
        return r
    if c == 0:
        return {}
    return {k: x * c for k, x in a.items()}


def neg(a, m=0):
    if m:
        return {k: m - x for k, x in a.items()}
    return {k: -x for k, x in a.items()}


def mmul(k, l):
    if not k:
        return l
    if not l:
        return k
    return tuple(sorted(k + l))


def mul(a, b, m=0, rules=None):
    """rules: {var: (degree, poly)}: var**degree == poly (poly free of that power)"""
    if len(a) > len(b):
        a, b = b, a
    r = {}
    if not a:
        return r
    if len(a) == 1 and () in a:
        return scale(b, a[()], m)
    get = r.get
    for k, x in a.items():
        for l, y in b.items():
            if not k:
                n = l
            elif not l:
                n = k
            else:
                n = tuple(sorted(k + l))
            r[n] = get(n, 0) + x * y
    if m:
        r = {k: c for k, c in ((k, c % m) for k, c in r.items()) if c}
    else:
        r = {k: c for k, c in r.items() if c}
    if rules:
        r = reduce(r, rules, m)
    return r


def reduce(p, rules, m=0):
    while True:
        bad = None
        out = {}
        todo = []
        for k, c in p.items():
            hit = None
            n = len(k)
            if n >= 2:
                i = 0
                while i < n:
                    j = i + 1
                    v = k[i]
                    while j < n and k[j] == v:
                        j += 1
                    if v in rules and j - i >= rules[v][0]:
                        hit = (v, i)
                        break
                    i = j
            elif n == 1 and k[0] in rules and rules[k[0]][0] == 1:
                hit = (k[0], 0)
            if hit:
                todo.append((k, c, hit))
            else:
                out[k] = c
        if not todo:
            return p
        for k, c, (v, i) in todo:
            d, rep = rules[v]
            rest = k[:i] + k[i + d:]
            for l, y in rep.items():
                n = mmul(rest, l)
                s = out.get(n, 0) + c * y
                if m:
                    s %= m
                if s:
                    out[n] = s
                else:
                    out.pop(n, None)
        p = out


def power(a, e, m=0, rules=None):
    r = {(): 1}
    while e:
        if e & 1:
            r = mul(r, a, m, rules)
        e >>= 1
        if e:
            a = mul(a, a, m, rules)
    return r


def key(p):
    return frozenset(p.items())


def subst(p, s, m=0, rules=None):
    """substitute variables by polynomials: s {var: poly}"""
    out = {}
    cache = {}
    for k, c in p.items():
        if not any(v in s for v in k):
            x = out.get(k, 0) + c
            if m:
                x %= m
            if x:
                out[k] = x
            else:
                out.pop(k, None)
            continue
        keep = tuple(v for v in k if v not in s)
        subs = tuple(v for v in k if v in s)
        if subs not in cache:
            t = {(): 1}
            for v in subs:
                t = mul(t, s[v], m, rules)
            cache[subs] = t
        t = cache[subs]
        if keep:
            t = mul({keep: 1}, t, m, rules)
        out = add(out, scale(t, c, m), m)
    return out


def vars_of(p):
    s = set()
    for k in p:
        s.update(k)
    return s


def evalp(p, env, m=0):
    t = 0
    for k, c in p.items():
        x = c
        for v in k:
            x = x * env[v]
            if m:
                x %= m
        t += x
    return t % m if m else t


def is_const(p):
    return not p or (len(p) == 1 and () in p)


def cval(p):
    return p.get((), 0)


def show(p, names=None, limit=12):
    o = []
    for i, (k, c) in enumerate(sorted(p.items(), key=lambda t: (len(t[0]), t[0]))):
        if i >= limit:
            o.append("... (%d terms)" % len(p))
            break
        ks = "*".join((names(v) if names else "v%d" % v) for v in k)
        o.append("%s%s" % (c if c != 1 or not k else "", ("*" if c != 1 and k else "") + ks))
    return " + ".join(o) if o else "0"
