"""Compiler intrinsics, allocator entry points and the assumed contracts of `subtle`'s primitives."""
import math
import re
from .world import SV, Unsupported, PanicPath
from . import poly as P

U64 = (1 << 64) - 1


def _ty(e, f, i=0):
    return e.prog.ty[f["targs"][i]]


def agg_ptr(x):
    from .core import Agg
    if isinstance(x, Agg):
        return x.c[0][2]
    return x


def unit():
    from .core import Agg
    return Agg([], 0)


def i_size_of_val(e, f, a, dt):
    t = _ty(e, f)
    return dyn_size(e, t, a[0])[0]


def i_align_of_val(e, f, a, dt):
    t = _ty(e, f)
    return dyn_size(e, t, a[0])[1]


def dyn_size(e, t, p):
    if not t.get("unsized"):
        return t["size"], t["align"]
    m = p.c[1][2]
    if t["k"] == "slice":
        el = e.prog.ty[t["el"]]
        return m * el["size"], el["align"]
    if t["k"] == "str":
        return m, 1
    if t["k"] == "dyn":
        return e.load(m.a, m.o + 8, 8), e.load(m.a, m.o + 16, 8)
    raise Unsupported("size_of_val " + t["name"])


def count(e, n):
    if isinstance(n, SV):
        n = e.w.concretize(n, "count")
    return n


def i_copy(e, f, a, dt):
    t = _ty(e, f)
    e.memcpy(a[1], a[0], count(e, a[2]) * t["size"])
    return unit()


def i_write_bytes(e, f, a, dt):
    t = _ty(e, f)
    n = count(e, a[2]) * t["size"]
    if n:
        p = a[0]
        e.bounds(p.a, p.o, n)
        e.clear(p.a, p.o, n)
        v = a[1]
        s = 8 if n % 8 == 0 and isinstance(v, int) else 1
        for k in range(0, n, s):
            p.a.cells[p.o + k] = (int.from_bytes(bytes([v]) * s, "little") if isinstance(v, int) else v, s)
    return unit()


def i_volatile_load(e, f, a, dt):
    t = _ty(e, f)
    p = agg_ptr(a[0])
    return e.load_ty(p.a, p.o, t)


def i_read(e, f, a, dt):
    t = _ty(e, f)
    if t.get("size") == 0:
        return unit()
    p = agg_ptr(a[0])
    return e.load_ty(p.a, p.o, t)


def i_write(e, f, a, dt):
    t = _ty(e, f)
    if t["size"]:
        p = agg_ptr(a[0])
        e.store_val(p.a, p.o, t["size"], a[1])
    return unit()


def i_offset_from(e, f, a, dt):
    t = _ty(e, f)
    d = e.addr(a[0]) - e.addr(a[1])
    return (d // t["size"]) & U64


def i_arith_offset(e, f, a, dt):
    t = _ty(e, f)
    y = a[1]
    if isinstance(y, SV):
        y = e.w.concretize(y)
    return e.ptradd(a[0], e.to_signed(y, 64) * t["size"])


def i_raw_eq(e, f, a, dt):
    t = _ty(e, f)
    return mem_eq(e, a[0], a[1], t["size"])


def pairs(e, p, q, n):
    """aligned cell pairs of two memory ranges"""
    x = e.image(p.a, p.o, n).c
    y = e.image(q.a, q.o, n).c
    i = j = 0
    out = []
    if [c[:2] for c in x] == [c[:2] for c in y]:
        return [(c[1], c[2], d[2]) for c, d in zip(x, y)]
    # regranulate to common cuts
    cuts = sorted(set([c[0] for c in x] + [c[0] for c in y] + [n]))
    for k in range(len(cuts) - 1):
        o, s = cuts[k], cuts[k + 1] - cuts[k]
        out.append((s, e.load(p.a, p.o + o, s), e.load(q.a, q.o + o, s)))
    return out


def mem_eq(e, p, q, n):
    w = e.w
    if n == 0:
        return 1
    h = e.user.get("mem_eq")
    if h:
        r = h(e, p, q, n)
        if r is not None:
            return r
    acc = 1
    for s, x, y in pairs(e, p, q, n):
        t = {"k": "uint", "bits": 8 * s, "name": "cmp"}
        b = e.binval("Eq", x, y, t)
        acc = w.mul(acc, b)
        if acc == 0:
            return 0
    return acc


def i_compare_bytes(e, f, a, dt):
    w = e.w
    n = count(e, a[2])
    if n == 0:
        return 0
    p, q = a[0], a[1]
    for k in range(n):
        x = e.load(p.a, p.o + k, 1)
        y = e.load(q.a, q.o + k, 1)
        b = e.binval("Eq", x, y, {"k": "uint", "bits": 8, "name": "u8"})
        if isinstance(b, SV):
            b = w.concretize(b)
        if b == 0:
            l = e.binval("Lt", x, y, {"k": "uint", "bits": 8, "name": "u8"})
            if isinstance(l, SV):
                l = w.concretize(l)
            return 0xFFFFFFFF if l else 1
    return 0


def i_ctlz(e, f, a, dt):
    t = _ty(e, f)
    x = a[0]
    if isinstance(x, SV):
        raise Unsupported("ctlz of symbolic")
    return t["bits"] - x.bit_length()


def i_cttz(e, f, a, dt):
    t = _ty(e, f)
    x = a[0]
    if isinstance(x, SV):
        raise Unsupported("cttz of symbolic")
    return (x & -x).bit_length() - 1 if x else t["bits"]


def i_ctpop(e, f, a, dt):
    x = a[0]
    if isinstance(x, SV):
        raise Unsupported("ctpop")
    return bin(x).count("1")


def i_bswap(e, f, a, dt):
    t = _ty(e, f)
    n = t["bits"] // 8
    x = a[0]
    w = e.w
    if isinstance(x, int):
        return int.from_bytes(x.to_bytes(n, "little"), "big")
    if isinstance(x, SV):
        return w.bswap(x, n)
    raise Unsupported("bswap")


def i_rot(left):
    def g(e, f, a, dt):
        t = _ty(e, f)
        n = t["bits"]
        s = a[1]
        if isinstance(s, SV):
            raise Unsupported("rotate")
        s %= n
        if not left:
            s = (n - s) % n
        w = e.w
        x = a[0]
        hi = w.shr(x, n - s) if s else 0
        lo = w.trunc(w.mul(x, 1 << s), n)
        return w.add(lo, hi)
    return g


def i_bin(op):
    def g(e, f, a, dt):
        t = _ty(e, f)
        return e.binval(op, a[0], a[1], t, t if op.startswith("Sh") else None)
    return g


def i_ovf(op):
    def g(e, f, a, dt):
        t = _ty(e, f)
        return e.checked(op, a[0], a[1], t)
    return g


def i_sat(op):
    def g(e, f, a, dt):
        t = _ty(e, f)
        w = e.w
        bits = t["bits"]
        if t["k"] == "int":
            x, y = e.to_signed(a[0], bits), e.to_signed(a[1], bits)
            lo, hi = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
        else:
            x, y = a
            lo, hi = 0, (1 << bits) - 1
        r = w.add(x, y) if op == "Add" else w.sub(x, y)
        if isinstance(r, SV):
            if r.lo < lo:
                b = w.neg(w.sub(r, lo))
                if isinstance(b, SV):
                    b = w.concretize(b)
                if b:
                    return lo & ((1 << bits) - 1)
            if r.hi > hi:
                b = w.neg(w.sub(hi, r))
                if isinstance(b, SV):
                    b = w.concretize(b)
                if b:
                    return hi
            return w.trunc(r, bits)
        return max(lo, min(hi, r)) & ((1 << bits) - 1)
    return g


def i_discriminant(e, f, a, dt):
    t = _ty(e, f)
    p = agg_ptr(a[0])
    return e.discr_at(p.a, p.o, t)


def i_three_way(e, f, a, dt):
    return e.binval("Cmp", a[0], a[1], _ty(e, f))


def i_select(e, f, a, dt):
    b = a[0]
    if isinstance(b, SV):
        b = e.w.concretize(b)
    return a[1] if b else a[2]


def i_swap(e, f, a, dt):
    t = _ty(e, f)
    p, q = a[0], a[1]
    n = t["size"]
    if n:
        x, y = e.image(p.a, p.o, n), e.image(q.a, q.o, n)
        e.store_val(p.a, p.o, n, y)
        e.store_val(q.a, q.o, n, x)
    return unit()


def i_id(e, f, a, dt):
    return a[0]


def i_unit(e, f, a, dt):
    return unit()


def i_const(c):
    def g(e, f, a, dt):
        return c
    return g


def i_needs_drop(e, f, a, dt):
    return 1


def i_type_id(e, f, a, dt):
    return _ty(e, f)["t"] * 0x10001


def i_ptr_metadata(e, f, a, dt):
    from .core import Agg
    x = a[0]
    if isinstance(x, Agg) and len(x.c) > 1:
        return x.c[1][2]
    return unit()


def i_unreachable(e, f, a, dt):
    raise Unsupported("intrinsic unreachable reached")


def i_assume(e, f, a, dt):
    return unit()


def i_abort(e, f, a, dt):
    raise PanicPath("abort")


def i_float(fn):
    def g(e, f, a, dt):
        return fn(*a)
    return g


def i_atomic_load(e, f, a, dt):
    t = _ty(e, f)
    return e.load_ty(a[0].a, a[0].o, t)


def i_atomic_store(e, f, a, dt):
    t = _ty(e, f)
    e.store_val(a[0].a, a[0].o, t["size"], a[1])
    return unit()


def i_atomic_cxchg(e, f, a, dt):
    t = _ty(e, f)
    from .core import Agg
    old = e.load_ty(a[0].a, a[0].o, t)
    ok = old == a[1]
    if ok:
        e.store_val(a[0].a, a[0].o, t["size"], a[2])
    return Agg([(0, t["size"], old), (t["size"], 1, int(ok))], 2 * t["size"])


def i_atomic_rmw(op):
    def g(e, f, a, dt):
        t = _ty(e, f)
        old = e.load_ty(a[0].a, a[0].o, t)
        new = a[1] if op == "xchg" else e.binval(op, old, a[1], t)
        e.store_val(a[0].a, a[0].o, t["size"], new)
        return old
    return g


def i_catch_unwind(e, f, a, dt):
    raise Unsupported("catch_unwind")


def i_carrying_mul_add(e, f, a, dt):
    """(lo, hi) of a*b + c + d"""
    from .core import Agg
    t = _ty(e, f)
    if t["k"] != "uint":
        raise Unsupported("carrying_mul_add signed")
    w = e.w
    n = t["bits"]
    x = w.add(w.add(w.mul(a[0], a[1]), a[2]), a[3])
    q, r = w.divmod2k(x, n)
    return Agg([(0, n // 8, r), (n // 8, n // 8, q)], n // 4)


INTR = {
    "size_of_val": i_size_of_val, "min_align_of_val": i_align_of_val, "align_of_val": i_align_of_val,
    "copy_nonoverlapping": i_copy, "copy": i_copy, "write_bytes": i_write_bytes,
    "volatile_load": i_volatile_load, "unaligned_volatile_load": i_volatile_load, "read_via_copy": i_read,
    "write_via_move": i_write, "volatile_store": i_write,
    "ptr_offset_from_unsigned": i_offset_from, "ptr_offset_from": i_offset_from, "arith_offset": i_arith_offset,
    "offset": i_arith_offset, "raw_eq": i_raw_eq, "compare_bytes": i_compare_bytes,
    "ctlz": i_ctlz, "ctlz_nonzero": i_ctlz, "cttz": i_cttz, "cttz_nonzero": i_cttz, "ctpop": i_ctpop, "bswap": i_bswap,
    "rotate_left": i_rot(True), "rotate_right": i_rot(False),
    "wrapping_add": i_bin("Add"), "wrapping_sub": i_bin("Sub"), "wrapping_mul": i_bin("Mul"),
    "unchecked_add": i_bin("Add"), "unchecked_sub": i_bin("Sub"), "unchecked_mul": i_bin("Mul"),
    "unchecked_shl": i_bin("Shl"), "unchecked_shr": i_bin("Shr"), "unchecked_div": i_bin("Div"),
    "unchecked_rem": i_bin("Rem"), "exact_div": i_bin("Div"), "disjoint_bitor": i_bin("BitOr"),
    "add_with_overflow": i_ovf("Add"), "sub_with_overflow": i_ovf("Sub"), "mul_with_overflow": i_ovf("Mul"),
    "saturating_add": i_sat("Add"), "saturating_sub": i_sat("Sub"),
    "discriminant_value": i_discriminant, "three_way_compare": i_three_way, "select_unpredictable": i_select,
    "typed_swap_nonoverlapping": i_swap, "black_box": i_id, "likely": i_id, "unlikely": i_id,
    "assume": i_assume, "assert_inhabited": i_unit, "assert_zero_valid": i_unit, "assert_mem_uninitialized_valid": i_unit,
    "cold_path": i_unit, "needs_drop": i_needs_drop, "type_id": i_type_id, "ptr_metadata": i_ptr_metadata,
    "unreachable": i_unreachable, "abort": i_abort, "abort_immediate": i_abort, "is_val_statically_known": i_const(0),
    "ub_checks": i_const(0), "overflow_checks": i_const(0), "contract_checks": i_const(0),
    "logf64": i_float(math.log), "ceilf64": i_float(lambda x: float(math.ceil(x))),
    "floorf64": i_float(lambda x: float(math.floor(x))), "sqrtf64": i_float(math.sqrt),
    "atomic_load": i_atomic_load, "atomic_store": i_atomic_store, "atomic_cxchg": i_atomic_cxchg,
    "atomic_cxchgweak": i_atomic_cxchg, "atomic_xadd": i_atomic_rmw("Add"), "atomic_xsub": i_atomic_rmw("Sub"),
    "atomic_or": i_atomic_rmw("BitOr"), "atomic_and": i_atomic_rmw("BitAnd"), "atomic_xchg": i_atomic_rmw("xchg"),
    "atomic_fence": i_unit, "atomic_singlethreadfence": i_unit, "catch_unwind": i_catch_unwind,
    "carrying_mul_add": i_carrying_mul_add,
}


# ---------------------------------------------------------------- allocator
def h_alloc(zero):
    def g(e, f, a, dt):
        n = a[0]
        if isinstance(n, SV):
            raise Unsupported("symbolic allocation size")
        al = a[1]
        from .core import Ptr
        if not isinstance(al, int):
            al = 16
        m = e.new_alloc(n, "heap")
        if zero:
            k = 0
            while k < n:
                s = 8 if k + 8 <= n else 1
                m.cells[k] = (0, s)
                k += s
        return Ptr(m, 0)
    return g


def h_dealloc(e, f, a, dt):
    p = scal(a[0])
    if p.a.dead:
        raise Unsupported("double free")
    p.a.dead = True
    return unit()


def h_realloc(e, f, a, dt):
    from .core import Ptr
    p = scal(a[0])
    n = a[3]
    m = e.new_alloc(n, "heap")
    k = min(n, p.a.size)
    img = e.image(p.a, 0, k)
    for co, cs, cv in img.c:
        m.cells[co] = (cv, cs)
    p.a.dead = True
    return Ptr(m, 0)


# ---------------------------------------------------------------- subtle (assumed contracts)
def choice_from_u8(e, f, a, dt):
    return a[0]


def s_ct_eq(bits):
    def g(e, f, a, dt):
        x = e.load(a[0].a, a[0].o, bits // 8)
        y = e.load(a[1].a, a[1].o, bits // 8)
        return e.binval("Eq", x, y, {"k": "uint", "bits": bits, "name": "u"})
    return g


def s_select(bits):
    def g(e, f, a, dt):
        x = e.load(a[0].a, a[0].o, bits // 8)
        y = e.load(a[1].a, a[1].o, bits // 8)
        return pick(e, scal(a[2]), x, y, bits)
    return g


def scal(x):
    from .core import Agg
    if isinstance(x, Agg):
        return x.c[0][2]
    return x


def pick(e, c, x, y, bits):
    """c ? y : x"""
    w = e.w
    c = w.n(c)
    if isinstance(c, int):
        return y if c else x
    if x is y or x == y:
        return x
    if isinstance(x, (int, SV)) and isinstance(y, (int, SV)):
        p = P.add(w.poly(x), P.mul(c.p, P.sub(w.poly(y), w.poly(x))))
        (xl, xh), (yl, yh) = w.rng(x), w.rng(y)
        return w.mk(w.boolnorm(p), min(xl, yl), max(xh, yh))
    c = w.concretize(c, "select")
    return y if c else x


def s_assign(bits):
    def g(e, f, a, dt):
        n = bits // 8
        x = e.load(a[0].a, a[0].o, n)
        y = e.load(a[1].a, a[1].o, n)
        e.store(a[0].a, a[0].o, n, pick(e, scal(a[2]), x, y, bits))
        return unit()
    return g


def s_swap(bits):
    def g(e, f, a, dt):
        n = bits // 8
        x = e.load(a[0].a, a[0].o, n)
        y = e.load(a[1].a, a[1].o, n)
        c = scal(a[2])
        e.store(a[0].a, a[0].o, n, pick(e, c, x, y, bits))
        e.store(a[1].a, a[1].o, n, pick(e, c, y, x, bits))
        return unit()
    return g


def black_box_volatile(e, f, a, dt):
    return a[0]


BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "u128": 128, "isize": 64}
RX_SUBTLE = re.compile(r"^<(u8|u16|u32|u64|usize|i8|i16|i32|i64|u128|i128|isize) as subtle::(\w+)>::(\w+)$")

def io_error(e, f, a, dt):
    """std::io::Error::new: an opaque, non-null error value"""
    from .core import Ptr, Agg
    m = e.new_alloc(8, "io-error")
    m.cells[0] = (0, 8)
    p = Ptr(m, 0)
    return Agg([(0, 8, p)], 8) if not dt.get("scalar") else p


TABLE = [
    (re.compile(r"^(std::io::Error|.*<impl std::io::Error>)::(new|other)::<"), io_error),
    (re.compile(r"^std::ptr::drop_(glue|in_place)::<std::io::Error>$"), i_unit),
    (re.compile(r"^alloc::alloc::__rust_alloc$"), h_alloc(False)),
    (re.compile(r"^alloc::alloc::__rust_alloc_zeroed$"), h_alloc(True)),
    (re.compile(r"^alloc::alloc::__rust_dealloc$"), h_dealloc),
    (re.compile(r"^alloc::alloc::__rust_realloc$"), h_realloc),
    (re.compile(r"^alloc::alloc::__rust_no_alloc_shim_is_unstable"), i_unit),
    (re.compile(r"^subtle::black_box"), black_box_volatile),
    (re.compile(r"libm::.*\blog$"), i_float(math.log)),
    (re.compile(r"libm::ceil$"), i_float(lambda x: float(math.ceil(x)))),
]


def builtin(e, fi, f):
    k = f["kind"]
    if k.startswith("intr:"):
        n = k[5:]
        h = INTR.get(n)
        if h is not None:
            return h
        if "bb" in f:
            return None
        raise Unsupported("intrinsic " + f["name"])
    nm = f["name"]
    m = RX_SUBTLE.match(nm)
    if m and m.group(1) in BITS:
        b = BITS[m.group(1)]
        meth = m.group(3)
        if meth == "ct_eq":
            return s_ct_eq(b)
        if meth == "conditional_select":
            return s_select(b)
        if meth == "conditional_assign":
            return s_assign(b)
        if meth == "conditional_swap":
            return s_swap(b)
    for rx, h in TABLE:
        if rx.search(nm):
            return h
    return None
