"""C21: decoders return for every input (no reachable panic, unreachable, out-of-bounds access or overflow trap; every loop ends)."""
import copy
import re
from mirv.conc import Pred, PANIC
from . import ecref, fieldspec, fq2, params, pointio

FIELD = r"from_repr|from_repr_vt|from_bytes|endian_from_bytes|from_raw_b|from_raw_short|from_raw_u|read_raw|read_raw_short|read_raw_u|un\d+|from_uniform.*"
POINT = r"._from_bytes(_u)?|from_unc(_u)?|._from_raw(_short|_u)?|._read_raw(_u)?"


def returns(*a):
    return Pred(lambda got: not (isinstance(got, tuple) and len(got) == 2 and got[0] in ("panic", "crash", "timeout")), "returns without panicking")


def spec(c, a, r):
    c.put("returns", True)


def quiet(o, tag="C21"):
    o = copy.copy(o)
    o.name = tag + o.name[3:]
    o.spec = spec
    o.fallback = None
    o.oracle = returns
    return o


def c21(prog):
    src = [o for f in params.FIELDS for o in fieldspec.c05(f) + fieldspec.c07(f)] + fq2.all_of(fq2.encodings, "C05")(prog) + fq2.all_of(fq2.conversions, "C07")(prog)
    out = [quiet(o) for o in src if o.root and re.fullmatch(FIELD, o.root.split("::")[1])]
    for c in ecref.CURVES:
        out += [quiet(o) for o in pointio.obligations(c, prog) if re.fullmatch(POINT, o.root.split("::")[1])]
    return out

