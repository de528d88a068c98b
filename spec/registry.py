"""Property id -> what is checked."""
from mirv.runner import Prop
from . import params, fieldspec, inverse, towers, fq2, roots, ecref, ptoracle, points, groups, endo, algos, fft, msm, pairings, panics, pointio, maps, xmd

PROPS = {}


def prop(pid, feats, obligations, **kw):
    PROPS[pid] = Prop(pid, feats, obligations, **kw)


def fields(fn):
    return lambda prog: fieldspec.attach([o for f in params.FIELDS for o in fn(f)])


FIELD_ASSUME = [
    "arguments of a root are arbitrary canonical elements (Montgomery integer < p), the type invariant every constructor establishes",
    "the parametric moduli in spec/params.py are the standard ones (independent of the code)",
]
CURVE_ASSUME = [
    "base-field operations meet the contracts discharged by C01, C03, C08, C20 (arithmetic, inversion, comparison, selection), over an abstract field of characteristic different from 2 and 3",
    "point arguments are arbitrary valid points: any projective representative of a point on the curve, and the identity with any y; the curves have no point with y = 0 (the odd group order is checked as a lemma)",
]
prop("C01", ["g_fields"], fields(fieldspec.c01), special=fieldspec.special(), assumptions=FIELD_ASSUME)
prop("C02", ["g_fields", "asm"], fields(fieldspec.c02), special=fieldspec.special(), assumptions=FIELD_ASSUME + ["x86-64 instruction semantics of mirv/asm.py (mov, mulx, imul, add/adc/adcx/adox, sub/sbb, and/or/xor, cmp, cmovcc)", "inline assembly keeps to its declared operands (writes outside them are reported)"])
prop("C05", ["g_fields"], fields(fieldspec.c05), special=fieldspec.special(), assumptions=FIELD_ASSUME)
prop("C07", ["g_fields", "g_towers"], lambda prog: fields(fieldspec.c07)(prog) + fq2.all_of(fq2.conversions, "C07")(prog), special=towers.ios(True), assumptions=FIELD_ASSUME)
prop("C20", ["g_fields", "g_towers", "g_curves"], lambda prog: fields(fieldspec.c20)(prog) + fq2.all_of(fq2.order, "C20")(prog) + towers.c20(prog) + [o for c in ecref.CURVES for o in points.c20(c, prog)], special=ecref.transport(), assumptions=FIELD_ASSUME)
prop("C06", ["g_fields", "g_curves"], lambda prog: fields(fieldspec.c06)(prog) + [o for c in ecref.CURVES for o in points.c06(c, prog)], special=ecref.transport(), assumptions=FIELD_ASSUME)

prop("C08", ["g_towers"], lambda prog: [o for t in towers.TOWERS for o in towers.attach(t, towers.c08(t))], special=towers.ios(), assumptions=FIELD_ASSUME + [
    "the base-field operations meet the contracts discharged by C01, C03 (inverse) and C20 (equality, selection)"])
prop("C09", ["g_towers"], lambda prog: [o for f in (fq2.encodings,) for o in fq2.all_of(f, "C09")(prog)] + [o for t in towers.TOWERS for o in roots.c09_roots(t)], special=towers.ios(), assumptions=FIELD_ASSUME)

prop("C04", ["g_fields"], lambda prog: [o for f in params.FIELDS for o in roots.c04(f)], bounded=roots.b_field("C04", "legendre", "Jacobi-symbol loops are not under contract yet"),
     special=fieldspec.special(), assumptions=FIELD_ASSUME + ["ff::helpers::sqrt_tonelli_shanks (dependency) meets its documented contract; its arguments are checked here"])
prop("C03", ["g_fields", "g_towers"], inverse.c03, bounded=roots.b_field("C03", "invert", "termination of the division-step loop is assumed by the contract of invert; every run of this search must end", n=400), special=towers.ios(True),
     assumptions=FIELD_ASSUME + ["termination of the division-step loop of BYInverter::invert and of the 62-step loop of jump (partial correctness; the bound is Bernstein and Yang's theorem)", "|delta| stays below 2^40 in jump (it moves by at most 62 per round; no run takes 2^33 rounds)", "the ten moduli are prime",
                                 "in the towers: the base-field operations meet the contracts discharged by C01, C03 and C20"])


def b_points(tag, names, why, n=300):
    from mirv.runner import Bounded

    def mk(prog):
        out = []
        for c in ecref.CURVES:
            for r in sorted(prog.roots):
                m, k = r.split("::")
                if m == c.mod and __import__("re").fullmatch(names, k):
                    out.append(Bounded("%s/%s/%s" % (tag, m, k), r, None, n=n, why=why))
            ptoracle.attach(c, [o for o in out if o.root.split("::")[0] == c.mod])
        return [o for o in out if o.oracle]
    return mk


prop("C10", ["g_curves"], lambda prog: [o for c in ecref.CURVES for o in points.c10(c, prog)], special=ecref.transport(), assumptions=FIELD_ASSUME + CURVE_ASSUME)
prop("C11", ["g_curves"], lambda prog: [o for c in ecref.CURVES for o in points.c11(c, prog)], special=ecref.transport(), assumptions=FIELD_ASSUME + CURVE_ASSUME)
prop("C12", ["g_curves"], lambda prog: [o for c in ecref.CURVES for o in groups.c12(c, prog)], special=ecref.transport(), assumptions=FIELD_ASSUME + CURVE_ASSUME + ["the group operations meet the contracts discharged by C10, C11 and C20 (point addition, subtraction, doubling, negation, conversion, selection); from_mont meets the contract discharged by C05"])
prop("C13", ["g_curves"], lambda prog: [o for c in ecref.CURVES for o in pointio.obligations(c, prog)], special=ecref.transport(), assumptions=FIELD_ASSUME)

prop("C14", ["g_curves"], lambda prog: [o for c in ecref.CURVES for o in endo.c14(c, prog)] + endo.decompositions(prog), special=endo.transport(), assumptions=FIELD_ASSUME + CURVE_ASSUME + ["an automorphism of a curve acts on the prime-order subgroup as a scalar (mathematics); the scalar is checked on the generator"])
prop("C19", ["g_curves"], lambda prog: [o for c in ecref.CURVES for o in endo.c19(c, prog)], special=endo.transport(), assumptions=FIELD_ASSUME + CURVE_ASSUME + ["the group operations meet the contracts discharged by C10 and C11", "the endomorphism ring of a curve with j = 0 is Z[w]; sizes of the sextic twists (mathematics, checked on sample points by lemmas)"])

prop("C15", ["g_algos"], msm.obligations, bounded=algos.c15, special=algos.transport(), assumptions=FIELD_ASSUME)
prop("C16", ["g_algos"], fft.obligations, bounded=algos.c16, special=algos.transport(), assumptions=FIELD_ASSUME)
prop("C17", ["g_algos"], lambda prog: xmd.obligations(prog) + maps.obligations(prog), bounded=algos.c17, special=algos.transport(), assumptions=FIELD_ASSUME + [
    "base-field arithmetic, inversion, square root, quadratic character, parity and from_uniform_bytes meet the contracts discharged by C01, C03, C04, C07, C08, C09; point addition and clear_cofactor those of C10 and C14/C19",
    "SHA-256 (dependency sha2) is an uninterpreted function of the bytes fed to it; its output is 32 bytes and its block 64",
    "in the proof of the map one of the two field elements is arbitrary and the other is fixed; in the proof of the expansion the map is an unknown function of its argument (together: every message)"])
prop("C18", ["g_engines"], pairings.obligations, bounded=pairings.c18, special=ecref.transport(), assumptions=FIELD_ASSUME)
prop("C21", ["g_fields", "g_towers", "g_curves"], panics.c21, special=ecref.transport(), assumptions=FIELD_ASSUME)
