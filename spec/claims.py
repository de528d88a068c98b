"""What MANIFEST.json claims, per property: (technique, level, level note)."""
T = "contract-based deductive verification of the compiled code's MIR (symbolic execution per function, callee contracts, SMT/polynomial discharge)"
COMMON = "Trusts rustc's MIR, the mirv executor and its contracts for core/alloc intrinsics and subtle's u64 primitives, z3 for linear integer goals. "
CLAIMS = {
    "C01": (T, "proof", COMMON + "All ten prime fields, all operand values, every operator form; generic (non-asm) back end."),
    "C03": (T, "proof", COMMON + "Every nonzero and zero element of the ten prime fields: every CInt operation, the 62-step loop and the outer division-step loop by inductive invariants (partial correctness; termination assumed and exercised by a bounded search); inversion in the towers; batch inversion of one to three elements."),
    "C04": (T, "proof", COMMON + "sqrt, sqrt_ratio and sqrt_alt for every element of the ten prime fields, over the contract of ff's Tonelli-Shanks helper (dependency, assumed); legendre is a bounded stand-in."),
    "C05": (T, "proof", COMMON + "All byte strings of the fixed width and all elements; serde formats are reached through the same byte functions."),
    "C06": (T, "proof", COMMON + "Constants are evaluated from the compiled code and checked against their definitions by exact integer arithmetic."),
    "C07": (T, "proof", COMMON + "All integers and all uniform byte strings of every published width."),
    "C08": (T, "proof", COMMON + "All elements of the quadratic, sextic and dodecic towers of bn256, bls12-381 and pluto, over the base-field contracts."),
    "C09": (T, "proof", COMMON + "Square root and Legendre symbol for every element, all encodings, of the three quadratic extensions."),
    "C20": (T, "proof", COMMON + "All pairs of elements of the ten prime fields and of the extension towers."),
}
CLAIMS["C10"] = (T, "proof", COMMON + "All pairs of points of the eleven groups in every representation, over the base-field contracts; group associativity itself is mathematics, not checked.")
CLAIMS["C11"] = (T, "proof", COMMON + "All points in every representation; batch_normalize for slices of length 1, 2 and 3 (every identity pattern).")
CLAIMS["C12"] = (T, "proof", COMMON + "All points and all scalars of the eleven groups, over the group-operation contracts of C10/C11.")
CLAIMS["C13"] = (T, "proof", COMMON + "All points and all byte strings of every advertised width: compressed, uncompressed and raw forms of the eleven groups, over the base-field encoding and square-root contracts of C04, C05 and C09.")
CLAIMS["C14"] = (T, "proof", COMMON + "endo for all points of the ten a = 0 groups; decompose_scalar for every scalar of six groups (pasta included), integer arithmetic without wraparound.")
CLAIMS["C19"] = (T, "proof", COMMON + "All points of all groups, over the group-operation contracts of C10/C11; the endomorphism arithmetic is decided in Z[w].")
BND = COMMON + "Bounded stand-in: compiled entry points against an independent reference on a stated number of inputs; "
CLAIMS["C02"] = (T, "proof", COMMON + "All operand values of the three fields with assembly (instruction semantics in mirv/asm.py) and of the seven that dispatch to the generic code; every entry of the bn256 table.")
CLAIMS["C15"] = (T, "exploration", BND + "lengths 0 to 150 (and above 8103 for the batched path), 1 to 8 threads. The signed-digit recoding (get_booth_index) is discharged as obligations for every scalar, window size and position; the bucket accumulation is the bounded part.")
CLAIMS["C16"] = (T, "model_checking", COMMON + "best_fft is discharged for every coefficient vector, every primitive root and every thread count at each power-of-two length up to a bound (32 for every group, 256 for one field; 64 and 512 thorough): exhaustive in values, bounded in length. Longer inputs up to 1024 are a bounded stand-in.")
CLAIMS["C17"] = (T, "proof", COMMON + "Every message and every prefix within the length limit, over an uninterpreted SHA-256 (dependency, assumed); every field element, the exceptional ones included, for the ten maps to a curve (SVDW, SSWU, isogenies). Bounded runs against an RFC 9380 reference in addition.")
CLAIMS["C18"] = (T, "exploration", BND + "points with known logarithms. The final exponentiation and the target-group operations are discharged as obligations for all inputs; the Miller loop is the bounded part.")
CLAIMS["C21"] = (T, "proof", COMMON + "Field, quadratic-extension and point decoders for every input of the width; termination follows from executing every path to its end.")
NOT_APPLICABLE = {}
NOTES = "mirv: see DESIGN.md. Hook: cfg(mirv_hooks) re-exports the crate-private trait CurveEndo so the harness can call it; chosen field elements for hash_to_curve come through hash_to_curve::mirv_hooks under the same cfg; everything else is public."
