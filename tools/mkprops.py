import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=hook)))
FIELDS="bn256 Fq/Fr, bls12381 Fq/Fr, secp256k1 Fp/Fq, secp256r1 Fp/Fq, pluto_eris Fp/Fq"
p("C01","Prime-field ring operations are exact and canonical",
 "For every prime field of the library, addition, subtraction, negation, doubling, multiplication and squaring of any two elements return exactly the residue that integer arithmetic modulo the field's prime gives. Every result is again a canonical element, so that equality, hashing of bytes and all later operations see one representation per residue.",
 ["inputs"],"all pairs of canonical elements of "+FIELDS,
 "Tests sample random elements; carry chains, the final conditional subtraction and near-modulus values are reached with probability about 2^-64 or less.",
 ["derive/src/field/arith.rs","derive/src/field/mod.rs","src/arithmetic.rs","src/derive/mod.rs"],
 [("Montgomery multiplication/squaring/reduction generated per modulus","derive/src/field/arith.rs"),("carry primitives","src/arithmetic.rs")],["operators and Field methods of every prime field"])
p("C02","The assembly back end computes the same field operations",
 "With the assembly feature on, addition, subtraction, negation, doubling, multiplication, squaring and the conversion out of internal form give, for every pair of elements, exactly the residue integer arithmetic modulo the prime gives, in canonical form. The lookup table feature does not change any conversion of a small integer into a scalar.",
 ["inputs","configurations"],"all pairs of canonical elements of the fields that have assembly code (bn256 Fq/Fr, bls12381 Fr), feature asm (and bn256-table) on",
 "The tests run random inputs through the assembly; rare carry patterns are not reached.",
 ["derive/src/field/asm/limb4.rs","derive/src/field/asm/mod.rs","src/bn256/fr.rs"],
 [("inline x86-64 assembly","derive/src/field/asm/limb4.rs"),("2^16 table","src/bn256/fr.rs")])
p("C03","Inversion and batch inversion are correct",
 "Inverting a nonzero element of any field returns the element whose product with it is one, and inverting zero reports failure. Batch inversion of a slice replaces every nonzero element by its inverse, leaves zeros unchanged, and returns the inverse of the product of the nonzero elements.",
 ["inputs"],"all elements of all prime and extension fields; all slices of any length with zeros at any position",
 "Inversion is a data-dependent loop; tests only sample random elements.",
 ["src/ff_ext/inverse.rs","derive/src/field/mod.rs","src/ff_ext/mod.rs","src/ff_ext/quadratic.rs","src/ff_ext/cubic.rs"],
 [("Bernstein-Yang inverter","src/ff_ext/inverse.rs"),("norm-based inversion in towers","src/ff_ext"),("prefix products","ff batch inversion as re-exported")])
p("C04","Legendre symbol and square root agree with the field",
 "For every element of every prime field the Legendre symbol is 0 for zero, 1 for nonzero squares and -1 for non-squares. The square root operation succeeds exactly on squares and then returns an element whose square is the input; sqrt_ratio keeps its documented contract.",
 ["inputs"],"all elements of "+FIELDS,
 "The Jacobi-symbol loop is data dependent and tests sample random elements only.",
 ["src/ff_ext/jacobi.rs","src/ff_ext/mod.rs","derive/src/field/mod.rs","src/derive/field/common.rs"],
 [("Jacobi symbol","src/ff_ext/jacobi.rs"),("Tonelli-Shanks / exponentiation","derive/src/field/mod.rs")])
p("C05","Prime-field encodings are bijective and reject non-canonical bytes",
 "Encoding a prime-field element to its byte representation and decoding it returns the same element, for the fixed-width byte, serde and raw forms, and the encoded integer is the element's residue in the documented byte order. Decoding a byte string whose integer is not below the modulus fails instead of being reduced, and the unchecked raw reader is the only exception.",
 ["inputs"],"all elements and all byte strings of the representation's width, every prime field",
 "Rejection at the modulus boundary needs values in a tiny set; tests sample random canonical elements.",
 ["derive/src/field/mod.rs","src/serde.rs","src/encoding.rs"],
 [("to_repr/from_repr, SerdeObject","derive/src/field/mod.rs"),("endianness helpers","src/encoding.rs")])
p("C06","Published field and curve constants satisfy their definitions",
 "Every published constant is what its name says: modulus string and bit sizes describe the prime, two-inverse times two is one, the multiplicative generator is a non-residue, roots of unity have the exact claimed order and inverse, delta and zeta have their defining orders. Curve generators lie on their curve with the curve's order, and the curve coefficients returned are those of the named standard curve.",
 ["configurations"],"every constant of every field and curve of the library",
 "Tests compare a few constants; some (orders, non-residuosity, bit capacities) are unchecked.",
 ["src/bn256","src/bls12381","src/secp256k1","src/secp256r1","src/pluto_eris","src/grumpkin","src/secq256k1","derive/src/field/mod.rs"],
 [("constants","src/*/f*.rs, src/*/curve.rs")])
p("C07","Conversions from integers and uniform bytes reduce correctly",
 "Building a prime-field element from an unsigned integer, a boolean, raw limbs, a decimal or modulus-wide value or a uniformly random byte string gives exactly that integer modulo the prime, reading bytes in the documented order. Random element generation consumes enough bytes and reduces them the same way.",
 ["inputs"],"all u64, u128, bool, limb arrays, and all byte strings of each accepted uniform length, every prime field",
 "The values that exercise carries between the low and high halves are rare.",
 ["derive/src/field/mod.rs","derive/src/field/arith.rs","src/bn256/fr.rs"],
 [("from_uniform_bytes, from_u512-style reduction, From<u64>","derive/src/field/mod.rs")])
p("C08","Extension towers implement their polynomial quotient rings",
 "In every quadratic, cubic, sextic and dodecic extension, all ring operations, squaring, inversion, zero test, conjugation, multiplication by the non-residue, Frobenius maps of every power, cyclotomic squaring and sparse multiplication agree with arithmetic in the quotient ring that defines the extension. The claim holds for every coefficient, including when some coefficients are zero.",
 ["inputs"],"all elements of Fq2, Fq6, Fq12 (bn256, bls12381) and Fp2, Fp6, Fp12 (pluto_eris); cyclotomic squaring on the cyclotomic subgroup; every Frobenius power",
 "Tests sample random elements, which never have zero coefficients; several operations are only compared with each other.",
 ["src/ff_ext/quadratic.rs","src/ff_ext/cubic.rs","src/derive/field/tower.rs","src/bn256/fq2.rs","src/bn256/fq6.rs","src/bn256/fq12.rs","src/bls12381","src/pluto_eris/fields"],
 [("Karatsuba formulas","src/ff_ext"),("Frobenius coefficients","src/*/fq6.rs, fq12.rs")])
p("C09","Extension-field square roots, order and encodings are correct",
 "In every quadratic extension field the Legendre symbol and square root agree with squareness in that field: square root succeeds exactly on squares and returns a root. Encoding and decoding are inverse bijections that reject non-canonical coefficients without panicking.",
 ["inputs"],"all elements of every quadratic extension field; all byte strings of the encoding width of every extension field",
 "Special inputs (pure base-field or pure imaginary elements, non-canonical coefficients) are not sampled by random tests.",
 ["src/ff_ext/quadratic.rs","src/derive/field/tower.rs","src/bn256/fq2.rs","src/bls12381/fq2.rs","src/pluto_eris/fields/fp2.rs"],
 [("complex-method square roots","src/ff_ext/quadratic.rs"),("impl_tower2 encodings","src/derive/field/tower.rs")])
p("C10","Curve point addition, doubling and negation are the group law",
 "On every curve, adding, mixed-adding, doubling, negating and subtracting points, in any mixture of affine and projective arguments and any projective representative, yields the point the elliptic-curve group law defines. This includes equal points, opposite points and the identity in every argument position.",
 ["inputs"],"all pairs of points (any representative) of every curve defined by the library",
 "Exceptional pairs are a negligible fraction of random pairs and not all representative combinations are tested.",
 ["src/derive/curve.rs"],[("complete addition and doubling formulas","src/derive/curve.rs")])
p("C11","Point representations convert, normalise and compare faithfully",
 "Converting between projective, affine and Jacobian coordinates, normalising in batch and reading coordinates all preserve the point, including the identity. The on-curve test accepts exactly the points of the curve and the identity, constructors reject coordinates off the curve, and equality holds exactly when two representations denote the same point.",
 ["inputs"],"all coordinate pairs/triples and all slices of points (identity anywhere) of every curve",
 "Off-curve and identity-containing inputs are sampled at a handful of places.",
 ["src/derive/curve.rs"],[("to_affine, batch_normalize, jacobian_coordinates, new_jacobian, from_xy, is_on_curve, ct_eq","src/derive/curve.rs")])
p("C12","Scalar multiplication is iterated addition",
 "For every curve, multiplying a point by a scalar, from either the projective or affine form and by value, reference or assignment, yields the sum of that many copies of the point, for every canonical scalar including zero and the group order minus one.",
 ["inputs"],"all points and all scalars of every curve",
 "Tests cover a few scalars.",
 ["src/derive/curve.rs"],[("double-and-add","src/derive/curve.rs")])
p("C13","Point encodings round-trip and reject invalid strings",
 "Encoding any point and decoding the bytes returns that point, for the compressed, uncompressed and raw forms of every curve, with the flags and byte order the format documents. Decoding accepts only canonical encodings of points on the curve: it fails on coordinates not below the modulus, coordinates with no curve point, inconsistent flags, and identity encodings with nonzero coordinates.",
 ["inputs"],"all points (including those with a zero coordinate) and all byte strings of the encoding width, every curve with an encoding",
 "Almost all invalid encodings and the special points have negligible probability in random tests.",
 ["src/serde.rs","src/derive/curve.rs"],[("Compressed flag layouts","src/serde.rs"),("GroupEncoding/UncompressedEncoding/SerdeObject","src/derive/curve.rs")])
p("C14","Endomorphism and scalar decomposition are consistent",
 "On every curve with an efficient endomorphism, the endomorphism maps a point to its multiple by the published eigenvalue. Decomposing a scalar returns two half-size signed integers that recombine with the eigenvalue to the scalar modulo the group order.",
 ["inputs"],"all points and all scalars of every curve with an endomorphism",
 "Size bounds and rounding hold or fail at boundary scalars that random tests do not reach.",
 ["src/derive/endo.rs","src/bn256/curve.rs","src/bls12381/g1.rs","src/bls12381/g2.rs","src/grumpkin/curve.rs","src/pasta/mod.rs"],
 [("endo! lattice rounding","src/derive/endo.rs")])
p("C15","Multi-scalar multiplication equals the naive sum",
 "Every multi-scalar multiplication routine returns the sum of the scalar multiples of the bases, for any number of pairs and any thread count. Repeated, opposite and identity bases and zero or extreme scalars are included.",
 ["inputs","schedules","configurations"],"all slices of scalars and bases, any length, any thread count",
 "Bucket collisions, doubling and cancellation inside buckets, carries of the signed digits and window-size thresholds depend on lengths and values tests do not enumerate.",
 ["src/msm.rs"],[("signed window recoding","src/msm.rs get_booth_index"),("bucket accumulation, batched affine addition","src/msm.rs")])
p("C16","FFT evaluates the polynomial at all roots of unity",
 "The FFT over a field or over curve points returns, at position i, the evaluation of the input polynomial at the i-th power of the given root of unity, for every power-of-two length and every thread count. Running it with the inverse root and dividing by the length restores the input.",
 ["inputs","schedules","configurations"],"all coefficient vectors of every power-of-two length, any thread count",
 "The serial and parallel recursion paths depend on length and thread count; tests run a few sizes on one machine.",
 ["src/fft.rs"],[("bit reversal, butterflies, recursion","src/fft.rs")])
p("C17","Hash-to-curve lands on the curve exactly as the map prescribes",
 "Hashing any message with any domain prefix returns a point of the curve, deterministic in its inputs, computed by the documented suite: message expansion, reduction to two field elements, map to curve, isogeny if any, addition and cofactor clearing. The map to curve yields an on-curve point for every field element, including the exceptional ones.",
 ["inputs"],"all messages, domain prefixes and field elements; every curve that implements hashing",
 "Exceptional field elements (zero denominators) are not reachable by hashing random messages.",
 ["src/hash_to_curve.rs","src/secp256k1/curve.rs","src/secp256r1/curve.rs","src/bls12381/g1.rs","src/bls12381/g2.rs","src/derive/curve.rs"],
 [("expand_message, SVDW and SSWU maps, isogenies","src/hash_to_curve.rs")])
p("C18","Pairings are bilinear, non-degenerate and consistent",
 "For each pairing engine the pairing of any two points is the optimal ate pairing: bilinear in both arguments, one exactly when an argument is the identity, and the multi-pairing equals the product of the pairings. The final exponentiation raises to a fixed multiple, coprime to the group order, of the full exponent for every nonzero input, and target-group operations are those of the order-r subgroup.",
 ["inputs"],"all points of both source groups of bn256, bls12381 and pluto_eris; any list of pairs; all nonzero Miller values",
 "Tests check bilinearity on random scalars only; identity handling and mixed lists are sampled.",
 ["src/derive/pairing.rs","src/bn256/engine.rs","src/bls12381/engine.rs","src/pluto_eris/engine.rs"],
 [("Miller loop, line evaluation, final exponentiation, Gt group","src/*/engine.rs")])
p("C19","Subgroup membership and cofactor clearing are exact",
 "For every curve with a cofactor, clearing the cofactor of any curve point gives a point of the prime-order subgroup that is a fixed multiple, coprime to the order, of the input. The torsion test accepts exactly the points of the prime-order subgroup.",
 ["inputs"],"all points of bn256 G2, bls12381 G1 and G2, pluto_eris G2, and the prime-order curves",
 "Membership tests use endomorphism shortcuts whose correctness on every curve point is an algebraic fact, not a sample.",
 ["src/bn256/curve.rs","src/bls12381/g1.rs","src/bls12381/g2.rs","src/pluto_eris/curve.rs"],
 [("CofactorGroup, psi-based shortcuts","src/*/curve.rs, g1.rs, g2.rs")])
p("C20","Comparison and constant-time selection agree with values",
 "For every field, ordering compares elements as integers (extension fields lexicographically from the highest coefficient), equality holds exactly for equal elements, the zero test exactly for zero and the parity test exactly for odd residues. Conditional selection, swap and assignment return exactly the chosen operand, for fields and for points.",
 ["inputs"],"all pairs of elements of every field and points of every curve, both choice values",
 "Orderings of elements that differ only in the low or high limb are not sampled.",
 ["derive/src/field/mod.rs","src/derive/field/tower.rs","src/derive/curve.rs","src/ff_ext"],
 [("Ord, ConstantTimeEq, ConditionallySelectable","derive/src/field/mod.rs")])
p("C21","Decoding untrusted bytes never panics",
 "Every decoder of fields and points that takes bytes of the advertised width returns a value or reports failure for every input. It never panics, reads out of bounds or fails to terminate.",
 ["inputs"],"all byte strings of the advertised width, every field and curve decoder that is not documented as unchecked",
 "Malformed inputs are almost never sampled.",
 ["derive/src/field/mod.rs","src/derive/field/tower.rs","src/derive/curve.rs","src/serde.rs"],
 [("from_repr, from_bytes, from_raw_bytes, read_raw","derive/src/field/mod.rs, src/serde.rs")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
