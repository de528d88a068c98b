"""Domain parameters, written down from the standards (not read from the code under verification)."""

BN_X = 4965661367192848881
BN_P = 36 * BN_X**4 + 36 * BN_X**3 + 24 * BN_X**2 + 6 * BN_X + 1
BN_R = 36 * BN_X**4 + 36 * BN_X**3 + 18 * BN_X**2 + 6 * BN_X + 1
BLS_X = -0xD201000000010000
BLS_R = BLS_X**4 - BLS_X**2 + 1
BLS_P = ((BLS_X - 1) ** 2 * BLS_R) // 3 + BLS_X
K1_P = 2**256 - 2**32 - 977
K1_N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
R1_P = 2**256 - 2**224 + 2**192 + 2**96 - 1
R1_N = 0xFFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551
PLUTO_X = -0x4000000000001000008780000000
PLUTO_P = 36 * PLUTO_X**4 + 36 * PLUTO_X**3 + 24 * PLUTO_X**2 + 6 * PLUTO_X + 1
PLUTO_R = 36 * PLUTO_X**4 + 36 * PLUTO_X**3 + 18 * PLUTO_X**2 + 6 * PLUTO_X + 1


class Field:
    def __init__(self, key, ty, p, n, gen, zeta_sq=False, be=False, uniform=(), asm=False, from64=None):
        self.key, self.ty, self.p, self.n = key, ty, p, n
        self.R = 1 << (64 * n)
        self.Rinv = pow(self.R, -1, p)
        self.gen = gen
        self.be = be
        self.uniform = uniform
        self.size = 8 * n
        self.asm = asm
        self.bits = p.bit_length()
        s, t = 0, p - 1
        while t % 2 == 0:
            s, t = s + 1, t // 2
        self.S, self.T = s, t

    def mont(self, v):
        return v * self.R % self.p

    def unmont(self, v):
        return v * self.Rinv % self.p


FIELDS = [
    Field("bn256_fq", "halo2curves::bn256::Fq", BN_P, 4, 3, uniform=(64, 48), asm=True),
    Field("bn256_fr", "halo2curves::bn256::Fr", BN_R, 4, 7, uniform=(64, 48), asm=True),
    Field("bls_fq", "halo2curves::bls12381::Fq", BLS_P, 6, 2, be=True, uniform=(64, 96)),
    Field("bls_fr", "halo2curves::bls12381::Fr", BLS_R, 4, 7, uniform=(64,), asm=True),
    Field("k1_fp", "halo2curves::secp256k1::Fp", K1_P, 4, 3, uniform=(64, 48)),
    Field("k1_fq", "halo2curves::secp256k1::Fq", K1_N, 4, 7, uniform=(64, 48)),
    Field("r1_fp", "halo2curves::secp256r1::Fp", R1_P, 4, 6, uniform=(64, 48)),
    Field("r1_fq", "halo2curves::secp256r1::Fq", R1_N, 4, 7, uniform=(64, 48)),
    Field("pluto_fp", "halo2curves::pluto_eris::Fp", PLUTO_P, 7, 10, uniform=(64, 72, 112)),
    Field("pluto_fq", "halo2curves::pluto_eris::Fq", PLUTO_R, 7, 7, uniform=(64, 72, 112)),
]
FBY = {f.key: f for f in FIELDS}

PALLAS_P = 0x40000000000000000000000000000000224698FC094CF91B992D30ED00000001
VESTA_P = 0x40000000000000000000000000000000224698FC0994A8DD8C46EB2100000001


class Plain(Field):
    """transported as canonical integers"""

    def mont(self, v):
        return v % self.p

    unmont = mont


PASTA = {"pasta_ep": Plain("pasta_fq", "halo2curves::pasta::Fq", VESTA_P, 4, 5), "pasta_eq": Plain("pasta_fp", "halo2curves::pasta::Fp", PALLAS_P, 4, 5)}
