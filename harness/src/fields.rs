//! Prime fields.
use ff::{Field, FromUniformBytes, PrimeField, PrimeFieldBits, WithSmallOrderMulGroup};
use halo2curves::ff_ext::Legendre;
use halo2curves::serde::SerdeObject;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq};

macro_rules! field {
    ($m:ident, $f:ty, $n:literal, [$($un:ident : $u:literal),*]) => {
        pub mod $m {
            use super::*;
            type F = $f;
            const N: usize = 8 * $n;
            crate::roots! {
                // C01
                fn add(a: F, b: F) -> F { &a + &b }
                fn add_vv(a: F, b: F) -> F { a + b }
                fn add_vr(a: F, b: F) -> F { a + &b }
                fn add_rv(a: F, b: F) -> F { &a + b }
                fn add_asv(a: F, b: F) -> F { let mut x = a; x += b; x }
                fn add_asr(a: F, b: F) -> F { let mut x = a; x += &b; x }
                fn add_in(a: F, b: F) -> F { F::add(&a, &b) }
                fn sub(a: F, b: F) -> F { &a - &b }
                fn sub_vv(a: F, b: F) -> F { a - b }
                fn sub_vr(a: F, b: F) -> F { a - &b }
                fn sub_rv(a: F, b: F) -> F { &a - b }
                fn sub_asv(a: F, b: F) -> F { let mut x = a; x -= b; x }
                fn sub_asr(a: F, b: F) -> F { let mut x = a; x -= &b; x }
                fn sub_in(a: F, b: F) -> F { F::sub(&a, &b) }
                fn mul(a: F, b: F) -> F { &a * &b }
                fn mul_vv(a: F, b: F) -> F { a * b }
                fn mul_vr(a: F, b: F) -> F { a * &b }
                fn mul_rv(a: F, b: F) -> F { &a * b }
                fn mul_asv(a: F, b: F) -> F { let mut x = a; x *= b; x }
                fn mul_asr(a: F, b: F) -> F { let mut x = a; x *= &b; x }
                fn mul_in(a: F, b: F) -> F { F::mul(&a, &b) }
                fn neg(a: F) -> F { -&a }
                fn neg_v(a: F) -> F { -a }
                fn neg_in(a: F) -> F { F::neg(&a) }
                fn double(a: F) -> F { F::double(&a) }
                fn double_f(a: F) -> F { <F as Field>::double(&a) }
                fn square(a: F) -> F { F::square(&a) }
                fn square_f(a: F) -> F { <F as Field>::square(&a) }
                fn cube(a: F) -> F { <F as Field>::cube(&a) }
                fn sum2(a: F, b: F) -> F { [a, b].iter().sum() }
                fn prod2(a: F, b: F) -> F { [a, b].iter().product() }
                fn sum0() -> F { core::iter::empty::<F>().sum() }
                fn prod0() -> F { core::iter::empty::<F>().product() }
                fn zero() -> F { F::zero() }
                fn one() -> F { F::one() }
                fn zero_c() -> F { <F as Field>::ZERO }
                fn one_c() -> F { <F as Field>::ONE }
                fn default() -> F { F::default() }
                fn pow_vt(a: F, e: [u64; 1]) -> F { a.pow_vartime(e) }
                fn pow_ct(a: F, e: [u64; 1]) -> F { a.pow(e) }
                // C20
                fn ct_eq(a: F, b: F) -> bool { a.ct_eq(&b).into() }
                fn ct_ne(a: F, b: F) -> bool { a.ct_ne(&b).into() }
                fn eq(a: F, b: F) -> bool { a == b }
                fn ne(a: F, b: F) -> bool { a != b }
                fn is_zero(a: F) -> bool { a.is_zero().into() }
                fn is_zero_vt(a: F) -> bool { a.is_zero_vartime() }
                fn select(a: F, b: F, c: bool) -> F { F::conditional_select(&a, &b, Choice::from(c as u8)) }
                fn cassign(a: F, b: F, c: bool) -> F { let mut x = a; x.conditional_assign(&b, Choice::from(c as u8)); x }
                fn cswap(a: F, b: F, c: bool) -> (F, F) { let (mut x, mut y) = (a, b); F::conditional_swap(&mut x, &mut y, Choice::from(c as u8)); (x, y) }
                fn cmp(a: F, b: F) -> i8 { a.cmp(&b) as i8 }
                fn partial_cmp(a: F, b: F) -> Option<i8> { a.partial_cmp(&b).map(|o| o as i8) }
                fn lex_largest(a: F) -> bool { a.lexicographically_largest().into() }
                fn is_odd(a: F) -> bool { a.is_odd().into() }
                fn is_even(a: F) -> bool { a.is_even().into() }
                // C05
                fn to_repr(a: F) -> [u8; N] { a.to_repr().into() }
                fn from_repr(b: [u8; N]) -> Option<F> { F::from_repr(b.into()).into() }
                fn from_repr_vt(b: [u8; N]) -> Option<F> { F::from_repr_vartime(b.into()) }
                fn to_bytes(a: F) -> [u8; N] { F::to_bytes(&a) }
                fn from_bytes(b: [u8; N]) -> Option<F> { F::from_bytes(&b).into() }
                fn repr_from(a: F) -> [u8; N] { let r: halo2curves::serde::Repr<N> = a.into(); r.into() }
                fn repr_from_r(a: F) -> [u8; N] { let r: halo2curves::serde::Repr<N> = (&a).into(); r.into() }
                fn endian_to_bytes(a: F) -> Vec<u8> { halo2curves::serde::endian::EndianRepr::to_bytes(&a) }
                fn endian_from_bytes(b: [u8; N]) -> Option<F> { <F as halo2curves::serde::endian::EndianRepr>::from_bytes(&b).into() }
                fn to_raw(a: F) -> Vec<u8> { a.to_raw_bytes() }
                fn from_raw_b(b: [u8; N]) -> Option<F> { F::from_raw_bytes(&b) }
                fn from_raw_short(b: [u8; N]) -> Option<F> { F::from_raw_bytes(&b[..N - 1]) }
                fn from_raw_u(b: [u8; N]) -> F { F::from_raw_bytes_unchecked(&b) }
                fn read_raw(b: [u8; N]) -> Option<F> { F::read_raw(&mut &b[..]).ok() }
                fn read_raw_short(b: [u8; N]) -> Option<F> { F::read_raw(&mut &b[..N - 1]).ok() }
                fn read_raw_u(b: [u8; N]) -> F { F::read_raw_unchecked(&mut &b[..]) }
                fn write_raw(a: F) -> Vec<u8> { let mut v = Vec::new(); a.write_raw(&mut v).unwrap(); v }
                fn le_bits(a: F) -> [u64; $n] { a.to_le_bits().into_inner() }
                fn char_bits() -> [u64; $n] { F::char_le_bits().into_inner() }
                // C07
                fn from_u64(v: u64) -> F { F::from(v) }
                fn from_u128(v: u128) -> F { F::from_u128(v) }
                fn from_bool(v: bool) -> F { F::from(v) }
                fn from_raw(v: [u64; $n]) -> F { F::from_raw(v) }
                $(fn $un(b: [u8; $u]) -> F { F::from_uniform_bytes(&b) })*
                fn random(b: [u8; 2 * N]) -> F { F::random(crate::FixedRng(&b, 0)) }
                // C06
                fn c_two_inv() -> F { F::TWO_INV }
                fn c_gen() -> F { F::MULTIPLICATIVE_GENERATOR }
                fn c_rou() -> F { F::ROOT_OF_UNITY }
                fn c_rou_inv() -> F { F::ROOT_OF_UNITY_INV }
                fn c_delta() -> F { F::DELTA }
                fn c_zeta() -> F { F::ZETA }
                fn c_s() -> u32 { F::S }
                fn c_bits() -> u32 { F::NUM_BITS }
                fn c_cap() -> u32 { F::CAPACITY }
                fn c_size() -> usize { F::SIZE }
                fn c_limbs() -> usize { F::NUM_LIMBS }
                fn c_mod() -> Vec<u8> { F::MODULUS.as_bytes().to_vec() }
                // C03, C04
                fn invert(a: F) -> Option<F> { a.invert().into() }
                fn batch_inv1(a: F) -> (F, F) { let mut v = [a]; let r = ff::BatchInvert::batch_invert(v.iter_mut()); (v[0], r) }
                fn batch_inv2(a: F, b: F) -> (F, F, F) { let mut v = [a, b]; let r = ff::BatchInvert::batch_invert(v.iter_mut()); (v[0], v[1], r) }
                fn batch_inv3(a: F, b: F, c: F) -> (F, F, F, F) { let mut v = [a, b, c]; let r = ff::BatchInvert::batch_invert(v.iter_mut()); (v[0], v[1], v[2], r) }
                fn sqrt(a: F) -> Option<F> { a.sqrt().into() }
                fn sqrt_ratio(a: F, b: F) -> (bool, F) { let (c, r) = F::sqrt_ratio(&a, &b); (c.into(), r) }
                fn sqrt_alt(a: F) -> (bool, F) { let (c, r) = a.sqrt_alt(); (c.into(), r) }
                fn legendre(a: F) -> i64 { a.legendre() }
            }
        }
    };
}
field!(bn256_fq, halo2curves::bn256::Fq, 4, [un64: 64, un48: 48]);
field!(bn256_fr, halo2curves::bn256::Fr, 4, [un64: 64, un48: 48]);
field!(bls_fq, halo2curves::bls12381::Fq, 6, [un64: 64, un96: 96]);
field!(bls_fr, halo2curves::bls12381::Fr, 4, [un64: 64]);
field!(k1_fp, halo2curves::secp256k1::Fp, 4, [un64: 64, un48: 48]);
field!(k1_fq, halo2curves::secp256k1::Fq, 4, [un64: 64, un48: 48]);
field!(r1_fp, halo2curves::secp256r1::Fp, 4, [un64: 64, un48: 48]);
field!(r1_fq, halo2curves::secp256r1::Fq, 4, [un64: 64, un48: 48]);
field!(pluto_fp, halo2curves::pluto_eris::Fp, 7, [un64: 64, un72: 72, un112: 112]);
field!(pluto_fq, halo2curves::pluto_eris::Fq, 7, [un64: 64, un72: 72, un112: 112]);

#[cfg(feature = "rpc")]
pub(crate) fn tables(v: &mut Vec<crate::Entry>) {
    for t in [bn256_fq::table, bn256_fr::table, bls_fq::table, bls_fr::table, k1_fp::table, k1_fq::table, r1_fp::table, r1_fq::table, pluto_fp::table, pluto_fq::table] {
        v.extend(t());
    }
}
