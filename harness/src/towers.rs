//! Extension fields.
use ff::{Field, FromUniformBytes, PrimeField, WithSmallOrderMulGroup};
use halo2curves::ff_ext::cubic::{CubicExtField, CubicSparseMul};
use halo2curves::ff_ext::quadratic::{QuadExtField, QuadSparseMul};
use halo2curves::ff_ext::{ExtField, Legendre};
use halo2curves::serde::SerdeObject;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq};

pub type PFp = halo2curves::pluto_eris::Fp;
pub type PFp2 = QuadExtField<PFp>;
pub type PFp6 = CubicExtField<PFp2>;
pub type PFp12 = QuadExtField<PFp6>;

macro_rules! common {
    ($m:ident, $f:ty, { $($rest:tt)* }) => {
        pub mod $m {
            use super::*;
            type F = $f;
            crate::roots! {
                fn add(a: F, b: F) -> F { &a + &b }
                fn add_vv(a: F, b: F) -> F { a + b }
                fn add_vr(a: F, b: F) -> F { a + &b }
                fn add_rv(a: F, b: F) -> F { &a + b }
                fn add_asv(a: F, b: F) -> F { let mut x = a; x += b; x }
                fn add_asr(a: F, b: F) -> F { let mut x = a; x += &b; x }
                fn add_in(a: F, b: F) -> F { F::add(&a, &b) }
                fn sub(a: F, b: F) -> F { &a - &b }
                fn sub_vv(a: F, b: F) -> F { a - b }
                fn sub_vr(a: F, b: F) -> F { a - &b }
                fn sub_rv(a: F, b: F) -> F { &a - b }
                fn sub_asv(a: F, b: F) -> F { let mut x = a; x -= b; x }
                fn sub_asr(a: F, b: F) -> F { let mut x = a; x -= &b; x }
                fn sub_in(a: F, b: F) -> F { F::sub(&a, &b) }
                fn mul(a: F, b: F) -> F { &a * &b }
                fn mul_vv(a: F, b: F) -> F { a * b }
                fn mul_vr(a: F, b: F) -> F { a * &b }
                fn mul_rv(a: F, b: F) -> F { &a * b }
                fn mul_asv(a: F, b: F) -> F { let mut x = a; x *= b; x }
                fn mul_asr(a: F, b: F) -> F { let mut x = a; x *= &b; x }
                fn mul_in(a: F, b: F) -> F { F::mul(&a, &b) }
                fn mul_as_in(a: F, b: F) -> F { let mut x = a; F::mul_assign(&mut x, &b); x }
                fn neg(a: F) -> F { -&a }
                fn neg_v(a: F) -> F { -a }
                fn neg_in(a: F) -> F { F::neg(&a) }
                fn double(a: F) -> F { F::double(&a) }
                fn double_f(a: F) -> F { <F as Field>::double(&a) }
                fn square(a: F) -> F { F::square(&a) }
                fn square_f(a: F) -> F { <F as Field>::square(&a) }
                fn square_as(a: F) -> F { let mut x = a; F::square_assign(&mut x); x }
                fn cube(a: F) -> F { <F as Field>::cube(&a) }
                fn sum2(a: F, b: F) -> F { [a, b].iter().sum() }
                fn prod2(a: F, b: F) -> F { [a, b].iter().product() }
                fn zero() -> F { F::zero() }
                fn one() -> F { F::one() }
                fn zero_c() -> F { <F as Field>::ZERO }
                fn one_c() -> F { <F as Field>::ONE }
                fn default() -> F { F::default() }
                fn invert(a: F) -> Option<F> { a.invert().into() }
                fn batch_inv1(a: F) -> (F, F) { let mut v = [a]; let r = ff::BatchInvert::batch_invert(v.iter_mut()); (v[0], r) }
                fn batch_inv2(a: F, b: F) -> (F, F, F) { let mut v = [a, b]; let r = ff::BatchInvert::batch_invert(v.iter_mut()); (v[0], v[1], r) }
                fn batch_inv3(a: F, b: F, c: F) -> (F, F, F, F) { let mut v = [a, b, c]; let r = ff::BatchInvert::batch_invert(v.iter_mut()); (v[0], v[1], v[2], r) }
                fn ct_eq(a: F, b: F) -> bool { a.ct_eq(&b).into() }
                fn ct_ne(a: F, b: F) -> bool { a.ct_ne(&b).into() }
                fn eq(a: F, b: F) -> bool { a == b }
                fn ne(a: F, b: F) -> bool { a != b }
                fn is_zero(a: F) -> bool { a.is_zero().into() }
                fn is_zero_vt(a: F) -> bool { a.is_zero_vartime() }
                fn select(a: F, b: F, c: bool) -> F { F::conditional_select(&a, &b, Choice::from(c as u8)) }
                fn cassign(a: F, b: F, c: bool) -> F { let mut x = a; x.conditional_assign(&b, Choice::from(c as u8)); x }
                fn cswap(a: F, b: F, c: bool) -> (F, F) { let (mut x, mut y) = (a, b); F::conditional_swap(&mut x, &mut y, Choice::from(c as u8)); (x, y) }
                fn frob(a: F, k: usize) -> F { let mut x = a; x.frobenius_map(k); x }
                fn pow_vt(a: F, e: [u64; 1]) -> F { a.pow_vartime(e) }
                $($rest)*
            }
        }
    };
}
macro_rules! fq2 {
    ($m:ident, $f:ty, $b:ty, $n:literal, [$($un:ident : $u:literal),*]) => {
        common!($m, $f, {
                fn norm(a: F) -> $b { a.norm() }
                fn conj(a: F) -> F { let mut x = a; x.conjugate(); x }
                fn mul_nr(a: F) -> F { a.mul_by_nonresidue() }
                fn c_nr() -> F { F::NON_RESIDUE }
                fn new(a: $b, b: $b) -> F { F::new(a, b) }
                fn c0(a: F) -> $b { *a.c0() }
                fn c1(a: F) -> $b { *a.c1() }
                // C09, C20
                fn cmp(a: F, b: F) -> i8 { a.cmp(&b) as i8 }
                fn partial_cmp(a: F, b: F) -> Option<i8> { a.partial_cmp(&b).map(|o| o as i8) }
                fn lex_largest(a: F) -> bool { a.lexicographically_largest().into() }
                fn is_odd(a: F) -> bool { a.is_odd().into() }
                fn is_even(a: F) -> bool { a.is_even().into() }
                fn to_repr(a: F) -> [u8; $n] { a.to_repr().into() }
                fn from_repr(b: [u8; $n]) -> Option<F> { F::from_repr(b.into()).into() }
                fn from_repr_vt(b: [u8; $n]) -> Option<F> { F::from_repr_vartime(b.into()) }
                fn to_bytes(a: F) -> [u8; $n] { F::to_bytes(&a) }
                fn from_bytes(b: [u8; $n]) -> Option<F> { F::from_bytes(&b).into() }
                fn to_raw(a: F) -> Vec<u8> { a.to_raw_bytes() }
                fn from_raw_b(b: [u8; $n]) -> Option<F> { F::from_raw_bytes(&b) }
                fn from_raw_short(b: [u8; $n]) -> Option<F> { F::from_raw_bytes(&b[..$n - 1]) }
                fn from_raw_u(b: [u8; $n]) -> F { F::from_raw_bytes_unchecked(&b) }
                fn read_raw(b: [u8; $n]) -> Option<F> { F::read_raw(&mut &b[..]).ok() }
                fn read_raw_short(b: [u8; $n]) -> Option<F> { F::read_raw(&mut &b[..$n - 1]).ok() }
                fn read_raw_u(b: [u8; $n]) -> F { F::read_raw_unchecked(&mut &b[..]) }
                fn write_raw(a: F) -> Vec<u8> { let mut v = Vec::new(); a.write_raw(&mut v).unwrap(); v }
                fn from_u64(v: u64) -> F { F::from(v) }
                $(fn $un(b: [u8; $u]) -> F { F::from_uniform_bytes(&b) })*
                fn random(b: [u8; 2 * $n]) -> F { F::random(crate::FixedRng(&b, 0)) }
                fn sqrt(a: F) -> Option<F> { a.sqrt().into() }
                fn legendre(a: F) -> i64 { a.legendre() }
                fn c_two_inv() -> F { F::TWO_INV }
                fn c_zeta() -> F { F::ZETA }
                fn c_size() -> usize { F::SIZE }
        });
    };
}
macro_rules! fq6 {
    ($m:ident, $f:ty, $b:ty) => {
        common!($m, $f, {
                fn mul_nr(a: F) -> F { a.mul_by_nonresidue() }
                fn c_nr() -> F { F::NON_RESIDUE }
                fn new(a: $b, b: $b, c: $b) -> F { F::new(a, b, c) }
                fn mul_by_1(a: F, b: $b) -> F { <F as CubicSparseMul>::mul_by_1(&a, &b) }
                fn mul_by_01(a: F, b: $b, c: $b) -> F { <F as CubicSparseMul>::mul_by_01(&a, &b, &c) }
        });
    };
}
macro_rules! fq12 {
    ($m:ident, $f:ty, $b6:ty, $b:ty) => {
        common!($m, $f, {
                fn norm(a: F) -> $b6 { a.norm() }
                fn conj(a: F) -> F { let mut x = a; x.conjugate(); x }
                fn new(a: $b6, b: $b6) -> F { F::new(a, b) }
                fn mul_by_014(a: F, b: $b, c: $b, d: $b) -> F { let mut x = a; <F as QuadSparseMul>::mul_by_014(&mut x, &b, &c, &d); x }
                fn mul_by_034(a: F, b: $b, c: $b, d: $b) -> F { let mut x = a; <F as QuadSparseMul>::mul_by_034(&mut x, &b, &c, &d); x }
                fn cyc_square(a: F) -> F { let mut x = a; x.cyclotomic_square(); x }
        });
    };
}
fq2!(bn_fq2, halo2curves::bn256::Fq2, halo2curves::bn256::Fq, 64, [un96: 96]);
fq6!(bn_fq6, halo2curves::bn256::Fq6, halo2curves::bn256::Fq2);
fq12!(bn_fq12, halo2curves::bn256::Fq12, halo2curves::bn256::Fq6, halo2curves::bn256::Fq2);
fq2!(bls_fq2, halo2curves::bls12381::Fq2, halo2curves::bls12381::Fq, 96, [un128: 128]);
fq6!(bls_fq6, halo2curves::bls12381::Fq6, halo2curves::bls12381::Fq2);
fq12!(bls_fq12, halo2curves::bls12381::Fq12, halo2curves::bls12381::Fq6, halo2curves::bls12381::Fq2);
fq2!(pluto_fp2, PFp2, PFp, 112, [un128: 128]);
fq6!(pluto_fp6, PFp6, PFp2);
fq12!(pluto_fp12, PFp12, PFp6, PFp2);

#[cfg(feature = "rpc")]
pub(crate) fn tables(v: &mut Vec<crate::Entry>) {
    for t in [bn_fq2::table, bn_fq6::table, bn_fq12::table, bls_fq2::table, bls_fq6::table, bls_fq12::table, pluto_fp2::table, pluto_fp6::table, pluto_fp12::table] {
        v.extend(t());
    }
}
