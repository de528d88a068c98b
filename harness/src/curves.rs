//! Elliptic-curve groups.
use ff::{Field, PrimeField, WithSmallOrderMulGroup};
use group::cofactor::CofactorGroup;
use group::prime::PrimeCurveAffine;
use group::{Curve, Group, GroupEncoding, UncompressedEncoding};
use halo2curves::serde::SerdeObject;
use halo2curves::{CurveAffine, CurveExt};
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq};

macro_rules! curve {
    ($m:ident, $p:ty, $a:ty, $f:ty, $s:ty, $nf:literal, $nc:expr, { $($rest:tt)* }) => {
        pub mod $m {
            use super::*;
            type P = $p;
            type A = $a;
            type B = $f;
            type S = $s;
            crate::roots! {
                // C10
                fn pp_add(a: P, b: P) -> P { &a + &b }
                fn pp_add_vv(a: P, b: P) -> P { a + b }
                fn pp_add_vr(a: P, b: P) -> P { a + &b }
                fn pp_add_rv(a: P, b: P) -> P { &a + b }
                fn pp_add_asv(a: P, b: P) -> P { let mut x = a; x += b; x }
                fn pp_add_asr(a: P, b: P) -> P { let mut x = a; x += &b; x }
                fn pp_sub(a: P, b: P) -> P { &a - &b }
                fn pp_sub_vv(a: P, b: P) -> P { a - b }
                fn pp_sub_vr(a: P, b: P) -> P { a - &b }
                fn pp_sub_rv(a: P, b: P) -> P { &a - b }
                fn pp_sub_asv(a: P, b: P) -> P { let mut x = a; x -= b; x }
                fn pp_sub_asr(a: P, b: P) -> P { let mut x = a; x -= &b; x }
                fn pa_add(a: P, b: A) -> P { &a + &b }
                fn pa_add_vv(a: P, b: A) -> P { a + b }
                fn pa_add_vr(a: P, b: A) -> P { a + &b }
                fn pa_add_rv(a: P, b: A) -> P { &a + b }
                fn pa_add_asv(a: P, b: A) -> P { let mut x = a; x += b; x }
                fn pa_add_asr(a: P, b: A) -> P { let mut x = a; x += &b; x }
                fn pa_sub(a: P, b: A) -> P { &a - &b }
                fn pa_sub_vv(a: P, b: A) -> P { a - b }
                fn pa_sub_vr(a: P, b: A) -> P { a - &b }
                fn pa_sub_rv(a: P, b: A) -> P { &a - b }
                fn pa_sub_asv(a: P, b: A) -> P { let mut x = a; x -= b; x }
                fn pa_sub_asr(a: P, b: A) -> P { let mut x = a; x -= &b; x }
                fn ap_add(a: A, b: P) -> P { &a + &b }
                fn ap_add_vv(a: A, b: P) -> P { a + b }
                fn ap_add_vr(a: A, b: P) -> P { a + &b }
                fn ap_add_rv(a: A, b: P) -> P { &a + b }
                fn ap_sub(a: A, b: P) -> P { &a - &b }
                fn ap_sub_vv(a: A, b: P) -> P { a - b }
                fn ap_sub_vr(a: A, b: P) -> P { a - &b }
                fn ap_sub_rv(a: A, b: P) -> P { &a - b }
                fn aa_add(a: A, b: A) -> P { &a + &b }
                fn aa_add_vv(a: A, b: A) -> P { a + b }
                fn aa_add_vr(a: A, b: A) -> P { a + &b }
                fn aa_add_rv(a: A, b: A) -> P { &a + b }
                fn aa_sub(a: A, b: A) -> P { &a - &b }
                fn aa_sub_vv(a: A, b: A) -> P { a - b }
                fn aa_sub_vr(a: A, b: A) -> P { a - &b }
                fn aa_sub_rv(a: A, b: A) -> P { &a - b }
                fn p_double(a: P) -> P { a.double() }
                fn p_neg(a: P) -> P { -&a }
                fn p_neg_v(a: P) -> P { -a }
                fn a_neg(a: A) -> A { -&a }
                fn a_neg_v(a: A) -> A { -a }
                fn p_sum(a: P, b: P) -> P { [a, b].iter().sum() }
                fn p_sum_v(a: P, b: P) -> P { [a, b].into_iter().sum() }
                // C11
                fn p_identity() -> P { P::identity() }
                fn p_default() -> P { P::default() }
                fn a_identity() -> A { A::identity() }
                fn a_default() -> A { A::default() }
                fn p_is_identity(a: P) -> bool { a.is_identity().into() }
                fn a_is_identity(a: A) -> bool { a.is_identity().into() }
                fn a_to_curve(a: A) -> P { a.to_curve() }
                fn p_from_a(a: A) -> P { P::from(a) }
                fn p_from_ar(a: A) -> P { P::from(&a) }
                fn p_to_affine(a: P) -> A { a.to_affine() }
                fn a_from_p(a: P) -> A { A::from(a) }
                fn a_from_pr(a: P) -> A { A::from(&a) }
                fn batch1(a: P) -> A { let mut q = [A::identity(); 1]; P::batch_normalize(&[a], &mut q); q[0] }
                fn batch2(a: P, b: P) -> (A, A) { let mut q = [A::identity(); 2]; P::batch_normalize(&[a, b], &mut q); (q[0], q[1]) }
                fn batch3(a: P, b: P, c: P) -> (A, A, A) { let mut q = [A::identity(); 3]; P::batch_normalize(&[a, b, c], &mut q); (q[0], q[1], q[2]) }
                fn p_on_curve(a: P) -> bool { a.is_on_curve().into() }
                fn a_on_curve(x: B, y: B) -> bool { A { x, y }.is_on_curve().into() }
                fn from_xy(x: B, y: B) -> Option<A> { A::from_xy(x, y).into() }
                fn coordinates(a: A) -> Option<(B, B)> { Option::<halo2curves::Coordinates<A>>::from(a.coordinates()).map(|c| (*c.x(), *c.y())) }
                fn jac_coords(a: P) -> (B, B, B) { a.jacobian_coordinates() }
                fn new_jac(x: B, y: B, z: B) -> Option<P> { P::new_jacobian(x, y, z).into() }
                fn p_eq(a: P, b: P) -> bool { a == b }
                fn p_ct_eq(a: P, b: P) -> bool { a.ct_eq(&b).into() }
                fn a_eq(a: A, b: A) -> bool { a == b }
                fn a_ct_eq(a: A, b: A) -> bool { a.ct_eq(&b).into() }
                // C20
                fn p_select(a: P, b: P, c: bool) -> P { P::conditional_select(&a, &b, Choice::from(c as u8)) }
                fn p_cassign(a: P, b: P, c: bool) -> P { let mut x = a; x.conditional_assign(&b, Choice::from(c as u8)); x }
                fn p_cswap(a: P, b: P, c: bool) -> (P, P) { let (mut x, mut y) = (a, b); P::conditional_swap(&mut x, &mut y, Choice::from(c as u8)); (x, y) }
                fn a_select(a: A, b: A, c: bool) -> A { A::conditional_select(&a, &b, Choice::from(c as u8)) }
                fn a_cassign(a: A, b: A, c: bool) -> A { let mut x = a; x.conditional_assign(&b, Choice::from(c as u8)); x }
                fn a_cswap(a: A, b: A, c: bool) -> (A, A) { let (mut x, mut y) = (a, b); A::conditional_swap(&mut x, &mut y, Choice::from(c as u8)); (x, y) }
                // C12
                fn p_mul(a: P, k: S) -> P { &a * &k }
                fn p_mul_vv(a: P, k: S) -> P { a * k }
                fn p_mul_vr(a: P, k: S) -> P { a * &k }
                fn p_mul_rv(a: P, k: S) -> P { &a * k }
                fn p_mul_asv(a: P, k: S) -> P { let mut x = a; x *= k; x }
                fn p_mul_asr(a: P, k: S) -> P { let mut x = a; x *= &k; x }
                fn a_mul(a: A, k: S) -> P { &a * &k }
                fn a_mul_vv(a: A, k: S) -> P { a * k }
                fn a_mul_vr(a: A, k: S) -> P { a * &k }
                fn a_mul_rv(a: A, k: S) -> P { &a * k }
                // C13
                fn a_to_bytes(a: A) -> [u8; $nc] { a.to_bytes().into() }
                fn p_to_bytes(a: P) -> [u8; $nc] { a.to_bytes().into() }
                fn a_from_bytes(b: [u8; $nc]) -> Option<A> { A::from_bytes(&b.into()).into() }
                fn a_from_bytes_u(b: [u8; $nc]) -> Option<A> { A::from_bytes_unchecked(&b.into()).into() }
                fn p_from_bytes(b: [u8; $nc]) -> Option<P> { P::from_bytes(&b.into()).into() }
                fn p_from_bytes_u(b: [u8; $nc]) -> Option<P> { P::from_bytes_unchecked(&b.into()).into() }
                fn to_unc(a: A) -> [u8; 2 * $nf] { a.to_uncompressed().into() }
                fn from_unc(b: [u8; 2 * $nf]) -> Option<A> { A::from_uncompressed(&b.into()).into() }
                fn from_unc_u(b: [u8; 2 * $nf]) -> Option<A> { A::from_uncompressed_unchecked(&b.into()).into() }
                fn p_to_raw(a: P) -> Vec<u8> { a.to_raw_bytes() }
                fn p_write_raw(a: P) -> Vec<u8> { let mut v = Vec::new(); a.write_raw(&mut v).unwrap(); v }
                fn p_from_raw(b: [u8; 3 * $nf]) -> Option<P> { P::from_raw_bytes(&b) }
                fn p_from_raw_short(b: [u8; 3 * $nf]) -> Option<P> { P::from_raw_bytes(&b[1..]) }
                fn p_from_raw_u(b: [u8; 3 * $nf]) -> P { P::from_raw_bytes_unchecked(&b) }
                fn p_read_raw(b: [u8; 3 * $nf]) -> Option<P> { P::read_raw(&mut &b[..]).ok() }
                fn p_read_raw_u(b: [u8; 3 * $nf]) -> P { P::read_raw_unchecked(&mut &b[..]) }
                fn a_to_raw(a: A) -> Vec<u8> { a.to_raw_bytes() }
                fn a_write_raw(a: A) -> Vec<u8> { let mut v = Vec::new(); a.write_raw(&mut v).unwrap(); v }
                fn a_from_raw(b: [u8; 2 * $nf]) -> Option<A> { A::from_raw_bytes(&b) }
                fn a_from_raw_short(b: [u8; 2 * $nf]) -> Option<A> { A::from_raw_bytes(&b[1..]) }
                fn a_from_raw_u(b: [u8; 2 * $nf]) -> A { A::from_raw_bytes_unchecked(&b) }
                fn a_read_raw(b: [u8; 2 * $nf]) -> Option<A> { A::read_raw(&mut &b[..]).ok() }
                fn a_read_raw_u(b: [u8; 2 * $nf]) -> A { A::read_raw_unchecked(&mut &b[..]) }
                // C06
                fn p_gen() -> P { P::generator() }
                fn p_gen_t() -> P { <P as Group>::generator() }
                fn a_gen() -> A { A::generator() }
                fn a_gen_t() -> A { <A as PrimeCurveAffine>::generator() }
                fn p_ca() -> B { <P as CurveExt>::a() }
                fn p_cb() -> B { <P as CurveExt>::b() }
                fn a_ca() -> B { <A as CurveAffine>::a() }
                fn a_cb() -> B { <A as CurveAffine>::b() }
                // C14, C19
                fn endo(a: P) -> P { a.endo() }
                fn s_zeta() -> S { <S as WithSmallOrderMulGroup<3>>::ZETA }
                fn endo_z(a: P) -> (P, S) { (a.endo(), <S as WithSmallOrderMulGroup<3>>::ZETA) }
                fn clear_cofactor(a: P) -> P { a.clear_cofactor() }
                fn into_subgroup(a: P) -> Option<P> { a.into_subgroup().into() }
                fn torsion_free(a: P) -> bool { a.is_torsion_free().into() }
                $($rest)*
            }
        }
    };
}
curve!(bn_g1, halo2curves::bn256::G1, halo2curves::bn256::G1Affine, halo2curves::bn256::Fq, halo2curves::bn256::Fr, 32, 32, {
    fn decompose(k: S) -> ((u128, bool, u128, bool), S) { (<P as halo2curves::CurveEndo>::decompose_scalar(&k), <S as WithSmallOrderMulGroup<3>>::ZETA) }
});
curve!(bn_g2, halo2curves::bn256::G2, halo2curves::bn256::G2Affine, halo2curves::bn256::Fq2, halo2curves::bn256::Fr, 64, 64, {});
curve!(grumpkin_g1, halo2curves::grumpkin::G1, halo2curves::grumpkin::G1Affine, halo2curves::grumpkin::Fq, halo2curves::grumpkin::Fr, 32, 32, {
    fn decompose(k: S) -> ((u128, bool, u128, bool), S) { (<P as halo2curves::CurveEndo>::decompose_scalar(&k), <S as WithSmallOrderMulGroup<3>>::ZETA) }
});
curve!(secp256k1, halo2curves::secp256k1::Secp256k1, halo2curves::secp256k1::Secp256k1Affine, halo2curves::secp256k1::Fp, halo2curves::secp256k1::Fq, 32, 33, {
});
curve!(secq256k1, halo2curves::secq256k1::Secq256k1, halo2curves::secq256k1::Secq256k1Affine, halo2curves::secp256k1::Fq, halo2curves::secp256k1::Fp, 32, 33, {
});
curve!(secp256r1, halo2curves::secp256r1::Secp256r1, halo2curves::secp256r1::Secp256r1Affine, halo2curves::secp256r1::Fp, halo2curves::secp256r1::Fq, 32, 33, {
});
curve!(bls_g1, halo2curves::bls12381::G1, halo2curves::bls12381::G1Affine, halo2curves::bls12381::Fq, halo2curves::bls12381::Fr, 48, 48, {
    fn decompose(k: S) -> ((u128, bool, u128, bool), S) { (<P as halo2curves::CurveEndo>::decompose_scalar(&k), <S as WithSmallOrderMulGroup<3>>::ZETA) }
});
curve!(bls_g2, halo2curves::bls12381::G2, halo2curves::bls12381::G2Affine, halo2curves::bls12381::Fq2, halo2curves::bls12381::Fr, 96, 96, {
    fn decompose(k: S) -> ((u128, bool, u128, bool), S) { (<P as halo2curves::CurveEndo>::decompose_scalar(&k), <S as WithSmallOrderMulGroup<3>>::ZETA) }
});
curve!(pluto_g1, halo2curves::pluto_eris::G1, halo2curves::pluto_eris::G1Affine, halo2curves::pluto_eris::Fp, halo2curves::pluto_eris::Fq, 56, 56, {
});
curve!(pluto_g2, halo2curves::pluto_eris::G2, halo2curves::pluto_eris::G2Affine, halo2curves::ff_ext::quadratic::QuadExtField<halo2curves::pluto_eris::Fp>, halo2curves::pluto_eris::Fq, 112, 112, {});
curve!(eris, halo2curves::pluto_eris::Eris, halo2curves::pluto_eris::ErisAffine, halo2curves::pluto_eris::Fq, halo2curves::pluto_eris::Fp, 56, 56, {
});

macro_rules! pasta {
    ($m:ident, $p:ty, $s:ty) => {
        pub mod $m {
            type S = $s;
            crate::roots! {
                fn decompose(k: S) -> ((u128, bool, u128, bool), S) { (<$p as halo2curves::CurveEndo>::decompose_scalar(&k), <S as ff::WithSmallOrderMulGroup<3>>::ZETA) }
            }
        }
    };
}
pasta!(pasta_ep, halo2curves::pasta::Ep, halo2curves::pasta::Fq);
pasta!(pasta_eq, halo2curves::pasta::Eq, halo2curves::pasta::Fp);

#[cfg(feature = "rpc")]
pub(crate) fn tables(v: &mut Vec<crate::Entry>) {
    for t in [bn_g1::table, bn_g2::table, grumpkin_g1::table, secp256k1::table, secq256k1::table, secp256r1::table, bls_g1::table, bls_g2::table,
        pluto_g1::table, pluto_g2::table, eris::table, pasta_ep::table, pasta_eq::table] {
        v.extend(t());
    }
}
