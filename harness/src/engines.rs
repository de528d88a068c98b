//! Pairings and target groups.
use group::{prime::PrimeCurveAffine, Group};
use pairing::{Engine, MillerLoopResult, MultiMillerLoop, PairingCurveAffine};
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq};

macro_rules! engine {
    ($m:ident, $e:ty, $f12:ty) => {
        pub mod $m {
            use super::*;
            type E = $e;
            type F = $f12;
            type T = <$e as Engine>::Gt;
            type S = <$e as Engine>::Fr;
            type A = <$e as Engine>::G1Affine;
            type B = <$e as Engine>::G2Affine;
            /// target-group elements are newtypes of the tower element with a private field
            fn t(f: F) -> T { unsafe { core::mem::transmute::<F, T>(f) } }
            fn u(f: T) -> F { unsafe { core::mem::transmute::<T, F>(f) } }
            /// the pairing of the two generators
            fn g() -> F { u(E::pairing(&A::generator(), &B::generator())) }
            crate::roots! {
                fn pair(p: A, q: B) -> (F, F) { (u(E::pairing(&p, &q)), g()) }
                fn pair_1(p: A, q: B) -> (F, F) { (u(p.pairing_with(&q)), g()) }
                fn pair_2(p: A, q: B) -> (F, F) { (u(q.pairing_with(&p)), g()) }
                fn multi(v: Vec<(A, B)>) -> (F, F) { let w: Vec<(&A, &B)> = v.iter().map(|(a, b)| (a, b)).collect(); (u(E::multi_miller_loop(&w).final_exponentiation()), g()) }
                fn miller1(p: A, q: B) -> F { E::multi_miller_loop(&[(&p, &q)]) }
                fn miller2(p: A, q: B, p2: A, q2: B) -> F { E::multi_miller_loop(&[(&p, &q), (&p2, &q2)]) }
                fn final_exp(f: F) -> F { u(f.final_exponentiation()) }
                fn gt_add(a: F, b: F) -> F { u(&t(a) + &t(b)) }
                fn gt_add_vv(a: F, b: F) -> F { u(t(a) + t(b)) }
                fn gt_add_as(a: F, b: F) -> F { let mut x = t(a); x += t(b); x += &t(a); x -= t(a); u(x) }
                fn gt_sub(a: F, b: F) -> F { u(&t(a) - &t(b)) }
                fn gt_sub_vv(a: F, b: F) -> F { u(t(a) - t(b)) }
                fn gt_sub_as(a: F, b: F) -> F { let mut x = t(a); x -= &t(b); u(x) }
                fn gt_neg(a: F) -> F { u(-&t(a)) }
                fn gt_neg_v(a: F) -> F { u(-t(a)) }
                fn gt_double(a: F) -> F { u(t(a).double()) }
                fn gt_double_t(a: F) -> F { u(<T as Group>::double(&t(a))) }
                fn gt_mul(a: F, k: S) -> F { u(&t(a) * &k) }
                fn gt_mul_vv(a: F, k: S) -> F { u(t(a) * k) }
                fn gt_mul_as(a: F, k: S) -> F { let mut x = t(a); x *= k; u(x) }
                fn gt_id() -> F { u(T::identity()) }
                fn gt_id_t() -> F { u(<T as Group>::identity()) }
                fn gt_is_id(a: F) -> bool { t(a).is_identity().into() }
                fn gt_eq(a: F, b: F) -> bool { t(a) == t(b) }
                fn gt_ct_eq(a: F, b: F) -> bool { t(a).ct_eq(&t(b)).into() }
                fn gt_select(a: F, b: F, c: bool) -> F { u(T::conditional_select(&t(a), &t(b), Choice::from(c as u8))) }
                fn gt_sum(a: F, b: F) -> F { u([t(a), t(b)].iter().sum::<T>()) }
                fn gt_sum_v(a: F, b: F) -> F { u(vec![t(a), t(b)].into_iter().sum::<T>()) }
            }
        }
    };
}
type PFp2 = halo2curves::ff_ext::quadratic::QuadExtField<halo2curves::pluto_eris::Fp>;
type PFp12 = halo2curves::ff_ext::quadratic::QuadExtField<halo2curves::ff_ext::cubic::CubicExtField<PFp2>>;
engine!(e_bn, halo2curves::bn256::Bn256, halo2curves::bn256::Fq12);
engine!(e_bls, halo2curves::bls12381::Bls12381, halo2curves::bls12381::Fq12);
engine!(e_pluto, halo2curves::pluto_eris::Pluto, PFp12);

#[cfg(feature = "rpc")]
pub(crate) fn tables(v: &mut Vec<crate::Entry>) {
    for t in [e_bn::table, e_bls::table, e_pluto::table] {
        v.extend(t());
    }
}
