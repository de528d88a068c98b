//! Algorithms over whole inputs: multi-scalar multiplication, FFT, hashing to curves, pairings.
use halo2curves::fft::best_fft;
use halo2curves::{CurveAffine, CurveExt};

fn pool<T: Send>(threads: usize, f: impl FnOnce() -> T + Send) -> T {
    rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap().install(f)
}

/// symbolic entry points: one per length, so that the verifier sees the whole input as values
macro_rules! sizes {
    ($t:ty, $s:ty, $($n:ident = $k:literal),*) => { $(pub fn $n(mut a: [$t; 1 << $k], w: $s) -> [$t; 1 << $k] { best_fft(&mut a[..], w, $k); a })* };
}

macro_rules! msm {
    ($m:ident, $a:ty) => {
        pub mod $m {
            use super::*;
            type A = $a;
            type P = <$a as CurveAffine>::CurveExt;
            type S = <P as CurveExt>::ScalarExt;
            crate::roots! {
                fn msm_serial(k: Vec<S>, p: Vec<A>) -> P { let mut acc = P::default(); halo2curves::msm::msm_serial(&k, &p, &mut acc); acc }
                fn msm_parallel(t: usize, k: Vec<S>, p: Vec<A>) -> P { pool(t, || halo2curves::msm::msm_parallel(&k, &p)) }
                fn msm_best(t: usize, k: Vec<S>, p: Vec<A>) -> P { pool(t, || halo2curves::msm::msm_best(&k, &p)) }
                fn fft_g(t: usize, a: Vec<P>, w: S, k: u32) -> Vec<P> { pool(t, move || { let mut a = a; best_fft(&mut a, w, k); a }) }
            }
            sizes!(P, S, sym_fft_0 = 0, sym_fft_1 = 1, sym_fft_2 = 2, sym_fft_3 = 3, sym_fft_4 = 4, sym_fft_5 = 5, sym_fft_6 = 6);
        }
    };
}
msm!(a_bn_g1, halo2curves::bn256::G1Affine);
msm!(a_bn_g2, halo2curves::bn256::G2Affine);
msm!(a_grumpkin_g1, halo2curves::grumpkin::G1Affine);
msm!(a_secp256k1, halo2curves::secp256k1::Secp256k1Affine);
msm!(a_secq256k1, halo2curves::secq256k1::Secq256k1Affine);
msm!(a_secp256r1, halo2curves::secp256r1::Secp256r1Affine);
msm!(a_bls_g1, halo2curves::bls12381::G1Affine);
msm!(a_bls_g2, halo2curves::bls12381::G2Affine);
msm!(a_pluto_g1, halo2curves::pluto_eris::G1Affine);
msm!(a_pluto_g2, halo2curves::pluto_eris::G2Affine);
msm!(a_eris, halo2curves::pluto_eris::ErisAffine);

macro_rules! fft {
    ($m:ident, $f:ty) => {
        pub mod $m {
            use super::*;
            type F = $f;
            crate::roots! {
                fn fft(t: usize, a: Vec<F>, w: F, k: u32) -> Vec<F> { pool(t, move || { let mut a = a; best_fft(&mut a, w, k); a }) }
            }
            sizes!(F, F, sym_fft_0 = 0, sym_fft_1 = 1, sym_fft_2 = 2, sym_fft_3 = 3, sym_fft_4 = 4, sym_fft_5 = 5, sym_fft_6 = 6, sym_fft_7 = 7, sym_fft_8 = 8, sym_fft_9 = 9);
        }
    };
}
fft!(t_bn_fr, halo2curves::bn256::Fr);
fft!(t_bls_fr, halo2curves::bls12381::Fr);
fft!(t_pluto_fq, halo2curves::pluto_eris::Fq);
fft!(t_pluto_fp, halo2curves::pluto_eris::Fp);
fft!(t_bn_fq, halo2curves::bn256::Fq);
fft!(t_secp256k1_fp, halo2curves::secp256k1::Fp);
fft!(t_secp256k1_fq, halo2curves::secp256k1::Fq);
fft!(t_secp256r1_fq, halo2curves::secp256r1::Fq);

macro_rules! h2c {
    ($m:ident, $p:ty) => {
        pub mod $m {
            use super::*;
            type P = $p;
            type B = <P as CurveExt>::Base;
            crate::roots! {
                fn hash(d: String, m: Vec<u8>) -> P { P::hash_to_curve(&d)(&m) }
                fn map2(u: B, v: B) -> P {
                    halo2curves::hash_to_curve::mirv_hooks::set_field_elements(Some((u, v)));
                    let r = P::hash_to_curve("")(b"");
                    halo2curves::hash_to_curve::mirv_hooks::set_field_elements::<B>(None);
                    r
                }
            }
        }
    };
}
h2c!(h_bn_g1, halo2curves::bn256::G1);
h2c!(h_bn_g2, halo2curves::bn256::G2);
h2c!(h_grumpkin_g1, halo2curves::grumpkin::G1);
h2c!(h_secp256k1, halo2curves::secp256k1::Secp256k1);
h2c!(h_secq256k1, halo2curves::secq256k1::Secq256k1);
h2c!(h_secp256r1, halo2curves::secp256r1::Secp256r1);
h2c!(h_bls_g1, halo2curves::bls12381::G1);
h2c!(h_bls_g2, halo2curves::bls12381::G2);
h2c!(h_pluto_g1, halo2curves::pluto_eris::G1);
h2c!(h_eris, halo2curves::pluto_eris::Eris);

#[cfg(feature = "rpc")]
pub(crate) fn tables(v: &mut Vec<crate::Entry>) {
    for t in [a_bn_g1::table, a_bn_g2::table, a_grumpkin_g1::table, a_secp256k1::table, a_secq256k1::table, a_secp256r1::table, a_bls_g1::table,
        a_bls_g2::table, a_pluto_g1::table, a_pluto_g2::table, a_eris::table, t_bn_fr::table, t_bls_fr::table, t_pluto_fq::table, t_pluto_fp::table,
        t_bn_fq::table, t_secp256k1_fp::table, t_secp256k1_fq::table, t_secp256r1_fq::table, h_bn_g1::table, h_bn_g2::table, h_grumpkin_g1::table,
        h_secp256k1::table, h_secq256k1::table, h_secp256r1::table, h_bls_g1::table, h_bls_g2::table, h_pluto_g1::table, h_eris::table] {
        v.extend(t());
    }
}
