//! Raw (bit-exact) transport of values between the replay binary and its driver.
use halo2curves::serde::{Repr, SerdeObject};
use std::cmp::Ordering;

pub struct Rd<'a>(pub &'a [u8]);
impl<'a> Rd<'a> {
    pub fn take(&mut self, n: usize) -> &'a [u8] {
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a
    }
}
pub trait Io {
    fn rd(r: &mut Rd) -> Self;
    fn wr(&self, w: &mut Vec<u8>);
}
macro_rules! io_int { ($($t:ty),*) => { $(impl Io for $t {
    fn rd(r: &mut Rd) -> Self { <$t>::from_le_bytes(r.take(core::mem::size_of::<$t>()).try_into().unwrap()) }
    fn wr(&self, w: &mut Vec<u8>) { w.extend_from_slice(&self.to_le_bytes()) }
})* } }
io_int!(u8, u16, u32, u64, u128, usize, i8, i32, i64);
impl Io for bool {
    fn rd(r: &mut Rd) -> Self { r.take(1)[0] != 0 }
    fn wr(&self, w: &mut Vec<u8>) { w.push(*self as u8) }
}
impl Io for Ordering {
    fn rd(_: &mut Rd) -> Self { unimplemented!() }
    fn wr(&self, w: &mut Vec<u8>) { w.push(*self as i8 as u8) }
}
impl<const N: usize> Io for [u8; N] {
    fn rd(r: &mut Rd) -> Self { r.take(N).try_into().unwrap() }
    fn wr(&self, w: &mut Vec<u8>) { w.extend_from_slice(self) }
}
impl<const N: usize> Io for [u64; N] {
    fn rd(r: &mut Rd) -> Self { core::array::from_fn(|_| u64::rd(r)) }
    fn wr(&self, w: &mut Vec<u8>) { for x in self { x.wr(w) } }
}
impl<const N: usize> Io for Repr<N> {
    fn rd(r: &mut Rd) -> Self { <[u8; N]>::rd(r).into() }
    fn wr(&self, w: &mut Vec<u8>) { w.extend_from_slice(self.as_ref()) }
}
impl<T: Io> Io for Option<T> {
    fn rd(r: &mut Rd) -> Self { if r.take(1)[0] != 0 { Some(T::rd(r)) } else { None } }
    fn wr(&self, w: &mut Vec<u8>) { match self { Some(x) => { w.push(1); x.wr(w) } None => w.push(0) } }
}
impl<T: Io> Io for Vec<T> {
    fn rd(r: &mut Rd) -> Self { let n = u32::rd(r); (0..n).map(|_| T::rd(r)).collect() }
    fn wr(&self, w: &mut Vec<u8>) { (self.len() as u32).wr(w); for x in self { x.wr(w) } }
}
impl Io for String {
    fn rd(r: &mut Rd) -> Self { String::from_utf8(Vec::<u8>::rd(r)).unwrap() }
    fn wr(&self, w: &mut Vec<u8>) { self.as_bytes().to_vec().wr(w) }
}
impl<A: Io, B: Io> Io for (A, B) {
    fn rd(r: &mut Rd) -> Self { (A::rd(r), B::rd(r)) }
    fn wr(&self, w: &mut Vec<u8>) { self.0.wr(w); self.1.wr(w) }
}
impl<A: Io, B: Io, C: Io> Io for (A, B, C) {
    fn rd(r: &mut Rd) -> Self { (A::rd(r), B::rd(r), C::rd(r)) }
    fn wr(&self, w: &mut Vec<u8>) { self.0.wr(w); self.1.wr(w); self.2.wr(w) }
}
impl<A: Io, B: Io, C: Io, D: Io> Io for (A, B, C, D) {
    fn rd(r: &mut Rd) -> Self { (A::rd(r), B::rd(r), C::rd(r), D::rd(r)) }
    fn wr(&self, w: &mut Vec<u8>) { self.0.wr(w); self.1.wr(w); self.2.wr(w); self.3.wr(w) }
}
impl Io for () {
    fn rd(_: &mut Rd) -> Self {}
    fn wr(&self, _: &mut Vec<u8>) {}
}
macro_rules! io_raw { ($($t:ty),* $(,)?) => { $(impl Io for $t {
    fn rd(r: &mut Rd) -> Self { Self::read_raw_unchecked(&mut r.0) }
    fn wr(&self, w: &mut Vec<u8>) { self.write_raw(w).unwrap() }
})* } }
impl<F: ff::Field + Io> Io for QuadExtField<F> {
    fn rd(r: &mut Rd) -> Self { let a = F::rd(r); QuadExtField::new(a, F::rd(r)) }
    fn wr(&self, w: &mut Vec<u8>) { self.c0().wr(w); self.c1().wr(w) }
}
impl<F: ff::Field + Io> Io for CubicExtField<F> {
    fn rd(r: &mut Rd) -> Self { let a = F::rd(r); let b = F::rd(r); CubicExtField::new(a, b, F::rd(r)) }
    fn wr(&self, w: &mut Vec<u8>) { self.c0().wr(w); self.c1().wr(w); self.c2().wr(w) }
}
use halo2curves::ff_ext::{cubic::CubicExtField, quadratic::QuadExtField};
use halo2curves::{bls12381, bn256, grumpkin, pluto_eris, secp256k1, secp256r1, secq256k1};
io_raw!(
    bn256::Fq, bn256::Fr, bls12381::Fq, bls12381::Fr, secp256k1::Fp, secp256k1::Fq, secp256r1::Fp, secp256r1::Fq,
    pluto_eris::Fp, pluto_eris::Fq,
);

macro_rules! io_pasta { ($($t:ty),*) => { $(impl Io for $t {
    fn rd(r: &mut Rd) -> Self { use ff::PrimeField; Option::from(<$t>::from_repr(<[u8; 32]>::rd(r))).unwrap() }
    fn wr(&self, w: &mut Vec<u8>) { use ff::PrimeField; w.extend_from_slice(&self.to_repr()) }
})* } }
io_pasta!(halo2curves::pasta::Fp, halo2curves::pasta::Fq);

macro_rules! io_points { ($(($p:ty, $a:ty)),* $(,)?) => { $(
    impl Io for $p {
        fn rd(r: &mut Rd) -> Self { let x = Io::rd(r); let y = Io::rd(r); Self { x, y, z: Io::rd(r) } }
        fn wr(&self, w: &mut Vec<u8>) { self.x.wr(w); self.y.wr(w); self.z.wr(w) }
    }
    impl Io for $a {
        fn rd(r: &mut Rd) -> Self { let x = Io::rd(r); Self { x, y: Io::rd(r) } }
        fn wr(&self, w: &mut Vec<u8>) { self.x.wr(w); self.y.wr(w) }
    }
)* } }
io_points!(
    (bn256::G1, bn256::G1Affine), (bn256::G2, bn256::G2Affine), (grumpkin::G1, grumpkin::G1Affine),
    (secp256k1::Secp256k1, secp256k1::Secp256k1Affine), (secq256k1::Secq256k1, secq256k1::Secq256k1Affine),
    (secp256r1::Secp256r1, secp256r1::Secp256r1Affine), (bls12381::G1, bls12381::G1Affine), (bls12381::G2, bls12381::G2Affine),
    (pluto_eris::G1, pluto_eris::G1Affine), (pluto_eris::G2, pluto_eris::G2Affine), (pluto_eris::Eris, pluto_eris::ErisAffine),
);
