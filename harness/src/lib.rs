//! Entry points for the deductive checks: every free `pub fn` of this crate calls one operation of halo2curves
//! through its public interface. The MIR of these functions (and of everything they reach) is what the verifier
//! executes; with feature `rpc` the same functions can be called by name with concrete arguments.
#![allow(clippy::all)]
#[cfg(feature = "rpc")]
pub mod io;
#[cfg(feature = "rpc")]
pub type Entry = (&'static str, fn(&mut io::Rd) -> Vec<u8>);

#[macro_export]
macro_rules! roots {
    ($(fn $n:ident($($a:ident : $t:ty),* $(,)?) -> $r:ty $b:block)*) => {
        $(pub fn $n($($a: $t),*) -> $r $b)*
        #[cfg(feature = "rpc")]
        pub fn table() -> Vec<$crate::Entry> {
            use $crate::io::{Io, Rd};
            vec![$((concat!(module_path!(), "::", stringify!($n)), {
                fn call(_r: &mut Rd) -> Vec<u8> {
                    $(let $a = <$t as Io>::rd(_r);)*
                    let out: $r = $n($($a),*);
                    let mut w = Vec::new();
                    out.wr(&mut w);
                    w
                }
                call as fn(&mut Rd) -> Vec<u8>
            })),*]
        }
    };
}

#[cfg(feature = "g_fields")]
mod fields;
#[cfg(feature = "g_fields")]
pub use fields::*;

#[cfg(feature = "g_towers")]
mod towers;
#[cfg(feature = "g_towers")]
pub use towers::*;

#[cfg(feature = "g_curves")]
mod curves;
#[cfg(feature = "g_curves")]
pub use curves::*;

#[cfg(feature = "g_algos")]
mod algos;
#[cfg(feature = "g_algos")]
pub use algos::*;

#[cfg(feature = "g_engines")]
mod engines;
#[cfg(feature = "g_engines")]
pub use engines::*;

#[cfg(feature = "rpc")]
pub fn all() -> Vec<Entry> {
    let mut v = Vec::new();
    #[cfg(feature = "g_fields")]
    fields::tables(&mut v);
    #[cfg(feature = "g_towers")]
    towers::tables(&mut v);
    #[cfg(feature = "g_curves")]
    curves::tables(&mut v);
    #[cfg(feature = "g_algos")]
    algos::tables(&mut v);
    #[cfg(feature = "g_engines")]
    engines::tables(&mut v);
    v
}

/// RngCore that hands out a fixed byte string (and panics beyond it).
pub struct FixedRng<'a>(pub &'a [u8], pub usize);
impl<'a> rand_core::RngCore for FixedRng<'a> {
    fn next_u32(&mut self) -> u32 { let mut b = [0u8; 4]; self.fill_bytes(&mut b); u32::from_le_bytes(b) }
    fn next_u64(&mut self) -> u64 { let mut b = [0u8; 8]; self.fill_bytes(&mut b); u64::from_le_bytes(b) }
    fn fill_bytes(&mut self, d: &mut [u8]) { let n = d.len(); d.copy_from_slice(&self.0[self.1..self.1 + n]); self.1 += n; }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> { self.fill_bytes(d); Ok(()) }
}
