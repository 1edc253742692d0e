//! Harnesses: each entry is executed symbolically from the LLVM IR of this crate and of folia.
#[macro_use]
pub mod sup;
pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod model;
pub mod golden;

/// entry name, property, cases of the quick tier, additional cases of the thorough tier, function, stated bounds
pub struct H { pub name: &'static str, pub prop: &'static str, pub quick: &'static [(u64, u64)], pub thorough: &'static [(u64, u64)], pub f: extern "C" fn(u64), pub g: fn(u64), pub reach: &'static [&'static str], pub bounds: &'static str }

/// declares a harness entry
#[macro_export]
macro_rules! harness {
    ($reg:ident, $name:ident, $prop:expr, quick $q:expr, thorough $t:expr, reach $r:expr, $b:expr, |$case:ident| $body:block) => {
        pub mod $name { use super::*; #[inline(never)] pub fn body($case: u64) { $body } }
        #[no_mangle] pub extern "C" fn $name(case: u64) { $name::body(case) }
        pub const $reg: $crate::H = $crate::H { name: stringify!($name), prop: $prop, quick: &$q, thorough: &$t, f: $name, g: $name::body, reach: &$r, bounds: $b };
    };
}
pub static REGISTRY: &[&[H]] = &[c01::ALL, c02::ALL, c03::ALL, c04::ALL, c05::ALL, c06::ALL, c07::ALL, c08::ALL, c09::ALL, c10::ALL, c11::ALL, c12::ALL, c13::ALL, c14::ALL, c15::ALL, c16::ALL, c17::ALL];
