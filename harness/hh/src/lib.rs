//! Symbolic harnesses over the hash functions of the real `starling` crate, with the functions themselves.
#![allow(dead_code)]
#[path = "../../hx/src/sym.rs"]
pub mod sym;
mod hashers;

macro_rules! entries {
    ($($name:ident => $body:expr;)*) => {
        $( #[no_mangle] pub extern "C-unwind" fn $name() { $body } )*
        /// Name to function, for the native replay driver.
        pub fn entry(name: &str) -> Option<extern "C-unwind" fn()> {
            match name {
                $( stringify!($name) => Some($name), )*
                _ => None,
            }
        }
    };
}

use hashers::{cut, long, sizes, Fun};
entries! {
    c19_1 => cut::<1>(4);
    c19_4 => cut::<4>(9);
    c19_8 => cut::<8>(18);
    c19_9 => cut::<9>(9);
    c19_20 => cut::<20>(9);
    c19_32 => cut::<32>(9);
    c19_33 => cut::<33>(9);
    c19_40 => cut::<40>(4);
    c19_64 => cut::<64>(9);
    c19_65 => cut::<65>(9);
    c19_long32 => long::<32>(&[0, 1, 31, 32, 55, 56, 63, 64, 65, 71, 72, 111, 112, 127, 128, 129, 135, 136, 137, 143, 144, 145, 200, 272]);
    c19_long8 => long::<8>(&[55, 56, 63, 64, 65, 127, 128, 129, 135, 136, 137, 143, 144, 145, 200]);
    c19_sizes => sizes(Fun::MAX);
    c19_free32 => cut::<32>(40);
}
