//! The crate with a serialization feature beside the same crate without one.
#![allow(dead_code)]
#[path = "../../hx/src/sym.rs"]
pub mod sym;
mod array;
mod dual;

macro_rules! entries {
    ($($name:ident => $body:expr;)*) => {
        $( #[no_mangle] pub extern "C-unwind" fn $name() { $body } )*
        /// Name to function, for the native replay driver.
        pub fn entry(name: &str) -> Option<extern "C-unwind" fn()> {
            match name {
                $( stringify!($name) => Some($name), )*
                _ => None,
            }
        }
    };
}

entries! {
    c20_array0 => array::all::<0>();
    c20_array1 => array::all::<1>();
    c20_array2 => array::all::<2>();
    c20_array4 => array::all::<4>();
    c20_array8 => array::all::<8>();
    c20_array31 => array::all::<31>();
    c20_array32 => array::all::<32>();
    c20_array33 => array::all::<33>();
    c20_sort3 => array::sort::<3>(3);
    c20_sort32 => array::sort::<32>(2);
    c20_hist => dual::hist::<2>(3, 2, &[0,15], 16);
    c20_pool3 => dual::hist::<1>(2, 3, &[0,3,4,7], 8);
    c20_span => dual::hist::<2>(2, 3, &[5,8,9], 16);
    c20_full32 => dual::hist::<32>(2, 2, &[], 256);
    c20_limit => dual::hist::<1>(2, 3, &[0,1], 1);
    c20_hist4_t => dual::hist::<2>(4, 2, &[0], 16);
    c20_pool3_t => dual::hist::<1>(3, 3, &[0,7], 8);
    c20_forge => dual::forge::<2>(3);
    c20_forge32 => dual::forge::<32>(3);
    c20_bad => dual::bad::<2>();
}
