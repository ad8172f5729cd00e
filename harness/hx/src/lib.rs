//! Symbolic harnesses over the real `starling` crate.
#![allow(dead_code)]
pub mod sym;

macro_rules! entries {
    ($($(#[$m:meta])* $name:ident => $body:expr;)*) => {
        $( $(#[$m])* #[no_mangle] pub extern "C-unwind" fn $name() { $body } )*
        /// Name to function, for the native replay driver.
        pub fn entry(name: &str) -> Option<extern "C-unwind" fn()> {
            match name {
                $( $(#[$m])* stringify!($name) => Some($name), )*
                _ => None,
            }
        }
    };
}

#[cfg(feature = "seahash")]
mod world;
#[cfg(feature = "seahash")]
mod hist;
#[cfg(feature = "seahash")]
mod proofs;
#[cfg(feature = "seahash")]
mod args;
#[cfg(feature = "seahash")]
mod typed;
#[cfg(feature = "seahash")]
mod faults;
#[cfg(feature = "seahash")]
mod bits;
#[cfg(feature = "serde")]
mod ser;
#[cfg(feature = "rocksdb")]
mod rocks;
#[cfg(feature = "seahash")]
use hist::{Opt, BASE};

/// Whether a decoder reads all of its input in one way only.
pub const EXACT: bool = cfg!(feature = "bincode");

/// Lengths of values: everything short, and around the limits a length might have somewhere.
pub const LENS: &[usize] = &[
    0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2048,
    4095, 4096, 4097, 8193, 16385, 65535, 65536, 70001,
];

entries! {
    // C01
    #[cfg(feature = "seahash")] c01_hist => hist::at::<2>(3, 2, &[0,7,8,15], Opt{new_reads:true, single:true, ..BASE});
    #[cfg(feature = "seahash")] c01_hist_t => hist::at::<2>(4, 2, &[0,15], Opt{new_reads:true, single:true, ..BASE});
    #[cfg(feature = "seahash")] c01_pool3 => hist::at::<1>(2, 3, &[0,3,4,7], Opt{new_reads:true, single:true, ..BASE});
    #[cfg(feature = "seahash")] c01_pool3_t => hist::at::<1>(3, 3, &[0,4,7], Opt{new_reads:true, single:true, ..BASE});
    #[cfg(feature = "seahash")] c01_full32 => hist::full::<32>(2, 2, Opt{new_reads:true, single:true, ..BASE});
    #[cfg(feature = "seahash")] c01_full1 => hist::full::<1>(2, 3, Opt{new_reads:true, single:true, ..BASE});
    #[cfg(feature = "seahash")] c01_far => hist::at::<32>(2, 2, &[0,1,127,128,200,255], Opt{new_reads:true, single:true, ..BASE});
    #[cfg(feature = "seahash")] c01_wide => hist::at::<40>(2, 2, &[0,63,255,256,319], Opt{new_reads:true, single:true, ..BASE});
    #[cfg(feature = "seahash")] c01_batch => hist::batch::<1>(4, &[0,3,4,7], Opt{new_reads:true, single:true, ..BASE});
    #[cfg(feature = "seahash")] c01_batch5_t => hist::batch::<1>(5, &[0,1,3,4,7], Opt{new_reads:true, single:true, ..BASE});
    #[cfg(feature = "seahash")] c01_batch2 => hist::batch2::<1>(2, 2, &[0,3,4,7], Opt{new_reads:true, single:true, ..BASE});
    #[cfg(feature = "seahash")] c01_span => hist::batch2::<2>(2, 2, &[5,8,9,15], Opt{new_reads:true, single:true, ..BASE});
    #[cfg(feature = "seahash")] c01_over => hist::overlap::<2>(4, 3, 2, &[0,5,8,9], Opt{new_reads:true, single:true, ..BASE});
    #[cfg(feature = "seahash")] c01_over_t => hist::overlap::<2>(4, 3, 3, &[0,5,7,8,9,15], Opt{new_reads:true, single:true, ..BASE});
    #[cfg(feature = "seahash")] c01_span_t => hist::batch2::<2>(2, 3, &[3,5,8,9,15], Opt{new_reads:true, single:true, ..BASE});
    #[cfg(feature = "seahash")] c01_batch3_t => hist::batch2::<1>(3, 2, &[0,3,4,7], Opt{new_reads:true, single:true, ..BASE});
    #[cfg(feature = "seahash")] c01_chain => hist::chain::<1>(3, 2, 0, &[0,1,2], Opt{new_reads:true, single:true, ..BASE});
    #[cfg(feature = "seahash")] c01_chain3_t => hist::chain::<1>(2, 3, 0, &[0,1,2], Opt{new_reads:true, single:true, ..BASE});
    #[cfg(feature = "seahash")] c01_values => hist::values::<4>(LENS, Opt{new_reads:true, single:true, ..BASE});
    #[cfg(feature = "seahash")] c01_large => hist::large::<32>(16, 2, Opt{new_reads:true, single:true, ..BASE});
    #[cfg(feature = "seahash")] c01_many => hist::many::<4>(300, 2, Opt{new_reads:true, single:true, ..BASE});
    // C02
    #[cfg(feature = "seahash")] c02_hist => hist::at::<2>(3, 2, &[0,7,8,15], Opt{all_reads:true, single:true, ..BASE});
    #[cfg(feature = "seahash")] c02_hist_t => hist::at::<2>(4, 2, &[0,15], Opt{all_reads:true, single:true, ..BASE});
    #[cfg(feature = "seahash")] c02_pool3 => hist::at::<1>(2, 3, &[0,3,4,7], Opt{all_reads:true, single:true, ..BASE});
    #[cfg(feature = "seahash")] c02_pool3_t => hist::at::<1>(3, 3, &[0,4,7], Opt{all_reads:true, single:true, ..BASE});
    #[cfg(feature = "seahash")] c02_full32 => hist::full::<32>(2, 2, Opt{all_reads:true, single:true, ..BASE});
    #[cfg(feature = "seahash")] c02_full1 => hist::full::<1>(2, 3, Opt{all_reads:true, single:true, ..BASE});
    #[cfg(feature = "seahash")] c02_far => hist::at::<32>(2, 2, &[0,1,127,128,200,255], Opt{all_reads:true, single:true, ..BASE});
    #[cfg(feature = "seahash")] c02_wide => hist::at::<40>(2, 2, &[0,63,255,256,319], Opt{all_reads:true, single:true, ..BASE});
    #[cfg(feature = "seahash")] c02_batch => hist::batch::<1>(4, &[0,3,4,7], Opt{all_reads:true, single:true, ..BASE});
    #[cfg(feature = "seahash")] c02_batch5_t => hist::batch::<1>(5, &[0,1,3,4,7], Opt{all_reads:true, single:true, ..BASE});
    #[cfg(feature = "seahash")] c02_batch2 => hist::batch2::<1>(2, 2, &[0,3,4,7], Opt{all_reads:true, single:true, ..BASE});
    #[cfg(feature = "seahash")] c02_span => hist::batch2::<2>(2, 2, &[5,8,9,15], Opt{all_reads:true, single:true, ..BASE});
    #[cfg(feature = "seahash")] c02_over => hist::overlap::<2>(4, 3, 2, &[0,5,8,9], Opt{all_reads:true, single:true, ..BASE});
    #[cfg(feature = "seahash")] c02_over_t => hist::overlap::<2>(4, 3, 3, &[0,5,7,8,9,15], Opt{all_reads:true, single:true, ..BASE});
    #[cfg(feature = "seahash")] c02_span_t => hist::batch2::<2>(2, 3, &[3,5,8,9,15], Opt{all_reads:true, single:true, ..BASE});
    #[cfg(feature = "seahash")] c02_batch3_t => hist::batch2::<1>(3, 2, &[0,3,4,7], Opt{all_reads:true, single:true, ..BASE});
    #[cfg(feature = "seahash")] c02_chain => hist::chain::<1>(3, 2, 0, &[0,1,2], Opt{all_reads:true, single:true, ..BASE});
    #[cfg(feature = "seahash")] c02_chain3_t => hist::chain::<1>(2, 3, 0, &[0,1,2], Opt{all_reads:true, single:true, ..BASE});
    #[cfg(feature = "seahash")] c02_values => hist::values::<4>(LENS, Opt{all_reads:true, single:true, ..BASE});
    #[cfg(feature = "seahash")] c02_large => hist::large::<32>(16, 2, Opt{all_reads:true, single:true, ..BASE});
    #[cfg(feature = "seahash")] c02_many => hist::many::<4>(300, 2, Opt{all_reads:true, single:true, ..BASE});
    // C03
    #[cfg(feature = "seahash")] c03_hist => hist::at::<2>(3, 2, &[0,7,8,15], Opt{removal:true, all_reads:true, proofs:true, ..BASE});
    #[cfg(feature = "seahash")] c03_hist_t => hist::at::<2>(4, 2, &[0,15], Opt{removal:true, all_reads:true, proofs:true, ..BASE});
    #[cfg(feature = "seahash")] c03_pool3 => hist::at::<1>(2, 3, &[0,3,4,7], Opt{removal:true, all_reads:true, proofs:true, ..BASE});
    #[cfg(feature = "seahash")] c03_pool3_t => hist::at::<1>(3, 3, &[0,4,7], Opt{removal:true, all_reads:true, proofs:true, ..BASE});
    #[cfg(feature = "seahash")] c03_full32 => hist::full::<32>(2, 2, Opt{removal:true, all_reads:true, proofs:true, ..BASE});
    #[cfg(feature = "seahash")] c03_full1 => hist::full::<1>(2, 3, Opt{removal:true, all_reads:true, proofs:true, ..BASE});
    #[cfg(feature = "seahash")] c03_far => hist::at::<32>(2, 2, &[0,1,127,128,200,255], Opt{removal:true, all_reads:true, proofs:true, ..BASE});
    #[cfg(feature = "seahash")] c03_wide => hist::at::<40>(2, 2, &[0,63,255,256,319], Opt{removal:true, all_reads:true, proofs:true, ..BASE});
    #[cfg(feature = "seahash")] c03_batch => hist::batch::<1>(4, &[0,3,4,7], Opt{removal:true, all_reads:true, proofs:true, drain:true, ..BASE});
    #[cfg(feature = "seahash")] c03_batch5_t => hist::batch::<1>(5, &[0,1,3,4,7], Opt{removal:true, all_reads:true, proofs:true, drain:true, ..BASE});
    #[cfg(feature = "seahash")] c03_batch2 => hist::batch2::<1>(2, 2, &[0,3,4,7], Opt{removal:true, all_reads:true, proofs:true, drain:true, ..BASE});
    #[cfg(feature = "seahash")] c03_span => hist::batch2::<2>(2, 2, &[5,8,9,15], Opt{removal:true, all_reads:true, proofs:true, drain:true, ..BASE});
    #[cfg(feature = "seahash")] c03_over => hist::overlap::<2>(4, 3, 2, &[0,5,8,9], Opt{removal:true, all_reads:true, proofs:true, drain:true, ..BASE});
    #[cfg(feature = "seahash")] c03_over_t => hist::overlap::<2>(4, 3, 3, &[0,5,7,8,9,15], Opt{removal:true, all_reads:true, proofs:true, drain:true, ..BASE});
    #[cfg(feature = "seahash")] c03_span_t => hist::batch2::<2>(2, 3, &[3,5,8,9,15], Opt{removal:true, all_reads:true, proofs:true, drain:true, ..BASE});
    #[cfg(feature = "seahash")] c03_batch3_t => hist::batch2::<1>(3, 2, &[0,3,4,7], Opt{removal:true, all_reads:true, proofs:true, drain:true, ..BASE});
    #[cfg(feature = "seahash")] c03_chain => hist::chain::<1>(3, 2, 2, &[0,1,2], Opt{removal:true, all_reads:true, proofs:true, drain:true, ..BASE});
    #[cfg(feature = "seahash")] c03_chain3_t => hist::chain::<1>(2, 3, 2, &[0,1,2], Opt{removal:true, all_reads:true, proofs:true, drain:true, ..BASE});
    #[cfg(feature = "seahash")] c03_values => hist::values::<4>(LENS, Opt{removal:true, all_reads:true, proofs:true, drain:true, ..BASE});
    #[cfg(feature = "seahash")] c03_large => hist::large::<32>(16, 2, Opt{removal:true, all_reads:true, proofs:true, drain:true, ..BASE});
    // C04
    #[cfg(feature = "seahash")] c04_hist => hist::at::<2>(3, 2, &[0,7,8,15], Opt{removal:true, refs:true, drain:true, ..BASE});
    #[cfg(feature = "seahash")] c04_hist_t => hist::at::<2>(4, 2, &[0,15], Opt{removal:true, refs:true, drain:true, ..BASE});
    #[cfg(feature = "seahash")] c04_pool3 => hist::at::<1>(2, 3, &[0,3,4,7], Opt{removal:true, refs:true, drain:true, ..BASE});
    #[cfg(feature = "seahash")] c04_pool3_t => hist::at::<1>(3, 3, &[0,4,7], Opt{removal:true, refs:true, drain:true, ..BASE});
    #[cfg(feature = "seahash")] c04_full32 => hist::full::<32>(2, 2, Opt{removal:true, refs:true, drain:true, ..BASE});
    #[cfg(feature = "seahash")] c04_full1 => hist::full::<1>(2, 3, Opt{removal:true, refs:true, drain:true, ..BASE});
    #[cfg(feature = "seahash")] c04_far => hist::at::<32>(2, 2, &[0,1,127,128,200,255], Opt{removal:true, refs:true, drain:true, ..BASE});
    #[cfg(feature = "seahash")] c04_wide => hist::at::<40>(2, 2, &[0,63,255,256,319], Opt{removal:true, refs:true, drain:true, ..BASE});
    #[cfg(feature = "seahash")] c04_batch => hist::batch::<1>(4, &[0,3,4,7], Opt{removal:true, refs:true, drain:true, ..BASE});
    #[cfg(feature = "seahash")] c04_batch5_t => hist::batch::<1>(5, &[0,1,3,4,7], Opt{removal:true, refs:true, drain:true, ..BASE});
    #[cfg(feature = "seahash")] c04_batch2 => hist::batch2::<1>(2, 2, &[0,3,4,7], Opt{removal:true, refs:true, drain:true, ..BASE});
    #[cfg(feature = "seahash")] c04_span => hist::batch2::<2>(2, 2, &[5,8,9,15], Opt{removal:true, refs:true, drain:true, ..BASE});
    #[cfg(feature = "seahash")] c04_over => hist::overlap::<2>(4, 3, 2, &[0,5,8,9], Opt{removal:true, refs:true, drain:true, ..BASE});
    #[cfg(feature = "seahash")] c04_over_t => hist::overlap::<2>(4, 3, 3, &[0,5,7,8,9,15], Opt{removal:true, refs:true, drain:true, ..BASE});
    #[cfg(feature = "seahash")] c04_span_t => hist::batch2::<2>(2, 3, &[3,5,8,9,15], Opt{removal:true, refs:true, drain:true, ..BASE});
    #[cfg(feature = "seahash")] c04_batch3_t => hist::batch2::<1>(3, 2, &[0,3,4,7], Opt{removal:true, refs:true, drain:true, ..BASE});
    #[cfg(feature = "seahash")] c04_chain => hist::chain::<1>(3, 2, 2, &[0,1,2], Opt{removal:true, refs:true, drain:true, ..BASE});
    #[cfg(feature = "seahash")] c04_chain3_t => hist::chain::<1>(2, 3, 2, &[0,1,2], Opt{removal:true, refs:true, drain:true, ..BASE});
    #[cfg(feature = "seahash")] c04_values => hist::values::<4>(LENS, Opt{removal:true, refs:true, drain:true, ..BASE});
    #[cfg(feature = "seahash")] c04_large => hist::large::<32>(16, 2, Opt{removal:true, refs:true, drain:true, ..BASE});
    #[cfg(feature = "seahash")] c04_many => hist::many::<4>(300, 2, Opt{removal:true, refs:true, drain:true, ..BASE});
    // C05
    #[cfg(feature = "seahash")] c05_hist => hist::at::<2>(3, 2, &[0,7,8,15], Opt{removal:true, canon:true, ..BASE});
    #[cfg(feature = "seahash")] c05_hist_t => hist::at::<2>(4, 2, &[0,15], Opt{removal:true, canon:true, ..BASE});
    #[cfg(feature = "seahash")] c05_pool3 => hist::at::<1>(2, 3, &[0,3,4,7], Opt{removal:true, canon:true, ..BASE});
    #[cfg(feature = "seahash")] c05_pool3_t => hist::at::<1>(3, 3, &[0,4,7], Opt{removal:true, canon:true, ..BASE});
    #[cfg(feature = "seahash")] c05_full32 => hist::full::<32>(2, 2, Opt{removal:true, canon:true, ..BASE});
    #[cfg(feature = "seahash")] c05_full1 => hist::full::<1>(2, 3, Opt{removal:true, canon:true, ..BASE});
    #[cfg(feature = "seahash")] c05_far => hist::at::<32>(2, 2, &[0,1,127,128,200,255], Opt{removal:true, canon:true, ..BASE});
    #[cfg(feature = "seahash")] c05_wide => hist::at::<40>(2, 2, &[0,63,255,256,319], Opt{removal:true, canon:true, ..BASE});
    #[cfg(feature = "seahash")] c05_batch => hist::batch::<1>(4, &[0,3,4,7], Opt{removal:true, canon:true, ..BASE});
    #[cfg(feature = "seahash")] c05_batch5_t => hist::batch::<1>(5, &[0,1,3,4,7], Opt{removal:true, canon:true, ..BASE});
    #[cfg(feature = "seahash")] c05_batch2 => hist::batch2::<1>(2, 2, &[0,3,4,7], Opt{removal:true, canon:true, ..BASE});
    #[cfg(feature = "seahash")] c05_span => hist::batch2::<2>(2, 2, &[5,8,9,15], Opt{removal:true, canon:true, ..BASE});
    #[cfg(feature = "seahash")] c05_over => hist::overlap::<2>(4, 3, 2, &[0,5,8,9], Opt{removal:true, canon:true, ..BASE});
    #[cfg(feature = "seahash")] c05_over_t => hist::overlap::<2>(4, 3, 3, &[0,5,7,8,9,15], Opt{removal:true, canon:true, ..BASE});
    #[cfg(feature = "seahash")] c05_span_t => hist::batch2::<2>(2, 3, &[3,5,8,9,15], Opt{removal:true, canon:true, ..BASE});
    #[cfg(feature = "seahash")] c05_batch3_t => hist::batch2::<1>(3, 2, &[0,3,4,7], Opt{removal:true, canon:true, ..BASE});
    #[cfg(feature = "seahash")] c05_chain => hist::chain::<1>(3, 2, 2, &[0,1,2], Opt{removal:true, canon:true, ..BASE});
    #[cfg(feature = "seahash")] c05_chain3_t => hist::chain::<1>(2, 3, 2, &[0,1,2], Opt{removal:true, canon:true, ..BASE});
    #[cfg(feature = "seahash")] c05_values => hist::values::<4>(LENS, Opt{removal:true, canon:true, ..BASE});
    #[cfg(feature = "seahash")] c05_large => hist::large::<32>(16, 2, Opt{removal:true, canon:true, ..BASE});
    #[cfg(feature = "seahash")] c05_many => hist::many::<4>(300, 2, Opt{removal:true, canon:true, ..BASE});
    // C07
    #[cfg(feature = "seahash")] c07_hist => hist::at::<2>(3, 2, &[0,7,8,15], Opt{removal:true, proofs:true, ..BASE});
    #[cfg(feature = "seahash")] c07_hist_t => hist::at::<2>(4, 2, &[0,15], Opt{removal:true, proofs:true, ..BASE});
    #[cfg(feature = "seahash")] c07_pool3 => hist::at::<1>(2, 3, &[0,3,4,7], Opt{removal:true, proofs:true, ..BASE});
    #[cfg(feature = "seahash")] c07_pool3_t => hist::at::<1>(3, 3, &[0,4,7], Opt{removal:true, proofs:true, ..BASE});
    #[cfg(feature = "seahash")] c07_full32 => hist::full::<32>(2, 2, Opt{removal:true, proofs:true, ..BASE});
    #[cfg(feature = "seahash")] c07_full1 => hist::full::<1>(2, 3, Opt{removal:true, proofs:true, ..BASE});
    #[cfg(feature = "seahash")] c07_far => hist::at::<32>(2, 2, &[0,1,127,128,200,255], Opt{removal:true, proofs:true, ..BASE});
    #[cfg(feature = "seahash")] c07_wide => hist::at::<40>(2, 2, &[0,63,255,256,319], Opt{removal:true, proofs:true, ..BASE});
    #[cfg(feature = "seahash")] c07_batch => hist::batch::<1>(4, &[0,3,4,7], Opt{removal:true, proofs:true, ..BASE});
    #[cfg(feature = "seahash")] c07_batch5_t => hist::batch::<1>(5, &[0,1,3,4,7], Opt{removal:true, proofs:true, ..BASE});
    #[cfg(feature = "seahash")] c07_batch2 => hist::batch2::<1>(2, 2, &[0,3,4,7], Opt{removal:true, proofs:true, ..BASE});
    #[cfg(feature = "seahash")] c07_span => hist::batch2::<2>(2, 2, &[5,8,9,15], Opt{removal:true, proofs:true, ..BASE});
    #[cfg(feature = "seahash")] c07_over => hist::overlap::<2>(4, 3, 2, &[0,5,8,9], Opt{removal:true, proofs:true, ..BASE});
    #[cfg(feature = "seahash")] c07_over_t => hist::overlap::<2>(4, 3, 3, &[0,5,7,8,9,15], Opt{removal:true, proofs:true, ..BASE});
    #[cfg(feature = "seahash")] c07_span_t => hist::batch2::<2>(2, 3, &[3,5,8,9,15], Opt{removal:true, proofs:true, ..BASE});
    #[cfg(feature = "seahash")] c07_batch3_t => hist::batch2::<1>(3, 2, &[0,3,4,7], Opt{removal:true, proofs:true, ..BASE});
    #[cfg(feature = "seahash")] c07_chain => hist::chain::<1>(3, 2, 2, &[0,1,2], Opt{removal:true, proofs:true, ..BASE});
    #[cfg(feature = "seahash")] c07_chain3_t => hist::chain::<1>(2, 3, 2, &[0,1,2], Opt{removal:true, proofs:true, ..BASE});
    #[cfg(feature = "seahash")] c07_values => hist::values::<4>(LENS, Opt{removal:true, proofs:true, ..BASE});
    #[cfg(feature = "seahash")] c07_large => hist::large::<32>(16, 2, Opt{removal:true, proofs:true, ..BASE});
    #[cfg(feature = "seahash")] c07_many => hist::many::<4>(80, 2, Opt{removal:true, proofs:true, ..BASE});
    // C21
    #[cfg(feature = "seahash")] c21_hist => hist::at::<2>(3, 2, &[0,7,8,15], Opt{removal:true, trie:true, ..BASE});
    #[cfg(feature = "seahash")] c21_hist_t => hist::at::<2>(4, 2, &[0,15], Opt{removal:true, trie:true, ..BASE});
    #[cfg(feature = "seahash")] c21_pool3 => hist::at::<1>(2, 3, &[0,3,4,7], Opt{removal:true, trie:true, ..BASE});
    #[cfg(feature = "seahash")] c21_pool3_t => hist::at::<1>(3, 3, &[0,4,7], Opt{removal:true, trie:true, ..BASE});
    #[cfg(feature = "seahash")] c21_full32 => hist::full::<32>(2, 2, Opt{removal:true, trie:true, ..BASE});
    #[cfg(feature = "seahash")] c21_full1 => hist::full::<1>(2, 3, Opt{removal:true, trie:true, ..BASE});
    #[cfg(feature = "seahash")] c21_far => hist::at::<32>(2, 2, &[0,1,127,128,200,255], Opt{removal:true, trie:true, ..BASE});
    #[cfg(feature = "seahash")] c21_wide => hist::at::<40>(2, 2, &[0,63,255,256,319], Opt{removal:true, trie:true, ..BASE});
    #[cfg(feature = "seahash")] c21_batch => hist::batch::<1>(4, &[0,3,4,7], Opt{removal:true, trie:true, ..BASE});
    #[cfg(feature = "seahash")] c21_batch5_t => hist::batch::<1>(5, &[0,1,3,4,7], Opt{removal:true, trie:true, ..BASE});
    #[cfg(feature = "seahash")] c21_batch2 => hist::batch2::<1>(2, 2, &[0,3,4,7], Opt{removal:true, trie:true, ..BASE});
    #[cfg(feature = "seahash")] c21_span => hist::batch2::<2>(2, 2, &[5,8,9,15], Opt{removal:true, trie:true, ..BASE});
    #[cfg(feature = "seahash")] c21_over => hist::overlap::<2>(4, 3, 2, &[0,5,8,9], Opt{removal:true, trie:true, ..BASE});
    #[cfg(feature = "seahash")] c21_over_t => hist::overlap::<2>(4, 3, 3, &[0,5,7,8,9,15], Opt{removal:true, trie:true, ..BASE});
    #[cfg(feature = "seahash")] c21_span_t => hist::batch2::<2>(2, 3, &[3,5,8,9,15], Opt{removal:true, trie:true, ..BASE});
    #[cfg(feature = "seahash")] c21_batch3_t => hist::batch2::<1>(3, 2, &[0,3,4,7], Opt{removal:true, trie:true, ..BASE});
    #[cfg(feature = "seahash")] c21_chain => hist::chain::<1>(3, 2, 2, &[0,1,2], Opt{removal:true, trie:true, ..BASE});
    #[cfg(feature = "seahash")] c21_chain3_t => hist::chain::<1>(2, 3, 2, &[0,1,2], Opt{removal:true, trie:true, ..BASE});
    #[cfg(feature = "seahash")] c21_values => hist::values::<4>(LENS, Opt{removal:true, trie:true, ..BASE});
    #[cfg(feature = "seahash")] c21_large => hist::large::<32>(16, 2, Opt{removal:true, trie:true, ..BASE});
    #[cfg(feature = "seahash")] c21_many => hist::many::<4>(300, 2, Opt{removal:true, trie:true, ..BASE});
    #[cfg(feature = "seahash")] c04_handed => hist::handed_out::<2>(300);
    #[cfg(feature = "seahash")] c03_handed => hist::handed_out::<2>(300);
    #[cfg(feature = "seahash")] c01_typed => typed::hist::<2>(2, false, typed::Ask::Reads);
    #[cfg(feature = "seahash")] c02_typed => typed::hist::<2>(3, false, typed::Ask::Reads);
    #[cfg(feature = "seahash")] c03_typed => typed::hist::<2>(3, true, typed::Ask::Reads);
    #[cfg(feature = "seahash")] c05_typed => typed::hist::<2>(3, false, typed::Ask::Roots);
    #[cfg(feature = "seahash")] c06_typed => typed::hist::<2>(2, true, typed::Ask::Roots);
    #[cfg(feature = "seahash")] c07_typed => typed::hist::<2>(2, true, typed::Ask::Proofs);
    #[cfg(feature = "seahash")] c08_typed => typed::hist::<2>(2, false, typed::Ask::Proofs);
    #[cfg(feature = "seahash")] c09_typed => typed::hist::<2>(2, true, typed::Ask::Single);
    // C06
    #[cfg(feature = "seahash")] c06_pairs => proofs::binding::<2>(2, 2, &[0,15], &[0,1,2,3,4], true);
    #[cfg(feature = "seahash")] c06_triples => proofs::binding::<2>(3, 2, &[0,15], &[0,2], true);
    #[cfg(feature = "seahash")] c06_keys => proofs::binding_keys::<2>(&[0,1,2,3,4]);
    #[cfg(feature = "seahash")] c06_hist => proofs::binding_hist::<2>(3, 2, &[0,7,8,15]);
    #[cfg(feature = "seahash")] c06_pairs3_t => proofs::binding::<2>(2, 3, &[0,8,15], &[0,1,2,8], true);
    #[cfg(feature = "seahash")] c06_long => proofs::binding::<2>(2, 1, &[0,15], &[7,8,9,15,16,17,31,32,33], true);
    #[cfg(feature = "seahash")] c06_keys32 => proofs::binding_keys::<32>(&[0,1,8,31,32,33]);
    // C08
    #[cfg(feature = "seahash")] c08_forge2 => proofs::forge::<2>(2, &[0,15], 2, &[0,1,2,3,4], true);
    #[cfg(feature = "seahash")] c08_forge3 => proofs::forge::<2>(2, &[0,15], 3, &[0,1,2,3,4], true);
    #[cfg(feature = "seahash")] c08_forge4 => proofs::forge::<2>(3, &[0,15], 4, &[0,1,2,3,4], true);
    #[cfg(feature = "seahash")] c08_forge5 => proofs::forge::<2>(3, &[0,15], 5, &[1,2], true);
    #[cfg(feature = "seahash")] c08_mutilate => proofs::mutilate::<2>(3, &[0,7,15]);
    #[cfg(feature = "seahash")] c08_forge6_t => proofs::forge::<2>(3, &[0,15], 6, &[1,2], true);
    #[cfg(feature = "seahash")] c08_forge32 => proofs::forge::<32>(2, &[0,255], 3, &[1,32], true);
    #[cfg(feature = "seahash")] c08_mutilate4_t => proofs::mutilate::<2>(4, &[0,7,8,15]);
    // C09
    #[cfg(feature = "seahash")] c09_single => args::single_vs_batch::<2>(3, world::keys_at(2,&[0,7,8,15]));
    #[cfg(feature = "seahash")] c09_single32 => args::single_vs_batch::<32>(2, world::keys_full(2));
    #[cfg(feature = "seahash")] c09_values => args::values::<2>(LENS);
    #[cfg(feature = "seahash")] c09_seq => args::batch_vs_sequence::<1>(world::keys_at(3,&[0,3,4,7]), 2);
    #[cfg(feature = "seahash")] c09_seq4_t => args::batch_vs_sequence::<1>(world::keys_at(4,&[0,3,4,7]), 3);
    #[cfg(feature = "seahash")] c09_single4_t => args::single_vs_batch::<2>(4, world::keys_at(2,&[0,15]));
    // C10
    #[cfg(feature = "seahash")] c10_order3 => args::order::<1>(3, &[0,3,4,7], 0);
    #[cfg(feature = "seahash")] c10_order22 => args::order::<1>(2, &[0,3,4,7], 2);
    #[cfg(feature = "seahash")] c10_order4_t => args::order::<1>(4, &[0,3,4,7], 0);
    #[cfg(feature = "seahash")] c10_order32 => args::order::<1>(3, &[0,3,7], 2);
    #[cfg(feature = "seahash")] c10_queries => args::queries::<1>(3, 3, &[0,3,4,7]);
    #[cfg(feature = "seahash")] c10_queries4_t => args::queries::<1>(3, 4, &[0,3,7]);
    #[cfg(feature = "seahash")] c10_qlarge => args::queries_large::<32>(40);
    // C11
    #[cfg(feature = "seahash")] c11_bad => args::bad_calls::<2>(2, world::keys_at(2,&[0,8]));
    #[cfg(feature = "seahash")] c11_bad3_t => args::bad_calls::<2>(3, world::keys_at(2,&[0,8]));
    #[cfg(feature = "seahash")] c11_bad32 => args::bad_calls::<32>(1, world::keys_full(2));
    // C12
    #[cfg(feature = "seahash")] c12_limits => args::depth_limits::<1>(world::keys_at(4,&[0,1,2,3]), 3, &[0,1,2,3,8]);
    #[cfg(feature = "seahash")] c12_full1 => args::full_depth::<1>(1);
    #[cfg(feature = "seahash")] c12_full4 => args::full_depth::<4>(1);
    #[cfg(feature = "seahash")] c12_limits4_t => args::depth_limits::<1>(world::keys_at(5,&[0,1,2,3]), 4, &[0,1,2,3,8]);
    // C13
    #[cfg(feature = "seahash")] c13_fault => faults::fault::<2>(2, world::keys_at(2,&[0,15]), false, false);
    #[cfg(feature = "seahash")] c13_retry => faults::fault::<2>(1, world::keys_at(2,&[0,15]), true, false);
    #[cfg(feature = "seahash")] c13_queue => faults::fault::<2>(2, world::keys_at(2,&[0,15]), true, true);
    #[cfg(feature = "seahash")] c13_pool3_t => faults::fault::<1>(2, world::keys_at(3,&[0,4,7]), false, false);
    // C14
    #[cfg(feature = "seahash")] c14_impossible => faults::impossible::<2>();
    #[cfg(feature = "seahash")] c14_rep_one => faults::replaced::<2>(2, &[0,15], 0);
    #[cfg(feature = "seahash")] c14_any_one => faults::corrupt::<1>(3, 2, 1, 0);
    #[cfg(feature = "seahash")] c14_any2_one => faults::corrupt::<2>(4, 3, 1, 0);
    #[cfg(feature = "seahash")] c14_rep3_one_t => faults::replaced::<2>(3, &[0,7,15], 0);
    #[cfg(feature = "seahash")] c14_rep_get => faults::replaced::<2>(2, &[0,15], 1);
    #[cfg(feature = "seahash")] c14_any_get => faults::corrupt::<1>(3, 2, 1, 1);
    #[cfg(feature = "seahash")] c14_any2_get => faults::corrupt::<2>(4, 3, 1, 1);
    #[cfg(feature = "seahash")] c14_rep3_get_t => faults::replaced::<2>(3, &[0,7,15], 1);
    #[cfg(feature = "seahash")] c14_rep_proof => faults::replaced::<2>(2, &[0,15], 2);
    #[cfg(feature = "seahash")] c14_any_proof => faults::corrupt::<1>(3, 2, 1, 2);
    #[cfg(feature = "seahash")] c14_any2_proof => faults::corrupt::<2>(4, 3, 1, 2);
    #[cfg(feature = "seahash")] c14_rep3_proof_t => faults::replaced::<2>(3, &[0,7,15], 2);
    #[cfg(feature = "seahash")] c14_rep_remove => faults::replaced::<2>(2, &[0,15], 3);
    #[cfg(feature = "seahash")] c14_any_remove => faults::corrupt::<1>(3, 2, 1, 3);
    #[cfg(feature = "seahash")] c14_any2_remove => faults::corrupt::<2>(4, 3, 1, 3);
    #[cfg(feature = "seahash")] c14_rep3_remove_t => faults::replaced::<2>(3, &[0,7,15], 3);
    #[cfg(feature = "seahash")] c14_rep_insert => faults::replaced::<2>(2, &[0,15], 4);
    #[cfg(feature = "seahash")] c14_any_insert => faults::corrupt::<1>(3, 2, 1, 4);
    #[cfg(feature = "seahash")] c14_any2_insert => faults::corrupt::<2>(4, 3, 1, 4);
    #[cfg(feature = "seahash")] c14_rep3_insert_t => faults::replaced::<2>(3, &[0,7,15], 4);
    #[cfg(feature = "seahash")] c14_rep_single => faults::replaced::<2>(2, &[0,15], 5);
    #[cfg(feature = "seahash")] c14_any_single => faults::corrupt::<1>(3, 2, 1, 5);
    #[cfg(feature = "seahash")] c14_any2_single => faults::corrupt::<2>(4, 3, 1, 5);
    #[cfg(feature = "seahash")] c14_rep3_single_t => faults::replaced::<2>(3, &[0,7,15], 5);
    #[cfg(feature = "seahash")] c14_rep1_one => faults::replaced::<1>(2, &[0,7], 0);
    #[cfg(feature = "seahash")] c14_min_one => faults::corrupt::<1>(2, 2, 1, 0);
    #[cfg(feature = "seahash")] c14_deep_one => faults::corrupt::<1>(2, 8, 1, 0);
    #[cfg(feature = "seahash")] c14_rep1_get => faults::replaced::<1>(2, &[0,7], 1);
    #[cfg(feature = "seahash")] c14_min_get => faults::corrupt::<1>(2, 2, 1, 1);
    #[cfg(feature = "seahash")] c14_deep_get => faults::corrupt::<1>(2, 8, 1, 1);
    #[cfg(feature = "seahash")] c14_rep1_proof => faults::replaced::<1>(2, &[0,7], 2);
    #[cfg(feature = "seahash")] c14_min_proof => faults::corrupt::<1>(2, 2, 1, 2);
    #[cfg(feature = "seahash")] c14_deep_proof => faults::corrupt::<1>(2, 8, 1, 2);
    #[cfg(feature = "seahash")] c14_rep1_remove => faults::replaced::<1>(2, &[0,7], 3);
    #[cfg(feature = "seahash")] c14_min_remove => faults::corrupt::<1>(2, 2, 1, 3);
    #[cfg(feature = "seahash")] c14_deep_remove => faults::corrupt::<1>(2, 8, 1, 3);
    #[cfg(feature = "seahash")] c14_rep1_insert => faults::replaced::<1>(2, &[0,7], 4);
    #[cfg(feature = "seahash")] c14_min_insert => faults::corrupt::<1>(2, 2, 1, 4);
    #[cfg(feature = "seahash")] c14_deep_insert => faults::corrupt::<1>(2, 8, 1, 4);
    #[cfg(feature = "seahash")] c14_rep1_single => faults::replaced::<1>(2, &[0,7], 5);
    #[cfg(feature = "seahash")] c14_min_single => faults::corrupt::<1>(2, 2, 1, 5);
    #[cfg(feature = "seahash")] c14_deep_single => faults::corrupt::<1>(2, 8, 1, 5);
    #[cfg(feature = "seahash")] c14_two_get => faults::corrupt::<1>(2, 2, 2, 1);
    #[cfg(feature = "seahash")] c14_two_insert => faults::corrupt::<1>(2, 2, 2, 4);
    #[cfg(feature = "seahash")] c10_qspan => args::queries::<2>(2, 3, &[5,8,9]);
    #[cfg(feature = "seahash")] c10_qspan3_t => args::queries::<2>(3, 3, &[3,5,8,9]);
    #[cfg(feature = "seahash")] c10_qfar => args::queries::<32>(2, 2, &[0,1,127,128,200,255]);
    #[cfg(feature = "seahash")] c10_ospan => args::order::<2>(2, &[5,8,9], 2);
    #[cfg(feature = "seahash")] c09_sspan => args::single_vs_batch::<2>(2, world::keys_at(3,&[5,8,9]));
    #[cfg(feature = "seahash")] c09_seqspan => args::batch_vs_sequence::<2>(world::keys_at(3,&[5,8,9]), 2);
    #[cfg(feature = "seahash")] c12_span => args::depth_limits::<2>(world::keys_at(4,&[5,8,9,15]), 3, &[0,1,2,3,16]);
    #[cfg(feature = "seahash")] c17_log => bits::log();
    #[cfg(feature = "seahash")] c17_bit1 => bits::choose_bit::<1>();
    #[cfg(feature = "seahash")] c17_bit2 => bits::choose_bit::<2>();
    #[cfg(feature = "seahash")] c17_bit4 => bits::choose_bit::<4>();
    #[cfg(feature = "seahash")] c17_bit32 => bits::choose_bit::<32>();
    #[cfg(feature = "seahash")] c17_bit40 => bits::choose_bit::<40>();
    #[cfg(feature = "seahash")] c17_split1 => bits::split::<1>(4);
    #[cfg(feature = "seahash")] c17_split2 => bits::split::<2>(4);
    #[cfg(feature = "seahash")] c17_split4 => bits::split::<4>(3);
    #[cfg(feature = "seahash")] c17_split32 => bits::split::<32>(3);
    #[cfg(feature = "seahash")] c17_split40 => bits::split::<40>(3);
    #[cfg(feature = "seahash")] c17_queue1 => bits::queue::<1>(4);
    #[cfg(feature = "seahash")] c17_queue2 => bits::queue::<2>(3);
    #[cfg(feature = "seahash")] c17_queue4 => bits::queue::<4>(3);
    #[cfg(feature = "seahash")] c17_queue32 => bits::queue::<32>(2);
    #[cfg(feature = "seahash")] c17_queue40 => bits::queue::<40>(2);
    #[cfg(feature = "seahash")] c17_map2 => bits::leaf_map::<2>(3);
    #[cfg(feature = "seahash")] c17_map32 => bits::leaf_map::<32>(2);
    #[cfg(feature = "seahash")] c17_order2 => bits::ref_order::<2>();
    #[cfg(feature = "seahash")] c17_order32 => bits::ref_order::<32>();
    #[cfg(feature = "seahash")] c17_min1_3 => bits::min_split::<1>(3, &[]);
    #[cfg(feature = "seahash")] c17_min2_2 => bits::min_split::<2>(2, &[]);
    #[cfg(feature = "seahash")] c17_min2_3_t => bits::min_split::<2>(3, &[]);
    #[cfg(feature = "seahash")] c17_min4_2 => bits::min_split::<4>(2, &[]);
    #[cfg(feature = "seahash")] c17_min32_1 => bits::min_split::<32>(1, &[]);
    #[cfg(feature = "seahash")] c17_min40_1 => bits::min_split::<40>(1, &[]);
    #[cfg(feature = "seahash")] c17_min32_3 => bits::min_split::<32>(3, &[0,7,8,127,128,255]);
    #[cfg(feature = "seahash")] c17_min40_2 => bits::min_split::<40>(2, &[0,255,256,319]);
    #[cfg(feature = "seahash")] c17_below1_3 => bits::below::<1>(3, &[]);
    #[cfg(feature = "seahash")] c17_below2_2 => bits::below::<2>(2, &[]);
    #[cfg(feature = "seahash")] c17_below2_3_t => bits::below::<2>(3, &[]);
    #[cfg(feature = "seahash")] c17_below2_3 => bits::below::<2>(3, &[0,3,7,8,9,15]);
    #[cfg(feature = "seahash")] c17_below4_2_t => bits::below::<4>(2, &[]);
    #[cfg(feature = "seahash")] c17_below32_1 => bits::below::<32>(1, &[]);
    #[cfg(feature = "seahash")] c17_below32_2 => bits::below::<32>(2, &[0,7,8,9,15,16,247,248,255]);
    #[cfg(feature = "seahash")] c17_below40_2 => bits::below::<40>(2, &[0,7,8,255,256,311,312,319]);
    // C15
    #[cfg(feature = "serde")] c15_parts2 => ser::parts::<2>(1);
    #[cfg(feature = "serde")] c15_parts32 => ser::parts::<32>(1);
    #[cfg(feature = "serde")] c15_parts2x2 => ser::parts::<2>(2);
    #[cfg(feature = "serde")] c15_numbers => ser::numbers::<2>();
    #[cfg(feature = "serde")] c15_value => ser::value(&[0,1,2,3,23,24,25,255,256,257], 1);
    #[cfg(feature = "serde")] c15_value2 => ser::value(&[2,3], 2);
    #[cfg(feature = "serde")] c15_free1 => ser::all_free::<1>(3);
    #[cfg(feature = "serde")] c15_free2 => ser::all_free::<2>(2);
    #[cfg(feature = "serde")] c15_free32 => ser::all_free::<32>(33);
    #[cfg(feature = "serde")] c15_distinct2 => ser::distinct::<2>(3);
    #[cfg(feature = "serde")] c15_distinct32 => ser::distinct::<32>(33);
    // C16
    #[cfg(feature = "serde")] c16_any1_3 => ser::bytes_any::<1>(3, EXACT);
    #[cfg(feature = "serde")] c16_any1_4_t => ser::bytes_any::<1>(4, EXACT);
    #[cfg(feature = "serde")] c16_any1_2 => ser::bytes_any::<1>(2, EXACT);
    #[cfg(feature = "serde")] c16_any1_40 => ser::bytes_any::<1>(40, EXACT);
    #[cfg(feature = "serde")] c16_any2_60 => ser::bytes_any::<2>(60, EXACT);
    #[cfg(feature = "serde")] c16_damaged_leaf => ser::damaged::<1>(0, 1);
    #[cfg(feature = "serde")] c16_damaged_branch => ser::damaged::<1>(1, 1);
    #[cfg(feature = "serde")] c16_damaged_data => ser::damaged::<1>(2, 1);
    #[cfg(feature = "serde")] c16_damaged2_leaf => ser::damaged::<1>(0, 2);
    #[cfg(feature = "serde")] c16_damaged2_data => ser::damaged::<1>(2, 2);
    #[cfg(feature = "serde")] c16_cut_leaf => ser::cut::<1>(0, 1);
    #[cfg(feature = "serde")] c16_cut_branch => ser::cut::<1>(1, 1);
    #[cfg(feature = "serde")] c16_cut_data => ser::cut::<1>(2, 1);
    #[cfg(feature = "serde")] c16_prefix1 => ser::prefix::<1>(3);
    #[cfg(feature = "serde")] c16_prefix32 => ser::prefix::<32>(33);
    #[cfg(feature = "serde")] c16_length1_2 => ser::wrong_length::<1,2>();
    #[cfg(feature = "serde")] c16_length2_1 => ser::wrong_length::<2,1>();
    #[cfg(feature = "serde")] c16_length0_1 => ser::wrong_length::<0,1>();
    #[cfg(feature = "serde")] c16_length33_32 => ser::wrong_length::<33,32>();
    #[cfg(any(feature = "pickle", feature = "cbor"))] c16_bytes2 => ser::as_bytes::<2>();
    #[cfg(any(feature = "pickle", feature = "cbor"))] c16_bytes8 => ser::as_bytes::<8>();
    #[cfg(feature = "serde")] c16_length31_32 => ser::wrong_length::<31,32>();
    // C18
    #[cfg(feature = "rocksdb")] c18_twin => rocks::twin::<2>(2, 2, &[0,7,8,15], 16, false, false);
    #[cfg(feature = "rocksdb")] c18_values => rocks::values::<2>(LENS, false);
    #[cfg(feature = "rocksdb")] c18_values_again => rocks::values::<2>(LENS, true);
    #[cfg(feature = "rocksdb")] c18_twin3 => rocks::twin::<2>(3, 2, &[0,15], 16, true, true);
    #[cfg(feature = "rocksdb")] c18_twin3_t => rocks::twin::<2>(3, 2, &[0,15], 16, false, false);
    #[cfg(feature = "rocksdb")] c18_twin_pool => rocks::twin::<1>(2, 3, &[0,4,7], 8, false, false);
    #[cfg(feature = "rocksdb")] c18_twin32 => rocks::twin::<32>(2, 2, &[0,127,128,255], 256, true, true);
    #[cfg(feature = "rocksdb")] c18_limit => rocks::twin::<1>(3, 2, &[0], 0, true, true);
    #[cfg(feature = "rocksdb")] c18_limit1 => rocks::twin::<1>(2, 3, &[0,1], 1, true, true);
    #[cfg(feature = "rocksdb")] c18_limit4_t => rocks::twin::<1>(4, 2, &[0], 0, true, true);
    #[cfg(feature = "rocksdb")] c18_limit1_t => rocks::twin::<1>(3, 3, &[0,1], 1, true, true);
    #[cfg(feature = "rocksdb")] c18_refused => rocks::again::<1>(&[0,7], false);
    #[cfg(feature = "rocksdb")] c18_broken => rocks::again::<1>(&[0,7], true);
    #[cfg(feature = "rocksdb")] c18_crash => rocks::broken::<2>(1, 2, &[0,15], 10, false, 1, false);
    #[cfg(feature = "rocksdb")] c18_crash2 => rocks::broken::<1>(2, 2, &[0], 8, false, 0, true);
    #[cfg(feature = "rocksdb")] c18_crash3 => rocks::broken::<1>(1, 3, &[0,4,7], 12, false, 0, false);
    #[cfg(feature = "rocksdb")] c18_crash3_t => rocks::broken::<1>(2, 3, &[0,7], 12, false, 1, false);
    #[cfg(feature = "rocksdb")] c18_crash2_t => rocks::broken::<2>(3, 2, &[0], 10, false, 2, false);
    #[cfg(feature = "rocksdb")] c18_fault => rocks::broken::<1>(1, 2, &[0], 24, true, 1, true);
    #[cfg(feature = "rocksdb")] c18_fault2 => rocks::broken::<2>(2, 2, &[0], 20, true, 0, true);
    #[cfg(feature = "rocksdb")] c18_fault2_t => rocks::broken::<2>(2, 2, &[0,15], 30, true, 1, false);
    #[cfg(feature = "rocksdb")] c18_fault3_t => rocks::broken::<1>(1, 3, &[0,7], 40, true, 2, false);
}
