#![allow(unused_imports)]
pub use shim_pallets::fp_self_contained::*;
