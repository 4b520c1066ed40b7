#![allow(unused_imports)]
pub use shim_pallets::misc::libsecp256k1::*;
