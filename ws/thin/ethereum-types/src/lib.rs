#![allow(unused_imports)]
pub use shim_pallets::ethereum_types::*;
