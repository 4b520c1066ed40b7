#![allow(unused_imports)]
pub use shim_pallets::evm::ethereum::*;
