#![allow(unused_imports)]
pub use shim_pallets::evm::builtin::{Bn128Add, Bn128Mul, Bn128Pairing};
