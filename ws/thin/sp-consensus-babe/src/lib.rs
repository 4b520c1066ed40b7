#![allow(unused_imports)]
pub use shim_pallets::sp_consensus_babe::*;
