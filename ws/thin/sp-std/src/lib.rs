#![allow(unused_imports)]
pub use shim::sp_std::*;
