#![allow(unused_imports)]
pub use shim::scale_info::*;
