#![allow(unused_imports)]
pub use shim::codec::*;
