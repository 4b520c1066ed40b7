#![allow(unused_imports)]
pub use shim::macros::hex;
