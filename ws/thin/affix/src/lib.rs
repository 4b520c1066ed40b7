#![allow(unused_imports)]
pub use shim::macros::paste;
