#![allow(unused_imports)]
pub use shim::macros::impl_for_tuples;
