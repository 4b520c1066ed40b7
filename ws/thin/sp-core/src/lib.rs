#![allow(unused_imports)]
pub use shim::sp_core::*; pub use shim::codec::{self, Encode, Decode};
