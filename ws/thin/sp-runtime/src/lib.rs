#![allow(unused_imports)]
pub use shim::sp_runtime::*; pub use shim::codec;
