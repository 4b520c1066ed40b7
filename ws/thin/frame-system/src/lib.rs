#![allow(unused_imports)]
pub use shim::frame_system::*;
