//! A small, deterministic stand-in for the Substrate/FRAME crates the pallets of /repo are written
//! against. Pallet sources are compiled unmodified against it; storage lives in a thread-local map
//! with nested transactions so that every execution can be enumerated, undone and hashed.
#![allow(unused_imports, dead_code, non_camel_case_types, clippy::all)]
extern crate self as shim;
pub mod bounded;
pub mod codec;
pub mod ext;
pub mod frame_support;
pub mod frame_system;
pub mod fs_storage;
pub mod fs_tokens;
pub mod fs_traits;
pub mod hashing;
pub mod num;
pub mod secp;
pub mod sp_arithmetic;
pub mod sp_core;
pub mod sp_io;
pub mod sp_runtime;
pub mod sp_std;
pub mod sp_version;
pub mod log_reexport {
	pub use log::*;
}
pub use shim_macros as macros;
pub use num_traits;
pub mod scale_info {
	pub use shim_macros::TypeInfo;
	pub trait TypeInfo {}
	impl<T: ?Sized> TypeInfo for T {}
	pub trait StaticTypeInfo {}
	impl<T: ?Sized> StaticTypeInfo for T {}
	pub mod prelude {
		pub use std::*;
	}
}
/// Deterministic stand-in for randomness (`random()` constructors only used by tests).
pub fn next_random() -> u64 {
	thread_local! { static N: std::cell::Cell<u64> = std::cell::Cell::new(1); }
	N.with(|n| {
		let v = n.get();
		n.set(v + 1);
		// splitmix64
		let mut z = v.wrapping_mul(0x9E3779B97F4A7C15);
		z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
		z ^ (z >> 31)
	})
}
pub fn next_random_bytes<const N: usize>() -> [u8; N] {
	let mut o = [0u8; N];
	for c in o.chunks_mut(8) {
		let b = next_random().to_le_bytes();
		c.copy_from_slice(&b[..c.len()]);
	}
	o
}
