pub use std::{any, borrow, boxed, cell, clone, cmp, convert, default, fmt, hash, iter, marker, mem, num, ops, ptr, rc, result, slice, str, sync, time, vec, string};
pub mod alloc {
	pub use std::{borrow, boxed, collections, fmt, format, rc, slice, str, string, sync, vec};
}
pub mod collections {
	pub use std::collections::*;
	pub mod btree_map {
		pub use std::collections::btree_map::*;
	}
	pub mod btree_set {
		pub use std::collections::btree_set::*;
	}
	pub mod vec_deque {
		pub use std::collections::vec_deque::*;
	}
	pub mod hash_map {
		pub use std::collections::hash_map::*;
	}
}
pub mod prelude {
	pub use std::{
		borrow::ToOwned, boxed::Box, clone::Clone, cmp::{Eq, PartialEq, Reverse}, iter::{FromIterator, IntoIterator}, vec, vec::Vec,
	};
	pub use std::prelude::v1::*;
}
#[macro_export]
macro_rules! if_std { ($($c:tt)*) => { $($c)* } }
pub use crate::if_std;
pub use std::{format, write, writeln};
pub struct Writer(pub Vec<u8>);
impl Default for Writer { fn default() -> Self { Writer(vec![]) } }
impl core::fmt::Write for Writer {
	fn write_str(&mut self, s: &str) -> core::fmt::Result { self.0.extend_from_slice(s.as_bytes()); Ok(()) }
}
impl Writer { pub fn inner(&self) -> &Vec<u8> { &self.0 } pub fn into_inner(self) -> Vec<u8> { self.0 } }
