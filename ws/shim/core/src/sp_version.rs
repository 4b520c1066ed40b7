//! sp_version
use crate::codec::{Decode, Encode};
#[derive(Clone, PartialEq, Eq, Encode, Decode, Default, Debug)]
pub struct RuntimeVersion {
	pub spec_name: String,
	pub impl_name: String,
	pub authoring_version: u32,
	pub spec_version: u32,
	pub impl_version: u32,
	pub apis: Vec<([u8; 8], u32)>,
	pub transaction_version: u32,
	pub state_version: u8,
}
