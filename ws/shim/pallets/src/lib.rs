//! Stand-ins for the third-party FRAME pallets the repository's pallets are configured with,
//! following the polkadot-v1.0.0 semantics of the parts that are used.
#![allow(unused_imports, dead_code, unused_variables, clippy::all)]
pub mod assets;
pub mod balances;
pub mod evm;
pub mod timestamp;
pub mod misc;
pub mod transaction_payment;
pub mod proxy;
pub mod election;
pub mod im_online;
pub mod scheduler;
pub mod session;
pub mod sudo;
pub mod utility;
pub mod staking;
pub mod xrpl_codec;
pub mod xrpl_binary_codec;
pub mod xrpl_types;
pub mod doughnut_rs;
pub mod frame_executive;
pub mod fp_self_contained;
pub use misc::{ethabi, ethereum_types, impl_serde, libsecp256k1, ripemd, rustc_hex, sp_api, sp_application_crypto, sp_consensus_babe, sp_keystore, sp_staking};
pub mod prelude {
	pub use shim::codec::{self, Codec, Decode, Encode, EncodeLike, FullCodec, HasCompact, MaxEncodedLen};
	pub use shim::frame_support::dispatch::*;
	pub use shim::frame_support::pallet_prelude::*;
	pub use shim::frame_support::traits::*;
	pub use shim::frame_support::weights::*;
	pub use shim::frame_support::{self, ensure};
	pub use shim::frame_system::pallet_prelude::*;
	pub use shim::frame_system::{self, ensure_none, ensure_root, ensure_signed, RawOrigin};
	pub use shim::scale_info::TypeInfo;
	pub use shim::sp_runtime::traits::{
		AccountIdConversion, AtLeast32BitUnsigned, Bounded, CheckedAdd, CheckedSub, MaybeSerializeDeserialize, One, Saturating, StaticLookup, Zero,
	};
	pub use shim::sp_runtime::{ArithmeticError, DispatchError, DispatchResult, TokenError};
	pub use std::marker::PhantomData;
	pub type LookupSrc<T> = <<T as frame_system::Config>::Lookup as StaticLookup>::Source;
}
