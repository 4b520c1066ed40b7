//! sp-core stand-in.
pub use crate::bounded::{
	ConstBool, ConstI128, ConstI16, ConstI32, ConstI64, ConstI8, ConstU128, ConstU16, ConstU32, ConstU64, ConstU8, Get, TryCollect,
	TypedGet,
};
pub use crate::num::{Uint, H128, H160, H256, H512, U256, U512};
pub use crate::hashing::{blake2_128, blake2_256, blake2_512, keccak_256, keccak_512, sha2_256, twox_128, twox_256, twox_64};
pub use shim_macros::RuntimeDebug;
pub use crypto::{ByteArray, DeriveJunction, Pair, TypeId};
pub use impl_serde_stub as impl_serde;
pub mod impl_serde_stub {
	pub mod serialize {}
}
pub type Bytes = Vec<u8>;
pub type Blake2Hasher = crate::sp_runtime::traits::BlakeTwo256;
pub mod hash {
	pub use crate::num::{H160, H256, H512};
}
pub mod uint {
	pub use crate::num::{U256, U512};
}
pub mod hashing {
	pub use crate::hashing::*;
}
pub mod bounded {
	pub use crate::bounded::*;
}
pub mod bounded_vec {
	pub use crate::bounded::{BoundedSlice, BoundedVec};
}
pub mod traits {
	pub trait KeystoreStub {}
}
pub mod hexdisplay {
	use core::fmt;
	pub struct HexDisplay<'a>(&'a [u8]);
	impl<'a> HexDisplay<'a> {
		pub fn from<R: AsBytesRef>(d: &'a R) -> Self {
			HexDisplay(d.as_bytes_ref())
		}
	}
	impl<'a> fmt::Display for HexDisplay<'a> {
		fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
			f.write_str(&hex::encode(self.0))
		}
	}
	impl<'a> fmt::Debug for HexDisplay<'a> {
		fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
			f.write_str(&hex::encode(self.0))
		}
	}
	pub trait AsBytesRef {
		fn as_bytes_ref(&self) -> &[u8];
	}
	impl AsBytesRef for &[u8] {
		fn as_bytes_ref(&self) -> &[u8] {
			self
		}
	}
	impl AsBytesRef for [u8] {
		fn as_bytes_ref(&self) -> &[u8] {
			self
		}
	}
	impl AsBytesRef for Vec<u8> {
		fn as_bytes_ref(&self) -> &[u8] {
			self
		}
	}
	impl<const N: usize> AsBytesRef for [u8; N] {
		fn as_bytes_ref(&self) -> &[u8] {
			self
		}
	}
	impl AsBytesRef for crate::num::H256 {
		fn as_bytes_ref(&self) -> &[u8] {
			&self.0
		}
	}
	impl AsBytesRef for crate::num::H160 {
		fn as_bytes_ref(&self) -> &[u8] {
			&self.0
		}
	}
	pub fn ascii_format(a: &[u8]) -> String {
		a.iter().map(|b| if b.is_ascii_graphic() { *b as char } else { '.' }).collect()
	}
}
pub mod storage {
	#[derive(Clone, Default)]
	pub struct Storage {
		pub top: std::collections::BTreeMap<Vec<u8>, Vec<u8>>,
		pub children_default: std::collections::HashMap<Vec<u8>, ()>,
	}
	#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
	pub struct StorageKey(pub Vec<u8>);
	#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
	pub struct StorageData(pub Vec<u8>);
	pub mod well_known_keys {
		pub const CODE: &[u8] = b":code";
		pub const EXTRINSIC_INDEX: &[u8] = b":extrinsic_index";
	}
}
pub mod crypto {
	use crate::codec::*;
	pub trait UncheckedFrom<T> {
		fn unchecked_from(t: T) -> Self;
	}
	pub trait UncheckedInto<T> {
		fn unchecked_into(self) -> T;
	}
	impl<S, T: UncheckedFrom<S>> UncheckedInto<T> for S {
		fn unchecked_into(self) -> T {
			T::unchecked_from(self)
		}
	}
	pub trait TypeId {
		const TYPE_ID: [u8; 4];
	}
	pub trait ByteArray: AsRef<[u8]> + AsMut<[u8]> + for<'a> TryFrom<&'a [u8], Error = ()> {
		const LEN: usize;
		fn from_slice(d: &[u8]) -> Result<Self, ()> {
			Self::try_from(d)
		}
		fn to_raw_vec(&self) -> Vec<u8> {
			self.as_slice().to_vec()
		}
		fn as_slice(&self) -> &[u8] {
			self.as_ref()
		}
	}
	#[derive(Copy, Clone, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Encode, Decode, MaxEncodedLen, Debug)]
	pub struct KeyTypeId(pub [u8; 4]);
	pub mod key_types {
		use super::KeyTypeId;
		pub const BABE: KeyTypeId = KeyTypeId(*b"babe");
		pub const GRANDPA: KeyTypeId = KeyTypeId(*b"gran");
		pub const IM_ONLINE: KeyTypeId = KeyTypeId(*b"imon");
		pub const DUMMY: KeyTypeId = KeyTypeId(*b"dumy");
	}
	#[derive(Clone, Debug)]
	pub enum DeriveJunction {
		Soft([u8; 32]),
		Hard([u8; 32]),
	}
	#[derive(Clone, Debug, PartialEq, Eq)]
	pub enum SecretStringError {
		InvalidFormat,
	}
	pub trait Pair: Clone + Sized {
		type Public: Clone;
		type Signature;
		fn generate() -> (Self, [u8; 32]) {
			let s = crate::next_random_bytes();
			(Self::from_seed(&s), s)
		}
		fn from_seed(s: &[u8; 32]) -> Self;
		fn from_seed_slice(s: &[u8]) -> Result<Self, SecretStringError> {
			s.try_into().map(|x| Self::from_seed(&x)).map_err(|_| SecretStringError::InvalidFormat)
		}
		/// Dev-phrase derivation is replaced by a hash of the phrase (deterministic).
		fn from_string(s: &str, _password: Option<&str>) -> Result<Self, SecretStringError> {
			if let Some(h) = s.strip_prefix("0x") {
				let b = hex::decode(h).map_err(|_| SecretStringError::InvalidFormat)?;
				return Self::from_seed_slice(&b);
			}
			Ok(Self::from_seed(&crate::hashing::blake2_256(s.as_bytes())))
		}
		fn sign(&self, m: &[u8]) -> Self::Signature;
		fn verify<M: AsRef<[u8]>>(sig: &Self::Signature, m: M, p: &Self::Public) -> bool;
		fn public(&self) -> Self::Public;
		fn to_raw_vec(&self) -> Vec<u8>;
	}
	pub trait Public: ByteArray + PartialEq + Eq + Clone + Send + Sync {}
	pub trait IsWrappedBy<Outer>: From<Outer> + Into<Outer> {}
	pub trait Ss58Codec: Sized {
		fn to_ss58check(&self) -> String;
	}
	pub use super::{AccountId32, ByteArrayMarker};
}
pub trait ByteArrayMarker {}
macro_rules! bytes_ty { ($name:ident, $n:expr) => {
	#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, crate::codec::Encode, crate::codec::Decode, crate::codec::MaxEncodedLen)]
	pub struct $name(pub [u8; $n]);
	impl $name {
		pub const fn from_raw(b: [u8; $n]) -> Self { Self(b) }
		pub fn unchecked_from(b: [u8; $n]) -> Self { Self(b) }
	}
	impl crate::sp_core::crypto::UncheckedFrom<[u8; $n]> for $name { fn unchecked_from(b: [u8; $n]) -> Self { Self(b) } }
	impl AsRef<[u8]> for $name { fn as_ref(&self) -> &[u8] { &self.0 } }
	impl AsRef<[u8; $n]> for $name { fn as_ref(&self) -> &[u8; $n] { &self.0 } }
	impl AsMut<[u8]> for $name { fn as_mut(&mut self) -> &mut [u8] { &mut self.0 } }
	impl core::ops::Deref for $name { type Target = [u8]; fn deref(&self) -> &[u8] { &self.0 } }
	impl From<$name> for [u8; $n] { fn from(x: $name) -> Self { x.0 } }
	impl<'a> TryFrom<&'a [u8]> for $name { type Error = (); fn try_from(b: &'a [u8]) -> Result<Self, ()> { b.try_into().map(Self).map_err(|_| ()) } }
	impl core::fmt::Debug for $name { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { f.write_str(&hex::encode(self.0)) } }
	impl core::fmt::Display for $name { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { f.write_str(&hex::encode(self.0)) } }
	impl crate::sp_core::crypto::ByteArray for $name { const LEN: usize = $n; }
	impl serde::Serialize for $name { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(&hex::encode(self.0)) } }
	impl<'de> serde::Deserialize<'de> for $name { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
		let s = <String as serde::Deserialize>::deserialize(d)?; let b = hex::decode(s.strip_prefix("0x").unwrap_or(&s)).map_err(serde::de::Error::custom)?;
		b.try_into().map(Self).map_err(|_| serde::de::Error::custom("length")) } }
	impl Default for $name { fn default() -> Self { Self([0; $n]) } }
}}
mod acc32 {
	bytes_ty!(AccountId32, 32);
	impl From<[u8; 32]> for AccountId32 {
		fn from(b: [u8; 32]) -> Self {
			Self(b)
		}
	}
	impl AccountId32 {
		pub const fn new(b: [u8; 32]) -> Self {
			Self(b)
		}
	}
}
pub use acc32::AccountId32;
pub mod ecdsa {
	use crate::secp;
	bytes_ty!(Public, 33);
	bytes_ty!(Signature, 65);
	pub type Seed = [u8; 32];
	impl TryFrom<crate::num::H512> for Signature {
		type Error = ();
		fn try_from(_: crate::num::H512) -> Result<Self, ()> {
			Err(())
		}
	}
	impl Public {
		pub fn from_full(full: &[u8]) -> Result<Self, ()> {
			let q = if full.len() == 64 {
				let mut b = [4u8; 65];
				b[1..].copy_from_slice(full);
				secp::parse_uncompressed(&b)
			} else if full.len() == 65 {
				secp::parse_uncompressed(&full.try_into().map_err(|_| ())?)
			} else {
				secp::parse_compressed(&full.try_into().map_err(|_| ())?)
			};
			q.map(|q| Self(secp::compress(&q))).ok_or(())
		}
	}
	impl Signature {
		pub fn recover<M: AsRef<[u8]>>(&self, m: M) -> Option<Public> {
			self.recover_prehashed(&crate::hashing::blake2_256(m.as_ref()))
		}
		pub fn recover_prehashed(&self, m: &[u8; 32]) -> Option<Public> {
			secp::recover(&self.0, m).map(|q| Public(secp::compress(&q)))
		}
	}
	#[derive(Clone)]
	pub struct Pair {
		seed: [u8; 32],
		public: Public,
	}
	impl Pair {
		pub fn seed(&self) -> [u8; 32] {
			self.seed
		}
		pub fn sign_prehashed(&self, m: &[u8; 32]) -> Signature {
			Signature(secp::sign(&self.seed, m))
		}
		pub fn verify_prehashed(s: &Signature, m: &[u8; 32], p: &Public) -> bool {
			s.recover_prehashed(m).map(|x| &x == p).unwrap_or(false)
		}
		pub fn from_legacy_string(s: &str, p: Option<&str>) -> Self {
			<Self as super::Pair>::from_string(s, p).unwrap()
		}
	}
	impl super::Pair for Pair {
		type Public = Public;
		type Signature = Signature;
		fn from_seed(s: &[u8; 32]) -> Self {
			let q = secp::public(s).expect("valid secp256k1 seed");
			Pair { seed: *s, public: Public(secp::compress(&q)) }
		}
		fn sign(&self, m: &[u8]) -> Signature {
			self.sign_prehashed(&crate::hashing::blake2_256(m))
		}
		fn verify<M: AsRef<[u8]>>(s: &Signature, m: M, p: &Public) -> bool {
			s.recover(m).map(|x| &x == p).unwrap_or(false)
		}
		fn public(&self) -> Public {
			self.public
		}
		fn to_raw_vec(&self) -> Vec<u8> {
			self.seed.to_vec()
		}
	}
}
pub mod ed25519 {
	bytes_ty!(Public, 32);
	bytes_ty!(Signature, 64);
	#[derive(Clone)]
	pub struct Pair(ed25519_dalek::SigningKey);
	impl super::Pair for Pair {
		type Public = Public;
		type Signature = Signature;
		fn from_seed(s: &[u8; 32]) -> Self {
			Pair(ed25519_dalek::SigningKey::from_bytes(s))
		}
		fn sign(&self, m: &[u8]) -> Signature {
			use ed25519_dalek::Signer;
			Signature(self.0.sign(m).to_bytes())
		}
		fn verify<M: AsRef<[u8]>>(s: &Signature, m: M, p: &Public) -> bool {
			let Ok(k) = ed25519_dalek::VerifyingKey::from_bytes(&p.0) else { return false };
			use ed25519_dalek::Verifier;
			k.verify(m.as_ref(), &ed25519_dalek::Signature::from_bytes(&s.0)).is_ok()
		}
		fn public(&self) -> Public {
			Public(self.0.verifying_key().to_bytes())
		}
		fn to_raw_vec(&self) -> Vec<u8> {
			self.0.to_bytes().to_vec()
		}
	}
}
/// sr25519 is type-only: nothing in this repository's checked paths verifies sr25519 signatures.
pub mod sr25519 {
	bytes_ty!(Public, 32);
	bytes_ty!(Signature, 64);
	#[derive(Clone)]
	pub struct Pair([u8; 32]);
	impl super::Pair for Pair {
		type Public = Public;
		type Signature = Signature;
		fn from_seed(s: &[u8; 32]) -> Self {
			Pair(*s)
		}
		fn sign(&self, _m: &[u8]) -> Signature {
			Signature([0; 64])
		}
		fn verify<M: AsRef<[u8]>>(_: &Signature, _: M, _: &Public) -> bool {
			unimplemented!("sr25519 not modelled")
		}
		fn public(&self) -> Public {
			Public(crate::hashing::blake2_256(&self.0))
		}
		fn to_raw_vec(&self) -> Vec<u8> {
			self.0.to_vec()
		}
	}
}
pub mod offchain {
	#[derive(Clone, Copy, Debug, PartialEq, Eq)]
	#[allow(non_camel_case_types)]
	pub enum StorageKind {
		PERSISTENT = 1,
		LOCAL = 2,
	}
	#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Default)]
	pub struct Timestamp(u64);
	#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Default)]
	pub struct Duration(u64);
	impl Duration {
		pub const fn from_millis(m: u64) -> Self {
			Self(m)
		}
		pub fn millis(&self) -> u64 {
			self.0
		}
	}
	impl Timestamp {
		pub fn from_unix_millis(m: u64) -> Self {
			Self(m)
		}
		pub fn unix_millis(&self) -> u64 {
			self.0
		}
		pub fn add(&self, d: Duration) -> Self {
			Self(self.0.saturating_add(d.0))
		}
		pub fn sub(&self, d: Duration) -> Self {
			Self(self.0.saturating_sub(d.0))
		}
	}
	pub struct OffchainDbExt;
	pub struct OffchainWorkerExt;
	impl OffchainDbExt {
		pub fn new<T>(_: T) -> Self {
			Self
		}
	}
	impl OffchainWorkerExt {
		pub fn new<T>(_: T) -> Self {
			Self
		}
	}
	pub mod testing {
		use std::collections::BTreeMap;
		use std::sync::Arc;
		#[derive(Default, Debug, Clone)]
		pub struct PendingRequest {
			pub method: String,
			pub uri: String,
			pub meta: Vec<u8>,
			pub headers: Vec<(String, String)>,
			pub body: Vec<u8>,
			pub sent: bool,
			pub response: Option<Vec<u8>>,
			pub read: usize,
			pub response_headers: Vec<(String, String)>,
		}
		#[derive(Default)]
		pub struct OffchainState {
			pub requests: BTreeMap<u16, PendingRequest>,
		}
		impl OffchainState {
			pub fn expect_request(&mut self, _: PendingRequest) {}
		}
		type StateLock = parking_lot::RwLock<OffchainState>;
		#[derive(Clone)]
		pub struct TestOffchainExt(pub Arc<StateLock>);
		impl TestOffchainExt {
			pub fn new() -> (Self, Arc<StateLock>) {
				let s = Arc::new(StateLock::new(Default::default()));
				(TestOffchainExt(s.clone()), s)
			}
		}
	}
}
