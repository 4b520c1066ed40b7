//! sp-io stand-in: host functions over the thread-local externalities.
use crate::ext;
pub mod hashing {
	pub use crate::hashing::{blake2_128, blake2_256, keccak_256, keccak_512, sha2_256, twox_128, twox_256, twox_64};
}
pub type TestExternalitiesInner = ext::State;
pub struct TestExternalities {
	state: ext::State,
}
impl Default for TestExternalities {
	fn default() -> Self {
		Self::new(Default::default())
	}
}
impl From<crate::sp_core::storage::Storage> for TestExternalities {
	fn from(s: crate::sp_core::storage::Storage) -> Self {
		Self::new(s)
	}
}
pub trait Extension {}
impl TestExternalities {
	pub fn new(s: crate::sp_core::storage::Storage) -> Self {
		let mut st = ext::State::default();
		for (k, v) in s.top {
			st.hash ^= ext::entry_hash(&k, &v);
			st.map.insert(k.into(), v.into());
		}
		TestExternalities { state: st }
	}
	pub fn new_empty() -> Self {
		Self::default()
	}
	pub fn execute_with<R>(&mut self, f: impl FnOnce() -> R) -> R {
		let saved = ext::with(|e| core::mem::take(e));
		ext::with(|e| e.st = core::mem::take(&mut self.state));
		let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
		let st = ext::with(|e| core::mem::replace(e, saved));
		self.state = st.st;
		match r {
			Ok(r) => r,
			Err(p) => std::panic::resume_unwind(p),
		}
	}
	pub fn register_extension<E>(&mut self, _: E) {}
	pub fn commit_all(&mut self) -> Result<(), String> {
		Ok(())
	}
	pub fn persist_offchain_overlay(&mut self) {}
	pub fn insert(&mut self, k: Vec<u8>, v: Vec<u8>) {
		self.execute_with(|| ext::set(&k, &v))
	}
	pub fn state(&self) -> &ext::State {
		&self.state
	}
}
pub struct BasicExternalities;
impl BasicExternalities {
	pub fn execute_with_storage<R>(s: &mut crate::sp_core::storage::Storage, f: impl FnOnce() -> R) -> R {
		let mut t = TestExternalities::new(core::mem::take(s));
		let r = t.execute_with(f);
		for (k, v) in t.state.map {
			s.top.insert(k.to_vec(), v.to_vec());
		}
		r
	}
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum KillStorageResult {
	AllRemoved(u32),
	SomeRemaining(u32),
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MultiRemovalResults {
	pub maybe_cursor: Option<Vec<u8>>,
	pub backend: u32,
	pub unique: u32,
	pub loops: u32,
}
pub mod storage {
	use crate::ext;
	pub fn get(k: &[u8]) -> Option<Vec<u8>> {
		ext::get(k).map(|x| x.to_vec())
	}
	pub fn set(k: &[u8], v: &[u8]) {
		ext::set(k, v)
	}
	pub fn clear(k: &[u8]) {
		ext::clear(k)
	}
	pub fn exists(k: &[u8]) -> bool {
		ext::exists(k)
	}
	pub fn next_key(k: &[u8]) -> Option<Vec<u8>> {
		ext::next_key(k)
	}
	pub fn start_transaction() {
		ext::begin()
	}
	pub fn commit_transaction() {
		ext::commit()
	}
	pub fn rollback_transaction() {
		ext::rollback()
	}
	pub fn clear_prefix(p: &[u8], limit: Option<u32>) -> super::KillStorageResult {
		let n = ext::clear_prefix(p, limit);
		if ext::keys_with_prefix(p).is_empty() {
			super::KillStorageResult::AllRemoved(n)
		} else {
			super::KillStorageResult::SomeRemaining(n)
		}
	}
	pub fn root(_: crate::sp_runtime::StateVersion) -> Vec<u8> {
		ext::state_hash().to_be_bytes().repeat(2)
	}
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum EcdsaVerifyError {
	BadRS,
	BadV,
	BadSignature,
}
pub mod crypto {
	use super::EcdsaVerifyError;
	use crate::sp_core::{ecdsa, ed25519, sr25519, Pair};
	pub fn secp256k1_ecdsa_recover(sig: &[u8; 65], msg: &[u8; 32]) -> Result<[u8; 64], EcdsaVerifyError> {
		check(sig)?;
		let q = crate::secp::recover(sig, msg).ok_or(EcdsaVerifyError::BadSignature)?;
		let b = crate::secp::uncompressed(&q);
		Ok(b[1..].try_into().unwrap())
	}
	pub fn secp256k1_ecdsa_recover_compressed(sig: &[u8; 65], msg: &[u8; 32]) -> Result<[u8; 33], EcdsaVerifyError> {
		check(sig)?;
		let q = crate::secp::recover(sig, msg).ok_or(EcdsaVerifyError::BadSignature)?;
		Ok(crate::secp::compress(&q))
	}
	fn check(sig: &[u8; 65]) -> Result<(), EcdsaVerifyError> {
		let v = if sig[64] > 26 { sig[64] - 27 } else { sig[64] };
		if v > 3 {
			return Err(EcdsaVerifyError::BadV);
		}
		let (r, s) = (crate::num::U256::from_big_endian(&sig[..32]), crate::num::U256::from_big_endian(&sig[32..64]));
		if r >= crate::secp::n() || s >= crate::secp::n() {
			return Err(EcdsaVerifyError::BadRS);
		}
		Ok(())
	}
	pub fn ecdsa_verify(s: &ecdsa::Signature, m: &[u8], p: &ecdsa::Public) -> bool {
		ecdsa::Pair::verify(s, m, p)
	}
	pub fn ecdsa_verify_prehashed(s: &ecdsa::Signature, m: &[u8; 32], p: &ecdsa::Public) -> bool {
		ecdsa::Pair::verify_prehashed(s, m, p)
	}
	pub fn ed25519_verify(s: &ed25519::Signature, m: &[u8], p: &ed25519::Public) -> bool {
		ed25519::Pair::verify(s, m, p)
	}
	pub fn sr25519_verify(s: &sr25519::Signature, m: &[u8], p: &sr25519::Public) -> bool {
		sr25519::Pair::verify(s, m, p)
	}
}
pub mod offchain_index {
	pub fn set(_: &[u8], _: &[u8]) {}
	pub fn clear(_: &[u8]) {}
}
pub mod offchain {
	use crate::sp_core::offchain::*;
	use std::cell::RefCell;
	use std::collections::BTreeMap;
	thread_local! { pub static LOCAL: RefCell<BTreeMap<Vec<u8>, Vec<u8>>> = Default::default(); pub static TIME: RefCell<u64> = RefCell::new(0); }
	thread_local! { static VALIDATOR: std::cell::Cell<bool> = std::cell::Cell::new(true); }
	pub fn is_validator() -> bool {
		VALIDATOR.with(|v| v.get())
	}
	/// Whether this node runs with the validator role (it does unless told otherwise).
	pub fn set_validator(v: bool) {
		VALIDATOR.with(|x| x.set(v))
	}
	pub fn timestamp() -> Timestamp {
		Timestamp::from_unix_millis(TIME.with(|t| *t.borrow()))
	}
	pub fn local_storage_get(_: StorageKind, k: &[u8]) -> Option<Vec<u8>> {
		LOCAL.with(|l| l.borrow().get(k).cloned())
	}
	pub fn local_storage_set(_: StorageKind, k: &[u8], v: &[u8]) {
		LOCAL.with(|l| {
			l.borrow_mut().insert(k.to_vec(), v.to_vec());
		})
	}
	pub fn local_storage_compare_and_set(_: StorageKind, k: &[u8], old: Option<Vec<u8>>, new: &[u8]) -> bool {
		LOCAL.with(|l| {
			let mut l = l.borrow_mut();
			if l.get(k).cloned() != old {
				return false;
			}
			l.insert(k.to_vec(), new.to_vec());
			true
		})
	}
	pub fn local_storage_clear(_: StorageKind, k: &[u8]) {
		LOCAL.with(|l| {
			l.borrow_mut().remove(k);
		})
	}
	thread_local! { pub static POOL: RefCell<Vec<Vec<u8>>> = Default::default(); }
	/// Transactions handed to the (recorded, not executed) transaction pool.
	pub fn submit_transaction(d: Vec<u8>) -> Result<(), ()> {
		POOL.with(|p| p.borrow_mut().push(d));
		Ok(())
	}
	pub fn take_pool() -> Vec<Vec<u8>> {
		POOL.with(|p| std::mem::take(&mut *p.borrow_mut()))
	}
	pub fn random_seed() -> [u8; 32] {
		[7; 32]
	}
	pub fn sleep_until(_: Timestamp) {}
}
pub mod logging {}
pub mod misc {}
pub mod trie {}
