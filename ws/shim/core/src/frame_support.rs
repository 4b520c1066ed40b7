//! frame_support
pub use crate::bounded::{BoundedBTreeMap, BoundedBTreeSet, BoundedVec, WeakBoundedVec};
pub use crate::fs_storage as storage;
pub use crate::fs_storage::{
	storage_prefix, Blake2_128, Blake2_128Concat, Blake2_256, Hashable, Identity, ReversibleStorageHasher, StorageHasher, Twox128, Twox256, Twox64Concat,
	types::StorageValue as __SV, IterableStorageDoubleMap, IterableStorageMap, StorageDoubleMap, StorageMap, StorageValue,
};
pub use crate::fs_traits as traits;
pub use crate::{codec, sp_core, sp_io, sp_runtime, sp_std};
pub use log;
pub use serde;
pub use shim_macros::{
	construct_runtime, pallet, require_transactional, storage_alias, transactional, CloneNoBound, DebugNoBound, DefaultNoBound, EqNoBound, PalletError,
	PartialEqNoBound, RuntimeDebugNoBound,
};
pub use traits::Parameter;
pub use crate::sp_runtime::RuntimeDebug;
pub use crate::sp_arithmetic::FixedU128 as _F;
pub use crate::sp_runtime::{ConsensusEngineId, DispatchError as _DE};
pub use crate::{assert_err, assert_err_ignore_postinfo, assert_noop, assert_ok, assert_storage_noop, bounded_vec, defensive, ensure, fail, parameter_types, ord_parameter_types};

use crate::codec::{Decode, Encode, MaxEncodedLen};
use std::marker::PhantomData;
pub type Never = core::convert::Infallible;
pub type Void = core::convert::Infallible;
#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, Default, PartialOrd, Ord, MaxEncodedLen, Hash)]
pub struct PalletId(pub [u8; 8]);
impl crate::sp_core::TypeId for PalletId {
	const TYPE_ID: [u8; 4] = *b"modl";
}
pub trait Runtime {}
pub trait IgnoreParam<T> {
	type Out;
}
impl<X, T> IgnoreParam<T> for X {
	type Out = X;
}
/// placeholder for pallets without an event / origin: uninhabited
pub struct NoVariant<T>(PhantomData<T>, Never);
impl<T> Clone for NoVariant<T> {
	fn clone(&self) -> Self {
		match self.1 {}
	}
}
impl<T> PartialEq for NoVariant<T> {
	fn eq(&self, _: &Self) -> bool {
		match self.1 {}
	}
}
impl<T> Eq for NoVariant<T> {}
impl<T> core::fmt::Debug for NoVariant<T> {
	fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
		match self.1 {}
	}
}
impl<T> Encode for NoVariant<T> {
	fn encode_to<W: crate::codec::Output + ?Sized>(&self, _: &mut W) {
		match self.1 {}
	}
}
impl<T> crate::codec::EncodeLike for NoVariant<T> {}
impl<T> Decode for NoVariant<T> {
	fn decode<I: crate::codec::Input>(_: &mut I) -> Result<Self, crate::codec::Error> {
		Err("uninhabited".into())
	}
}
impl<T> MaxEncodedLen for NoVariant<T> {
	fn max_encoded_len() -> usize {
		0
	}
}
pub struct NoGenesis<T>(PhantomData<T>);
impl<T> Default for NoGenesis<T> {
	fn default() -> Self {
		NoGenesis(PhantomData)
	}
}
impl<T> crate::sp_runtime::BuildStorage for NoGenesis<T> {
	fn assimilate_storage(&self, _: &mut crate::sp_core::storage::Storage) -> Result<(), String> {
		Ok(())
	}
}
pub mod error {
	pub use crate::sp_runtime::traits::{BadOrigin, LookupError};
}
pub mod inherent {
	use crate::codec::{Decode, Encode};
	pub type InherentIdentifier = [u8; 8];
	#[derive(Default, Clone, Encode, Decode, Debug)]
	pub struct InherentData(pub Vec<(InherentIdentifier, Vec<u8>)>);
	pub trait ProvideInherent {}
	pub trait IsFatalError {}
}
pub mod unsigned {
	pub use crate::sp_runtime::traits::ValidateUnsigned;
	pub use crate::sp_runtime::transaction_validity::*;
}
pub mod genesis_builder_helper {}
pub mod instances {}
pub mod migrations {}
pub mod migration {
	pub use crate::fs_storage::migration::*;
}
pub mod metadata {}
pub mod dispatch {
	use super::*;
	pub use super::weights::Weight;
	pub use crate::codec::{Codec, Decode, Encode, EncodeLike, HasCompact};
	pub use crate::frame_system::RawOrigin;
	pub use crate::fs_traits::{CallMetadata as _C0, GetCallMetadata as _C1, GetStorageVersion, UnfilteredDispatchable};
	pub use crate::fs_traits::Parameter;
	pub use crate::sp_runtime::traits::Dispatchable;
	pub use crate::sp_runtime::{DispatchError, DispatchResult};
	pub type DispatchResultWithPostInfo = crate::sp_runtime::DispatchResultWithInfo<PostDispatchInfo>;
	pub type DispatchErrorWithPostInfo = crate::sp_runtime::DispatchErrorWithPostInfo<PostDispatchInfo>;
	pub type CallableCallFor<A, R> = <A as Callable<R>>::RuntimeCall;
	pub trait Callable<T> {
		type RuntimeCall: UnfilteredDispatchable + Codec + Clone + PartialEq + Eq;
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode)]
	pub struct CallMetadata {
		#[codec(skip)]
		pub function_name: &'static str,
		#[codec(skip)]
		pub pallet_name: &'static str,
	}
	pub trait GetCallName {
		fn get_call_names() -> &'static [&'static str];
		fn get_call_name(&self) -> &'static str;
	}
	pub trait GetCallMetadata {
		fn get_module_names() -> &'static [&'static str];
		fn get_call_names(module: &str) -> &'static [&'static str];
		fn get_call_metadata(&self) -> CallMetadata;
	}
	pub trait CheckIfFeeless {
		type Origin;
		fn is_feeless(&self, o: &Self::Origin) -> bool;
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, Default)]
	pub enum Pays {
		#[default]
		Yes,
		No,
	}
	impl From<Pays> for PostDispatchInfo {
		fn from(pays_fee: Pays) -> Self {
			PostDispatchInfo { actual_weight: None, pays_fee }
		}
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, Default)]
	pub enum DispatchClass {
		#[default]
		Normal,
		Operational,
		Mandatory,
	}
	impl DispatchClass {
		pub const fn all() -> &'static [DispatchClass] {
			&[DispatchClass::Normal, DispatchClass::Operational, DispatchClass::Mandatory]
		}
		pub const fn non_mandatory() -> &'static [DispatchClass] {
			&[DispatchClass::Normal, DispatchClass::Operational]
		}
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, Default)]
	pub struct DispatchInfo {
		pub weight: Weight,
		pub class: DispatchClass,
		pub pays_fee: Pays,
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, Default)]
	pub struct PostDispatchInfo {
		pub actual_weight: Option<Weight>,
		pub pays_fee: Pays,
	}
	impl core::fmt::Display for PostDispatchInfo {
		fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
			write!(f, "{:?}", self)
		}
	}
	impl PostDispatchInfo {
		pub fn calc_actual_weight(&self, i: &DispatchInfo) -> Weight {
			match self.actual_weight {
				Some(w) => w.min(i.weight),
				None => i.weight,
			}
		}
		pub fn calc_unspent(&self, i: &DispatchInfo) -> Weight {
			i.weight.saturating_sub(self.calc_actual_weight(i))
		}
		pub fn pays_fee(&self, i: &DispatchInfo) -> Pays {
			if i.pays_fee == Pays::No || self.pays_fee == Pays::No {
				Pays::No
			} else {
				Pays::Yes
			}
		}
	}
	impl From<()> for PostDispatchInfo {
		fn from(_: ()) -> Self {
			Self::default()
		}
	}
	impl From<Option<Weight>> for PostDispatchInfo {
		fn from(w: Option<Weight>) -> Self {
			Self { actual_weight: w, pays_fee: Pays::Yes }
		}
	}
	impl From<(Option<Weight>, Pays)> for PostDispatchInfo {
		fn from(w: (Option<Weight>, Pays)) -> Self {
			Self { actual_weight: w.0, pays_fee: w.1 }
		}
	}
	pub fn extract_actual_weight(r: &DispatchResultWithPostInfo, i: &DispatchInfo) -> Weight {
		match r {
			Ok(p) => p,
			Err(e) => &e.post_info,
		}
		.calc_actual_weight(i)
	}
	pub trait GetDispatchInfo {
		fn get_dispatch_info(&self) -> DispatchInfo;
	}
	impl GetDispatchInfo for () {
		fn get_dispatch_info(&self) -> DispatchInfo {
			DispatchInfo::default()
		}
	}
	pub trait IntoDispatchInfo {
		fn into_dispatch_info(self) -> DispatchInfo;
	}
	impl IntoDispatchInfo for Weight {
		fn into_dispatch_info(self) -> DispatchInfo {
			DispatchInfo { weight: self, ..Default::default() }
		}
	}
	macro_rules! idi { ($($t:ty),*) => {$( impl IntoDispatchInfo for $t { fn into_dispatch_info(self) -> DispatchInfo { DispatchInfo { weight: Weight::from_parts(self as u64, 0), ..Default::default() } } } )*} }
	idi!(u64, i32);
	impl<W: IntoDispatchInfo> IntoDispatchInfo for (W, DispatchClass) {
		fn into_dispatch_info(self) -> DispatchInfo {
			DispatchInfo { class: self.1, ..self.0.into_dispatch_info() }
		}
	}
	impl<W: IntoDispatchInfo> IntoDispatchInfo for (W, Pays) {
		fn into_dispatch_info(self) -> DispatchInfo {
			DispatchInfo { pays_fee: self.1, ..self.0.into_dispatch_info() }
		}
	}
	impl<W: IntoDispatchInfo> IntoDispatchInfo for (W, DispatchClass, Pays) {
		fn into_dispatch_info(self) -> DispatchInfo {
			DispatchInfo { class: self.1, pays_fee: self.2, ..self.0.into_dispatch_info() }
		}
	}
	pub trait WithPostDispatchInfo {
		fn with_weight(self, w: Weight) -> DispatchErrorWithPostInfo;
	}
	impl<T: Into<DispatchError>> WithPostDispatchInfo for T {
		fn with_weight(self, w: Weight) -> DispatchErrorWithPostInfo {
			DispatchErrorWithPostInfo { post_info: PostDispatchInfo { actual_weight: Some(w), pays_fee: Pays::Yes }, error: self.into() }
		}
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, Default)]
	pub struct PerDispatchClass<T> {
		pub normal: T,
		pub operational: T,
		pub mandatory: T,
	}
	impl<T> PerDispatchClass<T> {
		pub fn new(f: impl Fn(DispatchClass) -> T) -> Self {
			Self { normal: f(DispatchClass::Normal), operational: f(DispatchClass::Operational), mandatory: f(DispatchClass::Mandatory) }
		}
		pub fn get(&self, c: DispatchClass) -> &T {
			match c {
				DispatchClass::Normal => &self.normal,
				DispatchClass::Operational => &self.operational,
				DispatchClass::Mandatory => &self.mandatory,
			}
		}
		pub fn get_mut(&mut self, c: DispatchClass) -> &mut T {
			match c {
				DispatchClass::Normal => &mut self.normal,
				DispatchClass::Operational => &mut self.operational,
				DispatchClass::Mandatory => &mut self.mandatory,
			}
		}
		pub fn set(&mut self, n: T, c: impl OneOrMany<DispatchClass>)
		where
			T: Clone,
		{
			for c in c.into_iter() {
				*self.get_mut(c) = n.clone();
			}
		}
	}
	pub trait OneOrMany<T> {
		type Iter: Iterator<Item = T>;
		fn into_iter(self) -> Self::Iter;
	}
	impl OneOrMany<DispatchClass> for DispatchClass {
		type Iter = core::iter::Once<DispatchClass>;
		fn into_iter(self) -> Self::Iter {
			core::iter::once(self)
		}
	}
	impl<'a> OneOrMany<DispatchClass> for &'a [DispatchClass] {
		type Iter = std::iter::Cloned<std::slice::Iter<'a, DispatchClass>>;
		fn into_iter(self) -> Self::Iter {
			self.iter().cloned()
		}
	}
}
pub mod weights {
	use crate::codec::{Decode, Encode, MaxEncodedLen};
	#[derive(Encode, Decode, MaxEncodedLen, Clone, Copy, PartialEq, Eq, Debug, Default, Hash, serde::Serialize, serde::Deserialize)]
	pub struct Weight {
		#[codec(compact)]
		ref_time: u64,
		#[codec(compact)]
		proof_size: u64,
	}
	pub type OldWeight = u64;
	impl Weight {
		pub const MAX: Self = Self { ref_time: u64::MAX, proof_size: u64::MAX };
		pub const fn zero() -> Self {
			Self { ref_time: 0, proof_size: 0 }
		}
		pub const fn from_parts(r: u64, p: u64) -> Self {
			Self { ref_time: r, proof_size: p }
		}
		pub const fn from_ref_time(r: u64) -> Self {
			Self { ref_time: r, proof_size: 0 }
		}
		pub const fn from_all(r: u64) -> Self {
			Self { ref_time: r, proof_size: r }
		}
		pub const fn ref_time(&self) -> u64 {
			self.ref_time
		}
		pub const fn proof_size(&self) -> u64 {
			self.proof_size
		}
		pub const fn set_ref_time(mut self, c: u64) -> Self {
			self.ref_time = c;
			self
		}
		pub const fn set_proof_size(mut self, c: u64) -> Self {
			self.proof_size = c;
			self
		}
		pub const fn saturating_add(self, o: Self) -> Self {
			Self { ref_time: self.ref_time.saturating_add(o.ref_time), proof_size: self.proof_size.saturating_add(o.proof_size) }
		}
		pub const fn saturating_sub(self, o: Self) -> Self {
			Self { ref_time: self.ref_time.saturating_sub(o.ref_time), proof_size: self.proof_size.saturating_sub(o.proof_size) }
		}
		pub const fn saturating_mul(self, o: u64) -> Self {
			Self { ref_time: self.ref_time.saturating_mul(o), proof_size: self.proof_size.saturating_mul(o) }
		}
		pub const fn saturating_div(self, o: u64) -> Self {
			Self { ref_time: self.ref_time / o, proof_size: self.proof_size / o }
		}
		pub const fn div(self, o: u64) -> Self {
			Self { ref_time: self.ref_time / o, proof_size: self.proof_size / o }
		}
		pub const fn mul(self, o: u64) -> Self {
			Self { ref_time: self.ref_time * o, proof_size: self.proof_size * o }
		}
		pub const fn add(self, o: &Self) -> Self {
			Self { ref_time: self.ref_time + o.ref_time, proof_size: self.proof_size + o.proof_size }
		}
		pub const fn sub_ref_time(self, o: u64) -> Self {
			Self { ref_time: self.ref_time - o, proof_size: self.proof_size }
		}
		pub const fn sub_proof_size(self, o: u64) -> Self {
			Self { ref_time: self.ref_time, proof_size: self.proof_size - o }
		}
		pub const fn add_ref_time(self, o: u64) -> Self {
			Self { ref_time: self.ref_time + o, proof_size: self.proof_size }
		}
		pub const fn add_proof_size(self, o: u64) -> Self {
			Self { ref_time: self.ref_time, proof_size: self.proof_size + o }
		}
		pub fn saturating_accrue(&mut self, o: Self) {
			*self = self.saturating_add(o)
		}
		pub fn saturating_reduce(&mut self, o: Self) {
			*self = self.saturating_sub(o)
		}
		pub fn checked_add(&self, o: &Self) -> Option<Self> {
			Some(Self { ref_time: self.ref_time.checked_add(o.ref_time)?, proof_size: self.proof_size.checked_add(o.proof_size)? })
		}
		pub fn checked_sub(&self, o: &Self) -> Option<Self> {
			Some(Self { ref_time: self.ref_time.checked_sub(o.ref_time)?, proof_size: self.proof_size.checked_sub(o.proof_size)? })
		}
		pub fn min(&self, o: Self) -> Self {
			Self { ref_time: self.ref_time.min(o.ref_time), proof_size: self.proof_size.min(o.proof_size) }
		}
		pub fn max(&self, o: Self) -> Self {
			Self { ref_time: self.ref_time.max(o.ref_time), proof_size: self.proof_size.max(o.proof_size) }
		}
		pub const fn any_gt(self, o: Self) -> bool {
			self.ref_time > o.ref_time || self.proof_size > o.proof_size
		}
		pub const fn all_gt(self, o: Self) -> bool {
			self.ref_time > o.ref_time && self.proof_size > o.proof_size
		}
		pub const fn any_lt(self, o: Self) -> bool {
			self.ref_time < o.ref_time || self.proof_size < o.proof_size
		}
		pub const fn all_lt(self, o: Self) -> bool {
			self.ref_time < o.ref_time && self.proof_size < o.proof_size
		}
		pub const fn all_gte(self, o: Self) -> bool {
			self.ref_time >= o.ref_time && self.proof_size >= o.proof_size
		}
		pub const fn all_lte(self, o: Self) -> bool {
			self.ref_time <= o.ref_time && self.proof_size <= o.proof_size
		}
		pub const fn is_zero(&self) -> bool {
			self.ref_time == 0 && self.proof_size == 0
		}
	}
	impl From<u64> for Weight {
		fn from(x: u64) -> Self {
			Weight::from_parts(x, x)
		}
	}
	impl crate::sp_runtime::traits::Zero for Weight {
		fn zero() -> Self {
			Weight::zero()
		}
		fn is_zero(&self) -> bool {
			*self == Weight::zero()
		}
	}
	impl core::ops::Add for Weight {
		type Output = Self;
		fn add(self, o: Self) -> Self {
			Self { ref_time: self.ref_time + o.ref_time, proof_size: self.proof_size + o.proof_size }
		}
	}
	impl core::ops::Sub for Weight {
		type Output = Self;
		fn sub(self, o: Self) -> Self {
			Self { ref_time: self.ref_time - o.ref_time, proof_size: self.proof_size - o.proof_size }
		}
	}
	impl core::ops::Mul<u64> for Weight {
		type Output = Self;
		fn mul(self, o: u64) -> Self {
			Self { ref_time: self.ref_time * o, proof_size: self.proof_size * o }
		}
	}
	impl core::ops::Div<u64> for Weight {
		type Output = Self;
		fn div(self, o: u64) -> Self {
			Self { ref_time: self.ref_time / o, proof_size: self.proof_size / o }
		}
	}
	impl core::ops::Mul<Weight> for crate::sp_arithmetic::Perbill {
		type Output = Weight;
		fn mul(self, w: Weight) -> Weight {
			Weight { ref_time: self * w.ref_time, proof_size: self * w.proof_size }
		}
	}
	impl core::ops::AddAssign for Weight {
		fn add_assign(&mut self, o: Self) {
			*self = *self + o
		}
	}
	impl core::fmt::Display for Weight {
		fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
			write!(f, "Weight(ref_time: {}, proof_size: {})", self.ref_time, self.proof_size)
		}
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
	pub struct RuntimeDbWeight {
		pub read: u64,
		pub write: u64,
	}
	impl RuntimeDbWeight {
		pub const fn reads(self, n: u64) -> Weight {
			Weight::from_parts(self.read.saturating_mul(n), 0)
		}
		pub const fn writes(self, n: u64) -> Weight {
			Weight::from_parts(self.write.saturating_mul(n), 0)
		}
		pub const fn reads_writes(self, r: u64, w: u64) -> Weight {
			Weight::from_parts(self.read.saturating_mul(r).saturating_add(self.write.saturating_mul(w)), 0)
		}
	}
	pub trait WeightToFee {
		type Balance;
		fn weight_to_fee(w: &Weight) -> Self::Balance;
	}
	pub struct IdentityFee<T>(core::marker::PhantomData<T>);
	impl<T: crate::sp_runtime::traits::UniqueSaturatedFrom<u64> + crate::sp_runtime::traits::BaseArithmetic> WeightToFee for IdentityFee<T> {
		type Balance = T;
		fn weight_to_fee(w: &Weight) -> T {
			T::unique_saturated_from(w.ref_time())
		}
	}
	pub struct ConstantMultiplier<T, M>(core::marker::PhantomData<(T, M)>);
	impl<T: crate::sp_runtime::traits::BaseArithmetic + crate::sp_runtime::traits::UniqueSaturatedFrom<u64> + Copy, M: crate::bounded::Get<T>> WeightToFee
		for ConstantMultiplier<T, M>
	{
		type Balance = T;
		fn weight_to_fee(w: &Weight) -> T {
			crate::sp_runtime::traits::Saturating::saturating_mul(T::unique_saturated_from(w.ref_time()), M::get())
		}
	}
	pub mod constants {
		use super::*;
		pub const WEIGHT_REF_TIME_PER_SECOND: u64 = 1_000_000_000_000;
		pub const WEIGHT_REF_TIME_PER_MILLIS: u64 = 1_000_000_000;
		pub const WEIGHT_REF_TIME_PER_MICROS: u64 = 1_000_000;
		pub const WEIGHT_REF_TIME_PER_NANOS: u64 = 1_000;
		pub const WEIGHT_PROOF_SIZE_PER_MB: u64 = 1024 * 1024;
		pub struct RocksDbWeight;
		impl RocksDbWeight {
			pub const fn get() -> RuntimeDbWeight {
				RuntimeDbWeight { read: 25_000 * 1000, write: 100_000 * 1000 }
			}
		}
		impl crate::bounded::Get<RuntimeDbWeight> for RocksDbWeight {
			fn get() -> RuntimeDbWeight {
				RuntimeDbWeight { read: 25_000 * 1000, write: 100_000 * 1000 }
			}
		}
		pub struct ParityDbWeight;
		impl crate::bounded::Get<RuntimeDbWeight> for ParityDbWeight {
			fn get() -> RuntimeDbWeight {
				RuntimeDbWeight { read: 8_000 * 1000, write: 50_000 * 1000 }
			}
		}
		pub struct ExtrinsicBaseWeight;
		impl ExtrinsicBaseWeight {
			pub fn get() -> Weight {
				Weight::from_parts(98_974_000, 0)
			}
		}
		impl<I: From<Weight>> crate::bounded::Get<I> for ExtrinsicBaseWeight {
			fn get() -> I {
				I::from(Weight::from_parts(98_974_000, 0))
			}
		}
		pub struct BlockExecutionWeight;
		impl<I: From<Weight>> crate::bounded::Get<I> for BlockExecutionWeight {
			fn get() -> I {
				I::from(Weight::from_parts(5_000_000_000, 0))
			}
		}
	}
}
pub mod pallet_prelude {
	pub use super::dispatch::{DispatchClass, DispatchError, DispatchErrorWithPostInfo, DispatchResult, DispatchResultWithPostInfo, Pays};
	pub use super::storage::types::{CountedStorageMap, Key as NMapKey, OptionQuery, ResultQuery, StorageDoubleMap, StorageMap, StorageNMap, StorageValue, ValueQuery};
	pub use super::storage::types::StorageAppend as _;
	pub use super::traits::{
		BuildGenesisConfig, ConstBool, ConstU128, ConstU16, ConstU32, ConstU64, ConstU8, EnsureOrigin, Get, GetDefault, GetStorageVersion, Hooks, IsType,
		PalletInfoAccess, StorageVersion, TypedGet,
	};
	pub use super::weights::Weight;
	pub use super::{
		Blake2_128, Blake2_128Concat, Blake2_256, CloneNoBound, DebugNoBound, EqNoBound, Identity, PartialEqNoBound, RuntimeDebug, RuntimeDebugNoBound, Twox128,
		Twox256, Twox64Concat, DefaultNoBound,
	};
	pub use super::traits::Parameter;
	pub use crate::bounded::{BoundedBTreeMap, BoundedBTreeSet, BoundedVec};
	pub use crate::codec::{Decode, Encode, MaxEncodedLen};
	pub use crate::scale_info::TypeInfo;
	pub use crate::sp_runtime::traits::{MaybeSerializeDeserialize, Member, ValidateUnsigned};
	pub use crate::sp_runtime::transaction_validity::{
		InvalidTransaction, TransactionLongevity, TransactionPriority, TransactionSource, TransactionTag, TransactionValidity, TransactionValidityError,
		UnknownTransaction, ValidTransaction,
	};
	pub use crate::sp_runtime::{BuildStorage as _, MAX_MODULE_ERROR_ENCODED_SIZE};
	pub use crate::{ensure, fail};
	pub use super::pallet;
	pub use super::inherent::{InherentData, InherentIdentifier, ProvideInherent};
	pub use std::marker::PhantomData;
}
pub mod parameter_types_helper {}
#[macro_export]
macro_rules! ensure {
	($x:expr, $y:expr $(,)?) => {{
		if !$x {
			$crate::fail!($y);
		}
	}};
}
#[macro_export]
macro_rules! fail {
	($y:expr) => {{
		return Err($y.into())
	}};
}
#[macro_export]
macro_rules! defensive {
	($($t:tt)*) => {};
}
#[macro_export]
macro_rules! assert_ok {
	($x:expr $(,)?) => {
		let is = $x;
		match is {
			Ok(_) => (),
			_ => assert!(false, "Expected Ok(_). Got {:#?}", is),
		}
	};
	($x:expr, $y:expr $(,)?) => {
		assert_eq!($x, Ok($y));
	};
}
#[macro_export]
macro_rules! assert_err {
	($x:expr, $y:expr $(,)?) => {
		assert_eq!($x, Err($y.into()));
	};
}
#[macro_export]
macro_rules! assert_err_ignore_postinfo {
	($x:expr, $y:expr $(,)?) => {
		$crate::assert_err!($x.map(|_| ()).map_err(|e| e.error), $y);
	};
}
#[macro_export]
macro_rules! assert_noop {
	($x:expr, $y:expr $(,)?) => {
		let h = $crate::ext::state_hash();
		$crate::assert_err!($x, $y);
		assert_eq!(h, $crate::ext::state_hash(), "storage has been mutated");
	};
}
#[macro_export]
macro_rules! assert_storage_noop {
	($x:expr) => {
		let h = $crate::ext::state_hash();
		$x;
		assert_eq!(h, $crate::ext::state_hash(), "storage has been mutated");
	};
}
#[macro_export]
macro_rules! bounded_vec {
	($($v:expr),* $(,)?) => { { let v = vec![$($v),*]; v.try_into().expect("bounded_vec") } };
	($v:expr; $n:expr) => { { let v = vec![$v; $n]; v.try_into().expect("bounded_vec") } };
}
#[macro_export]
macro_rules! ord_parameter_types {
	($($t:tt)*) => { $crate::parameter_types!{ $($t)* } };
}
#[macro_export]
macro_rules! parameter_types {
	($(#[$a:meta])* $vis:vis const $name:ident: $ty:ty = $v:expr; $($rest:tt)*) => {
		$(#[$a])* $vis struct $name;
		impl $name { #[allow(dead_code)] pub const fn get() -> $ty { $v } }
		impl<_I: From<$ty>> $crate::bounded::Get<_I> for $name { fn get() -> _I { _I::from(Self::get()) } }
		impl $crate::bounded::TypedGet for $name { type Type = $ty; fn get() -> $ty { Self::get() } }
		$crate::parameter_types!{ $($rest)* }
	};
	($(#[$a:meta])* $vis:vis static $name:ident: $ty:ty = $v:expr; $($rest:tt)*) => {
		$(#[$a])* $vis struct $name;
		const _: () = {
			thread_local! { static V: ::std::cell::RefCell<$ty> = ::std::cell::RefCell::new($v); }
			impl $name {
				#[allow(dead_code)] pub fn key() -> &'static [u8] { stringify!($name).as_bytes() }
				#[allow(dead_code)] pub fn get() -> $ty { V.with(|v| v.borrow().clone()) }
				#[allow(dead_code)] pub fn set(t: $ty) { V.with(|v| *v.borrow_mut() = t) }
				#[allow(dead_code)] pub fn mutate<R, F: FnOnce(&mut $ty) -> R>(f: F) -> R { V.with(|v| f(&mut *v.borrow_mut())) }
				#[allow(dead_code)] pub fn take() -> $ty { V.with(|v| ::std::mem::replace(&mut *v.borrow_mut(), $v)) }
			}
		};
		impl<_I: From<$ty>> $crate::bounded::Get<_I> for $name { fn get() -> _I { _I::from(Self::get()) } }
		$crate::parameter_types!{ $($rest)* }
	};
	($(#[$a:meta])* $vis:vis storage $name:ident: $ty:ty = $v:expr; $($rest:tt)*) => {
		$crate::parameter_types!{ $(#[$a])* $vis static $name: $ty = $v; $($rest)* }
	};
	($(#[$a:meta])* $vis:vis $name:ident: $ty:ty = $v:expr; $($rest:tt)*) => {
		$(#[$a])* $vis struct $name;
		impl $name { #[allow(dead_code)] pub fn get() -> $ty { $v } }
		impl<_I: From<$ty>> $crate::bounded::Get<_I> for $name { fn get() -> _I { _I::from(Self::get()) } }
		impl $crate::bounded::TypedGet for $name { type Type = $ty; fn get() -> $ty { Self::get() } }
		$crate::parameter_types!{ $($rest)* }
	};
	() => {};
}
