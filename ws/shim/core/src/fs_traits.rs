//! frame_support::traits
pub use crate::bounded::{ConstBool, ConstU128, ConstU16, ConstU32, ConstU64, ConstU8, Get, TryCollect, TypedGet};
use crate::codec::{Codec, Decode, Encode, EncodeLike, FullCodec, MaxEncodedLen};
pub use crate::frame_support::dispatch::{CallMetadata, GetCallMetadata, GetCallName, GetDispatchInfo, PostDispatchInfo};
pub use crate::frame_support::PalletId;
use crate::frame_support::weights::Weight;
pub use crate::fs_tokens::{
	self as tokens,
	currency::{
		Currency, ExistenceRequirement, Imbalance, InspectLockableCurrency, LockIdentifier, LockableCurrency, NamedReservableCurrency, OnUnbalanced,
		ReservableCurrency, SameOrOther, SignedImbalance, TotalIssuanceOf, TryDrop, UnbalancedStub, VestingSchedule, WithdrawReasons,
	},
	fungible, fungibles, BalanceStatus,
};
pub use crate::sp_core::storage::Storage;
pub use crate::sp_core::TypeId as SpTypeId;
pub use crate::sp_runtime::traits::{
	BlockNumberProvider, Bounded, ConstBool as _cb, GetRuntimeBlockType, Member as _mb, StaticLookup, ValidateUnsigned,
};
use crate::sp_runtime::{DispatchError, DispatchResult};
use std::marker::PhantomData;

pub trait StorageInstance {
	fn pallet_prefix() -> &'static str;
	const STORAGE_PREFIX: &'static str;
}
pub trait PalletInfo {
	fn index<P: 'static>() -> Option<usize>;
	fn name<P: 'static>() -> Option<&'static str>;
	fn name_hash<P: 'static>() -> Option<[u8; 16]>;
	fn module_name<P: 'static>() -> Option<&'static str>;
}
pub trait PalletInfoAccess {
	fn index() -> usize;
	fn name() -> &'static str;
	fn name_hash() -> [u8; 16];
	fn module_name() -> &'static str;
}
pub struct GetDefault;
impl<T: Default> Get<T> for GetDefault {
	fn get() -> T {
		T::default()
	}
}
/// a TypedGet/StaticGet value
pub struct VariantCountOf<T>(PhantomData<T>);

#[derive(Encode, Decode, MaxEncodedLen, Clone, Copy, PartialEq, Eq, Debug, Default, PartialOrd, Ord)]
pub struct StorageVersion(u16);
impl StorageVersion {
	pub const fn new(v: u16) -> Self {
		Self(v)
	}
	fn key<P: PalletInfoAccess>() -> [u8; 32] {
		crate::frame_support::storage::storage_prefix(P::name().as_bytes(), b":__STORAGE_VERSION__:")
	}
	pub fn get<P: PalletInfoAccess>() -> Self {
		crate::frame_support::storage::unhashed::get_or_default(&Self::key::<P>())
	}
	pub fn put<P: PalletInfoAccess>(&self) {
		crate::frame_support::storage::unhashed::put(&Self::key::<P>(), self)
	}
	pub fn exists<P: PalletInfoAccess>() -> bool {
		crate::frame_support::storage::unhashed::exists(&Self::key::<P>())
	}
}
impl PartialEq<u16> for StorageVersion {
	fn eq(&self, o: &u16) -> bool {
		self.0 == *o
	}
}
impl PartialOrd<u16> for StorageVersion {
	fn partial_cmp(&self, o: &u16) -> Option<core::cmp::Ordering> {
		Some(self.0.cmp(o))
	}
}
pub trait GetStorageVersion {
	type CurrentStorageVersion;
	fn current_storage_version() -> Self::CurrentStorageVersion;
	fn on_chain_storage_version() -> StorageVersion;
}
pub trait BuildGenesisConfig: Default {
	fn build(&self);
}
pub trait GenesisBuild<T>: Default {
	fn build(&self) {}
}
pub trait PalletError: Encode + Decode {
	const MAX_ENCODED_SIZE: usize;
}
pub trait IsSubType<T> {
	fn is_sub_type(&self) -> Option<&T>;
}
pub trait IsType<T>: Into<T> + From<T> {
	fn from_ref(t: &T) -> &Self;
	fn into_ref(&self) -> &T;
	fn from_mut(t: &mut T) -> &mut Self;
	fn into_mut(&mut self) -> &mut T;
}
impl<T> IsType<T> for T {
	fn from_ref(t: &T) -> &Self {
		t
	}
	fn into_ref(&self) -> &T {
		self
	}
	fn from_mut(t: &mut T) -> &mut Self {
		t
	}
	fn into_mut(&mut self) -> &mut T {
		self
	}
}
pub trait UnfilteredDispatchable {
	type RuntimeOrigin;
	fn dispatch_bypass_filter(self, origin: Self::RuntimeOrigin) -> crate::frame_support::dispatch::DispatchResultWithPostInfo;
}
pub trait CallerTrait<AccountId>: Parameter + 'static + From<crate::frame_system::RawOrigin<AccountId>> {
	fn into_system(self) -> Option<crate::frame_system::RawOrigin<AccountId>>;
	fn as_system_ref(&self) -> Option<&crate::frame_system::RawOrigin<AccountId>>;
	fn as_signed(&self) -> Option<&AccountId> {
		self.as_system_ref().and_then(|x| match x {
			crate::frame_system::RawOrigin::Signed(a) => Some(a),
			_ => None,
		})
	}
	fn is_root(&self) -> bool {
		matches!(self.as_system_ref(), Some(crate::frame_system::RawOrigin::Root))
	}
	fn is_none(&self) -> bool {
		matches!(self.as_system_ref(), Some(crate::frame_system::RawOrigin::None))
	}
}
pub trait OriginTrait: Sized {
	type Call;
	type PalletsOrigin: Send + Sync + Into<Self> + CallerTrait<Self::AccountId> + MaxEncodedLen;
	type AccountId;
	fn add_filter(&mut self, filter: impl Fn(&Self::Call) -> bool + 'static);
	fn reset_filter(&mut self);
	fn set_caller_from(&mut self, other: impl Into<Self>);
	fn filter_call(&self, call: &Self::Call) -> bool;
	fn caller(&self) -> &Self::PalletsOrigin;
	fn into_caller(self) -> Self::PalletsOrigin;
	fn try_with_caller<R>(self, f: impl FnOnce(Self::PalletsOrigin) -> Result<R, Self::PalletsOrigin>) -> Result<R, Self>;
	fn none() -> Self;
	fn root() -> Self;
	fn signed(by: Self::AccountId) -> Self;
	fn as_signed(self) -> Option<Self::AccountId>;
	fn as_system_ref(&self) -> Option<&crate::frame_system::RawOrigin<Self::AccountId>>;
}
pub trait Contains<T> {
	fn contains(t: &T) -> bool;
}
pub enum Everything {}
impl<T> Contains<T> for Everything {
	fn contains(_: &T) -> bool {
		true
	}
}
pub enum Nothing {}
impl<T> Contains<T> for Nothing {
	fn contains(_: &T) -> bool {
		false
	}
}
pub struct IsInVec<T>(PhantomData<T>);
impl<X: PartialEq, T: Get<Vec<X>>> Contains<X> for IsInVec<T> {
	fn contains(t: &X) -> bool {
		T::get().contains(t)
	}
}
pub struct EverythingBut<E>(PhantomData<E>);
impl<T, E: Contains<T>> Contains<T> for EverythingBut<E> {
	fn contains(t: &T) -> bool {
		!E::contains(t)
	}
}
pub struct InsideBoth<A, B>(PhantomData<(A, B)>);
impl<T, A: Contains<T>, B: Contains<T>> Contains<T> for InsideBoth<A, B> {
	fn contains(t: &T) -> bool {
		A::contains(t) && B::contains(t)
	}
}
pub type TheseExcept<A, B> = InsideBoth<A, EverythingBut<B>>;
pub trait SortedMembers<T: Ord> {
	fn sorted_members() -> Vec<T>;
	fn contains(t: &T) -> bool {
		Self::sorted_members().binary_search(t).is_ok()
	}
}
impl<T: Ord> SortedMembers<T> for () {
	fn sorted_members() -> Vec<T> {
		vec![]
	}
}
pub trait EnsureOrigin<OuterOrigin> {
	type Success;
	fn ensure_origin(o: OuterOrigin) -> Result<Self::Success, crate::sp_runtime::traits::BadOrigin> {
		Self::try_origin(o).map_err(|_| crate::sp_runtime::traits::BadOrigin)
	}
	fn try_origin(o: OuterOrigin) -> Result<Self::Success, OuterOrigin>;
}
pub trait EnsureOriginWithArg<OuterOrigin, Argument> {
	type Success;
	fn ensure_origin(o: OuterOrigin, a: &Argument) -> Result<Self::Success, crate::sp_runtime::traits::BadOrigin> {
		Self::try_origin(o, a).map_err(|_| crate::sp_runtime::traits::BadOrigin)
	}
	fn try_origin(o: OuterOrigin, a: &Argument) -> Result<Self::Success, OuterOrigin>;
}
pub struct AsEnsureOriginWithArg<E>(PhantomData<E>);
impl<O, A, E: EnsureOrigin<O>> EnsureOriginWithArg<O, A> for AsEnsureOriginWithArg<E> {
	type Success = E::Success;
	fn try_origin(o: O, _: &A) -> Result<E::Success, O> {
		E::try_origin(o)
	}
}
pub struct NeverEnsureOrigin<S>(PhantomData<S>);
impl<O, S> EnsureOrigin<O> for NeverEnsureOrigin<S> {
	type Success = S;
	fn try_origin(o: O) -> Result<S, O> {
		Err(o)
	}
}
pub struct EitherOfDiverse<L, R>(PhantomData<(L, R)>);
pub enum Either<L, R> {
	Left(L),
	Right(R),
}
impl<O, L: EnsureOrigin<O>, R: EnsureOrigin<O>> EnsureOrigin<O> for EitherOfDiverse<L, R> {
	type Success = Either<L::Success, R::Success>;
	fn try_origin(o: O) -> Result<Self::Success, O> {
		L::try_origin(o).map(Either::Left).or_else(|o| R::try_origin(o).map(Either::Right))
	}
}
pub type EnsureOneOf<L, R> = EitherOfDiverse<L, R>;
pub trait InstanceFilter<T>: Sized + Send + Sync {
	fn filter(&self, x: &T) -> bool;
	fn is_superset(&self, _o: &Self) -> bool {
		false
	}
}
impl<T> InstanceFilter<T> for () {
	fn filter(&self, _: &T) -> bool {
		true
	}
	fn is_superset(&self, _: &Self) -> bool {
		true
	}
}
pub trait PrivilegeCmp<O> {
	fn cmp_privilege(l: &O, r: &O) -> Option<core::cmp::Ordering>;
}
pub struct EqualPrivilegeOnly;
impl<O: PartialEq> PrivilegeCmp<O> for EqualPrivilegeOnly {
	fn cmp_privilege(l: &O, r: &O) -> Option<core::cmp::Ordering> {
		(l == r).then_some(core::cmp::Ordering::Equal)
	}
}
pub trait Hooks<N> {
	fn on_initialize(_n: N) -> Weight {
		Weight::zero()
	}
	fn on_finalize(_n: N) {}
	fn on_idle(_n: N, _w: Weight) -> Weight {
		Weight::zero()
	}
	fn on_runtime_upgrade() -> Weight {
		Weight::zero()
	}
	fn offchain_worker(_n: N) {}
	fn integrity_test() {}
}
macro_rules! hook_trait {
	($t:ident) => {};
}
hook_trait!(x);
pub trait OnInitialize<N> {
	fn on_initialize(_n: N) -> Weight {
		Weight::zero()
	}
}
pub trait OnFinalize<N> {
	fn on_finalize(_n: N) {}
}
pub trait OnIdle<N> {
	fn on_idle(_n: N, _w: Weight) -> Weight {
		Weight::zero()
	}
}
pub trait OffchainWorker<N> {
	fn offchain_worker(_n: N) {}
}
pub trait OnRuntimeUpgrade {
	fn on_runtime_upgrade() -> Weight {
		Weight::zero()
	}
}
impl OnRuntimeUpgrade for () {}
/// Pallets get the individual hook traits from `Hooks`, tuples run them in order.
macro_rules! hook_tuple {
	($($i:ident),*) => {
		impl<N: Clone, $($i: OnInitialize<N>),*> OnInitialize<N> for ($($i,)*) {
			fn on_initialize(_n: N) -> Weight { #[allow(unused_mut)] let mut w = Weight::zero(); $( w = w.saturating_add($i::on_initialize(_n.clone())); )* w }
		}
		impl<N: Clone, $($i: OnFinalize<N>),*> OnFinalize<N> for ($($i,)*) {
			fn on_finalize(_n: N) { $( $i::on_finalize(_n.clone()); )* }
		}
		impl<N: Clone, $($i: OnIdle<N>),*> OnIdle<N> for ($($i,)*) {
			fn on_idle(_n: N, _w: Weight) -> Weight { #[allow(unused_mut)] let mut w = Weight::zero(); $( w = w.saturating_add($i::on_idle(_n.clone(), _w.saturating_sub(w))); )* w }
		}
		impl<N: Clone, $($i: OffchainWorker<N>),*> OffchainWorker<N> for ($($i,)*) {
			fn offchain_worker(_n: N) { $( $i::offchain_worker(_n.clone()); )* }
		}
	};
}
macro_rules! hook_tuples {
	($a:ident $($r:ident)*) => { hook_tuple!($a $(, $r)*); hook_tuples!($($r)*); };
	() => { hook_tuple!(); };
}
hook_tuples!(A B C D E F G H I J K L M O P Q R S T U V W X Y Z A1 B1 C1 D1 E1 F1 G1 H1 I1 J1 K1 L1 M1 O1 P1 Q1 R1 S1 T1);
macro_rules! opt_tuple { ($($i:ident),*) => { impl<$($i: OnRuntimeUpgrade),*> OnRuntimeUpgrade for ($($i,)*) { fn on_runtime_upgrade() -> Weight { let mut w = Weight::zero(); $( w = w.saturating_add($i::on_runtime_upgrade()); )* w } } } }
opt_tuple!(A);
opt_tuple!(A, B);
opt_tuple!(A, B, C);
pub trait StoredMap<K, T: Default> {
	fn get(k: &K) -> T;
	fn try_mutate_exists<R, E: From<DispatchError>>(k: &K, f: impl FnOnce(&mut Option<T>) -> Result<R, E>) -> Result<R, E>;
	fn mutate<R>(k: &K, f: impl FnOnce(&mut T) -> R) -> Result<R, DispatchError> {
		Self::mutate_exists(k, |m| match m {
			Some(m) => f(m),
			x => {
				let mut d = Default::default();
				let r = f(&mut d);
				*x = Some(d);
				r
			},
		})
	}
	fn mutate_exists<R>(k: &K, f: impl FnOnce(&mut Option<T>) -> R) -> Result<R, DispatchError> {
		Self::try_mutate_exists(k, |x| -> Result<R, DispatchError> { Ok(f(x)) })
	}
	fn insert(k: &K, t: T) -> DispatchResult {
		Self::mutate(k, |i| *i = t)
	}
	fn remove(k: &K) -> DispatchResult {
		Self::mutate_exists(k, |x| *x = None)
	}
}
pub trait HandleLifetime<T> {
	fn created(_t: &T) -> Result<(), DispatchError> {
		Ok(())
	}
	fn killed(_t: &T) -> Result<(), DispatchError> {
		Ok(())
	}
}
impl<T> HandleLifetime<T> for () {}
pub trait OnNewAccount<A> {
	fn on_new_account(_a: &A) {}
}
pub trait OnKilledAccount<A> {
	fn on_killed_account(_a: &A) {}
}
impl<A> OnNewAccount<A> for () {}
impl<A> OnKilledAccount<A> for () {}
macro_rules! acct { ($($i:ident),*) => {
	impl<Acc, $($i: OnNewAccount<Acc>),*> OnNewAccount<Acc> for ($($i,)*) { fn on_new_account(a: &Acc) { $($i::on_new_account(a);)* } }
	impl<Acc, $($i: OnKilledAccount<Acc>),*> OnKilledAccount<Acc> for ($($i,)*) { fn on_killed_account(a: &Acc) { $($i::on_killed_account(a);)* } }
} }
acct!(A);
acct!(A, B);
acct!(A, B, C);
pub trait FindAuthor<A> {
	fn find_author<'a, I: 'a + IntoIterator<Item = ([u8; 4], &'a [u8])>>(digests: I) -> Option<A>;
}
impl<A> FindAuthor<A> for () {
	fn find_author<'a, I: 'a + IntoIterator<Item = ([u8; 4], &'a [u8])>>(_: I) -> Option<A> {
		None
	}
}
pub trait UnixTime {
	fn now() -> core::time::Duration;
}
pub trait Time {
	type Moment;
	fn now() -> Self::Moment;
}
pub trait OnTimestampSet<M> {
	fn on_timestamp_set(_m: M) {}
}
impl<M> OnTimestampSet<M> for () {}
pub trait Randomness<O, B> {
	fn random(s: &[u8]) -> (O, B);
	fn random_seed() -> (O, B) {
		Self::random(&[][..])
	}
}
pub trait ValidatorSet<AccountId> {
	type ValidatorId: Parameter + MaxEncodedLen;
	type ValidatorIdOf: crate::sp_runtime::traits::Convert<AccountId, Option<Self::ValidatorId>>;
	fn session_index() -> u32;
	fn validators() -> Vec<Self::ValidatorId>;
}
pub trait ValidatorSetWithIdentification<A>: ValidatorSet<A> {}
pub trait OneSessionHandler<ValidatorId>: crate::sp_runtime::BoundToRuntimeAppPublic {
	type Key: Decode + crate::sp_runtime::RuntimeAppPublic;
	fn on_genesis_session<'a, I: 'a>(validators: I)
	where
		I: Iterator<Item = (&'a ValidatorId, Self::Key)>,
		ValidatorId: 'a;
	fn on_new_session<'a, I: 'a>(changed: bool, validators: I, queued: I)
	where
		I: Iterator<Item = (&'a ValidatorId, Self::Key)>,
		ValidatorId: 'a;
	fn on_before_session_ending() {}
	fn on_disabled(_i: u32);
}
pub trait EstimateNextSessionRotation<N> {
	fn average_session_length() -> N;
}
pub trait KeyOwnerProofSystem<K> {
	type Proof;
	type IdentificationTuple;
}
pub trait DefensiveStub {}
pub trait Defensive<T> {
	fn defensive_unwrap_or_default(self) -> T
	where
		T: Default;
	fn defensive(self) -> Self;
}
impl<T> Defensive<T> for Option<T> {
	fn defensive_unwrap_or_default(self) -> T
	where
		T: Default,
	{
		self.unwrap_or_default()
	}
	fn defensive(self) -> Self {
		self
	}
}
pub trait Len {
	fn len(&self) -> usize;
}
pub trait ExtractCallStub {}
pub trait GetBacking {
	type Backing;
	fn get_backing(&self) -> Option<Self::Backing>;
}
pub trait Consideration {}
pub trait CreateStub {}
pub trait StorageInfoTrait {}
pub struct StorageInfo;
pub trait EnqueueMessageStub {}
pub trait QueryPreimage {}
pub trait StorePreimage {}
impl QueryPreimage for () {}
impl StorePreimage for () {}
pub trait OriginFilterStub {}
pub mod preimages {
	/// Inline-only stand-in for FRAME's `Bounded` call.
	#[derive(crate::codec::Encode, crate::codec::Decode, Clone, PartialEq, Eq, Debug)]
	pub enum Bounded<T> {
		Inline(Vec<u8>, core::marker::PhantomData<T>),
	}
	impl<T: crate::codec::Encode + crate::codec::Decode> Bounded<T> {
		pub fn of(t: &T) -> Self {
			Bounded::Inline(t.encode(), core::marker::PhantomData)
		}
		pub fn get(&self) -> Option<T> {
			let Bounded::Inline(v, _) = self;
			T::decode(&mut &v[..]).ok()
		}
	}
}
pub mod schedule {
	use super::*;
	pub type Period<B> = (B, u32);
	pub type Priority = u8;
	#[derive(Encode, Decode, Clone, Copy, PartialEq, Eq, Debug)]
	pub enum DispatchTime<B> {
		At(B),
		After(B),
	}
	pub enum LookupError {
		Unknown,
		BadFormat,
	}
	pub enum MaybeHashed<T, H> {
		Value(T),
		Hash(H),
	}
	pub type ScheduledNamedStub = ();
	pub const HIGHEST_PRIORITY: Priority = 0;
	pub const HARD_DEADLINE: Priority = 63;
	pub const LOWEST_PRIORITY: Priority = 255;
	/// FRAME's un-versioned (v1-style) schedule traits: calls are passed by value.
	pub trait Anon<B, C, O> {
		type Address: Codec + Clone + Eq + EncodeLike + core::fmt::Debug;
		fn schedule(
			when: DispatchTime<B>,
			period: Option<Period<B>>,
			prio: Priority,
			origin: O,
			call: C,
		) -> Result<Self::Address, DispatchError>;
		fn cancel(a: Self::Address) -> Result<(), ()>;
	}
	pub trait Named<B, C, O> {
		type Address: Codec + Clone + Eq + EncodeLike + core::fmt::Debug;
		fn schedule_named(
			id: Vec<u8>,
			when: DispatchTime<B>,
			period: Option<Period<B>>,
			prio: Priority,
			origin: O,
			call: C,
		) -> Result<Self::Address, ()>;
		fn cancel_named(id: Vec<u8>) -> Result<(), ()>;
	}
	pub mod v3 {
		use super::*;
		pub type TaskName = [u8; 32];
		/// FRAME's v3 schedule traits: calls are passed as `Bounded`.
		pub trait Anon<B, C, O> {
			type Address: Codec + MaxEncodedLen + Clone + Eq + core::fmt::Debug;
			fn schedule(
				when: DispatchTime<B>,
				period: Option<Period<B>>,
				prio: Priority,
				origin: O,
				call: preimages::Bounded<C>,
			) -> Result<Self::Address, DispatchError>;
			fn cancel(a: Self::Address) -> Result<(), DispatchError>;
		}
		pub trait Named<B, C, O> {
			type Address: Codec + MaxEncodedLen + Clone + Eq + core::fmt::Debug;
			fn schedule_named(
				id: TaskName,
				when: DispatchTime<B>,
				period: Option<Period<B>>,
				prio: Priority,
				origin: O,
				call: preimages::Bounded<C>,
			) -> Result<Self::Address, DispatchError>;
			fn cancel_named(id: TaskName) -> Result<(), DispatchError>;
		}
	}
}
pub trait Parameter: Codec + EncodeLike + Clone + Eq + core::fmt::Debug {}
impl<T: Codec + EncodeLike + Clone + Eq + core::fmt::Debug> Parameter for T {}
pub trait MaybeSerializeStub {}
pub trait FullCodecStub: FullCodec {}
pub trait WrapperOpaqueStub {}
pub trait DefensiveSaturatingStub {}
pub trait SignedImbalanceStub {}
pub trait ProcessMessageStub {}
