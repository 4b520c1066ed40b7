//! frame_system
use crate::codec::{Decode, Encode, MaxEncodedLen};
use crate::frame_support::dispatch::{DispatchClass, DispatchInfo, PerDispatchClass, PostDispatchInfo};
use crate::frame_support::traits::*;
use crate::frame_support::weights::Weight;
use crate::sp_runtime::traits::{BadOrigin, Dispatchable, SignedExtension};
use crate::sp_runtime::transaction_validity::*;
use crate::sp_runtime::{generic, DispatchError, DispatchResult};
use std::marker::PhantomData;
pub use pallet_::*;
pub use pallet_ as pallet;

#[derive(PartialEq, Eq, Clone, Debug, Encode, Decode, MaxEncodedLen)]
pub enum RawOrigin<AccountId> {
	Root,
	Signed(AccountId),
	None,
}
impl<A> From<Option<A>> for RawOrigin<A> {
	fn from(s: Option<A>) -> Self {
		match s {
			Some(w) => RawOrigin::Signed(w),
			None => RawOrigin::None,
		}
	}
}
impl<A> RawOrigin<A> {
	pub fn as_signed(&self) -> Option<&A> {
		match self {
			RawOrigin::Signed(a) => Some(a),
			_ => None,
		}
	}
}
pub type RefCount = u32;
#[derive(Clone, Eq, PartialEq, Default, Debug, Encode, Decode, MaxEncodedLen)]
pub struct AccountInfo<Nonce, AccountData> {
	pub nonce: Nonce,
	pub consumers: RefCount,
	pub providers: RefCount,
	pub sufficients: RefCount,
	pub data: AccountData,
}
#[derive(Clone, Debug, Eq, PartialEq, Encode, Decode, Default)]
pub enum Phase {
	ApplyExtrinsic(u32),
	Finalization,
	#[default]
	Initialization,
}
#[derive(Clone, Debug, Eq, PartialEq, Encode, Decode)]
pub struct EventRecord<E, T> {
	pub phase: Phase,
	pub event: E,
	pub topics: Vec<T>,
}
#[derive(Eq, PartialEq, Debug)]
pub enum IncRefStatus {
	Created,
	Existed,
}
#[derive(Eq, PartialEq, Debug)]
pub enum DecRefStatus {
	Reaped,
	Exists,
}
pub trait WeightInfo {}
impl WeightInfo for () {}
pub mod weights {
	pub struct SubstrateWeight<T>(core::marker::PhantomData<T>);
	impl<T> super::WeightInfo for SubstrateWeight<T> {}
	pub use super::WeightInfo;
}
pub trait ConsumerLimits {
	fn max_consumers() -> RefCount;
}
impl<const M: u32> ConsumerLimits for crate::bounded::ConstU32<M> {
	fn max_consumers() -> RefCount {
		M
	}
}
pub trait SetCode<T> {
	fn set_code(code: Vec<u8>) -> DispatchResult;
}
impl<T> SetCode<T> for () {
	fn set_code(_: Vec<u8>) -> DispatchResult {
		Ok(())
	}
}
pub type ConsumedWeight = PerDispatchClass<Weight>;
#[crate::frame_support::pallet]
pub mod pallet_ {
	use super::*;
	use crate::frame_support::pallet_prelude::*;
	use crate::sp_runtime::traits::{AtLeast32Bit, Hash, Header, HeaderProvider, Lookup, MaybeDisplay};
	#[pallet::config]
	pub trait Config: 'static + Eq + Clone {
		type BaseCallFilter: Contains<Self::RuntimeCall>;
		type BlockWeights: Get<limits::BlockWeights>;
		type BlockLength: Get<limits::BlockLength>;
		type RuntimeOrigin: Into<Result<RawOrigin<Self::AccountId>, Self::RuntimeOrigin>>
			+ From<RawOrigin<Self::AccountId>>
			+ Clone
			+ OriginTrait<Call = Self::RuntimeCall, AccountId = Self::AccountId>;
		type RuntimeCall: Parameter + Dispatchable<RuntimeOrigin = Self::RuntimeOrigin> + core::fmt::Debug + From<Call<Self>>;
		type Nonce: Parameter
			+ Member
			+ core::fmt::Debug
			+ Default
			+ MaybeDisplay
			+ crate::sp_runtime::traits::AtLeast32Bit
			+ Copy
			+ MaxEncodedLen;
		type Hash: Parameter
			+ Member
			+ core::fmt::Debug
			+ Ord
			+ Default
			+ Copy
			+ core::hash::Hash
			+ AsRef<[u8]>
			+ AsMut<[u8]>
			+ MaxEncodedLen;
		type Hashing: Hash<Output = Self::Hash>;
		type AccountId: Parameter + Member + MaybeSerializeDeserialize + core::fmt::Debug + MaybeDisplay + Ord + MaxEncodedLen;
		type Lookup: crate::sp_runtime::traits::StaticLookup<Target = Self::AccountId>;
		type Block: Parameter + Member + crate::sp_runtime::traits::Block<Hash = Self::Hash>;
		type BlockHashCount: Get<BlockNumberFor<Self>>;
		type DbWeight: Get<crate::frame_support::weights::RuntimeDbWeight>;
		type Version: Get<crate::sp_version::RuntimeVersion>;
		type PalletInfo: PalletInfo;
		type AccountData: Member + crate::codec::FullCodec + Clone + Default + MaxEncodedLen;
		type OnNewAccount: OnNewAccount<Self::AccountId>;
		type OnKilledAccount: OnKilledAccount<Self::AccountId>;
		type SystemWeightInfo: WeightInfo;
		type SS58Prefix: Get<u16>;
		type OnSetCode: SetCode<Self>;
		type MaxConsumers: ConsumerLimits;
		type RuntimeEvent: Parameter + Member + From<Event<Self>> + core::fmt::Debug + IsType<<Self as crate::frame_system::Config>::RuntimeEvent>;
	}
	pub type BlockNumberFor<T> = super::pallet_prelude::BlockNumberFor<T>;
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::hooks]
	impl<T: Config> Hooks<BlockNumberFor<T>> for Pallet<T> {}
	#[pallet::origin]
	pub type Origin<T> = RawOrigin<<T as Config>::AccountId>;
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::from_parts(1_000_000 + remark.len() as u64, 0))]
		pub fn remark(_origin: super::pallet_prelude::OriginFor<T>, remark: Vec<u8>) -> DispatchResultWithPostInfo {
			let _ = remark;
			Ok(().into())
		}
		#[pallet::call_index(1)]
		#[pallet::weight((Weight::from_parts(1_000_000, 0), DispatchClass::Operational))]
		pub fn set_heap_pages(origin: super::pallet_prelude::OriginFor<T>, pages: u64) -> DispatchResultWithPostInfo {
			ensure_root(origin)?;
			crate::ext::set(b":heappages", &pages.encode());
			Ok(().into())
		}
		#[pallet::call_index(2)]
		#[pallet::weight((Weight::from_parts(1_000_000, 0), DispatchClass::Operational))]
		pub fn set_code(origin: super::pallet_prelude::OriginFor<T>, code: Vec<u8>) -> DispatchResultWithPostInfo {
			ensure_root(origin)?;
			T::OnSetCode::set_code(code)?;
			Ok(().into())
		}
		#[pallet::call_index(3)]
		#[pallet::weight((Weight::from_parts(1_000_000, 0), DispatchClass::Operational))]
		pub fn set_code_without_checks(origin: super::pallet_prelude::OriginFor<T>, code: Vec<u8>) -> DispatchResultWithPostInfo {
			ensure_root(origin)?;
			T::OnSetCode::set_code(code)?;
			Ok(().into())
		}
		#[pallet::call_index(4)]
		#[pallet::weight((Weight::from_parts(1_000_000, 0), DispatchClass::Operational))]
		pub fn set_storage(origin: super::pallet_prelude::OriginFor<T>, items: Vec<(Vec<u8>, Vec<u8>)>) -> DispatchResultWithPostInfo {
			ensure_root(origin)?;
			for (k, v) in items.iter() {
				crate::ext::set(k, v);
			}
			Ok(().into())
		}
		#[pallet::call_index(5)]
		#[pallet::weight((Weight::from_parts(1_000_000, 0), DispatchClass::Operational))]
		pub fn kill_storage(origin: super::pallet_prelude::OriginFor<T>, keys: Vec<Vec<u8>>) -> DispatchResultWithPostInfo {
			ensure_root(origin)?;
			for k in keys.iter() {
				crate::ext::clear(k);
			}
			Ok(().into())
		}
		#[pallet::call_index(7)]
		#[pallet::weight(Weight::from_parts(1_000_000 + remark.len() as u64, 0))]
		pub fn remark_with_event(origin: super::pallet_prelude::OriginFor<T>, remark: Vec<u8>) -> DispatchResultWithPostInfo {
			let who = ensure_signed(origin)?;
			let hash = T::Hashing::hash(&remark[..]);
			Self::deposit_event(<T as Config>::RuntimeEvent::from(Event::Remarked { sender: who, hash }));
			Ok(().into())
		}
	}
	#[pallet::event]
	pub enum Event<T: Config> {
		ExtrinsicSuccess { dispatch_info: DispatchInfo },
		ExtrinsicFailed { dispatch_error: DispatchError, dispatch_info: DispatchInfo },
		CodeUpdated,
		NewAccount { account: T::AccountId },
		KilledAccount { account: T::AccountId },
		Remarked { sender: T::AccountId, hash: T::Hash },
	}
	#[pallet::error]
	pub enum Error<T> {
		InvalidSpecName,
		SpecVersionNeedsToIncrease,
		FailedToExtractRuntimeVersion,
		NonDefaultComposite,
		NonZeroRefCount,
		CallFiltered,
	}
	#[pallet::storage]
	pub type Account<T: Config> = StorageMap<_, Blake2_128Concat, T::AccountId, AccountInfo<T::Nonce, T::AccountData>, ValueQuery>;
	#[pallet::storage]
	pub type ExtrinsicCount<T: Config> = StorageValue<_, u32>;
	#[pallet::storage]
	pub type BlockWeight<T: Config> = StorageValue<_, ConsumedWeight, ValueQuery>;
	#[pallet::storage]
	pub type AllExtrinsicsLen<T: Config> = StorageValue<_, u32>;
	#[pallet::storage]
	#[pallet::getter(fn block_hash)]
	pub type BlockHash<T: Config> = StorageMap<_, Twox64Concat, BlockNumberFor<T>, T::Hash, ValueQuery>;
	#[pallet::storage]
	#[pallet::getter(fn block_number)]
	pub type Number<T: Config> = StorageValue<_, BlockNumberFor<T>, ValueQuery>;
	#[pallet::storage]
	#[pallet::getter(fn parent_hash)]
	pub type ParentHash<T: Config> = StorageValue<_, T::Hash, ValueQuery>;
	#[pallet::storage]
	#[pallet::getter(fn digest)]
	pub type Digest<T: Config> = StorageValue<_, generic::Digest, ValueQuery>;
	#[pallet::genesis_config]
	pub struct GenesisConfig<T: Config> {
		pub code: Vec<u8>,
		pub _config: PhantomData<T>,
	}
	impl<T: Config> Default for GenesisConfig<T> {
		fn default() -> Self {
			Self { code: vec![], _config: PhantomData }
		}
	}
	#[pallet::genesis_build]
	impl<T: Config> BuildGenesisConfig for GenesisConfig<T> {
		fn build(&self) {
			BlockHash::<T>::insert(BlockNumberFor::<T>::from(0u32), T::Hash::default());
		}
	}
}
impl<T: Config> GenesisConfig<T> {
	pub fn build_storage(&self) -> Result<crate::sp_core::storage::Storage, String> {
		crate::sp_runtime::BuildStorage::build_storage(self)
	}
}
impl<T: Config> Pallet<T> {
	pub fn deposit_event(event: impl Into<T::RuntimeEvent>) {
		if Self::block_number() == 0u32.into() {
			return
		}
		let r: EventRecord<T::RuntimeEvent, T::Hash> = EventRecord { phase: Phase::Initialization, event: event.into(), topics: vec![] };
		crate::ext::push_event(std::rc::Rc::new(r));
	}
	pub fn deposit_event_indexed(_t: &[T::Hash], event: T::RuntimeEvent) {
		Self::deposit_event(event)
	}
	pub fn set_block_number(n: BlockNumberFor<T>) {
		Number::<T>::put(n)
	}
	pub fn events() -> Vec<EventRecord<T::RuntimeEvent, T::Hash>> {
		crate::ext::events().iter().filter_map(|e| e.downcast_ref::<EventRecord<T::RuntimeEvent, T::Hash>>().cloned()).collect()
	}
	pub fn read_events_no_consensus() -> impl Iterator<Item = Box<EventRecord<T::RuntimeEvent, T::Hash>>> {
		Self::events().into_iter().map(Box::new)
	}
	pub fn event_count() -> u32 {
		Self::events().len() as u32
	}
	pub fn reset_events() {
		crate::ext::clear_events()
	}
	pub fn assert_has_event(event: T::RuntimeEvent) {
		let ev = Self::events();
		assert!(ev.iter().any(|r| r.event == event), "expected event {event:?} not found in events {ev:?}");
	}
	pub fn assert_last_event(event: T::RuntimeEvent) {
		let last = Self::events().last().expect("events expected").event.clone();
		assert_eq!(last, event, "expected event {event:?} is not equal to the last event {last:?}");
	}
	pub fn account_nonce(who: impl crate::codec::EncodeLike<T::AccountId>) -> T::Nonce {
		Account::<T>::get(who).nonce
	}
	pub fn inc_account_nonce(who: impl crate::codec::EncodeLike<T::AccountId>) {
		Account::<T>::mutate(who, |a| a.nonce = a.nonce + 1u32.into())
	}
	pub fn account_exists(who: &T::AccountId) -> bool {
		Account::<T>::contains_key(who)
	}
	pub fn account(who: &T::AccountId) -> AccountInfo<T::Nonce, T::AccountData> {
		Account::<T>::get(who)
	}
	fn on_created_account(who: T::AccountId, _a: &mut AccountInfo<T::Nonce, T::AccountData>) {
		T::OnNewAccount::on_new_account(&who);
		Self::deposit_event(T::RuntimeEvent::from(Event::NewAccount { account: who }));
	}
	fn on_killed_account(who: T::AccountId) {
		T::OnKilledAccount::on_killed_account(&who);
		Self::deposit_event(T::RuntimeEvent::from(Event::KilledAccount { account: who }));
	}
	pub fn inc_providers(who: &T::AccountId) -> IncRefStatus {
		Account::<T>::mutate(who, |a| {
			if a.providers == 0 && a.sufficients == 0 {
				a.providers = 1;
				Self::on_created_account(who.clone(), a);
				IncRefStatus::Created
			} else {
				a.providers = a.providers.saturating_add(1);
				IncRefStatus::Existed
			}
		})
	}
	pub fn dec_providers(who: &T::AccountId) -> Result<DecRefStatus, DispatchError> {
		Account::<T>::try_mutate_exists(who, |m| {
			if let Some(mut account) = m.take() {
				if account.providers == 0 {
					account.providers = 1;
				}
				match (account.providers, account.consumers, account.sufficients) {
					(1, 0, 0) => {
						Self::on_killed_account(who.clone());
						Ok(DecRefStatus::Reaped)
					},
					(1, c, _) if c > 0 => Err(DispatchError::ConsumerRemaining),
					(x, _, _) => {
						account.providers = x - 1;
						*m = Some(account);
						Ok(DecRefStatus::Exists)
					},
				}
			} else {
				Ok(DecRefStatus::Reaped)
			}
		})
	}
	pub fn inc_sufficients(who: &T::AccountId) -> IncRefStatus {
		Account::<T>::mutate(who, |a| {
			if a.providers + a.sufficients == 0 {
				a.sufficients = 1;
				Self::on_created_account(who.clone(), a);
				IncRefStatus::Created
			} else {
				a.sufficients = a.sufficients.saturating_add(1);
				IncRefStatus::Existed
			}
		})
	}
	pub fn dec_sufficients(who: &T::AccountId) -> DecRefStatus {
		Account::<T>::mutate_exists(who, |m| {
			if let Some(mut account) = m.take() {
				if account.sufficients == 0 {
					account.sufficients = 1;
				}
				match (account.sufficients, account.providers) {
					(1, 0) => {
						Self::on_killed_account(who.clone());
						DecRefStatus::Reaped
					},
					(x, _) => {
						account.sufficients = x - 1;
						*m = Some(account);
						DecRefStatus::Exists
					},
				}
			} else {
				DecRefStatus::Reaped
			}
		})
	}
	pub fn providers(who: &T::AccountId) -> RefCount {
		Account::<T>::get(who).providers
	}
	pub fn sufficients(who: &T::AccountId) -> RefCount {
		Account::<T>::get(who).sufficients
	}
	pub fn consumers(who: &T::AccountId) -> RefCount {
		Account::<T>::get(who).consumers
	}
	pub fn reference_count(who: &T::AccountId) -> RefCount {
		let a = Account::<T>::get(who);
		a.consumers + a.providers + a.sufficients
	}
	pub fn inc_consumers(who: &T::AccountId) -> Result<(), DispatchError> {
		Account::<T>::try_mutate(who, |a| {
			if a.providers > 0 {
				if a.consumers < T::MaxConsumers::max_consumers() {
					a.consumers = a.consumers.saturating_add(1);
					Ok(())
				} else {
					Err(DispatchError::TooManyConsumers)
				}
			} else {
				Err(DispatchError::NoProviders)
			}
		})
	}
	pub fn inc_consumers_without_limit(who: &T::AccountId) -> Result<(), DispatchError> {
		Account::<T>::try_mutate(who, |a| {
			if a.providers > 0 {
				a.consumers = a.consumers.saturating_add(1);
				Ok(())
			} else {
				Err(DispatchError::NoProviders)
			}
		})
	}
	pub fn dec_consumers(who: &T::AccountId) {
		Account::<T>::mutate(who, |a| a.consumers = a.consumers.saturating_sub(1))
	}
	pub fn is_provider_required(who: &T::AccountId) -> bool {
		Account::<T>::get(who).consumers != 0
	}
	pub fn can_dec_provider(who: &T::AccountId) -> bool {
		let a = Account::<T>::get(who);
		a.consumers == 0 || a.providers > 1
	}
	pub fn can_accrue_consumers(who: &T::AccountId, amount: u32) -> bool {
		let a = Account::<T>::get(who);
		a.providers > 0 && a.consumers.saturating_add(amount) <= T::MaxConsumers::max_consumers()
	}
	pub fn can_inc_consumer(who: &T::AccountId) -> bool {
		Self::can_accrue_consumers(who, 1)
	}
	pub fn initialize(n: &BlockNumberFor<T>, parent: &T::Hash, digest: &generic::Digest) {
		Number::<T>::put(n);
		Digest::<T>::put(digest);
		ParentHash::<T>::put(parent);
		if *n != 0u32.into() {
			let prev = *n - 1u32.into();
			BlockHash::<T>::insert(prev, parent);
		}
		BlockWeight::<T>::kill();
	}
	pub fn finalize() {}
	pub fn set_parent_hash(n: T::Hash) {
		ParentHash::<T>::put(n)
	}
	pub fn set_extrinsic_index(_i: u32) {}
	pub fn extrinsic_index() -> Option<u32> {
		None
	}
	pub fn note_applied_extrinsic(_r: &crate::frame_support::dispatch::DispatchResultWithPostInfo, _i: DispatchInfo) {}
	pub fn block_weight() -> ConsumedWeight {
		BlockWeight::<T>::get()
	}
	pub fn set_block_consumed_resources(weight: Weight, len: usize) {
		BlockWeight::<T>::mutate(|w| w.set(weight, DispatchClass::Normal));
		AllExtrinsicsLen::<T>::put(len as u32);
	}
	pub fn register_extra_weight_unchecked(w: Weight, c: DispatchClass) {
		BlockWeight::<T>::mutate(|b| b.get_mut(c).saturating_accrue(w))
	}
	pub fn deposit_log(i: generic::DigestItem) {
		Digest::<T>::mutate(|d| d.push(i))
	}
	pub fn block_hash_of(n: BlockNumberFor<T>) -> T::Hash {
		BlockHash::<T>::get(n)
	}
}
impl<T: Config> StoredMap<T::AccountId, T::AccountData> for Pallet<T> {
	fn get(k: &T::AccountId) -> T::AccountData {
		Account::<T>::get(k).data
	}
	fn try_mutate_exists<R, E: From<DispatchError>>(k: &T::AccountId, f: impl FnOnce(&mut Option<T::AccountData>) -> Result<R, E>) -> Result<R, E> {
		let account = Account::<T>::get(k);
		let is_default = account.data == T::AccountData::default();
		let mut some_data = if is_default { None } else { Some(account.data) };
		let result = f(&mut some_data)?;
		if Self::providers(k) > 0 || Self::sufficients(k) > 0 {
			Account::<T>::mutate(k, |a| a.data = some_data.unwrap_or_default());
		} else {
			Account::<T>::remove(k)
		}
		Ok(result)
	}
}
impl<T: Config> HandleLifetime<T::AccountId> for Pallet<T> {}
pub struct Provider<T>(PhantomData<T>);
impl<T: Config> HandleLifetime<T::AccountId> for Provider<T> {
	fn created(t: &T::AccountId) -> Result<(), DispatchError> {
		Pallet::<T>::inc_providers(t);
		Ok(())
	}
	fn killed(t: &T::AccountId) -> Result<(), DispatchError> {
		Pallet::<T>::dec_providers(t).map(|_| ())
	}
}
impl<T: Config> crate::sp_runtime::traits::BlockNumberProvider for Pallet<T> {
	type BlockNumber = BlockNumberFor<T>;
	fn current_block_number() -> BlockNumberFor<T> {
		Self::block_number()
	}
}
pub mod pallet_prelude {
	use crate::sp_runtime::traits::{Header, HeaderProvider};
	pub use super::{ensure_none, ensure_root, ensure_signed, ensure_signed_or_root};
	pub type OriginFor<T> = <T as super::Config>::RuntimeOrigin;
	pub type HeaderFor<T> = <<T as super::Config>::Block as HeaderProvider>::HeaderT;
	pub type BlockNumberFor<T> = <HeaderFor<T> as Header>::Number;
}
pub fn ensure_signed<O: Into<Result<RawOrigin<A>, O>>, A>(o: O) -> Result<A, BadOrigin> {
	match o.into() {
		Ok(RawOrigin::Signed(t)) => Ok(t),
		_ => Err(BadOrigin),
	}
}
pub fn ensure_signed_or_root<O: Into<Result<RawOrigin<A>, O>>, A>(o: O) -> Result<Option<A>, BadOrigin> {
	match o.into() {
		Ok(RawOrigin::Root) => Ok(None),
		Ok(RawOrigin::Signed(t)) => Ok(Some(t)),
		_ => Err(BadOrigin),
	}
}
pub fn ensure_root<O: Into<Result<RawOrigin<A>, O>>, A>(o: O) -> Result<(), BadOrigin> {
	match o.into() {
		Ok(RawOrigin::Root) => Ok(()),
		_ => Err(BadOrigin),
	}
}
pub fn ensure_none<O: Into<Result<RawOrigin<A>, O>>, A>(o: O) -> Result<(), BadOrigin> {
	match o.into() {
		Ok(RawOrigin::None) => Ok(()),
		_ => Err(BadOrigin),
	}
}
pub struct EnsureRoot<A>(PhantomData<A>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A> EnsureOrigin<O> for EnsureRoot<A> {
	type Success = ();
	fn try_origin(o: O) -> Result<(), O> {
		o.into().and_then(|o| match o {
			RawOrigin::Root => Ok(()),
			r => Err(O::from(r)),
		})
	}
}
pub struct EnsureRootWithSuccess<A, S>(PhantomData<(A, S)>);
pub struct EnsureSigned<A>(PhantomData<A>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A> EnsureOrigin<O> for EnsureSigned<A> {
	type Success = A;
	fn try_origin(o: O) -> Result<A, O> {
		o.into().and_then(|o| match o {
			RawOrigin::Signed(w) => Ok(w),
			r => Err(O::from(r)),
		})
	}
}
pub struct EnsureSignedBy<W, A>(PhantomData<(W, A)>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, W: SortedMembers<A>, A: PartialEq + Clone + Ord> EnsureOrigin<O> for EnsureSignedBy<W, A> {
	type Success = A;
	fn try_origin(o: O) -> Result<A, O> {
		o.into().and_then(|o| match o {
			RawOrigin::Signed(ref w) if W::contains(w) => Ok(w.clone()),
			r => Err(O::from(r)),
		})
	}
}
pub struct EnsureNone<A>(PhantomData<A>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A> EnsureOrigin<O> for EnsureNone<A> {
	type Success = ();
	fn try_origin(o: O) -> Result<(), O> {
		o.into().and_then(|o| match o {
			RawOrigin::None => Ok(()),
			r => Err(O::from(r)),
		})
	}
}
pub struct EnsureNever<S>(PhantomData<S>);
impl<O, S> EnsureOrigin<O> for EnsureNever<S> {
	type Success = S;
	fn try_origin(o: O) -> Result<S, O> {
		Err(o)
	}
}
impl<O, A, S> EnsureOriginWithArg<O, A> for EnsureNever<S> {
	type Success = S;
	fn try_origin(o: O, _: &A) -> Result<S, O> {
		Err(o)
	}
}
pub struct ChainContext<T>(PhantomData<T>);
impl<T> Default for ChainContext<T> {
	fn default() -> Self {
		ChainContext(PhantomData)
	}
}
impl<T: Config> crate::sp_runtime::traits::Lookup for ChainContext<T> {
	type Source = <T::Lookup as crate::sp_runtime::traits::StaticLookup>::Source;
	type Target = <T::Lookup as crate::sp_runtime::traits::StaticLookup>::Target;
	fn lookup(&self, s: Self::Source) -> Result<Self::Target, crate::sp_runtime::traits::LookupError> {
		<T::Lookup as crate::sp_runtime::traits::StaticLookup>::lookup(s)
	}
}
pub mod mocking {
	pub type MockUncheckedExtrinsic<T, S = (), E = ()> =
		crate::sp_runtime::generic::UncheckedExtrinsic<<T as super::Config>::AccountId, <T as super::Config>::RuntimeCall, S, E>;
	pub type MockBlock<T> = crate::sp_runtime::generic::Block<
		crate::sp_runtime::generic::Header<u64, crate::sp_runtime::traits::BlakeTwo256>,
		MockUncheckedExtrinsic<T>,
	>;
	pub type MockBlockU32<T> = crate::sp_runtime::generic::Block<
		crate::sp_runtime::generic::Header<u32, crate::sp_runtime::traits::BlakeTwo256>,
		MockUncheckedExtrinsic<T>,
	>;
}
pub mod limits {
	use super::*;
	use crate::sp_runtime::{Perbill};
	#[derive(Clone, Debug, Default)]
	pub struct BlockLength {
		pub max: PerDispatchClass<u32>,
	}
	impl BlockLength {
		pub fn max(m: u32) -> Self {
			Self { max: PerDispatchClass::new(|_| m) }
		}
		pub fn max_with_normal_ratio(m: u32, r: Perbill) -> Self {
			Self { max: PerDispatchClass::new(|c| if c == DispatchClass::Normal { r * m } else { m }) }
		}
	}
	#[derive(Clone, Copy, Debug, Default)]
	pub struct WeightsPerClass {
		pub base_extrinsic: Weight,
		pub max_extrinsic: Option<Weight>,
		pub max_total: Option<Weight>,
		pub reserved: Option<Weight>,
	}
	#[derive(Clone, Debug)]
	pub struct BlockWeights {
		pub base_block: Weight,
		pub max_block: Weight,
		pub per_class: PerDispatchClass<WeightsPerClass>,
	}
	impl Default for BlockWeights {
		fn default() -> Self {
			Self::with_sensible_defaults(Weight::from_parts(1_000_000_000_000, u64::MAX), Perbill::from_percent(75))
		}
	}
	impl BlockWeights {
		pub fn get(&self, c: DispatchClass) -> &WeightsPerClass {
			self.per_class.get(c)
		}
		pub fn simple_max(m: Weight) -> Self {
			Self { base_block: Weight::zero(), max_block: m, per_class: PerDispatchClass::new(|_| WeightsPerClass { max_total: Some(m), ..Default::default() }) }
		}
		pub fn with_sensible_defaults(m: Weight, _r: Perbill) -> Self {
			Self::builder().avg_block_initialization(Perbill::from_percent(10)).for_class(DispatchClass::all(), |w| w.max_total = Some(m)).build_or_panic()
		}
		pub fn builder() -> Builder {
			Builder {
				w: BlockWeights {
					base_block: Weight::from_parts(5_000_000_000, 0),
					max_block: Weight::zero(),
					per_class: PerDispatchClass::new(|_| WeightsPerClass {
						base_extrinsic: crate::frame_support::weights::constants::ExtrinsicBaseWeight::get(),
						..Default::default()
					}),
				},
				init: None,
			}
		}
	}
	pub struct Builder {
		w: BlockWeights,
		init: Option<Perbill>,
	}
	impl Builder {
		pub fn base_block(mut self, b: Weight) -> Self {
			self.w.base_block = b;
			self
		}
		pub fn avg_block_initialization(mut self, p: Perbill) -> Self {
			self.init = Some(p);
			self
		}
		pub fn for_class(mut self, c: impl crate::frame_support::dispatch::OneOrMany<DispatchClass>, f: impl Fn(&mut WeightsPerClass)) -> Self {
			for c in c.into_iter() {
				f(self.w.per_class.get_mut(c));
			}
			self
		}
		pub fn build_or_panic(mut self) -> BlockWeights {
			for c in DispatchClass::all() {
				if let Some(m) = self.w.per_class.get(*c).max_total {
					self.w.max_block = self.w.max_block.max(m);
				}
			}
			if let Some(p) = self.init {
				for c in DispatchClass::non_mandatory() {
					let pc = self.w.per_class.get_mut(*c);
					if pc.max_extrinsic.is_none() {
						pc.max_extrinsic = pc.max_total.map(|m| m.saturating_sub(p * m).saturating_sub(pc.base_extrinsic));
					}
				}
			}
			self.w
		}
		pub fn build(self) -> Result<BlockWeights, String> {
			Ok(self.build_or_panic())
		}
	}
}
pub mod offchain {
	use super::*;
	pub trait SigningTypes: Config {
		type Public: Clone + PartialEq + core::fmt::Debug + crate::codec::Codec;
		type Signature: Clone + PartialEq + core::fmt::Debug + crate::codec::Codec;
	}
	pub trait AppCrypto<P, S> {
		fn sign(_payload: &[u8], _public: P) -> Option<S> {
			None
		}
	}
	pub trait SendTransactionTypes<LocalCall> {
		type Extrinsic: crate::sp_runtime::traits::Extrinsic<Call = Self::OverarchingCall> + Encode;
		type OverarchingCall: From<LocalCall> + Encode;
	}
	pub trait CreateSignedTransaction<LocalCall>: SendTransactionTypes<LocalCall> + SigningTypes {
		fn create_transaction<C: AppCrypto<Self::Public, Self::Signature>>(
			call: Self::OverarchingCall,
			public: Self::Public,
			account: Self::AccountId,
			nonce: Self::Nonce,
		) -> Option<(Self::OverarchingCall, <Self::Extrinsic as crate::sp_runtime::traits::Extrinsic>::SignaturePayload)>;
	}
	pub struct SubmitTransaction<T, L>(PhantomData<(T, L)>);
	impl<T: SendTransactionTypes<L>, L> SubmitTransaction<T, L> {
		pub fn submit_transaction(
			call: <T as SendTransactionTypes<L>>::OverarchingCall,
			sig: Option<<T::Extrinsic as crate::sp_runtime::traits::Extrinsic>::SignaturePayload>,
		) -> Result<(), ()> {
			let xt = <T::Extrinsic as crate::sp_runtime::traits::Extrinsic>::new(call, sig).ok_or(())?;
			crate::sp_io::offchain::submit_transaction(xt.encode())
		}
		pub fn submit_unsigned_transaction(call: <T as SendTransactionTypes<L>>::OverarchingCall) -> Result<(), ()> {
			Self::submit_transaction(call, None)
		}
	}
}
macro_rules! simple_ext {
	($n:ident) => {
		#[derive(Encode, Decode, Clone, Eq, PartialEq)]
		pub struct $n<T: Config + Send + Sync>(PhantomData<T>);
		impl<T: Config + Send + Sync> core::fmt::Debug for $n<T> {
			fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
				write!(f, stringify!($n))
			}
		}
		impl<T: Config + Send + Sync> $n<T> {
			pub fn new() -> Self {
				Self(PhantomData)
			}
		}
	};
}
type TVE = TransactionValidityError;
macro_rules! noop_ext {
	($n:ident, $as:ty, |$s:ident| $e:expr) => {
		simple_ext!($n);
		impl<T: Config + Send + Sync> SignedExtension for $n<T> {
			const IDENTIFIER: &'static str = stringify!($n);
			type AccountId = T::AccountId;
			type Call = T::RuntimeCall;
			type AdditionalSigned = $as;
			type Pre = ();
			fn additional_signed(&self) -> Result<$as, TVE> {
				let $s = self;
				Ok($e)
			}
			fn pre_dispatch(
				self,
				w: &T::AccountId,
				c: &T::RuntimeCall,
				i: &<T::RuntimeCall as Dispatchable>::Info,
				l: usize,
			) -> Result<(), TVE> {
				self.validate(w, c, i, l).map(|_| ())
			}
		}
	};
}
noop_ext!(CheckSpecVersion, u32, |_s| <T as Config>::Version::get().spec_version);
noop_ext!(CheckTxVersion, u32, |_s| <T as Config>::Version::get().transaction_version);
noop_ext!(CheckGenesis, T::Hash, |_s| Pallet::<T>::block_hash(pallet_prelude::BlockNumberFor::<T>::from(0u32)));
simple_ext!(CheckNonZeroSender);
impl<T: Config + Send + Sync> SignedExtension for CheckNonZeroSender<T> {
	const IDENTIFIER: &'static str = "CheckNonZeroSender";
	type AccountId = T::AccountId;
	type Call = T::RuntimeCall;
	type AdditionalSigned = ();
	type Pre = ();
	fn additional_signed(&self) -> Result<(), TVE> {
		Ok(())
	}
	fn validate(&self, who: &T::AccountId, _: &T::RuntimeCall, _: &<T::RuntimeCall as Dispatchable>::Info, _: usize) -> TransactionValidity {
		if who.using_encoded(|d| d.iter().all(|x| *x == 0)) {
			return Err(TVE::Invalid(InvalidTransaction::BadSigner))
		}
		Ok(ValidTransaction::default())
	}
	fn pre_dispatch(self, w: &T::AccountId, c: &T::RuntimeCall, i: &<T::RuntimeCall as Dispatchable>::Info, l: usize) -> Result<(), TVE> {
		self.validate(w, c, i, l).map(|_| ())
	}
}
#[derive(Encode, Decode, Clone, Eq, PartialEq)]
pub struct CheckNonce<T: Config>(pub T::Nonce);
impl<T: Config> core::fmt::Debug for CheckNonce<T>
{
	fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
		write!(f, "CheckNonce({:?})", self.0)
	}
}
impl<T: Config> CheckNonce<T>
{
	pub fn from(n: T::Nonce) -> Self {
		Self(n)
	}
}
impl<T: Config + Send + Sync> SignedExtension for CheckNonce<T>
where
	T::RuntimeCall: Dispatchable<Info = DispatchInfo>,
{
	const IDENTIFIER: &'static str = "CheckNonce";
	type AccountId = T::AccountId;
	type Call = T::RuntimeCall;
	type AdditionalSigned = ();
	type Pre = ();
	fn additional_signed(&self) -> Result<(), TVE> {
		Ok(())
	}
	fn pre_dispatch(self, who: &T::AccountId, _: &T::RuntimeCall, _: &DispatchInfo, _: usize) -> Result<(), TVE> {
		let mut a = Account::<T>::get(who);
		if self.0 != a.nonce {
			return Err(if self.0 < a.nonce { InvalidTransaction::Stale } else { InvalidTransaction::Future }.into())
		}
		a.nonce = a.nonce + 1u32.into();
		Account::<T>::insert(who, a);
		Ok(())
	}
	fn validate(&self, who: &T::AccountId, _: &T::RuntimeCall, _: &DispatchInfo, _: usize) -> TransactionValidity {
		let a = Account::<T>::get(who);
		if self.0 < a.nonce {
			return InvalidTransaction::Stale.into()
		}
		let provides = vec![Encode::encode(&(who, self.0))];
		let requires = if a.nonce < self.0 { vec![Encode::encode(&(who, self.0 - 1u32.into()))] } else { vec![] };
		Ok(ValidTransaction { priority: 0, requires, provides, longevity: u64::MAX, propagate: true })
	}
}
#[derive(Encode, Decode, Clone, Eq, PartialEq)]
pub struct CheckEra<T: Config + Send + Sync>(generic::Era, PhantomData<T>);
impl<T: Config + Send + Sync> CheckEra<T> {
	pub fn from(e: generic::Era) -> Self {
		Self(e, PhantomData)
	}
}
impl<T: Config + Send + Sync> core::fmt::Debug for CheckEra<T> {
	fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
		write!(f, "CheckEra({:?})", self.0)
	}
}
impl<T: Config + Send + Sync> SignedExtension for CheckEra<T> {
	const IDENTIFIER: &'static str = "CheckMortality";
	type AccountId = T::AccountId;
	type Call = T::RuntimeCall;
	type AdditionalSigned = T::Hash;
	type Pre = ();
	fn additional_signed(&self) -> Result<T::Hash, TVE> {
		use crate::sp_runtime::SaturatedConversion;
		let cur: u64 = Pallet::<T>::block_number().saturated_into();
		let n: pallet_prelude::BlockNumberFor<T> = self.0.birth(cur).saturated_into();
		if !BlockHash::<T>::contains_key(n) {
			Err(InvalidTransaction::AncientBirthBlock.into())
		} else {
			Ok(Pallet::<T>::block_hash(n))
		}
	}
	fn pre_dispatch(self, w: &T::AccountId, c: &T::RuntimeCall, i: &<T::RuntimeCall as Dispatchable>::Info, l: usize) -> Result<(), TVE> {
		self.validate(w, c, i, l).map(|_| ())
	}
}
simple_ext!(CheckWeight);
impl<T: Config + Send + Sync> SignedExtension for CheckWeight<T>
where
	T::RuntimeCall: Dispatchable<Info = DispatchInfo, PostInfo = PostDispatchInfo>,
{
	const IDENTIFIER: &'static str = "CheckWeight";
	type AccountId = T::AccountId;
	type Call = T::RuntimeCall;
	type AdditionalSigned = ();
	type Pre = ();
	fn additional_signed(&self) -> Result<(), TVE> {
		Ok(())
	}
	fn validate(&self, _: &T::AccountId, _: &T::RuntimeCall, i: &DispatchInfo, _: usize) -> TransactionValidity {
		if let Some(m) = T::BlockWeights::get().get(i.class).max_extrinsic {
			if i.weight.any_gt(m) {
				return Err(InvalidTransaction::ExhaustsResources.into())
			}
		}
		Ok(ValidTransaction::default())
	}
	fn pre_dispatch(self, w: &T::AccountId, c: &T::RuntimeCall, i: &DispatchInfo, l: usize) -> Result<(), TVE> {
		if i.class == DispatchClass::Mandatory {
			return Err(InvalidTransaction::MandatoryValidation.into())
		}
		self.validate(w, c, i, l)?;
		let maximum = T::BlockWeights::get();
		let lim = maximum.get(i.class);
		let ext_w = i.weight.saturating_add(lim.base_extrinsic);
		let mut all = Pallet::<T>::block_weight();
		let used = all.get(i.class).saturating_add(ext_w);
		if let Some(m) = lim.max_total {
			if used.any_gt(m) {
				return Err(InvalidTransaction::ExhaustsResources.into())
			}
		}
		*all.get_mut(i.class) = used;
		BlockWeight::<T>::put(all);
		Ok(())
	}
}
