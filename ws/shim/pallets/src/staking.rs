//! The slice of pallet-staking the repository's pallets depend on (types and traits only).
pub use pallet::*;
pub type RewardPoint = u32;
pub type BalanceOf<T> = <T as Config>::CurrencyBalance;
pub trait WeightInfo {}
impl WeightInfo for () {}
pub trait EraPayout<Balance> {
	fn era_payout(total_staked: Balance, total_issuance: Balance, era_duration_millis: u64) -> (Balance, Balance);
}
impl<B: Default> EraPayout<B> for () {
	fn era_payout(_: B, _: B, _: u64) -> (B, B) {
		(Default::default(), Default::default())
	}
}
pub struct ConvertCurve<T>(core::marker::PhantomData<T>);
pub struct UseNominatorsAndValidatorsMap<T>(core::marker::PhantomData<T>);
pub struct UseValidatorsMap<T>(core::marker::PhantomData<T>);
pub struct TestBenchmarkingConfig;
#[derive(shim::codec::Encode, shim::codec::Decode, Clone, Copy, PartialEq, Eq, Debug, Default)]
pub enum Forcing {
	#[default]
	NotForcing,
	ForceNew,
	ForceNone,
	ForceAlways,
}
#[derive(shim::codec::Encode, shim::codec::Decode, Clone, Copy, PartialEq, Eq, Debug)]
pub struct ActiveEraInfo {
	pub index: u32,
	pub start: Option<u64>,
}
#[derive(shim::codec::Encode, shim::codec::Decode, Clone, PartialEq, Eq, Debug)]
pub enum RewardDestination<A> {
	Staked,
	Stash,
	Controller,
	Account(A),
	None,
}
#[shim::frame_support::pallet]
pub mod pallet {
	use crate::prelude::*;
	use shim::sp_runtime::FixedPointOperand;
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type MaxNominations;
		type Currency: Currency<Self::AccountId, Balance = Self::CurrencyBalance>;
		type CurrencyBalance: AtLeast32BitUnsigned
			+ FullCodec
			+ Copy
			+ MaybeSerializeDeserialize
			+ core::fmt::Debug
			+ Default
			+ From<u64>
			+ FixedPointOperand
			+ TypeInfo
			+ MaxEncodedLen;
		type UnixTime;
		type CurrencyToVote;
		type RewardRemainder;
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type Slash;
		type Reward;
		type SessionsPerEra;
		type SlashDeferDuration;
		type BondingDuration: Get<u32>;
		type SessionInterface;
		type EraPayout;
		type NextNewSession;
		type MaxNominatorRewardedPerValidator;
		type OffendingValidatorsThreshold;
		type ElectionProvider;
		type GenesisElectionProvider;
		type VoterList;
		type MaxUnlockingChunks;
		type HistoryDepth: Get<u32>;
		type TargetList;
		type BenchmarkingConfig;
		type WeightInfo: super::WeightInfo;
		type AdminOrigin: EnsureOrigin<Self::RuntimeOrigin>;
		type EventListeners;
	}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config> {
		EraPaid { era_index: u32, validator_payout: BalanceOf2<T>, remainder: BalanceOf2<T> },
	}
	#[pallet::storage]
	pub type ActiveEra<T: Config> = StorageValue<_, super::ActiveEraInfo, OptionQuery>;
	#[pallet::storage]
	pub type ErasStartSessionIndex<T: Config> = StorageMap<_, Twox64Concat, u32, u32, OptionQuery>;
	#[pallet::storage]
	pub type ForceEra<T: Config> = StorageValue<_, super::Forcing, ValueQuery>;
	/// the calls the runtime's call filter looks at (dispatching them only succeeds)
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::zero())]
		pub fn bond(origin: OriginFor<T>, value: BalanceOf2<T>, payee: super::RewardDestination<T::AccountId>) -> DispatchResult {
			ensure_signed(origin)?;
			Ok(())
		}
		#[pallet::call_index(18)]
		#[pallet::weight(Weight::zero())]
		pub fn payout_stakers(origin: OriginFor<T>, validator_stash: T::AccountId, era: u32) -> DispatchResult {
			ensure_signed(origin)?;
			Ok(())
		}
	}
	impl<T: Config> Pallet<T> {
		pub fn active_era() -> Option<super::ActiveEraInfo> {
			ActiveEra::<T>::get()
		}
		pub fn eras_start_session_index(era: u32) -> Option<u32> {
			ErasStartSessionIndex::<T>::get(era)
		}
		pub fn force_era() -> super::Forcing {
			ForceEra::<T>::get()
		}
	}
	pub type BalanceOf2<T> = <T as Config>::CurrencyBalance;
}
