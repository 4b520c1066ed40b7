//! pallet_assets (polkadot-v1.0.0), the parts the repository reaches.
use crate::prelude::*;
pub use pallet::*;
use shim::frame_support::traits::tokens::{
	currency::*, fungibles, DepositConsequence, Fortitude, Precision, Preservation, Provenance, WithdrawConsequence,
};
pub trait WeightInfo {
	fn create() -> Weight {
		Weight::from_parts(1_000, 0)
	}
	fn mint() -> Weight {
		Weight::from_parts(1_000, 0)
	}
	fn burn() -> Weight {
		Weight::from_parts(1_000, 0)
	}
	fn transfer() -> Weight {
		Weight::from_parts(1_000, 0)
	}
}
impl WeightInfo for () {}
pub mod weights {
	pub struct SubstrateWeight<T>(core::marker::PhantomData<T>);
	impl<T> super::WeightInfo for SubstrateWeight<T> {}
	pub use super::WeightInfo;
}
pub trait FrozenBalance<AssetId, AccountId, Balance> {
	fn frozen_balance(asset: AssetId, who: &AccountId) -> Option<Balance>;
	fn died(asset: AssetId, who: &AccountId);
}
impl<A, B, C> FrozenBalance<A, B, C> for () {
	fn frozen_balance(_: A, _: &B) -> Option<C> {
		None
	}
	fn died(_: A, _: &B) {}
}
pub trait AssetsCallback<AssetId, AccountId> {
	fn created(_id: &AssetId, _owner: &AccountId) -> Result<(), ()> {
		Ok(())
	}
	fn destroyed(_id: &AssetId) -> Result<(), ()> {
		Ok(())
	}
}
impl<A, B> AssetsCallback<A, B> for () {}
#[derive(Clone, Encode, Decode, Eq, PartialEq, Debug, MaxEncodedLen)]
pub enum AssetStatus {
	Live,
	Frozen,
	Destroying,
}
#[derive(Clone, Encode, Decode, Eq, PartialEq, Debug, MaxEncodedLen)]
pub struct AssetDetails<Balance, AccountId, DepositBalance> {
	pub owner: AccountId,
	pub issuer: AccountId,
	pub admin: AccountId,
	pub freezer: AccountId,
	pub supply: Balance,
	pub deposit: DepositBalance,
	pub min_balance: Balance,
	pub is_sufficient: bool,
	pub accounts: u32,
	pub sufficients: u32,
	pub approvals: u32,
	pub status: AssetStatus,
}
#[derive(Clone, Encode, Decode, Eq, PartialEq, Debug, Default, MaxEncodedLen)]
pub struct Approval<Balance, DepositBalance> {
	pub amount: Balance,
	pub deposit: DepositBalance,
}
#[derive(Clone, Encode, Decode, Eq, PartialEq, Debug, MaxEncodedLen)]
pub enum ExistenceReason<Balance> {
	Consumer,
	Sufficient,
	DepositHeld(Balance),
	DepositRefunded,
}
#[derive(Clone, Encode, Decode, Eq, PartialEq, Debug, MaxEncodedLen)]
pub enum AccountStatus {
	Liquid,
	Frozen,
	Blocked,
}
#[derive(Clone, Encode, Decode, Eq, PartialEq, Debug, MaxEncodedLen)]
pub struct AssetAccount<Balance, DepositBalance> {
	pub balance: Balance,
	pub status: AccountStatus,
	pub reason: ExistenceReason<DepositBalance>,
}
#[derive(Clone, Encode, Decode, Eq, PartialEq, Default, Debug)]
pub struct AssetMetadata<DepositBalance, S> {
	pub deposit: DepositBalance,
	pub name: S,
	pub symbol: S,
	pub decimals: u8,
	pub is_frozen: bool,
}
pub type DepositBalanceOf<T, I = ()> = <<T as Config<I>>::Currency as Currency<<T as frame_system::Config>::AccountId>>::Balance;
#[macro_export]
macro_rules! runtime_benchmarks_enabled {
	($($t:tt)*) => {};
}
pub use runtime_benchmarks_enabled;
#[shim::frame_support::pallet]
pub mod pallet {
	use super::*;
	#[pallet::config]
	pub trait Config<I: 'static = ()>: frame_system::Config {
		type RuntimeEvent: FromEv<Self> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type Balance: Parameter + HasCompact + Member + AtLeast32BitUnsigned + Default + Copy + MaybeSerializeDeserialize + MaxEncodedLen + Send + Sync;
		type RemoveItemsLimit: Get<u32>;
		type AssetId: Parameter + Member + Copy + MaybeSerializeDeserialize + MaxEncodedLen;
		type AssetIdParameter: Copy + Parameter + From<<Self as Config<I>>::AssetId> + Into<<Self as Config<I>>::AssetId> + MaxEncodedLen;
		type Currency: ReservableCurrency<Self::AccountId>;
		type CreateOrigin: EnsureOriginWithArg<Self::RuntimeOrigin, <Self as Config<I>>::AssetId, Success = Self::AccountId>;
		type ForceOrigin: EnsureOrigin<Self::RuntimeOrigin>;
		type AssetDeposit: Get<DepositBalanceOf<Self, I>>;
		type AssetAccountDeposit: Get<DepositBalanceOf<Self, I>>;
		type MetadataDepositBase: Get<DepositBalanceOf<Self, I>>;
		type MetadataDepositPerByte: Get<DepositBalanceOf<Self, I>>;
		type ApprovalDeposit: Get<DepositBalanceOf<Self, I>>;
		type StringLimit: Get<u32>;
		type Freezer: FrozenBalance<<Self as Config<I>>::AssetId, Self::AccountId, <Self as Config<I>>::Balance>;
		type Extra;
		type CallbackHandle: AssetsCallback<<Self as Config<I>>::AssetId, Self::AccountId>;
		type WeightInfo: WeightInfo;
	}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::storage]
	pub type Asset<T: Config> =
		StorageMap<_, Blake2_128Concat, <T as Config>::AssetId, AssetDetails<<T as Config>::Balance, T::AccountId, DepositBalanceOf<T>>>;
	#[pallet::storage]
	pub type Account<T: Config> = StorageDoubleMap<
		_,
		Blake2_128Concat,
		<T as Config>::AssetId,
		Blake2_128Concat,
		T::AccountId,
		AssetAccount<<T as Config>::Balance, DepositBalanceOf<T>>,
	>;
	#[pallet::storage]
	pub type Approvals<T: Config> = StorageNMap<
		_,
		(
			NMapKey<Blake2_128Concat, <T as Config>::AssetId>,
			NMapKey<Blake2_128Concat, T::AccountId>,
			NMapKey<Blake2_128Concat, T::AccountId>,
		),
		Approval<<T as Config>::Balance, DepositBalanceOf<T>>,
	>;
	#[pallet::storage]
	pub type Metadata<T: Config> =
		StorageMap<_, Blake2_128Concat, <T as Config>::AssetId, AssetMetadata<DepositBalanceOf<T>, BoundedVec<u8, T::StringLimit>>, ValueQuery>;
	#[pallet::genesis_config]
	pub struct GenesisConfig<T: Config> {
		pub assets: Vec<(<T as Config>::AssetId, T::AccountId, bool, <T as Config>::Balance)>,
		pub metadata: Vec<(<T as Config>::AssetId, Vec<u8>, Vec<u8>, u8)>,
		pub accounts: Vec<(<T as Config>::AssetId, T::AccountId, <T as Config>::Balance)>,
	}
	impl<T: Config> Default for GenesisConfig<T> {
		fn default() -> Self {
			Self { assets: vec![], metadata: vec![], accounts: vec![] }
		}
	}
	#[pallet::genesis_build]
	impl<T: Config> BuildGenesisConfig for GenesisConfig<T> {
		fn build(&self) {
			for (id, owner, is_sufficient, min_balance) in &self.assets {
				assert!(!Asset::<T>::contains_key(id), "Asset id already in use");
				assert!(!min_balance.is_zero(), "Min balance should not be zero");
				Asset::<T>::insert(
					id,
					AssetDetails {
						owner: owner.clone(),
						issuer: owner.clone(),
						admin: owner.clone(),
						freezer: owner.clone(),
						supply: Zero::zero(),
						deposit: Zero::zero(),
						min_balance: *min_balance,
						is_sufficient: *is_sufficient,
						accounts: 0,
						sufficients: 0,
						approvals: 0,
						status: AssetStatus::Live,
					},
				);
			}
			for (id, name, symbol, decimals) in &self.metadata {
				Metadata::<T>::insert(
					id,
					AssetMetadata {
						deposit: Zero::zero(),
						name: name.clone().try_into().expect("asset name is too long"),
						symbol: symbol.clone().try_into().expect("asset symbol is too long"),
						decimals: *decimals,
						is_frozen: false,
					},
				);
			}
			for (id, account, amount) in &self.accounts {
				Pallet::<T>::increase_balance_checked(*id, account, *amount, |details| {
					details.supply = details.supply.saturating_add(*amount);
					Ok(())
				})
				.expect("genesis mint");
			}
		}
	}
	#[pallet::event]
	pub enum Event<T: Config> {
		Created { asset_id: <T as Config>::AssetId, creator: T::AccountId, owner: T::AccountId },
		Issued { asset_id: <T as Config>::AssetId, owner: T::AccountId, amount: <T as Config>::Balance },
		Transferred { asset_id: <T as Config>::AssetId, from: T::AccountId, to: T::AccountId, amount: <T as Config>::Balance },
		Burned { asset_id: <T as Config>::AssetId, owner: T::AccountId, balance: <T as Config>::Balance },
		TeamChanged { asset_id: <T as Config>::AssetId, issuer: T::AccountId, admin: T::AccountId, freezer: T::AccountId },
		OwnerChanged { asset_id: <T as Config>::AssetId, owner: T::AccountId },
		ForceCreated { asset_id: <T as Config>::AssetId, owner: T::AccountId },
		MetadataSet { asset_id: <T as Config>::AssetId, name: Vec<u8>, symbol: Vec<u8>, decimals: u8, is_frozen: bool },
		ApprovedTransfer { asset_id: <T as Config>::AssetId, source: T::AccountId, delegate: T::AccountId, amount: <T as Config>::Balance },
		TransferredApproved {
			asset_id: <T as Config>::AssetId,
			owner: T::AccountId,
			delegate: T::AccountId,
			destination: T::AccountId,
			amount: <T as Config>::Balance,
		},
	}
	#[pallet::error]
	pub enum Error<T> {
		BalanceLow,
		NoAccount,
		NoPermission,
		Unknown,
		Frozen,
		InUse,
		BadWitness,
		MinBalanceZero,
		UnavailableConsumer,
		BadMetadata,
		Unapproved,
		WouldDie,
		AlreadyExists,
		NoDeposit,
		WouldBurn,
		LiveAsset,
		AssetNotLive,
		IncorrectStatus,
		NotFrozen,
		CallbackFailed,
	}
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(T::WeightInfo::create())]
		pub fn create(
			origin: OriginFor<T>,
			id: T::AssetIdParameter,
			admin: LookupSrc<T>,
			min_balance: <T as Config>::Balance,
		) -> DispatchResult {
			let id: <T as Config>::AssetId = id.into();
			let owner = T::CreateOrigin::ensure_origin(origin, &id)?;
			let admin = T::Lookup::lookup(admin)?;
			ensure!(!Asset::<T>::contains_key(id), Error::<T>::InUse);
			ensure!(!min_balance.is_zero(), Error::<T>::MinBalanceZero);
			let deposit = T::AssetDeposit::get();
			T::Currency::reserve(&owner, deposit)?;
			Asset::<T>::insert(
				id,
				AssetDetails {
					owner: owner.clone(),
					issuer: admin.clone(),
					admin: admin.clone(),
					freezer: admin.clone(),
					supply: Zero::zero(),
					deposit,
					min_balance,
					is_sufficient: false,
					accounts: 0,
					sufficients: 0,
					approvals: 0,
					status: AssetStatus::Live,
				},
			);
			Self::deposit_event(Event::Created { asset_id: id, creator: owner, owner: admin });
			Ok(())
		}
		#[pallet::call_index(1)]
		#[pallet::weight(T::WeightInfo::create())]
		pub fn force_create(
			origin: OriginFor<T>,
			id: T::AssetIdParameter,
			owner: LookupSrc<T>,
			is_sufficient: bool,
			#[pallet::compact] min_balance: <T as Config>::Balance,
		) -> DispatchResult {
			T::ForceOrigin::ensure_origin(origin)?;
			let owner = T::Lookup::lookup(owner)?;
			Self::do_force_create(id.into(), owner, is_sufficient, min_balance)
		}
		#[pallet::call_index(6)]
		#[pallet::weight(T::WeightInfo::mint())]
		pub fn mint(
			origin: OriginFor<T>,
			id: T::AssetIdParameter,
			beneficiary: LookupSrc<T>,
			#[pallet::compact] amount: <T as Config>::Balance,
		) -> DispatchResult {
			let origin = ensure_signed(origin)?;
			let beneficiary = T::Lookup::lookup(beneficiary)?;
			Self::do_mint(id.into(), &beneficiary, amount, Some(origin))
		}
		#[pallet::call_index(7)]
		#[pallet::weight(T::WeightInfo::burn())]
		pub fn burn(
			origin: OriginFor<T>,
			id: T::AssetIdParameter,
			who: LookupSrc<T>,
			#[pallet::compact] amount: <T as Config>::Balance,
		) -> DispatchResult {
			let origin = ensure_signed(origin)?;
			let who = T::Lookup::lookup(who)?;
			Self::do_burn(id.into(), &who, amount, Some(origin), false, true)?;
			Ok(())
		}
		#[pallet::call_index(8)]
		#[pallet::weight(T::WeightInfo::transfer())]
		pub fn transfer(
			origin: OriginFor<T>,
			id: T::AssetIdParameter,
			target: LookupSrc<T>,
			#[pallet::compact] amount: <T as Config>::Balance,
		) -> DispatchResult {
			let origin = ensure_signed(origin)?;
			let dest = T::Lookup::lookup(target)?;
			Self::do_transfer(id.into(), &origin, &dest, amount, false)?;
			Ok(())
		}
		#[pallet::call_index(9)]
		#[pallet::weight(T::WeightInfo::transfer())]
		pub fn transfer_keep_alive(
			origin: OriginFor<T>,
			id: T::AssetIdParameter,
			target: LookupSrc<T>,
			#[pallet::compact] amount: <T as Config>::Balance,
		) -> DispatchResult {
			let origin = ensure_signed(origin)?;
			let dest = T::Lookup::lookup(target)?;
			Self::do_transfer(id.into(), &origin, &dest, amount, true)?;
			Ok(())
		}
		#[pallet::call_index(15)]
		#[pallet::weight(T::WeightInfo::transfer())]
		pub fn transfer_ownership(origin: OriginFor<T>, id: T::AssetIdParameter, owner: LookupSrc<T>) -> DispatchResult {
			let origin = ensure_signed(origin)?;
			let owner = T::Lookup::lookup(owner)?;
			let id: <T as Config>::AssetId = id.into();
			Asset::<T>::try_mutate(id, |m| -> DispatchResult {
				let d = m.as_mut().ok_or(Error::<T>::Unknown)?;
				ensure!(d.status == AssetStatus::Live, Error::<T>::AssetNotLive);
				ensure!(origin == d.owner, Error::<T>::NoPermission);
				d.owner = owner.clone();
				Self::deposit_event(Event::OwnerChanged { asset_id: id, owner });
				Ok(())
			})
		}
		#[pallet::call_index(19)]
		#[pallet::weight(T::WeightInfo::transfer())]
		pub fn force_set_metadata(
			origin: OriginFor<T>,
			id: T::AssetIdParameter,
			name: Vec<u8>,
			symbol: Vec<u8>,
			decimals: u8,
			is_frozen: bool,
		) -> DispatchResult {
			T::ForceOrigin::ensure_origin(origin)?;
			let id: <T as Config>::AssetId = id.into();
			let bn: BoundedVec<u8, T::StringLimit> = name.clone().try_into().map_err(|_| Error::<T>::BadMetadata)?;
			let bs: BoundedVec<u8, T::StringLimit> = symbol.clone().try_into().map_err(|_| Error::<T>::BadMetadata)?;
			ensure!(Asset::<T>::contains_key(id), Error::<T>::Unknown);
			Metadata::<T>::try_mutate_exists(id, |m| -> DispatchResult {
				let deposit = m.take().map_or(Zero::zero(), |m| m.deposit);
				*m = Some(AssetMetadata { deposit, name: bn, symbol: bs, decimals, is_frozen });
				Self::deposit_event(Event::MetadataSet { asset_id: id, name, symbol, decimals, is_frozen });
				Ok(())
			})
		}
		#[pallet::call_index(22)]
		#[pallet::weight(T::WeightInfo::transfer())]
		pub fn approve_transfer(
			origin: OriginFor<T>,
			id: T::AssetIdParameter,
			delegate: LookupSrc<T>,
			#[pallet::compact] amount: <T as Config>::Balance,
		) -> DispatchResult {
			let owner = ensure_signed(origin)?;
			let delegate = T::Lookup::lookup(delegate)?;
			let id: <T as Config>::AssetId = id.into();
			let mut d = Asset::<T>::get(id).ok_or(Error::<T>::Unknown)?;
			ensure!(d.status == AssetStatus::Live, Error::<T>::AssetNotLive);
			Approvals::<T>::try_mutate((id, &owner, &delegate), |m| -> DispatchResult {
				let mut approved = match m.take() {
					Some(a) => a,
					None => {
						d.approvals += 1;
						Approval { amount: Zero::zero(), deposit: Zero::zero() }
					},
				};
				let req = T::ApprovalDeposit::get();
				if approved.deposit < req {
					T::Currency::reserve(&owner, req - approved.deposit)?;
					approved.deposit = req;
				}
				approved.amount = approved.amount.saturating_add(amount);
				*m = Some(approved);
				Ok(())
			})?;
			Asset::<T>::insert(id, d);
			Self::deposit_event(Event::ApprovedTransfer { asset_id: id, source: owner, delegate, amount });
			Ok(())
		}
	}
}
impl<T: Config> Pallet<T> {
	fn deposit_event(e: Event<T>) {
		let e: <T as Config>::RuntimeEvent = FromEv::<T>::mk(e);
		frame_system::Pallet::<T>::deposit_event(IsType::<<T as frame_system::Config>::RuntimeEvent>::into_ref(&e).clone())
	}
}
pub trait FromEv<T> {
	fn mk(e: Event<T>) -> Self
	where
		T: Config;
}
impl<T: Config, E: From<Event<T>>> FromEv<T> for E {
	fn mk(e: Event<T>) -> Self {
		e.into()
	}
}
type Bal<T> = <T as Config>::Balance;
type Id<T> = <T as Config>::AssetId;
impl<T: Config> Pallet<T> {
	pub fn balance(id: Id<T>, who: impl std::borrow::Borrow<T::AccountId>) -> Bal<T> {
		Self::maybe_balance(id, who).unwrap_or_default()
	}
	pub fn maybe_balance(id: Id<T>, who: impl std::borrow::Borrow<T::AccountId>) -> Option<Bal<T>> {
		Account::<T>::get(id, who.borrow()).map(|a| a.balance)
	}
	pub fn total_supply(id: Id<T>) -> Bal<T> {
		Asset::<T>::get(id).map(|x| x.supply).unwrap_or_default()
	}
	fn new_account(who: &T::AccountId, d: &mut AssetDetails<Bal<T>, T::AccountId, DepositBalanceOf<T>>) -> Result<ExistenceReason<DepositBalanceOf<T>>, DispatchError> {
		let accounts = d.accounts.checked_add(1).ok_or(ArithmeticError::Overflow)?;
		let reason = if d.is_sufficient {
			frame_system::Pallet::<T>::inc_sufficients(who);
			d.sufficients += 1;
			ExistenceReason::Sufficient
		} else {
			frame_system::Pallet::<T>::inc_consumers(who).map_err(|_| Error::<T>::UnavailableConsumer)?;
			ensure!(frame_system::Pallet::<T>::can_inc_consumer(who), Error::<T>::UnavailableConsumer);
			ExistenceReason::Consumer
		};
		d.accounts = accounts;
		Ok(reason)
	}
	fn dead_account(who: &T::AccountId, d: &mut AssetDetails<Bal<T>, T::AccountId, DepositBalanceOf<T>>, reason: &ExistenceReason<DepositBalanceOf<T>>) {
		match reason {
			ExistenceReason::Consumer => frame_system::Pallet::<T>::dec_consumers(who),
			ExistenceReason::Sufficient => {
				d.sufficients = d.sufficients.saturating_sub(1);
				frame_system::Pallet::<T>::dec_sufficients(who);
			},
			_ => {},
		}
		d.accounts = d.accounts.saturating_sub(1);
	}
	fn can_increase(id: Id<T>, who: &T::AccountId, amount: Bal<T>, increase_supply: bool) -> DepositConsequence {
		let d = match Asset::<T>::get(id) {
			Some(d) => d,
			None => return DepositConsequence::UnknownAsset,
		};
		if increase_supply && d.supply.checked_add(&amount).is_none() {
			return DepositConsequence::Overflow
		}
		if let Some(a) = Account::<T>::get(id, who) {
			if a.status == AccountStatus::Blocked {
				return DepositConsequence::Blocked
			}
			if a.balance.checked_add(&amount).is_none() {
				return DepositConsequence::Overflow
			}
		} else {
			if amount < d.min_balance {
				return DepositConsequence::BelowMinimum
			}
			if !d.is_sufficient && !frame_system::Pallet::<T>::can_accrue_consumers(who, 2) {
				return DepositConsequence::CannotCreate
			}
		}
		DepositConsequence::Success
	}
	fn can_decrease(id: Id<T>, who: &T::AccountId, amount: Bal<T>, keep_alive: bool) -> WithdrawConsequence<Bal<T>> {
		use WithdrawConsequence::*;
		let d = match Asset::<T>::get(id) {
			Some(d) => d,
			None => return UnknownAsset,
		};
		if d.supply.checked_sub(&amount).is_none() {
			return Underflow
		}
		if d.status == AssetStatus::Frozen {
			return Frozen
		}
		if amount.is_zero() {
			return Success
		}
		let a = match Account::<T>::get(id, who) {
			Some(a) => a,
			None => return BalanceLow,
		};
		if a.status != AccountStatus::Liquid {
			return Frozen
		}
		if let Some(rest) = a.balance.checked_sub(&amount) {
			if rest < d.min_balance {
				if keep_alive {
					WouldDie
				} else {
					ReducedToZero(rest)
				}
			} else {
				Success
			}
		} else {
			BalanceLow
		}
	}
	pub(crate) fn reducible_balance_(id: Id<T>, who: &T::AccountId, keep_alive: bool) -> Result<Bal<T>, DispatchError> {
		let d = Asset::<T>::get(id).ok_or(Error::<T>::Unknown)?;
		ensure!(d.status == AssetStatus::Live, Error::<T>::AssetNotLive);
		let a = Account::<T>::get(id, who).ok_or(Error::<T>::NoAccount)?;
		ensure!(a.status == AccountStatus::Liquid, Error::<T>::Frozen);
		Ok(if keep_alive { a.balance.saturating_sub(d.min_balance) } else { a.balance })
	}
	fn prep_debit(id: Id<T>, who: &T::AccountId, amount: Bal<T>, keep_alive: bool, best_effort: bool) -> Result<Bal<T>, DispatchError> {
		let actual = Self::reducible_balance_(id, who, keep_alive)?.min(amount);
		ensure!(best_effort || actual >= amount, Error::<T>::BalanceLow);
		let conseq = Self::can_decrease(id, who, actual, keep_alive);
		let actual = match conseq.into_result(keep_alive) {
			Ok(dust) => actual.saturating_add(dust),
			Err(e) => return Err(e),
		};
		Ok(actual)
	}
	pub(crate) fn increase_balance_checked(
		id: Id<T>,
		who: &T::AccountId,
		amount: Bal<T>,
		check: impl FnOnce(&mut AssetDetails<Bal<T>, T::AccountId, DepositBalanceOf<T>>) -> DispatchResult,
	) -> DispatchResult {
		if amount.is_zero() {
			return Ok(())
		}
		Self::can_increase(id, who, amount, true).into_result()?;
		Asset::<T>::try_mutate(id, |m| -> DispatchResult {
			let d = m.as_mut().ok_or(Error::<T>::Unknown)?;
			ensure!(d.status == AssetStatus::Live, Error::<T>::AssetNotLive);
			check(d)?;
			Account::<T>::try_mutate(id, who, |ma| -> DispatchResult {
				match ma {
					Some(ref mut a) => a.balance.saturating_accrue_(amount),
					None => {
						ensure!(amount >= d.min_balance, TokenError::BelowMinimum);
						*ma = Some(AssetAccount { balance: amount, reason: Self::new_account(who, d)?, status: AccountStatus::Liquid });
					},
				}
				Ok(())
			})
		})
	}
	fn decrease_balance_checked(
		id: Id<T>,
		who: &T::AccountId,
		amount: Bal<T>,
		keep_alive: bool,
		best_effort: bool,
		check: impl FnOnce(Bal<T>, &mut AssetDetails<Bal<T>, T::AccountId, DepositBalanceOf<T>>) -> DispatchResult,
	) -> Result<Bal<T>, DispatchError> {
		if amount.is_zero() {
			return Ok(amount)
		}
		let d = Asset::<T>::get(id).ok_or(Error::<T>::Unknown)?;
		ensure!(d.status == AssetStatus::Live, Error::<T>::AssetNotLive);
		let actual = Self::prep_debit(id, who, amount, keep_alive, best_effort)?;
		Asset::<T>::try_mutate(id, |m| -> DispatchResult {
			let d = m.as_mut().ok_or(Error::<T>::Unknown)?;
			check(actual, d)?;
			Account::<T>::try_mutate_exists(id, who, |ma| -> DispatchResult {
				let mut a = ma.take().ok_or(Error::<T>::NoAccount)?;
				a.balance = a.balance.saturating_sub(actual);
				if a.balance < d.min_balance {
					Self::dead_account(who, d, &a.reason);
					return Ok(())
				}
				*ma = Some(a);
				Ok(())
			})
		})?;
		Ok(actual)
	}
	pub(crate) fn do_mint(id: Id<T>, who: &T::AccountId, amount: Bal<T>, maybe_issuer: Option<T::AccountId>) -> DispatchResult {
		Self::increase_balance_checked(id, who, amount, |d| {
			if let Some(i) = maybe_issuer {
				ensure!(i == d.issuer, Error::<T>::NoPermission);
			}
			d.supply = d.supply.saturating_add(amount);
			Ok(())
		})?;
		Self::deposit_event(Event::Issued { asset_id: id, owner: who.clone(), amount });
		Ok(())
	}
	pub(crate) fn do_burn(id: Id<T>, who: &T::AccountId, amount: Bal<T>, maybe_admin: Option<T::AccountId>, keep_alive: bool, best_effort: bool) -> Result<Bal<T>, DispatchError> {
		let d = Asset::<T>::get(id).ok_or(Error::<T>::Unknown)?;
		ensure!(d.status == AssetStatus::Live || d.status == AssetStatus::Frozen, Error::<T>::IncorrectStatus);
		let actual = Self::decrease_balance_checked(id, who, amount, keep_alive, best_effort, |actual, d| {
			if let Some(a) = maybe_admin {
				ensure!(a == d.admin, Error::<T>::NoPermission);
			}
			d.supply = d.supply.saturating_sub(actual);
			Ok(())
		})?;
		Self::deposit_event(Event::Burned { asset_id: id, owner: who.clone(), balance: actual });
		Ok(actual)
	}
	pub(crate) fn do_transfer(id: Id<T>, source: &T::AccountId, dest: &T::AccountId, amount: Bal<T>, keep_alive: bool) -> Result<Bal<T>, DispatchError> {
		if amount.is_zero() {
			Self::deposit_event(Event::Transferred { asset_id: id, from: source.clone(), to: dest.clone(), amount });
			return Ok(amount)
		}
		let d = Asset::<T>::get(id).ok_or(Error::<T>::Unknown)?;
		ensure!(d.status == AssetStatus::Live, Error::<T>::AssetNotLive);
		let debit = Self::prep_debit(id, source, amount, keep_alive, false)?;
		let (credit, maybe_burn) = (amount.min(debit), Some(debit.saturating_sub(amount)).filter(|x| !x.is_zero()));
		Self::can_increase(id, dest, credit, false).into_result()?;
		let mut sa = Account::<T>::get(id, source).ok_or(Error::<T>::NoAccount)?;
		Asset::<T>::try_mutate(id, |m| -> DispatchResult {
			let d = m.as_mut().ok_or(Error::<T>::Unknown)?;
			if source == dest {
				return Ok(())
			}
			if let Some(b) = maybe_burn {
				d.supply = d.supply.saturating_sub(b);
			}
			sa.balance = sa.balance.saturating_sub(debit);
			Account::<T>::try_mutate(id, dest, |ma| -> DispatchResult {
				match ma {
					Some(ref mut a) => a.balance.saturating_accrue_(credit),
					None => *ma = Some(AssetAccount { balance: credit, status: AccountStatus::Liquid, reason: Self::new_account(dest, d)? }),
				}
				Ok(())
			})?;
			if sa.balance < d.min_balance {
				Self::dead_account(source, d, &sa.reason);
				Account::<T>::remove(id, source);
				return Ok(())
			}
			Account::<T>::insert(id, source, &sa);
			Ok(())
		})?;
		Self::deposit_event(Event::Transferred { asset_id: id, from: source.clone(), to: dest.clone(), amount: credit });
		Ok(credit)
	}
	pub(crate) fn do_force_create(id: Id<T>, owner: T::AccountId, is_sufficient: bool, min_balance: Bal<T>) -> DispatchResult {
		ensure!(!Asset::<T>::contains_key(id), Error::<T>::InUse);
		ensure!(!min_balance.is_zero(), Error::<T>::MinBalanceZero);
		Asset::<T>::insert(
			id,
			AssetDetails {
				owner: owner.clone(),
				issuer: owner.clone(),
				admin: owner.clone(),
				freezer: owner.clone(),
				supply: Zero::zero(),
				deposit: Zero::zero(),
				min_balance,
				is_sufficient,
				accounts: 0,
				sufficients: 0,
				approvals: 0,
				status: AssetStatus::Live,
			},
		);
		Self::deposit_event(Event::ForceCreated { asset_id: id, owner });
		Ok(())
	}
}
trait Accrue_ {
	fn saturating_accrue_(&mut self, o: Self);
}
impl<B: Saturating + Copy> Accrue_ for B {
	fn saturating_accrue_(&mut self, o: B) {
		*self = self.saturating_add(o)
	}
}
impl<T: Config> fungibles::Inspect<T::AccountId> for Pallet<T> {
	type AssetId = Id<T>;
	type Balance = Bal<T>;
	fn total_issuance(a: Id<T>) -> Bal<T> {
		Asset::<T>::get(a).map(|x| x.supply).unwrap_or_else(Zero::zero)
	}
	fn minimum_balance(a: Id<T>) -> Bal<T> {
		Asset::<T>::get(a).map(|x| x.min_balance).unwrap_or_else(Zero::zero)
	}
	fn total_balance(a: Id<T>, who: &T::AccountId) -> Bal<T> {
		Self::balance(a, who)
	}
	fn balance(a: Id<T>, who: &T::AccountId) -> Bal<T> {
		Pallet::<T>::balance(a, who)
	}
	fn reducible_balance(a: Id<T>, who: &T::AccountId, p: Preservation, _f: Fortitude) -> Bal<T> {
		Self::reducible_balance_(a, who, p != Preservation::Expendable).unwrap_or(Zero::zero())
	}
	fn can_deposit(a: Id<T>, who: &T::AccountId, amount: Bal<T>, p: Provenance) -> DepositConsequence {
		Self::can_increase(a, who, amount, p == Provenance::Minted)
	}
	fn can_withdraw(a: Id<T>, who: &T::AccountId, amount: Bal<T>) -> WithdrawConsequence<Bal<T>> {
		Self::can_decrease(a, who, amount, false)
	}
	fn asset_exists(a: Id<T>) -> bool {
		Asset::<T>::contains_key(a)
	}
}
impl<T: Config> fungibles::Unbalanced<T::AccountId> for Pallet<T> {
	fn handle_raw_dust(_: Id<T>, _: Bal<T>) {}
	fn handle_dust(_: fungibles::Dust<T::AccountId, Self>) {
		debug_assert!(false, "`decrease_balance` and `increase_balance` have non-default impls; nothing else calls this; qed");
	}
	fn write_balance(_: Id<T>, _: &T::AccountId, _: Bal<T>) -> Result<Option<Bal<T>>, DispatchError> {
		debug_assert!(false, "write_balance is not used if other functions are impl'd");
		Err(DispatchError::Unavailable)
	}
	fn set_total_issuance(id: Id<T>, amount: Bal<T>) {
		Asset::<T>::mutate_exists(id, |m| {
			if let Some(ref mut a) = m {
				a.supply = amount
			}
		});
	}
	fn decrease_balance(asset: Id<T>, who: &T::AccountId, amount: Bal<T>, pr: Precision, p: Preservation, _f: Fortitude) -> Result<Bal<T>, DispatchError> {
		Self::decrease_balance_checked(asset, who, amount, p != Preservation::Expendable, pr == Precision::BestEffort, |_, _| Ok(()))
	}
	fn increase_balance(asset: Id<T>, who: &T::AccountId, amount: Bal<T>, _pr: Precision) -> Result<Bal<T>, DispatchError> {
		Self::increase_balance_checked(asset, who, amount, |_| Ok(()))?;
		Ok(amount)
	}
}
impl<T: Config> fungibles::Mutate<T::AccountId> for Pallet<T> {
	fn done_mint_into(asset_id: Id<T>, who: &T::AccountId, amount: Bal<T>) {
		Self::deposit_event(Event::Issued { asset_id, owner: who.clone(), amount })
	}
	fn done_burn_from(asset_id: Id<T>, who: &T::AccountId, balance: Bal<T>) {
		Self::deposit_event(Event::Burned { asset_id, owner: who.clone(), balance });
	}
	fn done_transfer(asset_id: Id<T>, s: &T::AccountId, d: &T::AccountId, amount: Bal<T>) {
		Self::deposit_event(Event::Transferred { asset_id, from: s.clone(), to: d.clone(), amount });
	}
}
impl<T: Config> fungibles::Create<T::AccountId> for Pallet<T> {
	fn create(id: Id<T>, admin: T::AccountId, is_sufficient: bool, min: Bal<T>) -> DispatchResult {
		Self::do_force_create(id, admin, is_sufficient, min)
	}
}
impl<T: Config> fungibles::metadata::Inspect<T::AccountId> for Pallet<T> {
	fn name(a: Id<T>) -> Vec<u8> {
		Metadata::<T>::get(a).name.to_vec()
	}
	fn symbol(a: Id<T>) -> Vec<u8> {
		Metadata::<T>::get(a).symbol.to_vec()
	}
	fn decimals(a: Id<T>) -> u8 {
		Metadata::<T>::get(a).decimals
	}
}
impl<T: Config> fungibles::metadata::Mutate<T::AccountId> for Pallet<T> {
	fn set(asset: Id<T>, from: &T::AccountId, name: Vec<u8>, symbol: Vec<u8>, decimals: u8) -> DispatchResult {
		let bn: BoundedVec<u8, T::StringLimit> = name.clone().try_into().map_err(|_| Error::<T>::BadMetadata)?;
		let bs: BoundedVec<u8, T::StringLimit> = symbol.clone().try_into().map_err(|_| Error::<T>::BadMetadata)?;
		let d = Asset::<T>::get(asset).ok_or(Error::<T>::Unknown)?;
		ensure!(d.status == AssetStatus::Live, Error::<T>::AssetNotLive);
		ensure!(from == &d.owner, Error::<T>::NoPermission);
		Metadata::<T>::try_mutate_exists(asset, |m| -> DispatchResult {
			ensure!(m.as_ref().map_or(true, |m| !m.is_frozen), Error::<T>::NoPermission);
			let old_deposit = m.take().map_or(Zero::zero(), |m| m.deposit);
			let len: u32 = (name.len() + symbol.len()) as u32;
			let new_deposit = T::MetadataDepositPerByte::get().saturating_mul(len.into()).saturating_add(T::MetadataDepositBase::get());
			if new_deposit > old_deposit {
				T::Currency::reserve(from, new_deposit - old_deposit)?;
			} else {
				T::Currency::unreserve(from, old_deposit - new_deposit);
			}
			*m = Some(AssetMetadata { deposit: new_deposit, name: bn, symbol: bs, decimals, is_frozen: false });
			Self::deposit_event(Event::MetadataSet { asset_id: asset, name, symbol, decimals, is_frozen: false });
			Ok(())
		})
	}
}
impl<T: Config> fungibles::roles::Inspect<T::AccountId> for Pallet<T> {
	fn owner(a: Id<T>) -> Option<T::AccountId> {
		Asset::<T>::get(a).map(|x| x.owner)
	}
	fn issuer(a: Id<T>) -> Option<T::AccountId> {
		Asset::<T>::get(a).map(|x| x.issuer)
	}
	fn admin(a: Id<T>) -> Option<T::AccountId> {
		Asset::<T>::get(a).map(|x| x.admin)
	}
	fn freezer(a: Id<T>) -> Option<T::AccountId> {
		Asset::<T>::get(a).map(|x| x.freezer)
	}
}
impl<T: Config> fungibles::approvals::Inspect<T::AccountId> for Pallet<T> {
	fn allowance(a: Id<T>, owner: &T::AccountId, delegate: &T::AccountId) -> Bal<T> {
		Approvals::<T>::get((a, owner, delegate)).map(|x| x.amount).unwrap_or_else(Zero::zero)
	}
}
