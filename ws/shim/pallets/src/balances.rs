//! pallet_balances (polkadot-v1.0.0): free/reserved/frozen accounts, the `Currency` family and the
//! `fungible` family.
use crate::prelude::*;
pub use imbalances::{NegativeImbalance, PositiveImbalance};
pub use pallet::*;
use shim::frame_support::traits::tokens::{
	currency::*, fungible, BalanceStatus as Status, DepositConsequence, Fortitude, Precision, Preservation, Provenance, WithdrawConsequence,
};
pub trait WeightInfo {
	fn transfer_allow_death() -> Weight {
		Weight::from_parts(1_000, 0)
	}
	fn transfer_keep_alive() -> Weight {
		Weight::from_parts(1_000, 0)
	}
}
impl WeightInfo for () {}
pub mod weights {
	pub struct SubstrateWeight<T>(core::marker::PhantomData<T>);
	impl<T> super::WeightInfo for SubstrateWeight<T> {}
	pub use super::WeightInfo;
}
#[derive(Encode, Decode, Clone, Copy, PartialEq, Eq, Debug, MaxEncodedLen)]
pub struct ExtraFlags(u128);
impl Default for ExtraFlags {
	fn default() -> Self {
		Self(1 << 127)
	}
}
#[derive(Encode, Decode, Clone, PartialEq, Eq, Default, Debug, MaxEncodedLen)]
pub struct AccountData<Balance> {
	pub free: Balance,
	pub reserved: Balance,
	pub frozen: Balance,
	pub flags: ExtraFlags,
}
#[derive(Encode, Decode, Clone, Copy, PartialEq, Eq, Debug, MaxEncodedLen)]
pub enum Reasons {
	Fee = 0,
	Misc = 1,
	All = 2,
}
#[derive(Encode, Decode, Clone, PartialEq, Eq, Debug, MaxEncodedLen)]
pub struct BalanceLock<Balance> {
	pub id: [u8; 8],
	pub amount: Balance,
	pub reasons: Reasons,
}
#[shim::frame_support::pallet]
pub mod pallet {
	use super::*;
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type WeightInfo: WeightInfo;
		type Balance: Parameter
			+ Member
			+ AtLeast32BitUnsigned
			+ Default
			+ Copy
			+ MaybeSerializeDeserialize
			+ core::fmt::Debug
			+ MaxEncodedLen
			+ HasCompact
			+ shim::sp_runtime::FixedPointOperand
			+ Send
			+ Sync;
		type DustRemoval: OnUnbalanced<NegativeImbalance<Self>>;
		type ExistentialDeposit: Get<<Self as Config>::Balance>;
		type AccountStore: StoredMap<Self::AccountId, AccountData<<Self as Config>::Balance>>;
		type ReserveIdentifier;
		type RuntimeHoldReason;
		type FreezeIdentifier;
		type MaxLocks;
		type MaxReserves;
		type MaxHolds;
		type MaxFreezes;
	}
	#[pallet::pallet]
	pub struct Pallet<T, I = ()>(_);
	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config> {
		Endowed { account: T::AccountId, free_balance: <T as Config>::Balance },
		DustLost { account: T::AccountId, amount: <T as Config>::Balance },
		Transfer { from: T::AccountId, to: T::AccountId, amount: <T as Config>::Balance },
		BalanceSet { who: T::AccountId, free: <T as Config>::Balance },
		Reserved { who: T::AccountId, amount: <T as Config>::Balance },
		Unreserved { who: T::AccountId, amount: <T as Config>::Balance },
		ReserveRepatriated { from: T::AccountId, to: T::AccountId, amount: <T as Config>::Balance, destination_status: Status },
		Deposit { who: T::AccountId, amount: <T as Config>::Balance },
		Withdraw { who: T::AccountId, amount: <T as Config>::Balance },
		Slashed { who: T::AccountId, amount: <T as Config>::Balance },
		Minted { who: T::AccountId, amount: <T as Config>::Balance },
		Burned { who: T::AccountId, amount: <T as Config>::Balance },
	}
	#[pallet::error]
	pub enum Error<T> {
		VestingBalance,
		LiquidityRestrictions,
		InsufficientBalance,
		ExistentialDeposit,
		Expendability,
		ExistingVestingSchedule,
		DeadAccount,
		TooManyReserves,
		TooManyHolds,
		TooManyFreezes,
	}
	#[pallet::storage]
	pub type TotalIssuance<T: Config> = StorageValue<_, <T as Config>::Balance, ValueQuery>;
	#[pallet::storage]
	pub type InactiveIssuance<T: Config> = StorageValue<_, <T as Config>::Balance, ValueQuery>;
	#[pallet::storage]
	pub type Account<T: Config> = StorageMap<_, Blake2_128Concat, T::AccountId, AccountData<<T as Config>::Balance>, ValueQuery>;
	#[pallet::storage]
	pub type Locks<T: Config> = StorageMap<_, Blake2_128Concat, T::AccountId, Vec<BalanceLock<<T as Config>::Balance>>, ValueQuery>;
	#[pallet::genesis_config]
	pub struct GenesisConfig<T: Config> {
		pub balances: Vec<(T::AccountId, <T as Config>::Balance)>,
	}
	impl<T: Config> Default for GenesisConfig<T> {
		fn default() -> Self {
			Self { balances: vec![] }
		}
	}
	#[pallet::genesis_build]
	impl<T: Config> BuildGenesisConfig for GenesisConfig<T> {
		fn build(&self) {
			let total = self.balances.iter().fold(Zero::zero(), |acc: <T as Config>::Balance, &(_, n)| acc + n);
			TotalIssuance::<T>::put(total);
			for (_, balance) in &self.balances {
				assert!(*balance >= <T as Config>::ExistentialDeposit::get(), "the balance of any account should always be at least the existential deposit.");
			}
			for (who, free) in self.balances.iter() {
				frame_system::Pallet::<T>::inc_providers(who);
				let _ = T::AccountStore::insert(who, AccountData { free: *free, ..Default::default() });
			}
		}
	}
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(T::WeightInfo::transfer_allow_death())]
		pub fn transfer_allow_death(origin: OriginFor<T>, dest: LookupSrc<T>, #[pallet::compact] value: <T as Config>::Balance) -> DispatchResultWithPostInfo {
			let source = ensure_signed(origin)?;
			let dest = T::Lookup::lookup(dest)?;
			<Self as fungible::Mutate<_>>::transfer(&source, &dest, value, Preservation::Expendable)?;
			Ok(().into())
		}
		#[pallet::call_index(7)]
		#[pallet::weight(T::WeightInfo::transfer_allow_death())]
		pub fn transfer(origin: OriginFor<T>, dest: LookupSrc<T>, #[pallet::compact] value: <T as Config>::Balance) -> DispatchResultWithPostInfo {
			let source = ensure_signed(origin)?;
			let dest = T::Lookup::lookup(dest)?;
			<Self as fungible::Mutate<_>>::transfer(&source, &dest, value, Preservation::Expendable)?;
			Ok(().into())
		}
		#[pallet::call_index(3)]
		#[pallet::weight(T::WeightInfo::transfer_keep_alive())]
		pub fn transfer_keep_alive(origin: OriginFor<T>, dest: LookupSrc<T>, #[pallet::compact] value: <T as Config>::Balance) -> DispatchResultWithPostInfo {
			let source = ensure_signed(origin)?;
			let dest = T::Lookup::lookup(dest)?;
			<Self as fungible::Mutate<_>>::transfer(&source, &dest, value, Preservation::Preserve)?;
			Ok(().into())
		}
		#[pallet::call_index(4)]
		#[pallet::weight(T::WeightInfo::transfer_allow_death())]
		pub fn transfer_all(origin: OriginFor<T>, dest: LookupSrc<T>, keep_alive: bool) -> DispatchResult {
			let source = ensure_signed(origin)?;
			let keep = if keep_alive { Preservation::Preserve } else { Preservation::Expendable };
			let b = <Self as fungible::Inspect<_>>::reducible_balance(&source, keep, Fortitude::Polite);
			let dest = T::Lookup::lookup(dest)?;
			<Self as fungible::Mutate<_>>::transfer(&source, &dest, b, keep)?;
			Ok(())
		}
		#[pallet::call_index(8)]
		#[pallet::weight(T::WeightInfo::transfer_allow_death())]
		pub fn force_set_balance(origin: OriginFor<T>, who: LookupSrc<T>, #[pallet::compact] new_free: <T as Config>::Balance) -> DispatchResult {
			ensure_root(origin)?;
			let who = T::Lookup::lookup(who)?;
			let new_free = if new_free < T::ExistentialDeposit::get() { Zero::zero() } else { new_free };
			let old = Self::mutate_account_handling_dust(&who, |a| {
				let o = a.free;
				a.free = new_free;
				o
			})?;
			if new_free > old {
				drop(PositiveImbalance::<T>::new(new_free - old));
			} else if new_free < old {
				drop(NegativeImbalance::<T>::new(old - new_free));
			}
			Self::deposit_event(Event::BalanceSet { who, free: new_free });
			Ok(())
		}
	}
}
type BalOf<T> = <T as Config>::Balance;
impl<T: Config> Pallet<T> {
	fn ed() -> BalOf<T> {
		T::ExistentialDeposit::get()
	}
	pub fn account(who: &T::AccountId) -> AccountData<BalOf<T>> {
		T::AccountStore::get(who)
	}
	pub fn free_balance(who: impl std::borrow::Borrow<T::AccountId>) -> BalOf<T> {
		Self::account(who.borrow()).free
	}
	pub fn usable_balance(who: impl std::borrow::Borrow<T::AccountId>) -> BalOf<T> {
		<Self as fungible::Inspect<_>>::reducible_balance(who.borrow(), Preservation::Expendable, Fortitude::Polite)
	}
	pub fn reserved_balance(who: impl std::borrow::Borrow<T::AccountId>) -> BalOf<T> {
		Self::account(who.borrow()).reserved
	}
	pub fn total_issuance() -> BalOf<T> {
		TotalIssuance::<T>::get()
	}
	pub(crate) fn mutate_account_handling_dust<R>(who: &T::AccountId, f: impl FnOnce(&mut AccountData<BalOf<T>>) -> R) -> Result<R, DispatchError> {
		let (r, dust) = Self::try_mutate_account(who, |a, _| -> Result<R, DispatchError> { Ok(f(a)) })?;
		if let Some(d) = dust {
			<Self as fungible::Unbalanced<_>>::handle_raw_dust(d);
		}
		Ok(r)
	}
	pub(crate) fn try_mutate_account_handling_dust<R, E: From<DispatchError>>(
		who: &T::AccountId,
		f: impl FnOnce(&mut AccountData<BalOf<T>>, bool) -> Result<R, E>,
	) -> Result<R, E> {
		let (r, dust) = Self::try_mutate_account(who, f)?;
		if let Some(d) = dust {
			<Self as fungible::Unbalanced<_>>::handle_raw_dust(d);
		}
		Ok(r)
	}
	pub(crate) fn try_mutate_account<R, E: From<DispatchError>>(
		who: &T::AccountId,
		f: impl FnOnce(&mut AccountData<BalOf<T>>, bool) -> Result<R, E>,
	) -> Result<(R, Option<BalOf<T>>), E> {
		let result = T::AccountStore::try_mutate_exists(who, |maybe_account| -> Result<_, E> {
			let is_new = maybe_account.is_none();
			let mut account = maybe_account.take().unwrap_or_default();
			let did_provide = account.free >= Self::ed() && !is_new;
			let did_consume = !is_new && (!account.reserved.is_zero() || !account.frozen.is_zero());
			let result = f(&mut account, is_new)?;
			let does_provide = account.free >= Self::ed();
			let does_consume = !account.reserved.is_zero() || !account.frozen.is_zero();
			if !did_provide && does_provide {
				frame_system::Pallet::<T>::inc_providers(who);
			}
			if did_consume && !does_consume {
				frame_system::Pallet::<T>::dec_consumers(who);
			}
			if !did_consume && does_consume {
				frame_system::Pallet::<T>::inc_consumers(who)?;
			}
			if did_provide && !does_provide {
				match frame_system::Pallet::<T>::dec_providers(who) {
					Ok(_) => {},
					Err(e) => {
						if did_consume && !does_consume {
							let _ = frame_system::Pallet::<T>::inc_consumers(who);
						}
						if !did_consume && does_consume {
							frame_system::Pallet::<T>::dec_consumers(who);
						}
						return Err(e.into())
					},
				}
			}
			let maybe_endowed = if is_new { Some(account.free) } else { None };
			let maybe_dust = if account.free < Self::ed() && account.reserved.is_zero() {
				if account.free.is_zero() {
					None
				} else {
					Some(account.free)
				}
			} else {
				*maybe_account = Some(account);
				None
			};
			Ok((maybe_endowed, maybe_dust, result))
		});
		result.map(|(endowed, dust, result)| {
			if let Some(e) = endowed {
				Self::deposit_event(Event::Endowed { account: who.clone(), free_balance: e });
			}
			if let Some(a) = dust {
				Self::deposit_event(Event::DustLost { account: who.clone(), amount: a });
			}
			(result, dust)
		})
	}
}
impl<T: Config> fungible::Inspect<T::AccountId> for Pallet<T> {
	type Balance = BalOf<T>;
	fn total_issuance() -> Self::Balance {
		TotalIssuance::<T>::get()
	}
	fn minimum_balance() -> Self::Balance {
		Self::ed()
	}
	fn total_balance(who: &T::AccountId) -> Self::Balance {
		let a = Self::account(who);
		a.free.saturating_add(a.reserved)
	}
	fn balance(who: &T::AccountId) -> Self::Balance {
		Self::account(who).free
	}
	fn reducible_balance(who: &T::AccountId, p: Preservation, f: Fortitude) -> Self::Balance {
		let a = Self::account(who);
		let mut untouchable: BalOf<T> = Zero::zero();
		if f == Fortitude::Polite {
			untouchable = a.frozen.saturating_sub(a.reserved);
		}
		if p == Preservation::Preserve ||
			p == Preservation::Protect && !a.free.is_zero() && frame_system::Pallet::<T>::providers(who) == 1 ||
			p == Preservation::Expendable && !a.free.is_zero() && !frame_system::Pallet::<T>::can_dec_provider(who)
		{
			untouchable = untouchable.max(Self::ed());
		}
		a.free.saturating_sub(untouchable)
	}
	fn can_deposit(who: &T::AccountId, amount: Self::Balance, p: Provenance) -> DepositConsequence {
		if amount.is_zero() {
			return DepositConsequence::Success
		}
		if p == Provenance::Minted && TotalIssuance::<T>::get().checked_add(&amount).is_none() {
			return DepositConsequence::Overflow
		}
		let a = Self::account(who);
		let new_free = match a.free.checked_add(&amount) {
			None => return DepositConsequence::Overflow,
			Some(x) if x < Self::ed() => return DepositConsequence::BelowMinimum,
			Some(x) => x,
		};
		match a.reserved.checked_add(&new_free) {
			Some(_) => DepositConsequence::Success,
			None => DepositConsequence::Overflow,
		}
	}
	fn can_withdraw(who: &T::AccountId, amount: Self::Balance) -> WithdrawConsequence<Self::Balance> {
		if amount.is_zero() {
			return WithdrawConsequence::Success
		}
		if TotalIssuance::<T>::get().checked_sub(&amount).is_none() {
			return WithdrawConsequence::Underflow
		}
		let a = Self::account(who);
		let new_free = match a.free.checked_sub(&amount) {
			Some(x) => x,
			None => return WithdrawConsequence::BalanceLow,
		};
		let liquid = <Self as fungible::Inspect<_>>::reducible_balance(who, Preservation::Expendable, Fortitude::Polite);
		if amount > liquid {
			return WithdrawConsequence::Frozen
		}
		let success = if new_free < Self::ed() {
			if frame_system::Pallet::<T>::can_dec_provider(who) {
				WithdrawConsequence::ReducedToZero(new_free)
			} else {
				return WithdrawConsequence::WouldDie
			}
		} else {
			WithdrawConsequence::Success
		};
		let new_total = new_free.saturating_add(a.reserved);
		if new_total < a.frozen {
			return WithdrawConsequence::Frozen
		}
		success
	}
}
impl<T: Config> fungible::Unbalanced<T::AccountId> for Pallet<T> {
	fn handle_dust(dust: fungible::Dust<T::AccountId, Self>) {
		T::DustRemoval::on_unbalanced(NegativeImbalance::new(dust.0));
	}
	fn write_balance(who: &T::AccountId, amount: Self::Balance) -> Result<Option<Self::Balance>, DispatchError> {
		let max_reduction = <Self as fungible::Inspect<_>>::reducible_balance(who, Preservation::Expendable, Fortitude::Force);
		let (result, maybe_dust) = Self::try_mutate_account(who, |a, _| -> DispatchResult {
			let reduction = a.free.saturating_sub(amount);
			ensure!(reduction <= max_reduction, Error::<T>::InsufficientBalance);
			a.free = amount;
			Ok(())
		})?;
		let _ = result;
		Ok(maybe_dust)
	}
	fn set_total_issuance(a: Self::Balance) {
		TotalIssuance::<T>::put(a)
	}
}
impl<T: Config> fungible::Mutate<T::AccountId> for Pallet<T> {
	fn done_mint_into(who: &T::AccountId, amount: Self::Balance) {
		Self::deposit_event(Event::Minted { who: who.clone(), amount });
	}
	fn done_burn_from(who: &T::AccountId, amount: Self::Balance) {
		Self::deposit_event(Event::Burned { who: who.clone(), amount });
	}
	fn done_transfer(s: &T::AccountId, d: &T::AccountId, amount: Self::Balance) {
		Self::deposit_event(Event::Transfer { from: s.clone(), to: d.clone(), amount });
	}
}
impl<T: Config> Currency<T::AccountId> for Pallet<T> {
	type Balance = BalOf<T>;
	type PositiveImbalance = PositiveImbalance<T>;
	type NegativeImbalance = NegativeImbalance<T>;
	fn total_balance(who: &T::AccountId) -> Self::Balance {
		let a = Self::account(who);
		a.free.saturating_add(a.reserved)
	}
	fn can_slash(who: &T::AccountId, v: Self::Balance) -> bool {
		v.is_zero() || Self::free_balance(who) >= v
	}
	fn total_issuance() -> Self::Balance {
		TotalIssuance::<T>::get()
	}
	fn minimum_balance() -> Self::Balance {
		Self::ed()
	}
	fn burn(mut amount: Self::Balance) -> Self::PositiveImbalance {
		if amount.is_zero() {
			return PositiveImbalance::zero()
		}
		TotalIssuance::<T>::mutate(|issued| {
			*issued = issued.checked_sub(&amount).unwrap_or_else(|| {
				amount = *issued;
				Zero::zero()
			});
		});
		PositiveImbalance::new(amount)
	}
	fn issue(mut amount: Self::Balance) -> Self::NegativeImbalance {
		if amount.is_zero() {
			return NegativeImbalance::zero()
		}
		TotalIssuance::<T>::mutate(|issued| {
			*issued = issued.checked_add(&amount).unwrap_or_else(|| {
				amount = BalOf::<T>::max_value() - *issued;
				BalOf::<T>::max_value()
			})
		});
		NegativeImbalance::new(amount)
	}
	fn free_balance(who: &T::AccountId) -> Self::Balance {
		Self::account(who).free
	}
	fn ensure_can_withdraw(who: &T::AccountId, amount: Self::Balance, _r: WithdrawReasons, new_balance: Self::Balance) -> DispatchResult {
		if amount.is_zero() {
			return Ok(())
		}
		ensure!(new_balance >= Self::account(who).frozen, Error::<T>::LiquidityRestrictions);
		Ok(())
	}
	fn transfer(s: &T::AccountId, d: &T::AccountId, value: Self::Balance, e: ExistenceRequirement) -> DispatchResult {
		if value.is_zero() || s == d {
			return Ok(())
		}
		let keep = match e {
			ExistenceRequirement::KeepAlive => Preservation::Preserve,
			ExistenceRequirement::AllowDeath => Preservation::Expendable,
		};
		<Self as fungible::Mutate<_>>::transfer(s, d, value, keep)?;
		Ok(())
	}
	fn slash(who: &T::AccountId, value: Self::Balance) -> (Self::NegativeImbalance, Self::Balance) {
		if value.is_zero() || Self::total_balance_(who).is_zero() {
			return (NegativeImbalance::zero(), value)
		}
		match Self::try_mutate_account_handling_dust(who, |a, _| -> Result<_, DispatchError> {
			let ed = if !frame_system::Pallet::<T>::can_dec_provider(who) { Self::ed() } else { Zero::zero() };
			let actual = value.min(a.free.saturating_sub(ed));
			a.free = a.free.saturating_sub(actual);
			Ok((NegativeImbalance::new(actual), value.saturating_sub(actual)))
		}) {
			Ok((i, n)) => {
				Self::deposit_event(Event::Slashed { who: who.clone(), amount: value.saturating_sub(n) });
				(i, n)
			},
			Err(_) => (NegativeImbalance::zero(), value),
		}
	}
	fn deposit_into_existing(who: &T::AccountId, value: Self::Balance) -> Result<Self::PositiveImbalance, DispatchError> {
		if value.is_zero() {
			return Ok(PositiveImbalance::zero())
		}
		Self::try_mutate_account_handling_dust(who, |a, is_new| -> Result<_, DispatchError> {
			ensure!(!is_new, Error::<T>::DeadAccount);
			a.free = a.free.checked_add(&value).ok_or(ArithmeticError::Overflow)?;
			Self::deposit_event(Event::Deposit { who: who.clone(), amount: value });
			Ok(PositiveImbalance::new(value))
		})
	}
	fn deposit_creating(who: &T::AccountId, value: Self::Balance) -> Self::PositiveImbalance {
		if value.is_zero() {
			return PositiveImbalance::zero()
		}
		Self::try_mutate_account_handling_dust(who, |a, is_new| -> Result<_, DispatchError> {
			ensure!(value >= Self::ed() || !is_new, Error::<T>::ExistentialDeposit);
			a.free = match a.free.checked_add(&value) {
				Some(x) => x,
				None => return Ok(PositiveImbalance::zero()),
			};
			Self::deposit_event(Event::Deposit { who: who.clone(), amount: value });
			Ok(PositiveImbalance::new(value))
		})
		.unwrap_or_else(|_| PositiveImbalance::zero())
	}
	fn withdraw(who: &T::AccountId, value: Self::Balance, r: WithdrawReasons, l: ExistenceRequirement) -> Result<Self::NegativeImbalance, DispatchError> {
		if value.is_zero() {
			return Ok(NegativeImbalance::zero())
		}
		Self::try_mutate_account_handling_dust(who, |a, _| -> Result<_, DispatchError> {
			let new_free = a.free.checked_sub(&value).ok_or(Error::<T>::InsufficientBalance)?;
			let would_be_dead = new_free < Self::ed();
			let would_kill = would_be_dead && a.free >= Self::ed();
			ensure!(l == ExistenceRequirement::AllowDeath || !would_kill, Error::<T>::Expendability);
			<Self as Currency<_>>::ensure_can_withdraw(who, value, r, new_free)?;
			a.free = new_free;
			Self::deposit_event(Event::Withdraw { who: who.clone(), amount: value });
			Ok(NegativeImbalance::new(value))
		})
	}
	fn make_free_balance_be(who: &T::AccountId, value: Self::Balance) -> SignedImbalance<Self::Balance, Self::PositiveImbalance> {
		Self::try_mutate_account_handling_dust(who, |a, is_new| -> Result<SignedImbalance<Self::Balance, Self::PositiveImbalance>, DispatchError> {
			ensure!(value.saturating_add(a.reserved) >= Self::ed() || !is_new, Error::<T>::ExistentialDeposit);
			let imbalance = if a.free <= value {
				SignedImbalance::Positive(PositiveImbalance::new(value - a.free))
			} else {
				SignedImbalance::Negative(NegativeImbalance::new(a.free - value))
			};
			a.free = value;
			Self::deposit_event(Event::BalanceSet { who: who.clone(), free: a.free });
			Ok(imbalance)
		})
		.unwrap_or_else(|_| SignedImbalance::Positive(PositiveImbalance::zero()))
	}
}
impl<T: Config> Pallet<T> {
	fn total_balance_(who: &T::AccountId) -> BalOf<T> {
		let a = Self::account(who);
		a.free.saturating_add(a.reserved)
	}
	pub fn locks(who: &T::AccountId) -> Vec<BalanceLock<BalOf<T>>> {
		Locks::<T>::get(who)
	}
	fn update_locks(who: &T::AccountId, l: Vec<BalanceLock<BalOf<T>>>) {
		let m = l.iter().map(|x| x.amount).max().unwrap_or_else(Zero::zero);
		let _ = Self::mutate_account_handling_dust(who, |a| a.frozen = m);
		if l.is_empty() {
			Locks::<T>::remove(who)
		} else {
			Locks::<T>::insert(who, l)
		}
	}
}
impl<T: Config> ReservableCurrency<T::AccountId> for Pallet<T> {
	fn can_reserve(who: &T::AccountId, value: Self::Balance) -> bool {
		if value.is_zero() {
			return true
		}
		Self::account(who).free.checked_sub(&value).map_or(false, |n| {
			n >= Self::ed() && <Self as Currency<_>>::ensure_can_withdraw(who, value, WithdrawReasons::RESERVE, n).is_ok()
		})
	}
	fn reserved_balance(who: &T::AccountId) -> Self::Balance {
		Self::account(who).reserved
	}
	fn reserve(who: &T::AccountId, value: Self::Balance) -> DispatchResult {
		if value.is_zero() {
			return Ok(())
		}
		Self::try_mutate_account_handling_dust(who, |a, _| -> DispatchResult {
			a.free = a.free.checked_sub(&value).ok_or(Error::<T>::InsufficientBalance)?;
			a.reserved = a.reserved.checked_add(&value).ok_or(ArithmeticError::Overflow)?;
			<Self as Currency<_>>::ensure_can_withdraw(who, value, WithdrawReasons::RESERVE, a.free)
		})?;
		Self::deposit_event(Event::Reserved { who: who.clone(), amount: value });
		Ok(())
	}
	fn unreserve(who: &T::AccountId, value: Self::Balance) -> Self::Balance {
		if value.is_zero() {
			return Zero::zero()
		}
		if Self::total_balance_(who).is_zero() {
			return value
		}
		match Self::mutate_account_handling_dust(who, |a| {
			let actual = a.reserved.min(value);
			a.reserved -= actual;
			a.free = a.free.saturating_add(actual);
			actual
		}) {
			Ok(actual) => {
				Self::deposit_event(Event::Unreserved { who: who.clone(), amount: actual });
				value - actual
			},
			Err(_) => value,
		}
	}
	fn slash_reserved(who: &T::AccountId, value: Self::Balance) -> (Self::NegativeImbalance, Self::Balance) {
		if value.is_zero() || Self::total_balance_(who).is_zero() {
			return (NegativeImbalance::zero(), value)
		}
		match Self::mutate_account_handling_dust(who, |a| {
			let actual = value.min(a.reserved);
			a.reserved -= actual;
			(NegativeImbalance::new(actual), value - actual)
		}) {
			Ok(r) => r,
			Err(_) => (NegativeImbalance::zero(), value),
		}
	}
	fn repatriate_reserved(s: &T::AccountId, b: &T::AccountId, value: Self::Balance, st: Status) -> Result<Self::Balance, DispatchError> {
		let actual = value.min(Self::reserved_balance(s));
		if s == b {
			return Ok(match st {
				Status::Free => value.saturating_sub(<Self as ReservableCurrency<_>>::unreserve(s, value)),
				Status::Reserved => value.saturating_sub(Self::reserved_balance(s)),
			})
		}
		ensure!(frame_system::Pallet::<T>::account_exists(b), Error::<T>::DeadAccount);
		Self::mutate_account_handling_dust(s, |a| a.reserved -= actual)?;
		Self::mutate_account_handling_dust(b, |a| match st {
			Status::Free => a.free = a.free.saturating_add(actual),
			Status::Reserved => a.reserved = a.reserved.saturating_add(actual),
		})?;
		Self::deposit_event(Event::ReserveRepatriated { from: s.clone(), to: b.clone(), amount: actual, destination_status: st });
		Ok(value.saturating_sub(actual))
	}
}
impl<T: Config> LockableCurrency<T::AccountId> for Pallet<T> {
	type Moment = BlockNumberFor<T>;
	type MaxLocks = ConstU32<50>;
	fn set_lock(id: LockIdentifier, who: &T::AccountId, amount: Self::Balance, _r: WithdrawReasons) {
		let mut l = Locks::<T>::get(who);
		l.retain(|x| x.id != id);
		if !amount.is_zero() {
			l.push(BalanceLock { id, amount, reasons: Reasons::All });
		}
		Self::update_locks(who, l)
	}
	fn extend_lock(id: LockIdentifier, who: &T::AccountId, amount: Self::Balance, r: WithdrawReasons) {
		let cur = Locks::<T>::get(who).iter().find(|x| x.id == id).map(|x| x.amount).unwrap_or_else(Zero::zero);
		Self::set_lock(id, who, cur.max(amount), r)
	}
	fn remove_lock(id: LockIdentifier, who: &T::AccountId) {
		let mut l = Locks::<T>::get(who);
		l.retain(|x| x.id != id);
		Self::update_locks(who, l)
	}
}
mod imbalances {
	use super::*;
	use core::mem;
	macro_rules! imb {
		($a:ident, $b:ident, $op:ident) => {
			#[must_use]
			#[derive(PartialEq, Eq)]
			pub struct $a<T: Config>(pub(crate) BalOf<T>);
			impl<T: Config> core::fmt::Debug for $a<T> {
				fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
					write!(f, "{}({:?})", stringify!($a), self.0)
				}
			}
			impl<T: Config> $a<T> {
				pub fn new(a: BalOf<T>) -> Self {
					$a(a)
				}
			}
			impl<T: Config> Default for $a<T> {
				fn default() -> Self {
					Self::zero()
				}
			}
			impl<T: Config> TryDrop for $a<T> {
				fn try_drop(self) -> Result<(), Self> {
					self.drop_zero()
				}
			}
			impl<T: Config> Imbalance<BalOf<T>> for $a<T> {
				type Opposite = $b<T>;
				fn zero() -> Self {
					Self(Zero::zero())
				}
				fn drop_zero(self) -> Result<(), Self> {
					if self.0.is_zero() {
						Ok(())
					} else {
						Err(self)
					}
				}
				fn split(self, amount: BalOf<T>) -> (Self, Self) {
					let first = self.0.min(amount);
					let second = self.0 - first;
					mem::forget(self);
					(Self(first), Self(second))
				}
				fn merge(mut self, other: Self) -> Self {
					self.0 = self.0.saturating_add(other.0);
					mem::forget(other);
					self
				}
				fn subsume(&mut self, other: Self) {
					self.0 = self.0.saturating_add(other.0);
					mem::forget(other);
				}
				fn offset(self, other: $b<T>) -> SameOrOther<Self, $b<T>> {
					let (a, b) = (self.0, other.0);
					mem::forget((self, other));
					if a > b {
						SameOrOther::Same(Self(a - b))
					} else if b > a {
						SameOrOther::Other($b::new(b - a))
					} else {
						SameOrOther::None
					}
				}
				fn peek(&self) -> BalOf<T> {
					self.0
				}
			}
			impl<T: Config> Drop for $a<T> {
				fn drop(&mut self) {
					if !self.0.is_zero() {
						TotalIssuance::<T>::mutate(|v| *v = v.$op(self.0));
					}
				}
			}
		};
	}
	imb!(PositiveImbalance, NegativeImbalance, saturating_add);
	imb!(NegativeImbalance, PositiveImbalance, saturating_sub);
}
