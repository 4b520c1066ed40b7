//! frame_support::traits::tokens
use crate::codec::{Codec, Decode, Encode, EncodeLike, FullCodec, MaxEncodedLen};
use crate::sp_runtime::traits::{CheckedAdd, CheckedSub, AtLeast32BitUnsigned, MaybeSerializeDeserialize, Saturating, Zero};
use crate::sp_runtime::{ArithmeticError, DispatchError, DispatchResult, TokenError};

#[derive(Encode, Decode, Clone, Copy, PartialEq, Eq, Debug)]
pub enum BalanceStatus {
	Free,
	Reserved,
}
#[derive(Encode, Decode, Clone, Copy, PartialEq, Eq, Debug)]
pub enum Preservation {
	Expendable,
	Protect,
	Preserve,
}
#[derive(Encode, Decode, Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fortitude {
	Polite,
	Force,
}
#[derive(Encode, Decode, Clone, Copy, PartialEq, Eq, Debug)]
pub enum Precision {
	Exact,
	BestEffort,
}
#[derive(Encode, Decode, Clone, Copy, PartialEq, Eq, Debug)]
pub enum Provenance {
	Minted,
	Extant,
}
#[derive(Encode, Decode, Clone, Copy, PartialEq, Eq, Debug)]
pub enum Restriction {
	Free,
	OnHold,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum WithdrawConsequence<B> {
	BalanceLow,
	WouldDie,
	UnknownAsset,
	Underflow,
	Overflow,
	Frozen,
	ReducedToZero(B),
	Success,
}
impl<B: Zero> WithdrawConsequence<B> {
	pub fn into_result(self, keep_nonzero: bool) -> Result<B, DispatchError> {
		use WithdrawConsequence::*;
		match self {
			BalanceLow => Err(TokenError::FundsUnavailable.into()),
			WouldDie => Err(TokenError::OnlyProvider.into()),
			UnknownAsset => Err(TokenError::UnknownAsset.into()),
			Underflow => Err(ArithmeticError::Underflow.into()),
			Overflow => Err(ArithmeticError::Overflow.into()),
			Frozen => Err(TokenError::Frozen.into()),
			ReducedToZero(r) =>
				if keep_nonzero {
					Err(TokenError::NotExpendable.into())
				} else {
					Ok(r)
				},
			Success => Ok(Zero::zero()),
		}
	}
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum DepositConsequence {
	BelowMinimum,
	CannotCreate,
	UnknownAsset,
	Overflow,
	Success,
	Blocked,
}
impl DepositConsequence {
	pub fn into_result(self) -> DispatchResult {
		use DepositConsequence::*;
		Err(match self {
			BelowMinimum => TokenError::BelowMinimum.into(),
			CannotCreate => TokenError::CannotCreate.into(),
			UnknownAsset => TokenError::UnknownAsset.into(),
			Overflow => ArithmeticError::Overflow.into(),
			Blocked => TokenError::Blocked.into(),
			Success => return Ok(()),
		})
	}
}
pub trait Balance: AtLeast32BitUnsigned + FullCodec + Copy + Default + core::fmt::Debug + MaxEncodedLen + Send + Sync + 'static {}
impl<T: AtLeast32BitUnsigned + FullCodec + Copy + Default + core::fmt::Debug + MaxEncodedLen + Send + Sync + 'static> Balance for T {}
pub trait AssetId: FullCodec + Clone + Eq + PartialEq + core::fmt::Debug + MaxEncodedLen {}
impl<T: FullCodec + Clone + Eq + PartialEq + core::fmt::Debug + MaxEncodedLen> AssetId for T {}
pub use currency::{ExistenceRequirement, WithdrawReasons};
pub use misc_ as misc;
pub mod misc_ {
	pub use super::*;
}
pub mod imbalance {
	pub use super::currency::{Imbalance, OnUnbalanced, SameOrOther, SignedImbalance, TryDrop};
}
pub mod currency {
	use super::*;
	use core::fmt::Debug;
	#[derive(Encode, Decode, Clone, Copy, PartialEq, Eq, Debug)]
	pub enum ExistenceRequirement {
		KeepAlive,
		AllowDeath,
	}
	#[derive(Encode, Decode, Clone, Copy, PartialEq, Eq, Debug, MaxEncodedLen)]
	pub struct WithdrawReasons(pub u8);
	impl WithdrawReasons {
		pub const TRANSACTION_PAYMENT: Self = Self(1);
		pub const TRANSFER: Self = Self(2);
		pub const RESERVE: Self = Self(4);
		pub const FEE: Self = Self(8);
		pub const TIP: Self = Self(16);
		pub const fn all() -> Self {
			Self(31)
		}
		pub const fn empty() -> Self {
			Self(0)
		}
		pub fn except(o: Self) -> Self {
			Self(31 & !o.0)
		}
		pub fn contains(&self, o: Self) -> bool {
			self.0 & o.0 == o.0
		}
		pub fn intersects(&self, o: Self) -> bool {
			self.0 & o.0 != 0
		}
	}
	impl core::ops::BitOr for WithdrawReasons {
		type Output = Self;
		fn bitor(self, o: Self) -> Self {
			Self(self.0 | o.0)
		}
	}
	pub trait TryDrop: Sized {
		fn try_drop(self) -> Result<(), Self>;
	}
	impl TryDrop for () {
		fn try_drop(self) -> Result<(), ()> {
			Ok(())
		}
	}
	pub enum SameOrOther<A, B> {
		None,
		Same(A),
		Other(B),
	}
	impl<A: TryDrop, B: TryDrop> TryDrop for SameOrOther<A, B> {
		fn try_drop(self) -> Result<(), Self> {
			match self {
				SameOrOther::None => Ok(()),
				SameOrOther::Same(x) => x.try_drop().map_err(SameOrOther::Same),
				SameOrOther::Other(x) => x.try_drop().map_err(SameOrOther::Other),
			}
		}
	}
	impl<A, B> SameOrOther<A, B> {
		pub fn same(self) -> Result<A, Option<B>> {
			match self {
				SameOrOther::Same(a) => Ok(a),
				SameOrOther::Other(b) => Err(Some(b)),
				SameOrOther::None => Err(None),
			}
		}
		pub fn other(self) -> Result<B, Option<A>> {
			match self {
				SameOrOther::Same(a) => Err(Some(a)),
				SameOrOther::Other(b) => Ok(b),
				SameOrOther::None => Err(None),
			}
		}
	}
	pub trait Imbalance<B>: Sized + TryDrop + Default {
		type Opposite: Imbalance<B>;
		fn zero() -> Self;
		fn drop_zero(self) -> Result<(), Self>;
		fn split(self, amount: B) -> (Self, Self);
		fn ration(self, first: u32, second: u32) -> (Self, Self)
		where
			B: From<u32> + Saturating + core::ops::Div<Output = B>,
		{
			let total = first.saturating_add(second);
			if total == 0 {
				return (Self::zero(), Self::zero())
			}
			let a = self.peek().saturating_mul(first.into()) / total.into();
			self.split(a)
		}
		fn merge(self, other: Self) -> Self;
		fn subsume(&mut self, other: Self);
		fn maybe_merge(self, other: Option<Self>) -> Self {
			match other {
				Some(x) => self.merge(x),
				None => self,
			}
		}
		fn offset(self, other: Self::Opposite) -> SameOrOther<Self, Self::Opposite>;
		fn peek(&self) -> B;
	}
	impl<B: Default> Imbalance<B> for () {
		type Opposite = ();
		fn zero() -> Self {}
		fn drop_zero(self) -> Result<(), Self> {
			Ok(())
		}
		fn split(self, _: B) -> ((), ()) {
			((), ())
		}
		fn merge(self, _: Self) -> Self {}
		fn subsume(&mut self, _: Self) {}
		fn offset(self, _: ()) -> SameOrOther<(), ()> {
			SameOrOther::None
		}
		fn peek(&self) -> B {
			B::default()
		}
	}
	pub trait OnUnbalanced<I: TryDrop> {
		fn on_unbalanceds<B>(mut amounts: impl Iterator<Item = I>)
		where
			I: Imbalance<B>,
		{
			let first = match amounts.next() {
				Some(x) => x,
				None => return,
			};
			Self::on_unbalanced(amounts.fold(first, |i, x| i.merge(x)))
		}
		fn on_unbalanced(amount: I) {
			amount.try_drop().unwrap_or_else(Self::on_nonzero_unbalanced)
		}
		fn on_nonzero_unbalanced(amount: I) {
			drop(amount)
		}
	}
	impl<I: TryDrop> OnUnbalanced<I> for () {}
	pub trait UnbalancedStub {}
	pub enum SignedImbalance<B, P: Imbalance<B>> {
		Positive(P),
		Negative(P::Opposite),
	}
	impl<P: Imbalance<B, Opposite = N>, N: Imbalance<B, Opposite = P>, B> SignedImbalance<B, P> {
		pub fn zero() -> Self {
			SignedImbalance::Positive(P::zero())
		}
		pub fn drop_zero(self) -> Result<(), Self> {
			match self {
				SignedImbalance::Positive(x) => x.drop_zero().map_err(SignedImbalance::Positive),
				SignedImbalance::Negative(x) => x.drop_zero().map_err(SignedImbalance::Negative),
			}
		}
	}
	pub type LockIdentifier = [u8; 8];
	pub trait Currency<AccountId> {
		type Balance: super::Balance + MaybeSerializeDeserialize;
		type PositiveImbalance: Imbalance<Self::Balance, Opposite = Self::NegativeImbalance>;
		type NegativeImbalance: Imbalance<Self::Balance, Opposite = Self::PositiveImbalance>;
		fn total_balance(who: &AccountId) -> Self::Balance;
		fn can_slash(who: &AccountId, v: Self::Balance) -> bool;
		fn total_issuance() -> Self::Balance;
		fn active_issuance() -> Self::Balance {
			Self::total_issuance()
		}
		fn minimum_balance() -> Self::Balance;
		fn burn(a: Self::Balance) -> Self::PositiveImbalance;
		fn issue(a: Self::Balance) -> Self::NegativeImbalance;
		fn pair(a: Self::Balance) -> (Self::PositiveImbalance, Self::NegativeImbalance) {
			(Self::burn(a), Self::issue(a))
		}
		fn free_balance(who: &AccountId) -> Self::Balance;
		fn ensure_can_withdraw(who: &AccountId, amount: Self::Balance, r: WithdrawReasons, new_balance: Self::Balance) -> DispatchResult;
		fn transfer(s: &AccountId, d: &AccountId, v: Self::Balance, e: ExistenceRequirement) -> DispatchResult;
		fn slash(who: &AccountId, v: Self::Balance) -> (Self::NegativeImbalance, Self::Balance);
		fn deposit_into_existing(who: &AccountId, v: Self::Balance) -> Result<Self::PositiveImbalance, DispatchError>;
		fn resolve_into_existing(who: &AccountId, v: Self::NegativeImbalance) -> Result<(), Self::NegativeImbalance> {
			let b = v.peek();
			match Self::deposit_into_existing(who, b) {
				Ok(x) => {
					drop(v.offset(x));
					Ok(())
				},
				_ => Err(v),
			}
		}
		fn deposit_creating(who: &AccountId, v: Self::Balance) -> Self::PositiveImbalance;
		fn resolve_creating(who: &AccountId, v: Self::NegativeImbalance) {
			let b = v.peek();
			drop(v.offset(Self::deposit_creating(who, b)))
		}
		fn withdraw(who: &AccountId, v: Self::Balance, r: WithdrawReasons, l: ExistenceRequirement) -> Result<Self::NegativeImbalance, DispatchError>;
		fn settle(
			who: &AccountId,
			v: Self::PositiveImbalance,
			r: WithdrawReasons,
			l: ExistenceRequirement,
		) -> Result<(), Self::PositiveImbalance> {
			let b = v.peek();
			match Self::withdraw(who, b, r, l) {
				Ok(x) => {
					drop(v.offset(x));
					Ok(())
				},
				_ => Err(v),
			}
		}
		fn make_free_balance_be(who: &AccountId, b: Self::Balance) -> SignedImbalance<Self::Balance, Self::PositiveImbalance>;
	}
	pub trait ReservableCurrency<AccountId>: Currency<AccountId> {
		fn can_reserve(who: &AccountId, v: Self::Balance) -> bool;
		fn slash_reserved(who: &AccountId, v: Self::Balance) -> (Self::NegativeImbalance, Self::Balance);
		fn reserved_balance(who: &AccountId) -> Self::Balance;
		fn reserve(who: &AccountId, v: Self::Balance) -> DispatchResult;
		fn unreserve(who: &AccountId, v: Self::Balance) -> Self::Balance;
		fn repatriate_reserved(s: &AccountId, b: &AccountId, v: Self::Balance, st: BalanceStatus) -> Result<Self::Balance, DispatchError>;
	}
	pub trait NamedReservableCurrency<AccountId>: ReservableCurrency<AccountId> {
		type ReserveIdentifier: Codec + Ord + Copy + Debug;
	}
	pub trait LockableCurrency<AccountId>: Currency<AccountId> {
		type Moment;
		type MaxLocks: crate::bounded::Get<u32>;
		fn set_lock(id: LockIdentifier, who: &AccountId, amount: Self::Balance, r: WithdrawReasons);
		fn extend_lock(id: LockIdentifier, who: &AccountId, amount: Self::Balance, r: WithdrawReasons);
		fn remove_lock(id: LockIdentifier, who: &AccountId);
	}
	pub trait InspectLockableCurrency<AccountId>: LockableCurrency<AccountId> {}
	pub trait VestingSchedule<A> {}
	pub struct TotalIssuanceOf<C, A>(core::marker::PhantomData<(C, A)>);
	impl<C: Currency<A>, A> crate::bounded::Get<C::Balance> for TotalIssuanceOf<C, A> {
		fn get() -> C::Balance {
			C::total_issuance()
		}
	}
	impl<A> Currency<A> for () {
		type Balance = u32;
		type PositiveImbalance = ();
		type NegativeImbalance = ();
		fn total_balance(_: &A) -> u32 {
			0
		}
		fn can_slash(_: &A, _: u32) -> bool {
			true
		}
		fn total_issuance() -> u32 {
			0
		}
		fn minimum_balance() -> u32 {
			0
		}
		fn burn(_: u32) {}
		fn issue(_: u32) {}
		fn free_balance(_: &A) -> u32 {
			0
		}
		fn ensure_can_withdraw(_: &A, _: u32, _: WithdrawReasons, _: u32) -> DispatchResult {
			Ok(())
		}
		fn transfer(_: &A, _: &A, _: u32, _: ExistenceRequirement) -> DispatchResult {
			Ok(())
		}
		fn slash(_: &A, _: u32) -> ((), u32) {
			((), 0)
		}
		fn deposit_into_existing(_: &A, _: u32) -> Result<(), DispatchError> {
			Ok(())
		}
		fn deposit_creating(_: &A, _: u32) {}
		fn withdraw(_: &A, _: u32, _: WithdrawReasons, _: ExistenceRequirement) -> Result<(), DispatchError> {
			Ok(())
		}
		fn make_free_balance_be(_: &A, _: u32) -> SignedImbalance<u32, ()> {
			SignedImbalance::Positive(())
		}
	}
}
pub mod fungible {
	use super::*;
	pub trait Inspect<AccountId>: Sized {
		type Balance: super::Balance;
		fn total_issuance() -> Self::Balance;
		fn active_issuance() -> Self::Balance {
			Self::total_issuance()
		}
		fn minimum_balance() -> Self::Balance;
		fn total_balance(who: &AccountId) -> Self::Balance;
		fn balance(who: &AccountId) -> Self::Balance;
		fn reducible_balance(who: &AccountId, p: Preservation, f: Fortitude) -> Self::Balance;
		fn can_deposit(who: &AccountId, a: Self::Balance, p: Provenance) -> DepositConsequence;
		fn can_withdraw(who: &AccountId, a: Self::Balance) -> WithdrawConsequence<Self::Balance>;
	}
	#[must_use]
	pub struct Dust<A, T: Inspect<A>>(pub T::Balance);
	pub trait Unbalanced<AccountId>: Inspect<AccountId> {
		fn handle_raw_dust(amount: Self::Balance) {
			Self::handle_dust(Dust(amount))
		}
		fn handle_dust(dust: Dust<AccountId, Self>);
		fn write_balance(who: &AccountId, a: Self::Balance) -> Result<Option<Self::Balance>, DispatchError>;
		fn set_total_issuance(a: Self::Balance);
		fn decrease_balance(who: &AccountId, mut amount: Self::Balance, pr: Precision, p: Preservation, f: Fortitude) -> Result<Self::Balance, DispatchError> {
			let old = Self::balance(who);
			let free = Self::reducible_balance(who, p, f);
			if let Precision::BestEffort = pr {
				amount = amount.min(free);
			}
			let new = old.checked_sub(&amount).ok_or(TokenError::FundsUnavailable)?;
			if let Some(d) = Self::write_balance(who, new)? {
				Self::handle_dust(Dust(d));
			}
			Ok(old.saturating_sub(new))
		}
		fn increase_balance(who: &AccountId, amount: Self::Balance, pr: Precision) -> Result<Self::Balance, DispatchError> {
			let old = Self::balance(who);
			let new = if let Precision::BestEffort = pr {
				old.saturating_add(amount)
			} else {
				old.checked_add(&amount).ok_or(ArithmeticError::Overflow)?
			};
			if new < Self::minimum_balance() {
				return match pr {
					Precision::BestEffort => Ok(Default::default()),
					Precision::Exact => Err(TokenError::BelowMinimum.into()),
				}
			}
			if new == old {
				Ok(Default::default())
			} else {
				if let Some(d) = Self::write_balance(who, new)? {
					Self::handle_dust(Dust(d));
				}
				Ok(new.saturating_sub(old))
			}
		}
	}
	pub trait Mutate<AccountId>: Inspect<AccountId> + Unbalanced<AccountId> {
		fn mint_into(who: &AccountId, amount: Self::Balance) -> Result<Self::Balance, DispatchError> {
			Self::total_issuance().checked_add(&amount).ok_or(ArithmeticError::Overflow)?;
			let actual = Self::increase_balance(who, amount, Precision::Exact)?;
			Self::set_total_issuance(Self::total_issuance().saturating_add(actual));
			Self::done_mint_into(who, amount);
			Ok(actual)
		}
		fn burn_from(who: &AccountId, amount: Self::Balance, pr: Precision, f: Fortitude) -> Result<Self::Balance, DispatchError> {
			let actual = Self::reducible_balance(who, Preservation::Expendable, f).min(amount);
			if !(actual == amount || pr == Precision::BestEffort) {
				return Err(TokenError::FundsUnavailable.into())
			}
			Self::total_issuance().checked_sub(&actual).ok_or(ArithmeticError::Overflow)?;
			let actual = Self::decrease_balance(who, actual, Precision::BestEffort, Preservation::Expendable, f)?;
			Self::set_total_issuance(Self::total_issuance().saturating_sub(actual));
			Self::done_burn_from(who, actual);
			Ok(actual)
		}
		fn transfer(s: &AccountId, d: &AccountId, amount: Self::Balance, p: Preservation) -> Result<Self::Balance, DispatchError> {
			let _x = Self::can_withdraw(s, amount).into_result(p != Preservation::Expendable)?;
			Self::can_deposit(d, amount, Provenance::Extant).into_result()?;
			Self::decrease_balance(s, amount, Precision::BestEffort, p, Fortitude::Polite)?;
			let _ = Self::increase_balance(d, amount, Precision::BestEffort);
			Self::done_transfer(s, d, amount);
			Ok(amount)
		}
		fn set_balance(who: &AccountId, amount: Self::Balance) -> Self::Balance {
			let b = Self::balance(who);
			let (r, up) = if b > amount {
				(Self::burn_from(who, b - amount, Precision::BestEffort, Fortitude::Force), false)
			} else {
				(Self::mint_into(who, amount - b), true)
			};
			match (r, up) {
				(Ok(d), true) => b + d,
				(Ok(d), false) => b - d,
				_ => b,
			}
		}
		fn done_mint_into(_w: &AccountId, _a: Self::Balance) {}
		fn done_burn_from(_w: &AccountId, _a: Self::Balance) {}
		fn done_transfer(_s: &AccountId, _d: &AccountId, _a: Self::Balance) {}
	}
	pub trait Balanced<A>: Inspect<A> {}
	pub mod hold {
		pub trait Inspect<A> {}
		pub trait Mutate<A> {}
	}
}
pub mod fungibles {
	use super::*;
	pub trait Inspect<AccountId>: Sized {
		type AssetId: super::AssetId;
		type Balance: super::Balance;
		fn total_issuance(a: Self::AssetId) -> Self::Balance;
		fn active_issuance(a: Self::AssetId) -> Self::Balance {
			Self::total_issuance(a)
		}
		fn minimum_balance(a: Self::AssetId) -> Self::Balance;
		fn total_balance(a: Self::AssetId, who: &AccountId) -> Self::Balance;
		fn balance(a: Self::AssetId, who: &AccountId) -> Self::Balance;
		fn reducible_balance(a: Self::AssetId, who: &AccountId, p: Preservation, f: Fortitude) -> Self::Balance;
		fn can_deposit(a: Self::AssetId, who: &AccountId, amount: Self::Balance, p: Provenance) -> DepositConsequence;
		fn can_withdraw(a: Self::AssetId, who: &AccountId, amount: Self::Balance) -> WithdrawConsequence<Self::Balance>;
		fn asset_exists(a: Self::AssetId) -> bool;
	}
	#[must_use]
	pub struct Dust<A, T: Inspect<A> + Unbalanced<A>>(pub T::AssetId, pub T::Balance);
	pub trait Unbalanced<AccountId>: Inspect<AccountId> {
		fn handle_raw_dust(asset: Self::AssetId, amount: Self::Balance) {
			Self::handle_dust(Dust(asset, amount))
		}
		fn handle_dust(dust: Dust<AccountId, Self>);
		fn write_balance(asset: Self::AssetId, who: &AccountId, a: Self::Balance) -> Result<Option<Self::Balance>, DispatchError>;
		fn set_total_issuance(asset: Self::AssetId, a: Self::Balance);
		fn decrease_balance(
			asset: Self::AssetId,
			who: &AccountId,
			mut amount: Self::Balance,
			pr: Precision,
			p: Preservation,
			f: Fortitude,
		) -> Result<Self::Balance, DispatchError> {
			let old = Self::balance(asset.clone(), who);
			let free = Self::reducible_balance(asset.clone(), who, p, f);
			if let Precision::BestEffort = pr {
				amount = amount.min(free);
			}
			let new = old.checked_sub(&amount).ok_or(TokenError::FundsUnavailable)?;
			if let Some(d) = Self::write_balance(asset.clone(), who, new)? {
				Self::handle_dust(Dust(asset, d));
			}
			Ok(old.saturating_sub(new))
		}
		fn increase_balance(asset: Self::AssetId, who: &AccountId, amount: Self::Balance, pr: Precision) -> Result<Self::Balance, DispatchError> {
			let old = Self::balance(asset.clone(), who);
			let new = if let Precision::BestEffort = pr {
				old.saturating_add(amount)
			} else {
				old.checked_add(&amount).ok_or(ArithmeticError::Overflow)?
			};
			if new < Self::minimum_balance(asset.clone()) {
				return match pr {
					Precision::BestEffort => Ok(Default::default()),
					Precision::Exact => Err(TokenError::BelowMinimum.into()),
				}
			}
			if new == old {
				Ok(Default::default())
			} else {
				if let Some(d) = Self::write_balance(asset.clone(), who, new)? {
					Self::handle_dust(Dust(asset, d));
				}
				Ok(new.saturating_sub(old))
			}
		}
	}
	pub trait Mutate<AccountId>: Inspect<AccountId> + Unbalanced<AccountId> {
		fn mint_into(asset: Self::AssetId, who: &AccountId, amount: Self::Balance) -> Result<Self::Balance, DispatchError> {
			Self::total_issuance(asset.clone()).checked_add(&amount).ok_or(ArithmeticError::Overflow)?;
			let actual = Self::increase_balance(asset.clone(), who, amount, Precision::Exact)?;
			Self::set_total_issuance(asset.clone(), Self::total_issuance(asset.clone()).saturating_add(actual));
			Self::done_mint_into(asset, who, amount);
			Ok(actual)
		}
		fn burn_from(asset: Self::AssetId, who: &AccountId, amount: Self::Balance, pr: Precision, f: Fortitude) -> Result<Self::Balance, DispatchError> {
			let actual = Self::reducible_balance(asset.clone(), who, Preservation::Expendable, f).min(amount);
			if !(actual == amount || pr == Precision::BestEffort) {
				return Err(TokenError::FundsUnavailable.into())
			}
			Self::total_issuance(asset.clone()).checked_sub(&actual).ok_or(ArithmeticError::Overflow)?;
			let actual = Self::decrease_balance(asset.clone(), who, actual, Precision::BestEffort, Preservation::Expendable, f)?;
			Self::set_total_issuance(asset.clone(), Self::total_issuance(asset.clone()).saturating_sub(actual));
			Self::done_burn_from(asset, who, actual);
			Ok(actual)
		}
		fn transfer(asset: Self::AssetId, s: &AccountId, d: &AccountId, amount: Self::Balance, p: Preservation) -> Result<Self::Balance, DispatchError> {
			let _x = Self::can_withdraw(asset.clone(), s, amount).into_result(p != Preservation::Expendable)?;
			Self::can_deposit(asset.clone(), d, amount, Provenance::Extant).into_result()?;
			Self::decrease_balance(asset.clone(), s, amount, Precision::BestEffort, p, Fortitude::Polite)?;
			let _ = Self::increase_balance(asset.clone(), d, amount, Precision::BestEffort);
			Self::done_transfer(asset, s, d, amount);
			Ok(amount)
		}
		fn done_mint_into(_x: Self::AssetId, _w: &AccountId, _a: Self::Balance) {}
		fn done_burn_from(_x: Self::AssetId, _w: &AccountId, _a: Self::Balance) {}
		fn done_transfer(_x: Self::AssetId, _s: &AccountId, _d: &AccountId, _a: Self::Balance) {}
	}
	pub use Mutate as Transfer_;
	pub trait Create<AccountId>: Inspect<AccountId> {
		fn create(id: Self::AssetId, admin: AccountId, is_sufficient: bool, min: Self::Balance) -> DispatchResult;
	}
	pub trait Destroy<A>: Inspect<A> {}
	pub trait Balanced<A>: Inspect<A> {}
	pub mod metadata {
		use super::*;
		pub trait Inspect<AccountId>: super::Inspect<AccountId> {
			fn name(asset: Self::AssetId) -> Vec<u8>;
			fn symbol(asset: Self::AssetId) -> Vec<u8>;
			fn decimals(asset: Self::AssetId) -> u8;
		}
		pub trait Mutate<AccountId>: Inspect<AccountId> {
			fn set(asset: Self::AssetId, from: &AccountId, name: Vec<u8>, symbol: Vec<u8>, decimals: u8) -> DispatchResult;
		}
	}
	pub mod roles {
		pub trait Inspect<AccountId>: super::Inspect<AccountId> {
			fn owner(asset: Self::AssetId) -> Option<AccountId>;
			fn issuer(asset: Self::AssetId) -> Option<AccountId>;
			fn admin(asset: Self::AssetId) -> Option<AccountId>;
			fn freezer(asset: Self::AssetId) -> Option<AccountId>;
		}
	}
	pub mod approvals {
		pub trait Inspect<A>: super::Inspect<A> {
			fn allowance(asset: Self::AssetId, owner: &A, delegate: &A) -> Self::Balance;
		}
		pub trait Mutate<A>: Inspect<A> {}
	}
	pub fn _unused<T: EncodeLike>(_: T) {}
}
