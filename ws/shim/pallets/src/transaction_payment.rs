//! Transaction payment: fee = base + length + adjusted weight fee + tip, charged through
//! `OnChargeTransaction` before dispatch and corrected afterwards.
pub use pallet::*;
use crate::prelude::*;
use shim::frame_support::dispatch::{DispatchInfo, GetDispatchInfo, PostDispatchInfo};
use shim::sp_runtime::traits::{DispatchInfoOf, Dispatchable, PostDispatchInfoOf, SignedExtension};
use shim::sp_runtime::transaction_validity::{InvalidTransaction, TransactionPriority, TransactionValidity, TransactionValidityError, ValidTransaction};
pub trait OnChargeTransaction<T: Config> {
	type Balance: shim::frame_support::pallet_prelude::Member + AtLeast32BitUnsigned + Codec + Copy + MaybeSerializeDeserialize + core::fmt::Debug + Default + TypeInfo;
	type LiquidityInfo: Default;
	fn withdraw_fee(
		who: &T::AccountId,
		call: &<T as frame_system::Config>::RuntimeCall,
		dispatch_info: &DispatchInfoOf<<T as frame_system::Config>::RuntimeCall>,
		fee: Self::Balance,
		tip: Self::Balance,
	) -> Result<Self::LiquidityInfo, TransactionValidityError>;
	fn correct_and_deposit_fee(
		who: &T::AccountId,
		dispatch_info: &DispatchInfoOf<<T as frame_system::Config>::RuntimeCall>,
		post_info: &PostDispatchInfoOf<<T as frame_system::Config>::RuntimeCall>,
		corrected_fee: Self::Balance,
		tip: Self::Balance,
		already_withdrawn: Self::LiquidityInfo,
	) -> Result<(), TransactionValidityError>;
}
pub struct CurrencyAdapter<C, OU>(PhantomData<(C, OU)>);
type NegImb<C, T> = <C as Currency<<T as frame_system::Config>::AccountId>>::NegativeImbalance;
impl<T, C, OU> OnChargeTransaction<T> for CurrencyAdapter<C, OU>
where
	T: Config,
	C: Currency<<T as frame_system::Config>::AccountId>,
	C::Balance: MaybeSerializeDeserialize + TypeInfo + 'static,
	C::PositiveImbalance: Imbalance<C::Balance, Opposite = C::NegativeImbalance>,
	C::NegativeImbalance: Imbalance<C::Balance, Opposite = C::PositiveImbalance>,
	OU: OnUnbalanced<NegImb<C, T>>,
{
	type LiquidityInfo = Option<NegImb<C, T>>;
	type Balance = C::Balance;
	fn withdraw_fee(
		who: &T::AccountId,
		_call: &<T as frame_system::Config>::RuntimeCall,
		_info: &DispatchInfoOf<<T as frame_system::Config>::RuntimeCall>,
		fee: Self::Balance,
		tip: Self::Balance,
	) -> Result<Self::LiquidityInfo, TransactionValidityError> {
		if fee.is_zero() {
			return Ok(None);
		}
		let reason = if tip.is_zero() { WithdrawReasons::TRANSACTION_PAYMENT } else { WithdrawReasons::TRANSACTION_PAYMENT | WithdrawReasons::TIP };
		match C::withdraw(who, fee, reason, ExistenceRequirement::KeepAlive) {
			Ok(i) => Ok(Some(i)),
			Err(_) => Err(InvalidTransaction::Payment.into()),
		}
	}
	fn correct_and_deposit_fee(
		who: &T::AccountId,
		_info: &DispatchInfoOf<<T as frame_system::Config>::RuntimeCall>,
		_post: &PostDispatchInfoOf<<T as frame_system::Config>::RuntimeCall>,
		corrected_fee: Self::Balance,
		tip: Self::Balance,
		already: Self::LiquidityInfo,
	) -> Result<(), TransactionValidityError> {
		if let Some(paid) = already {
			let refund = paid.peek().saturating_sub(corrected_fee);
			let refund_imbalance = C::deposit_into_existing(who, refund).unwrap_or_else(|_| C::PositiveImbalance::zero());
			let adjusted = paid.offset(refund_imbalance).same().map_err(|_| TransactionValidityError::Invalid(InvalidTransaction::Payment))?;
			let (tip, fee) = adjusted.split(tip);
			OU::on_unbalanceds(Some(fee).into_iter().chain(Some(tip)));
		}
		Ok(())
	}
}
#[shim::frame_support::pallet]
pub mod pallet {
	use crate::prelude::*;
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type OnChargeTransaction: super::OnChargeTransaction<Self>;
		type OperationalFeeMultiplier: Get<u8>;
		type WeightToFee: WeightToFee<Balance = super::BalanceOf<Self>>;
		type LengthToFee: WeightToFee<Balance = super::BalanceOf<Self>>;
		type FeeMultiplierUpdate;
	}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::storage]
	pub type NextFeeMultiplier<T: Config> = StorageValue<_, shim::sp_runtime::FixedU128, OptionQuery>;
	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config> {
		TransactionFeePaid { who: T::AccountId, actual_fee: super::BalanceOf<T>, tip: super::BalanceOf<T> },
	}
}
pub type BalanceOf<T> = <<T as Config>::OnChargeTransaction as OnChargeTransaction<T>>::Balance;
impl<T: Config> Pallet<T>
where
	<T as frame_system::Config>::RuntimeCall: Dispatchable<Info = DispatchInfo, PostInfo = PostDispatchInfo>,
{
	/// Base fee is zero in the stand-in; the weight multiplier is one.
	pub fn compute_fee(len: u32, info: &DispatchInfo, tip: BalanceOf<T>) -> BalanceOf<T> {
		Self::compute(len, info.weight, tip, info.pays_fee)
	}
	pub fn compute_actual_fee(len: u32, info: &DispatchInfo, post: &PostDispatchInfo, tip: BalanceOf<T>) -> BalanceOf<T> {
		Self::compute(len, post.calc_actual_weight(info), tip, post.pays_fee(info))
	}
	fn compute(len: u32, w: Weight, tip: BalanceOf<T>, pays: Pays) -> BalanceOf<T> {
		if pays == Pays::Yes {
			T::LengthToFee::weight_to_fee(&Weight::from_parts(len as u64, 0))
				.saturating_add(T::WeightToFee::weight_to_fee(&w))
				.saturating_add(tip)
		} else {
			tip
		}
	}
}
impl<T: Config> Pallet<T> {
	pub fn next_fee_multiplier() -> shim::sp_runtime::FixedU128 {
		NextFeeMultiplier::<T>::get().unwrap_or_else(|| shim::sp_runtime::FixedU128::from_u32(1))
	}
	pub fn weight_to_fee(w: Weight) -> BalanceOf<T> {
		T::WeightToFee::weight_to_fee(&w)
	}
	pub fn length_to_fee(len: u32) -> BalanceOf<T> {
		T::LengthToFee::weight_to_fee(&Weight::from_parts(len as u64, 0))
	}
}
pub struct ChargeTransactionPayment<T: Config>(BalanceOf<T>);
impl<T: Config> Encode for ChargeTransactionPayment<T> {
	fn encode_to<W: shim::codec::Output + ?Sized>(&self, d: &mut W) {
		self.0.encode_to(d)
	}
}
impl<T: Config> Decode for ChargeTransactionPayment<T> {
	fn decode<I: shim::codec::Input>(i: &mut I) -> Result<Self, shim::codec::Error> {
		Ok(Self(Decode::decode(i)?))
	}
}
impl<T: Config> EncodeLike for ChargeTransactionPayment<T> {}
impl<T: Config> Clone for ChargeTransactionPayment<T> {
	fn clone(&self) -> Self {
		Self(self.0)
	}
}
impl<T: Config> PartialEq for ChargeTransactionPayment<T> {
	fn eq(&self, o: &Self) -> bool {
		self.0 == o.0
	}
}
impl<T: Config> Eq for ChargeTransactionPayment<T> {}
impl<T: Config> ChargeTransactionPayment<T>
where
	<T as frame_system::Config>::RuntimeCall: Dispatchable<Info = DispatchInfo, PostInfo = PostDispatchInfo>,
	BalanceOf<T>: Send + Sync,
{
	pub fn from(fee: BalanceOf<T>) -> Self {
		Self(fee)
	}
	pub fn tip(&self) -> BalanceOf<T> {
		self.0
	}
	fn withdraw_fee(
		&self,
		who: &T::AccountId,
		call: &<T as frame_system::Config>::RuntimeCall,
		info: &DispatchInfoOf<<T as frame_system::Config>::RuntimeCall>,
		len: usize,
	) -> Result<(BalanceOf<T>, <<T as Config>::OnChargeTransaction as OnChargeTransaction<T>>::LiquidityInfo), TransactionValidityError> {
		let fee = Pallet::<T>::compute_fee(len as u32, info, self.0);
		T::OnChargeTransaction::withdraw_fee(who, call, info, fee, self.0).map(|i| (fee, i))
	}
	pub fn get_priority(_info: &DispatchInfo, _len: usize, tip: BalanceOf<T>, _final_fee: BalanceOf<T>) -> TransactionPriority {
		use shim::sp_runtime::traits::UniqueSaturatedInto;
		let t: u64 = tip.unique_saturated_into();
		t.saturating_add(1)
	}
}
impl<T: Config> core::fmt::Debug for ChargeTransactionPayment<T> {
	fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
		write!(f, "ChargeTransactionPayment<{:?}>", self.0)
	}
}
impl<T: Config> SignedExtension for ChargeTransactionPayment<T>
where
	BalanceOf<T>: Send + Sync + From<u64>,
	<T as frame_system::Config>::RuntimeCall: Dispatchable<Info = DispatchInfo, PostInfo = PostDispatchInfo>,
	T: Send + Sync,
{
	const IDENTIFIER: &'static str = "ChargeTransactionPayment";
	type AccountId = T::AccountId;
	type Call = <T as frame_system::Config>::RuntimeCall;
	type AdditionalSigned = ();
	type Pre = (BalanceOf<T>, Self::AccountId, <<T as Config>::OnChargeTransaction as OnChargeTransaction<T>>::LiquidityInfo);
	fn additional_signed(&self) -> Result<(), TransactionValidityError> {
		Ok(())
	}
	fn validate(&self, who: &Self::AccountId, call: &Self::Call, info: &DispatchInfoOf<Self::Call>, len: usize) -> TransactionValidity {
		let (final_fee, _) = self.withdraw_fee(who, call, info, len)?;
		Ok(ValidTransaction { priority: Self::get_priority(info, len, self.0, final_fee), ..Default::default() })
	}
	fn pre_dispatch(self, who: &Self::AccountId, call: &Self::Call, info: &DispatchInfoOf<Self::Call>, len: usize) -> Result<Self::Pre, TransactionValidityError> {
		let (_fee, imbalance) = self.withdraw_fee(who, call, info, len)?;
		Ok((self.0, who.clone(), imbalance))
	}
	fn post_dispatch(
		pre: Option<Self::Pre>,
		info: &DispatchInfoOf<Self::Call>,
		post: &PostDispatchInfoOf<Self::Call>,
		len: usize,
		_result: &DispatchResult,
	) -> Result<(), TransactionValidityError> {
		if let Some((tip, who, imbalance)) = pre {
			let actual = Pallet::<T>::compute_actual_fee(len as u32, info, post, tip);
			T::OnChargeTransaction::correct_and_deposit_fee(&who, info, post, actual, tip, imbalance)?;
			Pallet::<T>::deposit_event(Event::TransactionFeePaid { who, actual_fee: actual, tip });
		}
		Ok(())
	}
}
