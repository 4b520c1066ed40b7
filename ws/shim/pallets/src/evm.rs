//! evm / fp_evm / pallet_evm: the types precompiles are written against and a reduced stack runner
//! (fee charging, value transfer and precompile execution; no bytecode interpreter).
pub mod core_ {
	pub use shim::sp_core::{H160, H256, U256};
	use std::borrow::Cow;
	#[derive(Clone, Debug, PartialEq, Eq)]
	pub struct Context {
		pub address: H160,
		pub caller: H160,
		pub apparent_value: U256,
	}
	#[derive(Clone, Debug, PartialEq, Eq)]
	pub struct Transfer {
		pub source: H160,
		pub target: H160,
		pub value: U256,
	}
	#[derive(Clone, Copy, Debug, PartialEq, Eq)]
	pub enum ExitSucceed {
		Stopped,
		Returned,
		Suicided,
	}
	#[derive(Clone, Copy, Debug, PartialEq, Eq)]
	pub enum ExitRevert {
		Reverted,
	}
	#[derive(Clone, Debug, PartialEq, Eq)]
	pub enum ExitError {
		StackUnderflow,
		StackOverflow,
		InvalidJump,
		InvalidRange,
		DesignatedInvalid,
		CallTooDeep,
		CreateCollision,
		CreateContractLimit,
		InvalidCode(u8),
		OutOfOffset,
		OutOfGas,
		OutOfFund,
		PCUnderflow,
		CreateEmpty,
		Other(Cow<'static, str>),
		MaxNonce,
	}
	#[derive(Clone, Debug, PartialEq, Eq)]
	pub enum ExitFatal {
		NotSupported,
		UnhandledInterrupt,
		CallErrorAsFatal(ExitError),
		Other(Cow<'static, str>),
	}
	#[derive(Clone, Debug, PartialEq, Eq)]
	pub enum ExitReason {
		Succeed(ExitSucceed),
		Error(ExitError),
		Revert(ExitRevert),
		Fatal(ExitFatal),
	}
	impl ExitReason {
		pub fn is_succeed(&self) -> bool {
			matches!(self, Self::Succeed(_))
		}
		pub fn is_revert(&self) -> bool {
			matches!(self, Self::Revert(_))
		}
		pub fn is_error(&self) -> bool {
			matches!(self, Self::Error(_))
		}
		pub fn is_fatal(&self) -> bool {
			matches!(self, Self::Fatal(_))
		}
	}
	impl From<ExitSucceed> for ExitReason {
		fn from(s: ExitSucceed) -> Self {
			Self::Succeed(s)
		}
	}
	impl From<ExitRevert> for ExitReason {
		fn from(s: ExitRevert) -> Self {
			Self::Revert(s)
		}
	}
	impl From<ExitError> for ExitReason {
		fn from(s: ExitError) -> Self {
			Self::Error(s)
		}
	}
	impl From<ExitFatal> for ExitReason {
		fn from(s: ExitFatal) -> Self {
			Self::Fatal(s)
		}
	}
	#[derive(Clone, Debug, PartialEq, Eq)]
	pub struct Log {
		pub address: H160,
		pub topics: Vec<H256>,
		pub data: Vec<u8>,
	}
	/// The gas parameters read by /repo (values of evm's `Config::london()`).
	#[derive(Clone, Debug)]
	pub struct Config {
		pub gas_account_access_cold: u64,
		pub gas_storage_read_warm: u64,
		pub gas_call: u64,
		pub increase_state_access_gas: bool,
		pub empty_considered_exists: bool,
	}
	impl Config {
		pub const fn london() -> Config {
			Config {
				gas_account_access_cold: 2600,
				gas_storage_read_warm: 100,
				gas_call: 0,
				increase_state_access_gas: true,
				empty_considered_exists: false,
			}
		}
		pub const fn shanghai() -> Config {
			Self::london()
		}
	}
	pub mod executor {
		pub mod stack {
			pub use super::super::super::fp::*;
		}
	}
}
pub mod fp {
	pub use super::core_::*;
	#[derive(Clone, Debug, PartialEq, Eq)]
	pub struct PrecompileOutput {
		pub exit_status: ExitSucceed,
		pub output: Vec<u8>,
	}
	#[derive(Clone, Debug, PartialEq, Eq)]
	pub enum PrecompileFailure {
		Error { exit_status: ExitError },
		Revert { exit_status: ExitRevert, output: Vec<u8> },
		Fatal { exit_status: ExitFatal },
	}
	impl From<ExitError> for PrecompileFailure {
		fn from(exit_status: ExitError) -> Self {
			Self::Error { exit_status }
		}
	}
	pub type PrecompileResult = Result<PrecompileOutput, PrecompileFailure>;
	#[derive(Clone, Debug, PartialEq, Eq)]
	pub enum IsPrecompileResult {
		Answer { is_precompile: bool, extra_cost: u64 },
		OutOfGas,
	}
	pub trait PrecompileHandle {
		fn call(
			&mut self,
			to: H160,
			transfer: Option<Transfer>,
			input: Vec<u8>,
			gas_limit: Option<u64>,
			is_static: bool,
			context: &Context,
		) -> (ExitReason, Vec<u8>);
		fn record_cost(&mut self, cost: u64) -> Result<(), ExitError>;
		fn record_external_cost(&mut self, ref_time: Option<u64>, proof_size: Option<u64>) -> Result<(), ExitError>;
		fn refund_external_cost(&mut self, ref_time: Option<u64>, proof_size: Option<u64>);
		fn remaining_gas(&self) -> u64;
		fn log(&mut self, address: H160, topics: Vec<H256>, data: Vec<u8>) -> Result<(), ExitError>;
		fn code_address(&self) -> H160;
		fn input(&self) -> &[u8];
		fn context(&self) -> &Context;
		fn is_static(&self) -> bool;
		fn gas_limit(&self) -> Option<u64>;
	}
	pub trait Precompile {
		fn execute(handle: &mut impl PrecompileHandle) -> PrecompileResult;
	}
	pub trait PrecompileSet {
		fn execute(&self, handle: &mut impl PrecompileHandle) -> Option<PrecompileResult>;
		fn is_precompile(&self, address: H160, remaining_gas: u64) -> IsPrecompileResult;
	}
	impl PrecompileSet for () {
		fn execute(&self, _: &mut impl PrecompileHandle) -> Option<PrecompileResult> {
			None
		}
		fn is_precompile(&self, _: H160, _: u64) -> IsPrecompileResult {
			IsPrecompileResult::Answer { is_precompile: false, extra_cost: 0 }
		}
	}
	pub trait LinearCostPrecompile {}
	#[derive(Clone, Debug, PartialEq, Eq)]
	pub struct UsedGas {
		pub standard: U256,
		pub effective: U256,
	}
	#[derive(Clone, Debug, PartialEq, Eq)]
	pub struct ExecutionInfoV2<T> {
		pub exit_reason: ExitReason,
		pub value: T,
		pub used_gas: UsedGas,
		pub weight_info: Option<()>,
		pub logs: Vec<Log>,
	}
	pub type CallInfo = ExecutionInfoV2<Vec<u8>>;
	pub type CreateInfo = ExecutionInfoV2<H160>;
	pub trait FeeCalculator {
		fn min_gas_price() -> (U256, shim::frame_support::weights::Weight);
	}
	impl FeeCalculator for () {
		fn min_gas_price() -> (U256, shim::frame_support::weights::Weight) {
			(U256::zero(), Default::default())
		}
	}
	#[derive(Clone, Debug, PartialEq, Eq)]
	pub struct Vicinity {
		pub gas_price: U256,
		pub origin: H160,
	}
	#[derive(Clone, Copy, Debug, PartialEq, Eq)]
	pub enum InvalidEvmTransactionError {
		GasLimitTooLow,
		GasLimitTooHigh,
		GasPriceTooLow,
		PriorityFeeTooHigh,
		BalanceTooLow,
		TxNonceTooLow,
		TxNonceTooHigh,
		InvalidPaymentInput,
		InvalidChainId,
	}
	/// what the harness needs of fp-evm's transaction validation
	#[derive(Clone, Debug, Default)]
	pub struct CheckEvmTransactionInput {
		pub to: Option<H160>,
		pub gas_limit: U256,
		pub gas_price: Option<U256>,
		pub max_fee_per_gas: Option<U256>,
		pub value: U256,
	}
	pub struct CheckEvmTransaction<E> {
		pub transaction: CheckEvmTransactionInput,
		pub _m: core::marker::PhantomData<E>,
	}
	pub trait HandleTxValidation<E: From<InvalidEvmTransactionError>> {
		fn with_balance_for(evm_config: &CheckEvmTransaction<E>, who: &Account) -> Result<(), E> {
			let t = &evm_config.transaction;
			let price = t.max_fee_per_gas.or(t.gas_price).ok_or(InvalidEvmTransactionError::InvalidPaymentInput)?;
			let total = t.value.saturating_add(price.saturating_mul(t.gas_limit));
			if who.balance < total {
				return Err(InvalidEvmTransactionError::BalanceTooLow.into());
			}
			Ok(())
		}
	}
	impl<E: From<InvalidEvmTransactionError>> HandleTxValidation<E> for () {}
	pub fn weight_per_gas(block_gas_limit: u64, txn_ratio: shim::sp_runtime::Perbill, weight_millisec_per_block: u64) -> u64 {
		let weight_per_block = 1_000_000_000u64.saturating_mul(weight_millisec_per_block);
		let weight_per_gas = (txn_ratio * weight_per_block).saturating_div(block_gas_limit);
		assert!(weight_per_gas >= 1);
		weight_per_gas
	}
	pub mod weight {
		pub use super::weight_per_gas;
	}
	#[derive(Clone, Debug, Default, PartialEq, Eq)]
	pub struct Account {
		pub nonce: U256,
		pub balance: U256,
	}
}
pub mod pallet_evm {
	use crate::prelude::*;
	pub use super::fp::*;
	pub type EvmConfig = Config_;
	pub use super::core_::Config as Config_;
	pub use pallet::*;
	pub use pallet::Config;
	use shim::sp_runtime::traits::UniqueSaturatedInto;
	use shim::sp_runtime::transaction_validity::{InvalidTransaction, TransactionValidityError};
	pub trait WeightInfo {
		fn withdraw() -> Weight {
			Weight::zero()
		}
	}
	impl WeightInfo for () {}
	pub mod weights {
		pub struct SubstrateWeight<T>(core::marker::PhantomData<T>);
		impl<T> super::WeightInfo for SubstrateWeight<T> {}
		pub use super::WeightInfo;
	}
	pub trait AddressMapping<A> {
		fn into_account_id(address: H160) -> A;
	}
	pub struct IdentityAddressMapping;
	impl<T: From<H160>> AddressMapping<T> for IdentityAddressMapping {
		fn into_account_id(a: H160) -> T {
			a.into()
		}
	}
	pub trait BlockHashMapping {
		fn block_hash(number: u32) -> H256;
	}
	pub trait GasWeightMapping {
		fn gas_to_weight(gas: u64, without_base_weight: bool) -> Weight;
		fn weight_to_gas(weight: Weight) -> u64;
	}
	pub struct FixedGasWeightMapping<T>(PhantomData<T>);
	impl<T: Config> GasWeightMapping for FixedGasWeightMapping<T>
	where
		T::WeightPerGas: Get<Weight>,
	{
		fn gas_to_weight(gas: u64, _without_base_weight: bool) -> Weight {
			T::WeightPerGas::get().saturating_mul(gas)
		}
		fn weight_to_gas(weight: Weight) -> u64 {
			weight.ref_time() / T::WeightPerGas::get().ref_time()
		}
	}
	pub trait EnsureAddressOrigin<OuterOrigin> {
		type Success;
		fn ensure_address_origin(address: &H160, origin: OuterOrigin) -> Result<Self::Success, shim::sp_runtime::traits::BadOrigin> {
			Self::try_address_origin(address, origin).map_err(|_| shim::sp_runtime::traits::BadOrigin)
		}
		fn try_address_origin(address: &H160, origin: OuterOrigin) -> Result<Self::Success, OuterOrigin>;
	}
	pub struct EnsureAddressNever<A>(PhantomData<A>);
	impl<O, A> EnsureAddressOrigin<O> for EnsureAddressNever<A> {
		type Success = A;
		fn try_address_origin(_: &H160, o: O) -> Result<A, O> {
			Err(o)
		}
	}
	pub struct EnsureAddressRoot<A>(PhantomData<A>);
	impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A> EnsureAddressOrigin<O> for EnsureAddressRoot<A> {
		type Success = ();
		fn try_address_origin(_: &H160, o: O) -> Result<(), O> {
			o.into().and_then(|o| match o {
				RawOrigin::Root => Ok(()),
				r => Err(O::from(r)),
			})
		}
	}
	pub trait OnCreate<T> {
		fn on_create(owner: H160, contract: H160);
	}
	impl<T> OnCreate<T> for () {
		fn on_create(_: H160, _: H160) {}
	}
	pub trait OnChargeEVMTransaction<T: Config> {
		type LiquidityInfo: Default;
		fn withdraw_fee(who: &H160, fee: U256) -> Result<Self::LiquidityInfo, Error<T>>;
		fn correct_and_deposit_fee(who: &H160, corrected_fee: U256, base_fee: U256, already: Self::LiquidityInfo) -> Self::LiquidityInfo;
		fn pay_priority_fee(tip: Self::LiquidityInfo);
	}
	impl<T: Config> OnChargeEVMTransaction<T> for ()
	where
		BalanceOf<T>: TryFrom<U256> + Into<U256>,
	{
		type LiquidityInfo = Option<NegImb<T>>;
		fn withdraw_fee(who: &H160, fee: U256) -> Result<Self::LiquidityInfo, Error<T>> {
			EVMCurrencyAdapter::<T::Currency, ()>::withdraw_fee_(who, fee)
		}
		fn correct_and_deposit_fee(who: &H160, corrected_fee: U256, base_fee: U256, already: Self::LiquidityInfo) -> Self::LiquidityInfo {
			EVMCurrencyAdapter::<T::Currency, ()>::correct_::<T>(who, corrected_fee, base_fee, already)
		}
		fn pay_priority_fee(_: Self::LiquidityInfo) {}
	}
	pub type NegImb<T> = <<T as Config>::Currency as Currency<<T as frame_system::Config>::AccountId>>::NegativeImbalance;
	pub struct EVMCurrencyAdapter<C, OU>(PhantomData<(C, OU)>);
	impl<C, OU> EVMCurrencyAdapter<C, OU> {
		fn withdraw_fee_<T: Config<Currency = C>>(who: &H160, fee: U256) -> Result<Option<C::NegativeImbalance>, Error<T>>
		where
			C: Currency<T::AccountId>,
			C::Balance: TryFrom<U256>,
		{
			if fee.is_zero() {
				return Ok(None)
			}
			let account_id = T::AddressMapping::into_account_id(*who);
			let fee: C::Balance = fee.try_into().map_err(|_| Error::<T>::FeeOverflow)?;
			C::withdraw(&account_id, fee, tokens::currency::WithdrawReasons::FEE, tokens::currency::ExistenceRequirement::AllowDeath)
				.map(Some)
				.map_err(|_| Error::<T>::BalanceLow)
		}
		fn correct_<T: Config<Currency = C>>(who: &H160, corrected_fee: U256, _base_fee: U256, already: Option<C::NegativeImbalance>) -> Option<C::NegativeImbalance>
		where
			C: Currency<T::AccountId>,
			C::Balance: TryFrom<U256> + Into<U256>,
		{
			if let Some(paid) = already {
				let account_id = T::AddressMapping::into_account_id(*who);
				let corrected: C::Balance = corrected_fee.try_into().unwrap_or_else(|_| C::Balance::max_value());
				let refund = paid.peek().saturating_sub(corrected);
				let r = C::deposit_into_existing(&account_id, refund).unwrap_or_else(|_| C::PositiveImbalance::zero());
				let adjusted = paid.offset(r).same().unwrap_or_else(|_| C::NegativeImbalance::zero());
				return Some(adjusted)
			}
			None
		}
	}
	impl<T: Config<Currency = C>, C, OU> OnChargeEVMTransaction<T> for EVMCurrencyAdapter<C, OU>
	where
		C: Currency<T::AccountId>,
		C::Balance: TryFrom<U256> + Into<U256>,
		OU: tokens::currency::OnUnbalanced<C::NegativeImbalance>,
	{
		type LiquidityInfo = Option<C::NegativeImbalance>;
		fn withdraw_fee(who: &H160, fee: U256) -> Result<Self::LiquidityInfo, Error<T>> {
			Self::withdraw_fee_(who, fee)
		}
		fn correct_and_deposit_fee(who: &H160, corrected_fee: U256, base_fee: U256, already: Self::LiquidityInfo) -> Self::LiquidityInfo {
			let base: C::Balance = base_fee.try_into().unwrap_or_else(|_| C::Balance::max_value());
			let adjusted = Self::correct_::<T>(who, corrected_fee, base_fee, already)?;
			let (base, tip) = adjusted.split(base);
			OU::on_unbalanced(base);
			Some(tip)
		}
		fn pay_priority_fee(tip: Self::LiquidityInfo) {
			drop(tip)
		}
	}
	pub static EVM_CONFIG: Config_ = Config_::london();
	pub type BalanceOf<T> = <<T as Config>::Currency as Currency<<T as frame_system::Config>::AccountId>>::Balance;
	#[derive(Debug)]
	pub struct RunnerError<E: Into<DispatchError>> {
		pub error: E,
		pub weight: Weight,
	}
	pub trait Runner<T: Config> {
		type Error: Into<DispatchError>;
		fn validate(
			source: H160,
			target: Option<H160>,
			input: Vec<u8>,
			value: U256,
			gas_limit: u64,
			max_fee_per_gas: Option<U256>,
			max_priority_fee_per_gas: Option<U256>,
			nonce: Option<U256>,
			access_list: Vec<(H160, Vec<H256>)>,
			is_transactional: bool,
			weight_limit: Option<Weight>,
			proof_size_base_cost: Option<u64>,
			evm_config: &EvmConfig,
		) -> Result<(), RunnerError<Self::Error>>;
		fn call(
			source: H160,
			target: H160,
			input: Vec<u8>,
			value: U256,
			gas_limit: u64,
			max_fee_per_gas: Option<U256>,
			max_priority_fee_per_gas: Option<U256>,
			nonce: Option<U256>,
			access_list: Vec<(H160, Vec<H256>)>,
			is_transactional: bool,
			validate: bool,
			weight_limit: Option<Weight>,
			proof_size_base_cost: Option<u64>,
			config: &EvmConfig,
		) -> Result<CallInfo, RunnerError<Self::Error>>;
		fn create(
			source: H160,
			init: Vec<u8>,
			value: U256,
			gas_limit: u64,
			max_fee_per_gas: Option<U256>,
			max_priority_fee_per_gas: Option<U256>,
			nonce: Option<U256>,
			access_list: Vec<(H160, Vec<H256>)>,
			is_transactional: bool,
			validate: bool,
			weight_limit: Option<Weight>,
			proof_size_base_cost: Option<u64>,
			config: &EvmConfig,
		) -> Result<CreateInfo, RunnerError<Self::Error>>;
		fn create2(
			source: H160,
			init: Vec<u8>,
			salt: H256,
			value: U256,
			gas_limit: u64,
			max_fee_per_gas: Option<U256>,
			max_priority_fee_per_gas: Option<U256>,
			nonce: Option<U256>,
			access_list: Vec<(H160, Vec<H256>)>,
			is_transactional: bool,
			validate: bool,
			weight_limit: Option<Weight>,
			proof_size_base_cost: Option<u64>,
			config: &EvmConfig,
		) -> Result<CreateInfo, RunnerError<Self::Error>>;
	}
	pub mod runner {
		pub use super::{Runner, RunnerError};
		pub mod stack {
			use super::super::*;
			/// Reduced stack runner: gas price check, fee charge, nonce bump, value transfer; no code is executed.
			#[derive(Default)]
			pub struct Runner<T: Config>(PhantomData<T>);
			impl<T: Config> Runner<T>
			where
				BalanceOf<T>: TryFrom<U256> + Into<U256>,
			{
				/// fee charge, nonce, then `run` in its own storage layer; logs of the applied frames
				fn exec<R>(
					source: H160,
					value: U256,
					gas_limit: u64,
					max_fee: Option<U256>,
					prio: Option<U256>,
					transactional: bool,
					validate: bool,
					run: impl FnOnce(&exec::Ex<T>) -> (ExitReason, R, u64),
				) -> Result<(ExitReason, R, UsedGas, Vec<Log>), RunnerError<Error<T>>> {
					let (base_fee, weight) = T::FeeCalculator::min_gas_price();
					let price = match (max_fee, prio) {
						(Some(m), Some(p)) => m.min(base_fee.saturating_add(p)),
						(Some(m), None) => m,
						_ if !transactional => U256::zero(),
						_ => base_fee,
					};
					if transactional && price < base_fee {
						return Err(RunnerError { error: Error::<T>::GasPriceTooLow, weight })
					}
					let fee = price.checked_mul(U256::from(gas_limit)).ok_or(RunnerError { error: Error::<T>::FeeOverflow, weight })?;
					if validate {
						let need = max_fee.unwrap_or_default().saturating_mul(U256::from(gas_limit)).max(fee).saturating_add(value);
						let (acc, _) = super::super::Pallet::<T>::account_basic(&source);
						if acc.balance < need {
							return Err(RunnerError { error: Error::<T>::BalanceLow, weight })
						}
					}
					let li = T::OnChargeTransaction::withdraw_fee(&source, fee).map_err(|e| RunnerError { error: e, weight })?;
					let account = T::AddressMapping::into_account_id(source);
					frame_system::Pallet::<T>::inc_account_nonce(&account);
					let ex = exec::Ex::<T>::new();
					let (reason, out, used) = run(&ex);
					let used = U256::from(used.saturating_add(21_000).min(gas_limit));
					let actual = price.saturating_mul(used);
					let tip = T::OnChargeTransaction::correct_and_deposit_fee(&source, actual, base_fee.saturating_mul(used), li);
					T::OnChargeTransaction::pay_priority_fee(tip);
					let logs = ex.take_logs().into_iter().map(|l| l.log).collect();
					Ok((reason, out, UsedGas { standard: used, effective: used }, logs))
				}
				fn do_create(
					source: H160,
					addr: H160,
					init: Vec<u8>,
					value: U256,
					gas_limit: u64,
					max_fee: Option<U256>,
					prio: Option<U256>,
					tr: bool,
					v: bool,
				) -> Result<CreateInfo, RunnerError<Error<T>>> {
					let (exit_reason, _, used_gas, logs) = Self::exec(source, value, gas_limit, max_fee, prio, tr, v, |ex| {
						let t = (!value.is_zero()).then(|| Transfer { source, target: addr, value });
						shim::ext::begin();
						if let Some(t) = t {
							if let Err(e) = ex.transfer(&t) {
								shim::ext::rollback();
								return (e.into(), Vec::<u8>::new(), 0)
							}
						}
						super::super::Pallet::<T>::create_account(addr, init.clone());
						T::OnCreate::on_create(source, addr);
						shim::ext::commit();
						(ExitSucceed::Returned.into(), vec![], 32_000 + 200 * init.len() as u64)
					})?;
					Ok(CreateInfo { exit_reason, value: addr, used_gas, weight_info: None, logs })
				}
			}
			impl<T: Config> super::super::Runner<T> for Runner<T>
			where
				BalanceOf<T>: TryFrom<U256> + Into<U256>,
			{
				type Error = Error<T>;
				fn validate(
					_: H160,
					_: Option<H160>,
					_: Vec<u8>,
					_: U256,
					_: u64,
					_: Option<U256>,
					_: Option<U256>,
					_: Option<U256>,
					_: Vec<(H160, Vec<H256>)>,
					_: bool,
					_: Option<Weight>,
					_: Option<u64>,
					_: &EvmConfig,
				) -> Result<(), RunnerError<Error<T>>> {
					Ok(())
				}
				fn call(
					source: H160,
					target: H160,
					input: Vec<u8>,
					value: U256,
					gas_limit: u64,
					max_fee: Option<U256>,
					prio: Option<U256>,
					_n: Option<U256>,
					_a: Vec<(H160, Vec<H256>)>,
					tr: bool,
					v: bool,
					_w: Option<Weight>,
					_p: Option<u64>,
					_c: &EvmConfig,
				) -> Result<CallInfo, RunnerError<Error<T>>> {
					let (exit_reason, out, used_gas, logs) = Self::exec(source, value, gas_limit, max_fee, prio, tr, v, |ex| {
						let t = Some(Transfer { source, target, value });
						ex.call_inner(target, t, input, gas_limit, false, Context { address: target, caller: source, apparent_value: value }, 0)
					})?;
					Ok(CallInfo { exit_reason, value: out, used_gas, weight_info: None, logs })
				}
				fn create(
					source: H160,
					init: Vec<u8>,
					value: U256,
					gas_limit: u64,
					max_fee: Option<U256>,
					prio: Option<U256>,
					_n: Option<U256>,
					_a: Vec<(H160, Vec<H256>)>,
					tr: bool,
					v: bool,
					_w: Option<Weight>,
					_p: Option<u64>,
					_c: &EvmConfig,
				) -> Result<CreateInfo, RunnerError<Error<T>>> {
					let (acc, _) = super::super::Pallet::<T>::account_basic(&source);
					let mut b = source.as_bytes().to_vec();
					b.extend(acc.nonce.low_u64().to_be_bytes());
					let addr = H160::from_slice(&shim::hashing::keccak_256(&b)[12..]);
					Self::do_create(source, addr, init, value, gas_limit, max_fee, prio, tr, v)
				}
				fn create2(
					source: H160,
					init: Vec<u8>,
					salt: H256,
					value: U256,
					gas_limit: u64,
					max_fee: Option<U256>,
					prio: Option<U256>,
					_n: Option<U256>,
					_a: Vec<(H160, Vec<H256>)>,
					tr: bool,
					v: bool,
					_w: Option<Weight>,
					_p: Option<u64>,
					_c: &EvmConfig,
				) -> Result<CreateInfo, RunnerError<Error<T>>> {
					let mut b = vec![0xff];
					b.extend(source.as_bytes());
					b.extend(salt.as_bytes());
					b.extend(shim::hashing::keccak_256(&init));
					let addr = H160::from_slice(&shim::hashing::keccak_256(&b)[12..]);
					Self::do_create(source, addr, init, value, gas_limit, max_fee, prio, tr, v)
				}
			}
		}
	}
	/// The call side of the stack executor: frames with their own storage layer, static flag
	/// inheritance, value transfer, precompile dispatch, and scripted contracts in place of bytecode.
	pub mod exec {
		use super::*;
		use std::cell::{Cell, RefCell};
		use std::collections::BTreeMap;
		use std::rc::Rc;
		pub type Script = Rc<dyn Fn(&mut dyn PrecompileHandle) -> (ExitReason, Vec<u8>)>;
		thread_local! {
			static SCRIPTS: RefCell<BTreeMap<H160, Script>> = RefCell::new(BTreeMap::new());
		}
		/// give `address` a behaviour (None removes it)
		pub fn script(address: H160, s: Option<Script>) {
			SCRIPTS.with(|m| match s {
				Some(s) => {
					m.borrow_mut().insert(address, s);
				},
				None => {
					m.borrow_mut().remove(&address);
				},
			});
		}
		#[derive(Clone, Debug, PartialEq, Eq)]
		pub struct LogRec {
			pub log: Log,
			/// emitted by a frame that may not change state
			pub in_static: bool,
		}
		pub struct Ex<T: Config> {
			precompiles: T::PrecompilesType,
			logs: RefCell<Vec<LogRec>>,
			/// value moved by a frame that may not change state
			pub static_transfers: Cell<u32>,
		}
		pub struct Handle<'a, T: Config> {
			pub ex: &'a Ex<T>,
			pub code_address: H160,
			pub input: Vec<u8>,
			pub context: Context,
			pub is_static: bool,
			pub gas: u64,
			pub used: u64,
			pub depth: u32,
		}
		impl<T: Config> Ex<T> {
			pub fn new() -> Self {
				Ex { precompiles: T::PrecompilesValue::get(), logs: RefCell::new(vec![]), static_transfers: Cell::new(0) }
			}
			pub fn take_logs(&self) -> Vec<LogRec> {
				std::mem::take(&mut *self.logs.borrow_mut())
			}
			pub fn precompiles(&self) -> &T::PrecompilesType {
				&self.precompiles
			}
			pub fn transfer(&self, t: &Transfer) -> Result<(), ExitError>
			where
				BalanceOf<T>: TryFrom<U256>,
			{
				let from = T::AddressMapping::into_account_id(t.source);
				let to = T::AddressMapping::into_account_id(t.target);
				let v: BalanceOf<T> = t.value.try_into().map_err(|_| ExitError::OutOfFund)?;
				T::Currency::transfer(&from, &to, v, tokens::currency::ExistenceRequirement::AllowDeath).map_err(|_| ExitError::OutOfFund)
			}
			/// one call frame; returns (reason, output, gas used)
			pub fn call_inner(
				&self,
				code_address: H160,
				transfer: Option<Transfer>,
				input: Vec<u8>,
				gas: u64,
				is_static: bool,
				context: Context,
				depth: u32,
			) -> (ExitReason, Vec<u8>, u64)
			where
				BalanceOf<T>: TryFrom<U256>,
			{
				if depth > 1024 {
					return (ExitError::CallTooDeep.into(), vec![], 0)
				}
				let mark = self.logs.borrow().len();
				shim::ext::begin();
				if let Some(t) = &transfer {
					if is_static && !t.value.is_zero() {
						self.static_transfers.set(self.static_transfers.get() + 1);
					}
					if let Err(e) = self.transfer(t) {
						shim::ext::rollback();
						return (e.into(), vec![], 0)
					}
				}
				let mut h = Handle { ex: self, code_address, input, context, is_static, gas, used: 0, depth };
				let (reason, out) = match self.precompiles.execute(&mut h) {
					Some(Ok(o)) => (o.exit_status.into(), o.output),
					Some(Err(PrecompileFailure::Error { exit_status })) => (exit_status.into(), vec![]),
					Some(Err(PrecompileFailure::Revert { exit_status, output })) => (exit_status.into(), output),
					Some(Err(PrecompileFailure::Fatal { exit_status })) => (ExitReason::Fatal(exit_status), vec![]),
					None => {
						let s = SCRIPTS.with(|m| m.borrow().get(&code_address).cloned());
						match s {
							Some(s) => s(&mut h),
							None => (ExitSucceed::Stopped.into(), vec![]),
						}
					},
				};
				let used = if reason.is_error() { h.gas } else { h.used };
				if reason.is_succeed() {
					shim::ext::commit();
				} else {
					shim::ext::rollback();
					self.logs.borrow_mut().truncate(mark);
				}
				(reason, out, used)
			}
		}
		impl<'a, T: Config> PrecompileHandle for Handle<'a, T>
		where
			BalanceOf<T>: TryFrom<U256>,
		{
			fn call(
				&mut self,
				to: H160,
				transfer: Option<Transfer>,
				input: Vec<u8>,
				gas_limit: Option<u64>,
				is_static: bool,
				context: &Context,
			) -> (ExitReason, Vec<u8>) {
				let left = self.gas - self.used;
				let gas = gas_limit.unwrap_or(left).min(left);
				let (r, out, used) = self.ex.call_inner(to, transfer, input, gas, is_static || self.is_static, context.clone(), self.depth + 1);
				self.used += used;
				(r, out)
			}
			fn record_cost(&mut self, cost: u64) -> Result<(), ExitError> {
				let n = self.used.checked_add(cost).ok_or(ExitError::OutOfGas)?;
				if n > self.gas {
					return Err(ExitError::OutOfGas)
				}
				self.used = n;
				Ok(())
			}
			fn record_external_cost(&mut self, _: Option<u64>, _: Option<u64>) -> Result<(), ExitError> {
				Ok(())
			}
			fn refund_external_cost(&mut self, _: Option<u64>, _: Option<u64>) {}
			fn remaining_gas(&self) -> u64 {
				self.gas - self.used
			}
			fn log(&mut self, address: H160, topics: Vec<H256>, data: Vec<u8>) -> Result<(), ExitError> {
				self.ex.logs.borrow_mut().push(LogRec { log: Log { address, topics, data }, in_static: self.is_static });
				Ok(())
			}
			fn code_address(&self) -> H160 {
				self.code_address
			}
			fn input(&self) -> &[u8] {
				&self.input
			}
			fn context(&self) -> &Context {
				&self.context
			}
			fn is_static(&self) -> bool {
				self.is_static
			}
			fn gas_limit(&self) -> Option<u64> {
				Some(self.gas)
			}
		}
	}
	#[shim::frame_support::pallet]
	pub mod pallet {
		use super::*;
		#[pallet::config]
		pub trait Config: frame_system::Config {
			type FeeCalculator: FeeCalculator;
			type GasWeightMapping: GasWeightMapping;
			type WeightPerGas;
			type BlockHashMapping: BlockHashMapping;
			type CallOrigin: EnsureAddressOrigin<Self::RuntimeOrigin>;
			type WithdrawOrigin: EnsureAddressOrigin<Self::RuntimeOrigin, Success = Self::AccountId>;
			type AddressMapping: AddressMapping<Self::AccountId>;
			type Currency: Currency<Self::AccountId> + tokens::fungible::Inspect<Self::AccountId>;
			type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
			type PrecompilesType: PrecompileSet;
			type PrecompilesValue: Get<Self::PrecompilesType>;
			type ChainId;
			type BlockGasLimit;
			type Runner: Runner<Self>;
			type OnChargeTransaction: OnChargeEVMTransaction<Self>;
			type OnCreate: OnCreate<Self>;
			type FindAuthor: FindAuthor<H160>;
			type GasLimitPovSizeRatio;
			type HandleTxValidation;
			type Timestamp: Time;
			type WeightInfo: WeightInfo;
			fn config() -> &'static EvmConfig {
				&EVM_CONFIG
			}
		}
		#[pallet::pallet]
		pub struct Pallet<T>(_);
		#[pallet::call]
		impl<T: Config> Pallet<T> {
			#[pallet::call_index(0)]
			#[pallet::weight(T::WeightInfo::withdraw())]
			pub fn withdraw(origin: OriginFor<T>, address: H160, value: BalanceOf<T>) -> DispatchResult {
				let dest = T::WithdrawOrigin::ensure_address_origin(&address, origin)?;
				let account = T::AddressMapping::into_account_id(address);
				T::Currency::transfer(&account, &dest, value, tokens::currency::ExistenceRequirement::AllowDeath)
			}
			#[pallet::call_index(1)]
			#[pallet::weight(T::GasWeightMapping::gas_to_weight(*gas_limit, true))]
			pub fn call(
				origin: OriginFor<T>,
				source: H160,
				target: H160,
				input: Vec<u8>,
				value: U256,
				gas_limit: u64,
				max_fee_per_gas: U256,
				max_priority_fee_per_gas: Option<U256>,
				nonce: Option<U256>,
				access_list: Vec<(H160, Vec<H256>)>,
			) -> DispatchResultWithPostInfo {
				T::CallOrigin::ensure_address_origin(&source, origin)?;
				T::Runner::call(
					source,
					target,
					input,
					value,
					gas_limit,
					Some(max_fee_per_gas),
					max_priority_fee_per_gas,
					nonce,
					access_list,
					true,
					true,
					None,
					None,
					T::config(),
				)
				.map_err(|e| e.error.into())?;
				Self::deposit_event(Event::Executed { address: target });
				Ok(().into())
			}
		}
		#[pallet::event]
		#[pallet::generate_deposit(pub(super) fn deposit_event)]
		pub enum Event<T: Config> {
			Created { address: H160 },
			Executed { address: H160 },
			ExecutedFailed { address: H160 },
		}
		#[pallet::error]
		pub enum Error<T> {
			BalanceLow,
			FeeOverflow,
			PaymentOverflow,
			WithdrawFailed,
			GasPriceTooLow,
			InvalidNonce,
			GasLimitTooLow,
			GasLimitTooHigh,
			Undefined,
			Reentrancy,
			TransactionMustComeFromEOA,
		}
		#[pallet::storage]
		pub type AccountCodes<T: Config> = StorageMap<_, Blake2_128Concat, H160, Vec<u8>, ValueQuery>;
		#[pallet::storage]
		pub type AccountStorages<T: Config> = StorageDoubleMap<_, Blake2_128Concat, H160, Blake2_128Concat, H256, H256, ValueQuery>;
	}
	impl<T: Config> Pallet<T> {
		pub fn create_account(address: H160, code: Vec<u8>) {
			if code.is_empty() {
				return
			}
			if !AccountCodes::<T>::contains_key(&address) {
				let account_id = T::AddressMapping::into_account_id(address);
				frame_system::Pallet::<T>::inc_sufficients(&account_id);
			}
			AccountCodes::<T>::insert(address, code);
		}
		pub fn remove_account(address: &H160) {
			if AccountCodes::<T>::contains_key(address) {
				let account_id = T::AddressMapping::into_account_id(*address);
				frame_system::Pallet::<T>::dec_sufficients(&account_id);
			}
			AccountCodes::<T>::remove(address);
		}
		pub fn is_account_empty(address: &H160) -> bool
		where
			BalanceOf<T>: Into<U256>,
		{
			let (account, _) = Self::account_basic(address);
			let code_len = AccountCodes::<T>::get(address).len();
			account.nonce == U256::zero() && account.balance == U256::zero() && code_len == 0
		}
		pub fn account_basic(address: &H160) -> (Account, Weight)
		where
			BalanceOf<T>: Into<U256>,
		{
			let account_id = T::AddressMapping::into_account_id(*address);
			let nonce: u128 = frame_system::Pallet::<T>::account_nonce(&account_id).unique_saturated_into();
			let balance: u128 =
				<T::Currency as tokens::fungible::Inspect<T::AccountId>>::reducible_balance(&account_id, tokens::Preservation::Preserve, tokens::Fortitude::Polite).unique_saturated_into();
			(Account { nonce: U256::from(nonce), balance: balance.into() }, Weight::zero())
		}
	}
	impl<T> From<InvalidEvmTransactionError> for Error<T> {
		fn from(e: InvalidEvmTransactionError) -> Self {
			match e {
				InvalidEvmTransactionError::BalanceTooLow => Error::BalanceLow,
				InvalidEvmTransactionError::GasPriceTooLow => Error::GasPriceTooLow,
				_ => Error::Undefined,
			}
		}
	}
	impl<T: Config> Pallet<T> {
		pub fn find_author() -> H160 {
			let digest = frame_system::Pallet::<T>::digest();
			let d = digest.logs.iter().filter_map(|d| d.as_pre_runtime());
			T::FindAuthor::find_author(d).unwrap_or_default()
		}
	}
	impl<T> From<TransactionValidityError> for Error<T> {
		fn from(_: TransactionValidityError) -> Self {
			Error::Undefined
		}
	}
}

/// EVM built-in contracts: present at their addresses, their arithmetic is not modelled.
pub mod builtin {
	use super::fp::*;
	macro_rules! stub { ($($n:ident)*) => { $(
		pub struct $n;
		impl Precompile for $n {
			fn execute(handle: &mut impl PrecompileHandle) -> PrecompileResult {
				Ok(PrecompileOutput { exit_status: ExitSucceed::Returned, output: handle.input().to_vec() })
			}
		}
	)* } }
	stub!(Blake2F Bn128Add Bn128Mul Bn128Pairing Modexp Sha3FIPS256 ECRecover ECRecoverPublicKey Identity Ripemd160 Sha256);
}
pub mod ethereum {
	pub struct EthereumBlockHashMapping<T>(core::marker::PhantomData<T>);
	impl<T> super::pallet_evm::BlockHashMapping for EthereumBlockHashMapping<T> {
		fn block_hash(_: u32) -> super::core_::H256 {
			Default::default()
		}
	}
}
