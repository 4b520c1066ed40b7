//! The chain's runtime as far as it is modelled: configuration taken from
//! /repo/runtime/src/lib.rs by build.rs, impls.rs and precompiles.rs compiled as they are.
#![allow(unused_imports, dead_code, unused_variables, clippy::all)]
#![recursion_limit = "512"]
extern crate alloc;
use codec::{Decode, Encode};
use fp_evm::weight_per_gas;
use frame_support::{
	dispatch::{DispatchClass, GetDispatchInfo},
	ensure,
	pallet_prelude::Hooks,
	parameter_types,
	traits::{
		fungibles::Inspect,
		tokens::{Fortitude, Preservation},
		AsEnsureOriginWithArg, ConstU128, ConstU32, Everything, FindAuthor, Get,
	},
	weights::{
		constants::{RocksDbWeight, WEIGHT_REF_TIME_PER_MILLIS, WEIGHT_REF_TIME_PER_SECOND},
		IdentityFee, Weight,
	},
	PalletId,
};
use frame_system::{EnsureRoot, EnsureSigned};
use pallet_evm::{EnsureAddressNever, FeeCalculator, GasWeightMapping, Runner as RunnerT};
pub use pallet_staking::{Forcing, RewardDestination};
use seed_pallet_common::MaintenanceCheck;
pub use seed_pallet_common::FeeConfig;
pub use seed_primitives::{
	ethy::{crypto::AuthorityId as EthBridgeId, ValidatorSet},
	AccountId, Address, AssetId, Balance, BlakeTwo256Hash, BlockNumber, CollectionUuid, Hash, Nonce, SerialNumber, Signature, TokenCount, TokenId,
};
use seed_primitives::migration::NoopMigration;
use sp_core::{H160, H256, U256};
use sp_runtime::{
	generic,
	traits::{DispatchInfoOf, Dispatchable, IdentityLookup, PostDispatchInfoOf, UniqueSaturatedInto, Verify},
	transaction_validity::{InvalidTransaction, TransactionValidity, TransactionValidityError},
	FixedPointNumber, Perbill, Percent, Permill, Perquintill,
};
use sp_std::prelude::*;
#[path = "/repo/runtime/src/constants.rs"]
pub mod constants;
pub mod sim;
use constants::*;
#[path = "/repo/runtime/src/impls.rs"]
pub mod impls;
use impls::{
	AddressMapping, DoughnutCallValidator, DoughnutFuturepassLookup, EthereumEventRouter, EthereumFindAuthor, EvmCurrencyScaler,
	FutureverseEVMCurrencyAdapter, FutureverseEnsureAddressSame, HandleTxValidation, OnNewAssetSubscription, SlashImbalanceHandler,
	StakingSessionTracker,
};
use pallet_fee_proxy::{get_fee_preferences_data, FeePreferencesData, FeePreferencesRunner};
#[path = "/repo/runtime/src/precompiles.rs"]
pub mod precompiles;
use precompile_utils::constants::FEE_PROXY_ADDRESS;
use precompiles::FutureversePrecompiles;
/// As much of the ethereum crate's types as the runtime reads
pub mod ethereum_stub {
	use super::*;
	#[derive(Clone, Copy, Debug, PartialEq, Eq)]
	pub enum TransactionAction {
		Call(H160),
		Create,
	}
	#[derive(Clone, Debug, PartialEq, Eq)]
	pub struct Tx {
		pub chain_id: u64,
		pub nonce: U256,
		pub gas_price: U256,
		pub max_priority_fee_per_gas: U256,
		pub max_fee_per_gas: U256,
		pub gas_limit: U256,
		pub action: TransactionAction,
		pub value: U256,
		pub input: Vec<u8>,
	}
	#[derive(Clone, Debug, PartialEq, Eq)]
	pub enum EthereumTransaction {
		Legacy(Tx),
		EIP2930(Tx),
		EIP1559(Tx),
	}
}
pub use ethereum_stub::{EthereumTransaction, TransactionAction};
include!(concat!(env!("OUT_DIR"), "/runtime.rs"));

parameter_types! {
	pub MaximumSchedulerWeight: Weight = Weight::from_parts(800_000_000_000, u64::MAX);
}
impl<C> frame_system::offchain::SendTransactionTypes<C> for Runtime
where
	RuntimeCall: From<C>,
{
	type Extrinsic = UncheckedExtrinsic;
	type OverarchingCall = RuntimeCall;
}
pub type Header = generic::Header<BlockNumber, BlakeTwo256Hash>;
pub type Block = generic::Block<Header, UncheckedExtrinsic>;
pub type SignedExtra = (
	frame_system::CheckNonZeroSender<Runtime>,
	frame_system::CheckSpecVersion<Runtime>,
	frame_system::CheckTxVersion<Runtime>,
	frame_system::CheckGenesis<Runtime>,
	frame_system::CheckEra<Runtime>,
	frame_system::CheckNonce<Runtime>,
	frame_system::CheckWeight<Runtime>,
	pallet_maintenance_mode::MaintenanceChecker<Runtime>,
	pallet_transaction_payment::ChargeTransactionPayment<Runtime>,
);
pub type UncheckedExtrinsic = fp_self_contained::UncheckedExtrinsic<Address, RuntimeCall, Signature, SignedExtra>;
pub type Executive = frame_executive::Executive<Runtime, Block, frame_system::ChainContext<Runtime>, Runtime, AllPalletsWithSystem>;
impl pallet_session::Config for Runtime {
	type ValidatorId = AccountId;
}
impl pallet_im_online::Config for Runtime {}
impl pallet_election_provider_multi_phase::Config for Runtime {
	type Currency = Balances;
}
/// block author: the first validator
pub struct Babe;
impl FindAuthor<u32> for Babe {
	fn find_author<'a, I>(_: I) -> Option<u32>
	where
		I: 'a + IntoIterator<Item = (sp_runtime::ConsensusEngineId, &'a [u8])>,
	{
		Some(0)
	}
}
pub struct SameId;
impl sp_runtime::traits::Convert<AccountId, Option<AccountId>> for SameId {
	fn convert(a: AccountId) -> Option<AccountId> {
		Some(a)
	}
}
pub struct Historical;
impl frame_support::traits::ValidatorSet<AccountId> for Historical {
	type ValidatorId = AccountId;
	type ValidatorIdOf = SameId;
	fn session_index() -> u32 {
		Session::current_index()
	}
	fn validators() -> Vec<AccountId> {
		Session::validators()
	}
}
