//! Exploration of the real Ethereum bridge pallet over the real multi-currency pallet, with recorders in the
//! place of the event router, the XRPL side, the oracle's subscriber and the Ethereum node.
use codec::{Decode, Encode};
use explore::*;
use frame_support::storage::unhashed;
use frame_support::traits::{Hooks, UnixTime, ValidatorSet as ValidatorSetT};
use pallet_ethy::*;
pub use seed_pallet_common::test_prelude::*;
use seed_pallet_common::*;
use seed_primitives::ethy::{crypto::AuthorityId, EventClaimId, EventProofId};
use seed_primitives::Signature;
use sp_runtime::testing::TestXt;
use sp_runtime::traits::{Convert, Extrinsic as ExtrinsicT, Verify};
use sp_runtime::Percent;
use std::cell::RefCell;
mod claims;
mod oracle;
mod proofs;
pub type Extrinsic = TestXt<RuntimeCall, ()>;
construct_runtime!(
	pub enum Test {
		System: frame_system,
		EthBridge: pallet_ethy,
		Balances: pallet_balances,
		Assets: pallet_assets,
		AssetsExt: pallet_assets_ext,
		Scheduler: pallet_scheduler,
	}
);
impl_frame_system_config!(Test);
impl_pallet_balance_config!(Test);
impl_pallet_assets_config!(Test);
impl_pallet_assets_ext_config!(Test);
impl_pallet_scheduler_config!(Test);
pub const CHALLENGE_BOND: Balance = 10;
pub const RELAYER_BOND: Balance = 25;
pub const EPOCH: u64 = 4;
pub const DELAY: u64 = 1;
pub const MAX_DATA: usize = 420;
pub const MAX_PROCESSED: usize = 2;
pub const MAX_CHALLENGES: usize = 2;
pub const MAX_PER_BLOCK: usize = 3;
pub const MAX_XRPL: usize = 2;
parameter_types! {
	pub const NotarizationThreshold: Percent = Percent::from_parts(66_u8);
	pub const BridgePalletId: PalletId = PalletId(*b"ethybrdg");
	pub const EpochDuration: u64 = EPOCH;
	pub const ChallengerBond: Balance = CHALLENGE_BOND;
	pub const RelayerBond: Balance = RELAYER_BOND;
	pub const MaxXrplKeys: u8 = MAX_XRPL as u8;
	pub const MaxNewSigners: u8 = 20;
	pub const AuthorityChangeDelay: u64 = DELAY;
	pub const MaxAuthorities: u32 = 1000;
	pub const MaxEthData: u32 = MAX_DATA as u32;
	pub const MaxChallenges: u32 = MAX_CHALLENGES as u32;
	pub const MaxMessagesPerBlock: u32 = MAX_PER_BLOCK as u32;
	pub const MaxCallRequests: u32 = 1000;
	pub const MaxProcessedMessageIds: u32 = MAX_PROCESSED as u32;
}
impl pallet_ethy::Config for Test {
	type AuthorityChangeDelay = AuthorityChangeDelay;
	type AuthoritySet = Validators;
	type BridgePalletId = BridgePalletId;
	type EthCallSubscribers = Subscriber;
	type EthereumRpcClient = oracle::Node;
	type EthyId = AuthorityId;
	type EventRouter = Router;
	type FinalSessionTracker = FinalSession;
	type NotarizationThreshold = NotarizationThreshold;
	type UnixTime = Clock;
	type RuntimeCall = RuntimeCall;
	type RuntimeEvent = RuntimeEvent;
	type EpochDuration = EpochDuration;
	type ChallengeBond = ChallengerBond;
	type MultiCurrency = AssetsExt;
	type NativeAssetId = NativeAssetId;
	type RelayerBond = RelayerBond;
	type MaxXrplKeys = MaxXrplKeys;
	type Scheduler = Scheduler;
	type PalletsOrigin = OriginCaller;
	type MaxNewSigners = MaxNewSigners;
	type XrplBridgeAdapter = XrplSide;
	type MaxAuthorities = MaxAuthorities;
	type MaxEthData = MaxEthData;
	type MaxChallenges = MaxChallenges;
	type MaxMessagesPerBlock = MaxMessagesPerBlock;
	type MaxCallRequests = MaxCallRequests;
	type WeightInfo = ();
	type MaxProcessedMessageIds = MaxProcessedMessageIds;
}
// Recorders live in the storage (so a refused call undoes them) and are emptied after every step.
pub const ROUTED: &[u8] = b"chk:routed";
pub const SIGNERS: &[u8] = b"chk:signers";
pub const ANSWERS: &[u8] = b"chk:answers";
const FINAL: &[u8] = b"chk:final";
const STASHES: &[u8] = b"chk:stashes";
pub fn drain<T: Encode + Decode + Default>(k: &[u8]) -> T {
	let v = unhashed::get_or_default(k);
	unhashed::kill(k);
	v
}
fn push<T: Encode + Decode>(k: &[u8], x: T) {
	let mut v: Vec<T> = unhashed::get_or_default(k);
	v.push(x);
	unhashed::put(k, &v);
}
/// Data starting with this byte makes the router fail.
pub const BAD: u8 = 9;
pub struct Router;
impl EthereumEventRouter for Router {
	fn route(source: &H160, destination: &H160, data: &[u8]) -> EventRouterResult {
		push(ROUTED, (*source, *destination, data.to_vec()));
		if data.first() == Some(&BAD) {
			return Err((Weight::from_all(7), EventRouterError::NoReceiver));
		}
		Ok(Weight::from_all(1000))
	}
}
/// `Err` when told to sign for more than this many keys, so that the failure is covered as well.
pub struct XrplSide;
impl EthyToXrplBridgeAdapter<H160> for XrplSide {
	fn submit_signer_list_set_request(v: Vec<(H160, u16)>) -> Result<Vec<EventProofId>, DispatchError> {
		if v.is_empty() {
			return Err(DispatchError::Other("no signers"));
		}
		push(SIGNERS, v);
		Ok(vec![1])
	}
}
pub struct Subscriber;
impl EthCallOracleSubscriber for Subscriber {
	type CallId = EthCallId;
	fn on_eth_call_complete(id: EthCallId, data: &[u8; 32], block: u64, time: u64) {
		push(ANSWERS, (id, Some((*data, block, time)), 0u8));
	}
	fn on_eth_call_failed(id: EthCallId, reason: EthCallFailure) {
		let r = match reason {
			EthCallFailure::ReturnDataExceedsLimit => 1u8,
			EthCallFailure::ReturnDataEmpty => 2,
			EthCallFailure::Internal => 3,
		};
		push(ANSWERS, (id, None::<([u8; 32], u64, u64)>, r));
	}
}
pub struct FinalSession;
impl FinalSessionTracker for FinalSession {
	fn is_active_session_final() -> bool {
		unhashed::get_or_default(FINAL)
	}
}
pub fn set_final(b: bool) {
	if b {
		unhashed::put(FINAL, &true)
	} else {
		unhashed::kill(FINAL)
	}
}
pub struct SameId;
impl Convert<AccountId, Option<AccountId>> for SameId {
	fn convert(a: AccountId) -> Option<AccountId> {
		Some(a)
	}
}
pub struct Validators;
impl ValidatorSetT<AccountId> for Validators {
	type ValidatorId = AccountId;
	type ValidatorIdOf = SameId;
	fn session_index() -> u32 {
		1
	}
	fn validators() -> Vec<AccountId> {
		(0..unhashed::get_or_default::<u32>(STASHES)).map(|i| acc(100 + i as usize)).collect()
	}
}
pub struct Clock;
impl UnixTime for Clock {
	fn now() -> core::time::Duration {
		core::time::Duration::new(oracle::now(), 0)
	}
}
impl frame_system::offchain::SigningTypes for Test {
	type Public = <Signature as Verify>::Signer;
	type Signature = Signature;
}
impl<C> frame_system::offchain::SendTransactionTypes<C> for Test
where
	RuntimeCall: From<C>,
{
	type OverarchingCall = RuntimeCall;
	type Extrinsic = Extrinsic;
}
impl<LocalCall> frame_system::offchain::CreateSignedTransaction<LocalCall> for Test
where
	RuntimeCall: From<LocalCall>,
{
	fn create_transaction<C: frame_system::offchain::AppCrypto<Self::Public, Self::Signature>>(
		call: RuntimeCall,
		_public: <Signature as Verify>::Signer,
		_account: AccountId,
		nonce: u32,
	) -> Option<(RuntimeCall, <Extrinsic as ExtrinsicT>::SignaturePayload)> {
		Some((call, (nonce as u64, ())))
	}
}
pub fn call(f: impl FnOnce() -> DispatchResult) -> Result<(), String> {
	frame_support::storage::with_storage_layer(f).map_err(|e| {
		let s = format!("{e:?}");
		s.split("message: Some(\"").nth(1).and_then(|x| x.split('"').next()).unwrap_or(&s).to_string()
	})
}
pub fn acc(i: usize) -> AccountId {
	H160::from_low_u64_be(0x1000 + i as u64).into()
}
/// A key that nobody signs with (used where signatures play no role).
pub fn key(i: usize) -> AuthorityId {
	let mut b = [3u8; 33];
	b[0] = 2;
	b[32] = i as u8;
	b[31] = (i >> 8) as u8;
	AuthorityId::decode(&mut &b[..]).unwrap()
}
pub fn set_keys(v: &[AuthorityId]) {
	pallet_ethy::NotaryKeys::<Test>::put(sp_core::bounded::WeakBoundedVec::force_from(v.to_vec(), None));
	unhashed::put(STASHES, &(v.len() as u32));
}
pub fn sig0() -> <AuthorityId as sp_runtime::RuntimeAppPublic>::Signature {
	Decode::decode(&mut &[0u8; 65][..]).unwrap()
}
thread_local! { pub static DUMMY: RefCell<u8> = Default::default(); }
/// `floor(100 a / b) >= 66`
pub fn reaches(a: usize, of: usize) -> bool {
	of > 0 && 100 * a / of >= 66
}
pub fn kind<T: std::fmt::Debug>(op: &T) -> String {
	format!("{op:?}").split([' ', '{', '(']).next().unwrap().to_string()
}
fn main() {
	explore::main(&[
		("E01", claims::delivery),
		("E02", claims::settlement),
		("E03", proofs::requests),
		("E04", proofs::handover),
		("E05", oracle::answers),
		("E06", oracle::votes),
	]);
}
