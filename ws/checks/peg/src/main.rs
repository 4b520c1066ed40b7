//! Exploration of the real ERC20 and NFT pegs over the real multi-currency and NFT pallets, with a recorder in
//! the place of the bridge.
use codec::{Decode, Encode};
use explore::*;
use frame_support::storage::unhashed;
pub use seed_pallet_common::test_prelude::*;
use seed_pallet_common::*;
mod erc20;
mod nft;
construct_runtime!(
	pub enum Test {
		System: frame_system,
		AssetsExt: pallet_assets_ext,
		Assets: pallet_assets,
		Balances: pallet_balances,
		Nft: pallet_nft,
		NftPeg: pallet_nft_peg,
		Erc20Peg: pallet_erc20_peg,
	}
);
impl_frame_system_config!(Test);
impl_pallet_balance_config!(Test);
impl_pallet_assets_config!(Test);
impl_pallet_assets_ext_config!(Test);
pub const MAX_TOKENS: u32 = 3;
pub const MAX_COLLS: u32 = 2;
pub const MAX_IDS: u32 = 2;
parameter_types! {
	pub const NftPalletId: PalletId = PalletId(*b"nftokens");
	pub const MaxTokensPerCollection: u32 = MAX_TOKENS;
	pub const MintLimit: u32 = 20;
	pub const StringLimit: u32 = 70;
	pub const NftPegPalletId: PalletId = PalletId(*b"  nftpeg");
	pub const PegPalletId: PalletId = PalletId(*b"py/erc20");
	pub const MaxDelaysPerBlock: u32 = 10;
	pub const MaxReadyBlocks: u32 = 400;
	pub const DelayLength: u64 = 5;
	pub const MaxAddresses: u32 = MAX_COLLS;
	pub const MaxIdsPerMultipleMint: u32 = MAX_IDS;
}
impl pallet_nft::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type RuntimeCall = RuntimeCall;
	type MaxTokensPerCollection = MaxTokensPerCollection;
	type MintLimit = MintLimit;
	type OnTransferSubscription = ();
	type OnNewAssetSubscription = ();
	type MultiCurrency = AssetsExt;
	type PalletId = NftPalletId;
	type ParachainId = TestParachainId;
	type StringLimit = StringLimit;
	type WeightInfo = ();
	type Xls20MintRequest = ();
	type NFIRequest = ();
}
impl pallet_nft_peg::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type PalletId = NftPegPalletId;
	type DelayLength = DelayLength;
	type MaxAddresses = MaxAddresses;
	type MaxTokensPerMint = MaxIdsPerMultipleMint;
	type EthBridge = Bridge;
	type NftPegWeightInfo = ();
	type MaxCollectionsPerWithdraw = MaxAddresses;
	type MaxSerialsPerWithdraw = MaxIdsPerMultipleMint;
	type NFTMinter = Nft;
}
impl pallet_erc20_peg::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type EthBridge = Bridge;
	type PegPalletId = PegPalletId;
	type MultiCurrency = AssetsExt;
	type WeightInfo = ();
	type NativeAssetId = NativeAssetId;
	type StringLimit = StringLimit;
	type MaxDelaysPerBlock = MaxDelaysPerBlock;
	type MaxReadyBlocks = MaxReadyBlocks;
}
pub type Msg = (H160, H160, Vec<u8>);
pub const SENT: &[u8] = b"chk:sent";
const COUNT: &[u8] = b"chk:count";
pub fn drain<T: Encode + Decode + Default>(k: &[u8]) -> T {
	let v = unhashed::get_or_default(k);
	unhashed::kill(k);
	v
}
/// Refuses messages for this recipient (the last word of what is sent).
pub const REFUSED: u64 = 0xdead;
pub struct Bridge;
impl EthereumBridge for Bridge {
	fn send_event(source: &H160, destination: &H160, message: &[u8]) -> Result<seed_primitives::ethy::EventProofId, DispatchError> {
		if message.windows(32).any(|w| H256::from_low_u64_be(REFUSED).as_bytes() == w) {
			return Err(DispatchError::Other("refused"));
		}
		let mut v: Vec<Msg> = unhashed::get_or_default(SENT);
		v.push((*source, *destination, message.to_vec()));
		unhashed::put(SENT, &v);
		let n: u64 = unhashed::get_or_default(COUNT);
		unhashed::put(COUNT, &(n + 1));
		Ok(n)
	}
}
pub fn call(f: impl FnOnce() -> DispatchResult) -> Result<(), String> {
	frame_support::storage::with_storage_layer(f).map_err(|e| {
		let s = format!("{e:?}");
		s.split("message: Some(\"").nth(1).and_then(|x| x.split('"').next()).unwrap_or(&s).to_string()
	})
}
pub fn h(i: u64) -> H160 {
	H160::from_low_u64_be(i)
}
pub fn user(i: usize) -> H160 {
	h(0x1000 + i as u64)
}
pub fn acc(i: usize) -> AccountId {
	user(i).into()
}
// The ABI, written out by hand: 32-byte words.
pub fn w_addr(a: H160) -> Vec<u8> {
	let mut v = vec![0; 12];
	v.extend(a.as_bytes());
	v
}
pub fn w_uint(x: U256) -> Vec<u8> {
	let mut b = [0u8; 32];
	x.to_big_endian(&mut b);
	b.to_vec()
}
pub fn w(x: u128) -> Vec<u8> {
	w_uint(x.into())
}
/// The event data as delivered by the bridge; refused ones are reported as `None`.
pub fn deliver(peg: u8, source: H160, data: &[u8]) -> bool {
	if peg == 0 {
		<Erc20Peg as EthereumEventSubscriber>::process_event(&source, data).is_ok()
	} else {
		<NftPeg as EthereumEventSubscriber>::process_event(&source, data).is_ok()
	}
}
pub fn kind<T: std::fmt::Debug>(op: &T) -> String {
	format!("{op:?}").split([' ', '{', '(']).next().unwrap().to_string()
}
fn main() {
	explore::main(&[("K01", erc20::deposits), ("K02", erc20::withdrawals), ("K03", nft::tokens), ("K04", nft::messages)]);
}
