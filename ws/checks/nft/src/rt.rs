//! Runtime wiring of the NFT family, as in /repo/runtime, with small limits.
pub use seed_pallet_common::test_prelude::*;
use seed_pallet_common::*;
construct_runtime!(
	pub enum Test {
		System: frame_system,
		Balances: pallet_balances,
		Assets: pallet_assets,
		AssetsExt: pallet_assets_ext,
		Nft: pallet_nft,
		Sft: pallet_sft,
		Nfi: pallet_nfi,
		Xls20: pallet_xls20,
		Approvals: pallet_token_approvals,
	}
);
impl_frame_system_config!(Test);
impl_pallet_balance_config!(Test);
impl_pallet_assets_config!(Test);
impl_pallet_assets_ext_config!(Test);
pub const MAX_TOKENS: u32 = 8;
pub const MINT_LIMIT: u32 = 3;
/// Limits that a part of a check may raise: `limits(tokens, mint)`.
use frame_support::sp_runtime::traits::Get;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
static TOKENS: AtomicU32 = AtomicU32::new(MAX_TOKENS);
static MINT: AtomicU32 = AtomicU32::new(MINT_LIMIT);
pub fn limits(tokens: u32, mint: u32) {
	TOKENS.store(tokens, SeqCst);
	MINT.store(mint, SeqCst);
}
pub struct MaxTokensPerCollection;
impl Get<u32> for MaxTokensPerCollection {
	fn get() -> u32 {
		TOKENS.load(SeqCst)
	}
}
pub struct MintLimit;
impl Get<u32> for MintLimit {
	fn get() -> u32 {
		MINT.load(SeqCst)
	}
}
parameter_types! {
	pub const NftPalletId: PalletId = PalletId(*b"nftokens");
	pub const StringLimit: u32 = 50;
	pub const SftPalletId: PalletId = PalletId(*b"sftokens");
	pub const MaxTokensPerSftCollection: u32 = 6;
	pub const MaxSerialsPerSftMint: u32 = 3;
	pub const MaxOwnersPerSftToken: u32 = 4;
	pub const MaxDataLength: u32 = 100;
	pub const MaxByteLength: u32 = 100;
	pub const NFINetworkFeePercentage: Permill = Permill::from_perthousand(5);
	pub const ChainId: u64 = 7672;
	pub const MaxTokensPerXls20Mint: u32 = 3;
	pub const Xls20PalletId: PalletId = PalletId(*b"xls20nft");
	pub const Xls20PaymentAsset: AssetId = XRP_ASSET_ID;
}
impl pallet_nft::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type RuntimeCall = RuntimeCall;
	type MaxTokensPerCollection = MaxTokensPerCollection;
	type MintLimit = MintLimit;
	type OnTransferSubscription = Approvals;
	type OnNewAssetSubscription = ();
	type MultiCurrency = AssetsExt;
	type PalletId = NftPalletId;
	type ParachainId = TestParachainId;
	type StringLimit = StringLimit;
	type WeightInfo = ();
	type Xls20MintRequest = Xls20;
	type NFIRequest = Nfi;
}
impl pallet_sft::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type MultiCurrency = AssetsExt;
	type NFTExt = Nft;
	type OnTransferSubscription = Approvals;
	type OnNewAssetSubscription = ();
	type PalletId = SftPalletId;
	type ParachainId = TestParachainId;
	type StringLimit = StringLimit;
	type WeightInfo = ();
	type MaxTokensPerSftCollection = MaxTokensPerSftCollection;
	type MaxSerialsPerMint = MaxSerialsPerSftMint;
	type MaxOwnersPerSftToken = MaxOwnersPerSftToken;
	type NFIRequest = Nfi;
}
impl pallet_nfi::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type MultiCurrency = AssetsExt;
	type NFTExt = Nft;
	type SFTExt = Sft;
	type NetworkFeePercentage = NFINetworkFeePercentage;
	type MaxDataLength = MaxDataLength;
	type MaxByteLength = MaxByteLength;
	type WeightInfo = ();
	type ChainId = ChainId;
}
impl pallet_xls20::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type PalletId = Xls20PalletId;
	type MaxTokensPerXls20Mint = MaxTokensPerXls20Mint;
	type MultiCurrency = AssetsExt;
	type WeightInfo = ();
	type NFTExt = Nft;
	type NFTCollectionInfo = Nft;
	type Xls20PaymentAsset = Xls20PaymentAsset;
	type NFTMinter = Nft;
	type Migrator = ();
}
impl pallet_token_approvals::Config for Test {
	type NFTExt = Nft;
	type WeightInfo = ();
}
/// Charge the outcome class of an extrinsic.
pub fn res(r: DispatchResult) -> Result<(), String> {
	r.map_err(|e| {
		let s = format!("{e:?}");
		s.split("message: Some(\"").nth(1).and_then(|x| x.split('"').next()).unwrap_or(&s).to_string()
	})
}
/// Run an extrinsic-like call the way a dispatched extrinsic runs: in its own storage layer.
pub fn call(f: impl FnOnce() -> DispatchResult) -> Result<(), String> {
	res(frame_support::storage::with_storage_layer(f))
}
