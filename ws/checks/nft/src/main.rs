//! NFT family checks.
mod nft;
mod rt;
mod sft;
mod xls20;
fn main() {
	explore::main(&[("N01", nft::ownership), ("N02", nft::minting), ("N03", nft::owner_only), ("N04", nft::approvals), ("N05", xls20::xls20), ("N06", xls20::nfi), ("S01", sft::balances), ("S02", sft::minting), ("S03", sft::admin)]);
}
